"""C02: account balances equal the time value of opening balance and transactions."""
import itertools
import math
from decimal import Decimal
from ..engine import Hist, Enum, Fail, unread
from ..lib import *
from forecaster import Person, Account, Debt
from forecaster.canada.accounts import TaxableAccount, PrincipleResidence, RRSP, TFSA
from forecaster.accounts.util import value_at_time, time_to_value, accumulation_function

YEAR = 2000
CLASSES = dict(Account=Account, Debt=Debt, TaxableAccount=TaxableAccount,
               PrincipleResidence=PrincipleResidence)
NPER = dict(C=None, D=365, W=52, BW=26, SM=24, M=12, BM=6, Q=4, SA=2, A=1)
WHENS = {'start': 0.0, 'end': 1.0}


def rate_arg(spec):
    """Rate given as a scalar, a per-year mapping or a callable."""
    if spec[0] == 'const':
        return spec[1], lambda y: spec[1]
    table = {YEAR + i: r for i, r in enumerate(spec[1])}
    if spec[0] == 'dict':
        return table, lambda y: table[y]
    return (lambda year: table[year]), lambda y: table[y]


class System:
    """One real account next to the plain ledger model of it."""

    def __init__(self, cfg):
        self.cfg = cfg
        hp = Decimal if cfg.get('hp') else None
        self.cv = (lambda x: Decimal(str(x))) if hp else (lambda x: x)
        rate, self.rate_model = rate_arg(cfg['rate'])
        self.rates = {}
        if hp:
            rate = self.cv(rate)
        self.person = Person(YEAR, 'P', '1 January 1980', retirement_date='1 January 2045', high_precision=hp)
        nper = cfg['nper']
        self.nper = NPER[nper] if isinstance(nper, str) else nper
        self.acct = CLASSES[cfg['cls']](
            owner=self.person, balance=self.cv(cfg['bal']), rate=rate, nper=2 if cfg.get('setnper') else nper, high_precision=hp)
        if cfg.get('setnper'):
            self.acct.nper = nper                   # (compounding assigned, not given)
        self.year = YEAR
        bal = cfg['bal']
        if cfg['cls'] == 'Debt':
            bal = -abs(bal)
        self.bal = {YEAR: float(bal)}
        self.tx = {YEAR: {}}
        self.check()

    def rate(self, year):
        return self.rates.get(year, None) if year in self.rates else self.rate_model(year)

    def events(self):
        evs = [['add', v, w] for v in self.cfg['vals'] for w in self.cfg['whens']]
        if self.cfg.get('mapping'):
            evs += [['set', 70, 0.5], ['set', 30, 'end'], ['del', 0.5], ['del', 'end'], ['clear']]
        if self.cfg.get('assign'):
            evs += [['bal', 500], ['rate', 0.25]]
        evs.append(['year'])
        return evs

    def apply_only(self, ev):
        self.check = lambda: None
        try:
            self.apply(ev)
        finally:
            del self.check

    def apply(self, ev):
        a, m = self.acct, self.tx[self.year]
        if ev[0] == 'add':
            w = ev[2]
            a.add_transaction(self.cv(ev[1]), when=self.cv(w) if not isinstance(w, str) else w)
            t = WHENS.get(w, w)
            m[t] = m.get(t, 0.0) + ev[1]
        elif ev[0] == 'set':
            a[ev[2]] = ev[1]
            m[WHENS.get(ev[2], ev[2])] = ev[1]
        elif ev[0] == 'del':
            if WHENS.get(ev[1], ev[1]) in m:
                del a[ev[1]]
                del m[WHENS.get(ev[1], ev[1])]
        elif ev[0] == 'bal':
            a.balance = ev[1]
            self.bal[self.year] = ev[1]
        elif ev[0] == 'rate':
            a.rate = ev[1]
            self.rates[self.year] = ev[1]
        elif ev[0] == 'clear':
            a.clear()
            m.clear()
        else:
            self.bal[self.year + 1] = self.model_at(1.0)
            a.next_year()
            self.year += 1
            self.tx[self.year] = {}
        self.check()

    def model_at(self, t, extra=None, year=None):
        y = self.year if year is None else year
        r = self.rate(y)
        b = self.bal[y] * growth(t, r, self.nper)
        for txs in (self.tx[y], extra or {}):
            for w, v in txs.items():
                if w <= t:
                    b += v * growth(t - w, r, self.nper)
        return b

    def check(self):
        a, y, cv = self.acct, self.year, self.cv
        m = self.tx[y]
        expect_eq('year', a.this_year, y, 'this_year')
        expect('rate', a.rate, self.rate(y), 'rate')
        expect('balance', a.balance, self.bal[y], 'opening balance')
        for t, real in ((0, 'start'), (0.25, 0.25), (0.5, 0.5), (0.75, 0.75), (1, 'end')):
            arg = real if isinstance(real, str) else cv(real)
            expect('balance_at_time', a.balance_at_time(arg), self.model_at(t), 'balance_at_time(%s)' % real)
        extra = {0.25: 30.0, 0.5: -20.0, 1.0: 10.0}
        rextra = {cv(k): cv(v) for k, v in extra.items()}
        before = dict(rextra)
        for t in (0.25, 1.0):
            expect('hypothetical', a.balance_at_time(cv(t), transactions=rextra),
                   self.model_at(t, extra), 'balance_at_time(%s, hypothetical)' % t)
        ins = sum(v for v in m.values() if v > 0)
        outs = sum(v for v in m.values() if v < 0)
        expect('inflows', a.inflows(), ins, 'inflows')
        expect('outflows', a.outflows(), outs, 'outflows')
        expect('inflows', a.inflows(rextra), ins + 40, 'inflows with hypothetical')
        expect('outflows', a.outflows(rextra), outs - 20, 'outflows with hypothetical')
        expect_eq('hypothetical', rextra, before, 'hypothetical transactions changed')
        expect_map('transactions', a.transactions, m, 'transactions')
        expect_map('transactions', dict(a.items()), m, 'items()')
        order = [float(k) for k in a]
        check('transactions', order == sorted(order), 'iteration is not in time order: %s' % order)
        check('transactions', set(m) <= set(order), 'recorded times missing from iteration')
        for k in m:
            check('transactions', cv(k) in a, 'time %s not found' % k)
            expect('transactions', a[cv(k)], m[k], 'item at %s' % k)
            expect('transactions', a.get(cv(k)), m[k], 'get(%s)' % k)
        for name, t in WHENS.items():
            expect_eq('transactions', name in a, t in m, '%r in account' % name)
        expect_eq('transactions', a.get(cv(0.123), 'none'), 'none', 'get of an absent time')
        expect_eq('transactions', len(a), len(m), 'number of recorded times')
        # the return is exactly the growth not explained by transactions
        expect('returns', a.returns, self.model_at(1.0) - self.bal[y] - sum(m.values()), 'returns')
        for py in self.bal:
            expect('balance_history', a.balance_history[py], self.bal[py], 'balance_history[%s]' % py)
            expect('rate_history', a.rate_history[py], self.rate(py), 'rate_history[%s]' % py)
            expect_map('transactions_history', a.transactions_history[py], self.tx[py],
                       'transactions_history[%s]' % py)
            expect('returns_history', a.returns_history[py],
                   self.model_at(1.0, year=py) - self.bal[py] - sum(self.tx[py].values()),
                   'returns_history[%s]' % py)
        expect_eq('balance_history', sorted(a.balance_history), sorted(self.bal), 'years recorded')
        if self.cfg.get('hp'):
            for n in ('balance', 'returns', 'rate'):
                check('precision', isinstance(getattr(a, n), Decimal), '%s is not high-precision' % n)

    def canon(self):
        return (self.year, sorted(self.rates.items()), sorted((y, r9(b)) for y, b in self.bal.items()),
                [(y, sorted((w, r9(v)) for w, v in t.items())) for y, t in sorted(self.tx.items())])


def configs(tier):
    out = []
    base = dict(cls='Account', bal=1000, nper='A', rate=['const', 0.05],
                vals=[100, -50], whens=['start', 0.5, 'end'])
    deep = dict(base, depthq=5, deptht=6)
    out.append(deep)
    out.append(dict(deep, assign=1, whens=[0.25], mapping=1, vals=[100], rate=['call', [.1, .2, .3, .4, .5, .6, .7]]))
    out.append(dict(deep, rate=['call', [0.1, -0.2, 0.0, 0.3, 0.04, 0.02, 0.01]], mapping=1, whens=[0.5, 1.0]))
    out.append(dict(deep, rate=['dict', [0.0, 0.2, 0.05, 0.1, 0.1, 0.1, 0.1]], bal=0, nper='C', whens=[0.25, 0.75]))
    out.append(dict(deep, bal=100, vals=[100, -150, -50], nper='M', whens=[0, 0.5]))
    for nper in sorted(NPER) + [3]:
        for rate in (['const', 0.0], ['const', 1.0], ['const', -0.5], ['call', [0.5, 0.1, -0.1, 0, 0, 0, 0]]):
            out.append(dict(base, nper=nper, rate=rate, whens=[0.25, 'end'], vals=[100, -50]))
    for nper in sorted(NPER) + [3, None]:
        for hp in (0, 1):
            out.append(dict(base, nper=nper, setnper=1, hp=hp, whens=[0.25], vals=[100], depthq=2, deptht=4))
    for cls in ('Debt', 'TaxableAccount', 'PrincipleResidence'):
        for nper in ('A', 'M', 'C'):
            for rate in (['const', 0.08], ['call', [0.1, 0.0, 0.2, 0.1, 0.1, 0.1, 0.1]]):
                out.append(dict(base, cls=cls, nper=nper, rate=rate, whens=[0.5, 'end']))
    out.append(dict(base, cls='Debt', bal=-1000, whens=[0.5, 'start']))
    for nper in ('A', 'M', 'C'):
        out.append(dict(base, hp=1, nper=nper, whens=[0.25, 'end']))
    return out


def depth(tier, cfg):
    if tier == 'quick':
        return cfg.get('depthq', 4)
    return cfg.get('deptht', 5)


# --- time value functions on their own -------------------------------------------------

def tv_cases(tier):
    steps = 4 if tier == 'quick' else 12
    ts = [i / steps for i in range(steps + 1)]
    for nper in [None, 1, 2, 4, 12, 365]:
        for rate in (0, 0.05, 1, -0.5, -0.05):
            for a in ts:
                for b in ts:
                    yield [nper, rate, a, b]


def tv_run(case):
    nper, rate, a, b = case
    want = 100.0 * growth(b - a, rate, nper)
    got = value_at_time(100.0, rate, a, b, nper=nper)
    expect('value_at_time', got, want, 'value_at_time')
    expect('value_at_time', value_at_time(got, rate, b, a, nper=nper), 100.0, 'there and back')
    mid = value_at_time(value_at_time(100.0, rate, a, 0.5, nper=nper), rate, 0.5, b, nper=nper)
    expect('value_at_time', mid, want, 'via the middle of the year')
    expect('accumulation', accumulation_function(b - a, rate, nper), growth(b - a, rate, nper), 'A(t)')
    if rate != 0:
        expect('time_to_value', time_to_value(rate, 100.0, got, nper=nper), b - a, 'time to value')
    return dict(ops=4, outcome=r9(got))


def ttb_cases(tier):
    for nper in ('A', 'M', 'C'):
        for rate in (0.5, 0.05, -0.3):
            for tx in ([], [[100, 0.5]], [[-100, 0.5]], [[100, 0.25], [50, 0.75]], [[-100, 0.0], [10, 0.5]]):
                for when in (0, 0.25, 0.6):
                    for target_t in (0.1, 0.3, 0.55, 0.7, 0.9, 1.0, 1.5):
                        yield [nper, rate, tx, when, target_t]


def ttb_run(case):
    nper, rate, tx, when, tt = case
    cfg = dict(cls='Account', bal=1000, nper=nper, rate=['const', rate], vals=[], whens=[])
    s = System(cfg)
    for v, w in tx:
        s.apply(['add', v, w])
    if tt < when:
        return dict(ops=1, outcome='before')
    target = s.model_at(tt)
    # earliest time at or after `when` at which the (piecewise monotone) balance reaches target
    knots = [when] + sorted(w for _, w in tx if w > when)
    first = None
    for i, k in enumerate(knots):
        b = s.model_at(k)
        end = knots[i + 1] if i + 1 < len(knots) else INF
        g = target / b
        n = s.nper
        t = math.log(g) / rate if n is None else math.log(g) / math.log(1 + rate / n) / n
        if k + t < k - 1e-12:
            if end is INF:
                return dict(ops=1, outcome='unreachable')
            return dict(ops=1, outcome='passed')       # target already passed in this piece: unspecified
        if k + t < end:
            first = k + t
            break
    expect('time_to_balance', s.acct.time_to_balance(target, when), first,
           'time to reach %s after %s' % (target, when), abs_=1e-6)
    if when in (0, 1):
        expect('time_to_balance', s.acct.time_to_balance(target, 'end' if when else 'start'), first,
               'time to reach %s after the named time %s' % (target, when), abs_=1e-6)
    if when == 0:
        expect('time_to_balance', s.acct.time_to_balance(target), first, 'time to reach %s' % target, abs_=1e-6)
    return dict(ops=1 + len(tx), outcome=r9(first))


def bad_cases(tier):
    for cls in sorted(CLASSES):
        for when in (-0.1, 1.1, 2, -1):
            yield [cls, when]


def bad_run(case):
    cls, when = case
    s = System(dict(cls=cls, bal=1000, nper='A', rate=['const', 0.05], vals=[], whens=[]))
    s.apply(['add', 100, 0.5])
    try:
        s.acct.add_transaction(50, when=when)
    except ValueError:
        s.check()                       # refused and nothing recorded
        return dict(ops=2, outcome='refused')
    raise Fail('when_range', 'transaction at %s accepted' % when)


def many_cases(tier):
    amounts = (0, 100, -60) if tier == 'quick' else (0, 100, -60, 7)
    for nper in ('A', 'M', 'C') if tier == 'quick' else ('A', 'SA', 'M', 'D', 'C'):
        for rates in ([0.12, 0.3, 0.05], [-0.2, 0.1, 0.05], [0.0, 0.12, 0.0]):
            for pattern in itertools.product(amounts, repeat=5):
                yield [nper, rates, list(pattern)]


def many_run(case):
    nper, rates, pattern = case
    for order in (1, -1):
        s = System(dict(cls='Account', bal=1000, nper=nper, rate=['call', rates + [0.0] * 4], vals=[], whens=[]))
        times = list(zip((0.0, 0.25, 0.5, 0.75, 1.0), pattern))[::order]
        for w, v in times:
            if v:
                s.apply_only(['add', v, w])
        s.check()
        s.apply(['year'])
        for w, v in times[1:]:
            if v:
                s.apply_only(['add', -v, w])
        s.apply(['year'])
    return dict(ops=24)


def paid_cases(tier):
    for n in (2, 4, 6, 12, 13, 24, 26, 52) + ((365,) if tier == 'thorough' else ()):
        for offset in (0.0, 0.5, 1.0):
            for nper in ('A', 'M', 'C'):
                for rate in (0.12, -0.2, 0.0):
                    for back in (1, 2, 3):
                        yield [n, offset, nper, rate, back]


def paid_run(case):
    n, offset, nper, rate, back = case
    s = System(dict(cls='Account', bal=1000, nper=nper, rate=['const', rate], vals=[], whens=[]))
    for _ in range(2):
        for i in range(n):
            s.apply_only(['add', 10 if (i + 1) % back else -25 if back > 1 else 10, (i + offset) / n])
        s.check()
        s.apply(['year'])
    return dict(ops=2 * n + 2)


def edge_cases(tier):
    for hp in (0, 1):
        for nper in (None, 1, 2, 4, 12, 365):
            for rate in ('0', '0.05', '1', '-0.5', '-0.05'):
                for now in (0, 100, -100, 100.5):
                    for then in (0, 100, -100, 50, 200, 1e-6, 100.5):
                        for t in ('0', '0.25', '1', '3', '-1'):
                            if t == '0' or (now and not then):
                                yield [hp, nper, rate, now, then, t]


def edge_run(case):
    """Time to grow from a value to any other (never, if growth can't do it), in both precisions."""
    hp, nper, rate, now, then, t = case
    num = (lambda x: Decimal(str(x))) if hp else float
    kw = dict(high_precision=Decimal) if hp else {}
    if now and not then:        # no target value: one reached by t years' growth
        then = now * growth(float(t), float(rate), nper)
    if now == then:
        want = 0.0
    elif now * then <= 0:
        want = INF
    elif rate == '0':
        want = INF if then / now > 1 else -INF
    else:
        per = math.log1p(float(rate) / nper) * nper if nper else float(rate)
        want = math.log(then / now) / per
    got = time_to_value(num(rate), num(now), num(then), nper=nper, **kw)
    if hp and not isinstance(got, Decimal):
        raise Fail('precision', 'time to value is a %s under high precision' % type(got).__name__)
    expect('time_to_value', float(got), want, 'time from %s to %s at %s' % (now, then, rate))
    grown = accumulation_function(num(t), num(rate), nper, **kw)
    if hp and not isinstance(grown, Decimal):
        raise Fail('precision', 'accumulation is a %s under high precision' % type(grown).__name__)
    expect('accumulation', float(grown), growth(float(t), float(rate), nper), 'A(%s)' % t)
    for a, b, span in ((num('0.5'), num('0.75'), 0.25), (0.5, 0.75, 0.25), ('end', 'start', -1.0), (1, 0.5, -0.5)):
        here = value_at_time(num(now), num(rate), a, b, nper=nper, **kw)
        if hp and not isinstance(here, Decimal):
            raise Fail('precision', 'value at time is a %s under high precision' % type(here).__name__)
        expect('value_at_time', float(here), now * growth(span, float(rate), nper), 'value at time')
    here = value_at_time(num(now), num(rate), nper=nper, **kw)
    expect('value_at_time', float(here), now * growth(1.0, float(rate), nper), 'value at the end of the year')
    return dict(ops=7, outcome=r9(want) if abs(want) < INF else str(want))


FAMILIES = [
    Enum('time_to_any_value', edge_cases, edge_run, about='time from one value to any other, also unreachable ones'),
    Enum('paid_regularly', paid_cases, paid_run, about='2 to 365 regular flows a year for two years'),
    Enum('many_flows', many_cases, many_run, about='every pattern of flows over five times in two consecutive years'),
    Hist('account_histories', configs, System, depth,
         about='transaction/mapping/advance histories of one account vs a plain ledger with closed-form growth'),
    Enum('time_value', tv_cases, tv_run, about='accumulation function, value at time and its inverse on a grid'),
    Enum('time_to_balance', ttb_cases, ttb_run, about='time at which an account with transactions reaches a balance'),
    Enum('bad_times', bad_cases, bad_run, about='times outside the year are refused and leave no trace'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('account_histories',)]
