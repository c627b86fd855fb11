"""C03: offered transactions are feasible, tight and follow the requested timing."""
import itertools
from decimal import Decimal
from ..engine import Enum, Hist, Fail
from ..lib import *
from forecaster import Person, Account
from forecaster.utility import Timing

YEAR = 2000
NPER = dict(A=1, M=12, C=None)
KINDS = ('max_inflows', 'min_inflows', 'max_outflows', 'min_outflows')
D = lambda x: Decimal(str(x))


class Limited(Account):
    """An account whose four annual limits are plain settable values."""
    limits = None

    def _lim(self, name, default):
        v = (self.limits or {}).get(name)
        return self.precision_convert(default) if v is None else self.precision_convert(v)
    max_inflow_limit = property(lambda self: self._lim('max_inflow', float('inf')))
    min_inflow_limit = property(lambda self: self._lim('min_inflow', 0))
    max_outflow_limit = property(lambda self: self._lim('max_outflow', float('-inf')))
    min_outflow_limit = property(lambda self: self._lim('min_outflow', 0))


TIMINGS = {
    'default': None,
    'start': {0: 1}, 'end': {1: 1}, 'mid': {0.5: 1},
    'two': {0: 1, 1: 1}, 'uneven': {0.25: 3, 0.75: 1}, 'three': {0: 2, 0.5: 1, 1: 5},
    'zeroweight': {0: 0, 0.5: 1}, 'allzero': {0.25: 0, 1: 0}, 'neg': {0: -1, 0.5: -3},
    'strstart': 'start', 'M': 'M', 'acct': 'acct'}
TX = [[], [[100, 0.5]], [[-100, 0.5]], [[-300, 0]], [[200, 0.25], [-400, 0.75]], [[-2000, 1]],
      [[50, 0], [-50, 0]]]
LIMS = [{}, dict(max_inflow=150, min_inflow=60), dict(max_outflow=-350, min_outflow=-150),
        dict(max_inflow=0, max_outflow=0), dict(max_inflow=1000, max_outflow=-2000, min_outflow=-1500, min_inflow=250)]
DEFAULT_TIMING = {0.5: 1, 1: 1}


def model_end(bal, rate, nper, txs, t=1.0):
    return bal * growth(t, rate, nper) + sum(v * growth(t - w, rate, nper) for v, w in txs if w <= t)


def norm_timing(name):
    t = TIMINGS[name]
    if t is None or t == 'acct':
        t = DEFAULT_TIMING
    elif t == 'start':
        t = {0: 1}
    elif t == 'M':
        t = {(i + 0.5) / 12: 1 for i in range(12)}
    if all(v == 0 for v in t.values()):
        t = {k: 1 for k in t}
    tot = float(sum(abs(v) for v in t.values()))
    return {k: abs(v) / tot for k, v in t.items() if v}


def build(bal, rate, nper, tx, lims, hp=False):
    cv = D if hp else (lambda x: x)
    hpa = Decimal if hp else None
    p = Person(YEAR, 'P', '1 January 1980', retirement_date='1 January 2045', high_precision=hpa)
    a = Limited(owner=p, balance=cv(bal), rate=cv(rate), nper=nper, high_precision=hpa,
                default_timing=Timing({cv(k): cv(v) for k, v in DEFAULT_TIMING.items()}, high_precision=hpa))
    a.limits = lims
    for v, w in tx:
        a.add_transaction(cv(v), when=cv(w))
    return a


def reference(kind, bal, rate, nper, tx, lims, timing, tlimit=None, blimit=None, hyp=()):
    """Total of the offer, by definition: proportional amounts which bring the year-end
    balance to the target, within the annual limit (less what is recorded), or nothing."""
    inflow = 'inflow' in kind
    every = list(tx) + list(hyp)
    # net per time: simultaneous recorded transactions are one transaction; hypothetical ones are separate
    net = {}
    for v, w in tx:
        net[w] = net.get(w, 0) + v
    moved = sum(v for v in net.values() if (v > 0) == inflow and v) + sum(
        v for v, _ in hyp if (v > 0) == inflow and v)
    lim = lims.get(kind[:-1])
    if lim is None:
        lim = {'max_inflows': INF, 'min_inflows': 0, 'max_outflows': -INF, 'min_outflows': 0}[kind]
    target = blimit if blimit is not None else (INF if inflow else 0.0)
    change = target - model_end(bal, rate, nper, every)
    per_unit = sum(w * growth(1 - t, rate, nper) for t, w in timing.items())
    total = change / per_unit
    cap = lim - moved
    if inflow:
        if tlimit is not None:
            cap = min(cap, tlimit)
        return max(0.0, min(total, cap))
    if tlimit is not None:
        cap = max(cap, tlimit)
    return min(0.0, max(total, cap))


def cases(tier):
    rates = [(0, 'A'), (0.1, 'A'), (-0.2, 'A'), (0.5, 'C'), (0.12, 'M')]
    bals = [1000, 0, -200]
    tim = list(TIMINGS)
    for bal in bals:
        for rate, nper in rates:
            for tx in TX:
                for lims in LIMS:
                    for t in tim if tier != 'quick' else ('default', 'start', 'two', 'uneven', 'allzero', 'neg', 'M'):
                        yield [bal, rate, nper, tx, lims, t, 0]
    for t in tim:
        for lims in LIMS:
            yield [1000, 0.1, 'A', TX[0], lims, t, 0]
            yield [1000, 0.1, 'M', TX[4], lims, t, 1]
            yield [1000, 0.1, 'C', TX[1], lims, t, 1]


def run(case):
    bal, rate, nper, tx, lims, tname, hp = case
    n = NPER[nper]
    cv = D if hp else (lambda x: x)
    t = TIMINGS[tname]
    arg = t
    if isinstance(t, dict):
        arg = {cv(k): cv(v) for k, v in t.items()}
    elif t == 'acct':
        arg = {}
    timing = norm_timing(tname)
    outcome = []
    for kind in KINDS:
        a = build(bal, rate, nper, tx, lims, hp)
        before = sorted((float(k), float(v)) for k, v in a.items())
        argcopy = dict(arg) if isinstance(arg, dict) else arg
        got = getattr(a, kind)(arg)
        expect_eq('input_mutated', arg, argcopy, 'timing argument of ' + kind)
        expect_eq('read_only', sorted((float(k), float(v)) for k, v in a.items()), before, kind + ' changed the account')
        total = reference(kind, bal, rate, n, tx, lims, timing)
        expect_map(kind, got, {k: total * w for k, w in timing.items()}, kind)
        sign = 1 if 'inflow' in kind else -1
        check(kind, all(sign * v >= 0 for v in got.values()), 'wrong sign: %s' % got)
        outcome.append(total)
        # passing limits on the total, on the balance, and hypothetical transactions
        for tl in (0, 40, 75):
            expect_map(kind + '_transaction_limit', getattr(a, kind)(arg, transaction_limit=cv(sign * tl)),
                       {k: reference(kind, bal, rate, n, tx, lims, timing, tlimit=sign * tl) * w
                        for k, w in timing.items()}, '%s limited to %s' % (kind, sign * tl))
        for bl in (100, 1200):
            expect_map(kind + '_balance_limit', getattr(a, kind)(arg, balance_limit=cv(bl)),
                       {k: reference(kind, bal, rate, n, tx, lims, timing, blimit=float(bl)) * w
                        for k, w in timing.items()}, '%s to balance %s' % (kind, bl))
        for hyp in ([[80, 0.5]], [[-80, 0.25], [30, 1]]):
            h = {cv(w): cv(v) for v, w in hyp}
            # only hypothetical flows at times of their own or of the same sign are unambiguous
            hcopy = dict(h)
            expect_map(kind + '_hypothetical', getattr(a, kind)(arg, transactions=h),
                       {k: reference(kind, bal, rate, n, tx, lims, timing, hyp=hyp) * w
                        for k, w in timing.items()}, '%s with %s' % (kind, hyp))
            expect_eq('input_mutated', h, hcopy, 'hypothetical transactions of ' + kind)
        if total in (INF, -INF):
            continue
        # recording the offer is accepted, hits the target or the limit, and leaves nothing to offer
        for w, v in got.items():
            a.add_transaction(v, when=w)
        again = getattr(a, kind)(arg)
        net = {}
        for v, w in list(tx) + [(total * wt, k) for k, wt in timing.items()]:
            net.setdefault(w, []).append(v)
        if all(len({x > 0 for x in vs if x}) <= 1 for vs in net.values()):
            check(kind + '_residual', abs(sum(again.values())) <= 1e-5, '%s still offered after: %s' % (kind, again))
        if kind == 'max_outflows' and model_end(bal, rate, n, tx) >= 0:
            check('overdrawn', a.balance_at_time('end') >= -1e-6, 'year-end balance %s' % a.balance_at_time('end'))
            if lims.get('max_outflow') is None:
                expect('tight', a.balance_at_time('end'), 0, 'balance after withdrawing everything', abs_=1e-5)
    return dict(ops=4 * 8, outcome=[r9(x) if abs(x) < INF else str(x) for x in outcome])


# --- reaching a balance ----------------------------------------------------------------

def tb_cases(tier):
    for bal in (1000, 0, -500):
        for rate, nper in ((0, 'A'), (0.1, 'A'), (-0.3, 'C'), (0.24, 'M')):
            for tx in TX:
                for t in TIMINGS if tier != 'quick' else ('default', 'two', 'uneven', 'M'):
                    for target in (0, 500, 2000, -100):
                        yield [bal, rate, nper, tx, t, target]


def tb_run(case):
    bal, rate, nper, tx, tname, target = case
    a = build(bal, rate, nper, tx, {})
    t = TIMINGS[tname]
    got = a.transactions_to_balance(target, {} if t == 'acct' else t)
    timing = norm_timing(tname)
    tot = sum(got.values())
    expect_map('proportion', got, {k: tot * w for k, w in timing.items()}, 'proportions')
    for w, v in got.items():
        a.add_transaction(v, when=w)
    expect('target', a.balance_at_time('end'), target, 'year-end balance', abs_=1e-5)
    a.next_year()
    expect('target', a.balance, target, 'opening balance of the next year', abs_=1e-5)
    return dict(ops=3, outcome=r9(tot))


# --- single-time limits ----------------------------------------------------------------

def single_cases(tier):
    for bal in (1000, 0, -500):
        for rate, nper in ((0, 'A'), (0.1, 'A'), (-0.3, 'C')):
            for tx in TX:
                for lims in LIMS:
                    for when in ('start', 0.25, 0.5, 'end'):
                        yield [bal, rate, nper, tx, lims, when]


def single_run(case):
    bal, rate, nper, tx, lims, when = case
    a = build(bal, rate, nper, tx, lims)
    t = {'start': 0.0, 'end': 1.0}.get(when, when)
    b = model_end(bal, rate, NPER[nper], tx, t)
    mo = lims.get('max_outflow', -INF)
    expect('max_outflow', a.max_outflow(when), max(min(-b, 0), mo), 'largest withdrawal at %s' % when)
    expect('max_inflow', a.max_inflow(when), lims.get('max_inflow', INF), 'largest contribution at %s' % when)
    expect('min_inflow', a.min_inflow(when), lims.get('min_inflow', 0), 'smallest contribution')
    expect('min_outflow', a.min_outflow(when), lims.get('min_outflow', 0), 'smallest withdrawal')
    return dict(ops=4, outcome=r9(b))


# --- histories of taking what is offered ----------------------------------------------

class Taker:
    """Takes (fractions of) offers in any order over years; limits hold in every state."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.a = build(cfg['bal'], cfg['rate'], cfg['nper'], [], cfg['lims'])
        self.n = NPER[cfg['nper']]
        self.bal, self.tx, self.year = float(cfg['bal']), [], YEAR

    def events(self):
        evs = [[k, t, f] for k in KINDS for t in self.cfg['timings'] for f in (1, 0.5)]
        return evs + [['year']]

    def apply(self, ev):
        if ev[0] == 'year':
            self.bal = model_end(self.bal, self.cfg['rate'], self.n, self.tx)
            self.tx, self.year = [], self.year + 1
            self.a.next_year()
        else:
            kind, tname, frac = ev
            timing = norm_timing(tname)
            total = reference(kind, self.bal, self.cfg['rate'], self.n, self.tx, self.cfg['lims'], timing)
            t = TIMINGS[tname]
            got = getattr(self.a, kind)({} if t == 'acct' else t)
            expect_map(kind, got, {k: total * w for k, w in timing.items()}, kind)
            if abs(total) != INF:
                for k, v in got.items():
                    self.a.add_transaction(v * frac, when=k)
                    self.tx.append((v * frac, k))
        expect('balance', self.a.balance_at_time('end'),
               model_end(self.bal, self.cfg['rate'], self.n, self.tx), 'year-end balance')

    def canon(self):
        net = {}
        for v, w in self.tx:
            net[w] = net.get(w, 0) + v
        return (self.year, r9(self.bal), sorted((w, round(v, 6)) for w, v in net.items()))


def taker_configs(tier):
    tims = [['two'], ['uneven', 'end']] if tier == 'quick' else [['two'], ['uneven', 'end'], ['M'], ['start', 'mid']]
    return [dict(bal=1000, rate=r, nper=n, lims=l, timings=t)
            for r, n in ((0.1, 'A'), (-0.2, 'C')) for l in LIMS for t in tims]


FAMILIES = [
    Enum('offers', cases, run, about='balance x rate x prior transactions x limits x timing: offers vs closed form, then recorded'),
    Enum('to_balance', tb_cases, tb_run, about='amounts that bring an account to a target balance'),
    Enum('single_time', single_cases, single_run, about='largest/smallest amounts at one time'),
    Hist('take_offers', taker_configs, Taker, lambda tier, c: 3 if tier == 'quick' else 4,
         about='histories of taking all or half of any offer, and advancing'),
]
