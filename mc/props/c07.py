"""C07: pension-plan withdrawals - income, deduction, withholding, mandatory minimum, conversion."""
from ..engine import Enum, Hist, Fail, unread
from ..lib import *
from .c06 import constants, adjust, index, nearest
from forecaster import Person
from forecaster.canada import RRSP
from forecaster.utility import Timing

SYNTH = dict(RRSP_WITHHOLDING_TAX_RATE={2014: {0: 0.05, 1000: 0.25, 4000: 0.125}, 2016: {0: 0.1, 2000: 0.3}},
             RRSP_RRIF_CONVERSION_AGE=70,
             RRSP_RRIF_WITHDRAWAL_MIN={70: 0.05, 71: 0.06, 72: 0.08, 74: 0.09, 73: 0.1})


# A table which starts late, has gaps, and whose rates fall and rise; no bracket at zero.
LATE = dict(SYNTH, RRSP_RRIF_WITHDRAWAL_MIN={80: 0.3, 78: 0.07, 83: 0.02, 84: 0.11},
            RRSP_WITHHOLDING_TAX_RATE={2013: {500: 0.2, 2000: 0.15, 1000: 0.3}})


def build(cfg, **kw):
    k = constants((None, SYNTH, LATE)[cfg.get('synth', 0)])
    p = Person(cfg['year'], 'P', '1 July %d' % cfg['born'], retirement_date='1 July 2090', gross_income=1000)
    if cfg.get('spousal'):
        q = Person(cfg['year'], 'Q', '1 July %d' % (cfg['born'] + cfg['spousal']), retirement_date='1 July 2090',
                   gross_income=1000)
        kw['contributor'] = q
    if cfg.get('shared') is not None:
        kw.update(min_outflow_link=(p, 'shared'), min_outflow_limit=-cfg['shared'])
    a = RRSP(p, balance=cfg['bal'], rate=cfg.get('rate', 0), inflation_adjust=adjust(cfg['path']), constants=k.real,
             contribution_room=cfg.get('room', 1e6), **kw)
    return k, a


def withholding(k, path, year, amount):
    """Lump-sum withholding: flat rate of the bracket, whose thresholds are indexed."""
    if amount <= 0:
        return 0.0
    base = nearest(k.RRSP_WITHHOLDING_TAX_RATE, year)
    table = k.RRSP_WITHHOLDING_TAX_RATE[base]
    f = index(path, year, base)
    return amount * table[max([b for b in table if b * f < amount], default=min(table))]


def expect_withheld(k, path, year, amount, got, ctx=''):
    """Within rounding of a bracket edge, either bracket is accepted."""
    if any(close(got, withholding(k, path, year, a)) for a in (amount, amount - 1e-6, amount + 1e-6)):
        return
    raise Fail('withheld', '%s: got %s, expected %s on %s' % (ctx, got, withholding(k, path, year, amount), amount))


def minimum(k, conv, year, age, balance):
    if conv >= year:
        return 0.0
    t = k.RRSP_RRIF_WITHDRAWAL_MIN
    if age in t:
        return t[age] * balance
    return balance * max(t.values()) if age > max(t) else balance / (90 - age)


class System:
    def __init__(self, cfg):
        self.cfg = cfg
        kw = {}
        if cfg['conv'] is not None:
            kw['rrif_conversion_year'] = cfg['year'] + cfg['conv']
        self.k, self.a = build(cfg, **kw)
        self.year, self.bal, self.tx = cfg['year'], float(cfg['bal']), {}
        self.last = cfg['born'] + self.k.RRSP_RRIF_CONVERSION_AGE
        self.conv = self.last if cfg['conv'] is None else cfg['year'] + cfg['conv']
        self.hist = dict(taxable_income={}, tax_withheld={}, tax_deduction={})
        self.check()

    def events(self):
        b = self.cfg['bal']
        return [['year']] + [['add', t, v] for t, v in ((0.5, -b / 20), (0.5, b / 50), (0, -b / 200), (0.5, -b / 5), (1, b / 100))] + [
            ['convert'], ['conv', 0], ['conv', 1], ['conv', -2], ['conv', None], ['demand']]

    def now(self):
        out = -sum(v for v in self.tx.values() if v < 0)
        return dict(taxable_income=out, tax_deduction=sum(v for v in self.tx.values() if v > 0),
                    tax_withheld=withholding(self.k, self.cfg['path'], self.year, out - self.minimum()))

    def minimum(self):
        return minimum(self.k, self.conv, self.year, self.year - self.cfg['born'], self.bal)

    def set(self, fn, year):
        if year is not None and year > self.last:
            try:
                fn()
            except ValueError:
                return
            raise Fail('late_conversion', 'conversion in %d accepted, mandatory by %d' % (year, self.last))
        fn()
        self.conv = self.last if year is None else year

    def apply(self, ev):
        a = self.a
        if ev[0] == 'year':
            for n, v in self.now().items():
                self.hist[n][self.year] = float(a.tax_withheld) if n == 'tax_withheld' else v   # checked below
            r = self.cfg.get('rate', 0)
            self.bal = self.bal * (1 + r) + sum(v * (1 + r) ** (1 - t) for t, v in self.tx.items())
            self.tx, self.year = {}, self.year + 1
            a.next_year()
        elif ev[0] == 'add':
            a.add_transaction(ev[2], when=ev[1])
            self.tx[ev[1]] = self.tx.get(ev[1], 0) + ev[2]
        elif ev[0] == 'demand':
            for t, v in a.min_outflows(Timing({0.25: 1, 0.75: 1})).items():
                if v:
                    a.add_transaction(v, when=t)
                    self.tx[t] = self.tx.get(t, 0) + float(v)
        elif ev[0] == 'convert':
            self.set(a.convert_to_rrif, self.year)
        else:
            y = None if ev[1] is None else self.last + ev[1]
            self.set(lambda: setattr(a, 'rrif_conversion_year', y), y)
        self.check()

    def check(self):
        a, m = self.a, self.minimum()
        expect('balance', a.balance, self.bal, 'opening balance')
        expect_eq('conversion', a.rrif_conversion_year, self.conv, 'conversion year')
        check('late_conversion', a.rrif_conversion_year <= self.last, 'converts after the mandatory year')
        if self.cfg.get('shared') is not None:
            m = max(m, self.cfg['shared'])
        expect('minimum', -a.min_outflow_limit, m, 'minimum withdrawal in %d (age %d)' % (self.year, self.year - self.cfg['born']))
        cur = self.now()
        left = max(0.0, m - cur['taxable_income'])
        for t in (Timing({0: 1}), Timing({0.25: 1, 1: 1})):
            if self.cfg.get('shared') is not None and cur['taxable_income'] + left > self.bal / 2:
                continue                    # no more than the balance can be offered
            got = a.min_outflows(t)
            expect('offered_minimum', -sum(got.values()), left, 'offered minimum outflow')
        for n, v in cur.items():
            if n == 'tax_withheld':
                if self.cfg.get('shared') is None:
                    expect_withheld(self.k, self.cfg['path'], self.year, cur['taxable_income'] - m, a.tax_withheld)
                got = dict(a.tax_withheld_history)
                expect('tax_withheld', got.pop(self.year), a.tax_withheld, 'this year in history')
                expect_map('tax_withheld_history', got, self.hist[n], 'tax_withheld history')
                continue
            expect(n, getattr(a, n), v, '%s in %d' % (n, self.year))
            expect_map(n + '_history', getattr(a, n + '_history'), {**self.hist[n], self.year: v}, n + ' history')
        expect('tax_credit', a.tax_credit, 0, 'tax credit')

    def canon(self):
        return (self.year, r9(self.bal), self.conv, sorted((t, r9(v)) for t, v in self.tx.items()))


def configs(tier):
    out = []
    for year, synth, path in ((2017, 0, 'flat'), (2015, 1, 'ramp'), (2019, 0, 'ramp'), (2016, 1, 'two')):
        for age in (60, 68, 69, 70, 71, 72, 80, 94, 95, 99):
            for conv in (None, 0, -3, 2):
                if age + (conv or 0) > (70 if synth else 71):
                    continue
                for bal in (100000, 3000):
                    out.append(dict(year=year, synth=synth, path=path, born=year - age, conv=conv, bal=bal, rate=0.1))
    out.append(dict(year=2017, synth=0, path='flat', born=1947, conv=-4, bal=50000, rate=0, spousal=8))
    out.append(dict(year=2017, synth=0, path='flat', born=1957, conv=-4, bal=50000, rate=-0.1, spousal=-10))
    for age in (76, 77, 79, 81, 84):
        out.append(dict(year=2015, synth=2, path='two', born=2015 - age, conv=None, bal=20000, rate=0.1))
    for shared in (0, 50, 4000, 30000):
        for age, conv in ((60, -3), (60, 0), (75, None), (69, None)):
            out.append(dict(year=2017, path='flat', born=2017 - age, conv=conv, bal=20000, rate=0.1, shared=shared))
    return out


# --- withholding grid -----------------------------------------------------------------------

def amounts(synth):
    edges = [500, 1000, 2000] if synth == 2 else [1000, 2000, 4000] if synth else [5000, 15000]
    return [0, 1, 40000] + edges


def grid(tier):
    for synth in (0, 1, 2):
        for path in ('flat', 'ramp', 'two', 'deflation', 'none'):
            for year in (2013, 2014, 2015, 2016, 2017, 2018, 2021, 2030):
                for e in amounts(synth):
                    for off in (-1, -0.01, 0, 0.01, 1):
                        for split in ('one', 'two', 'with_contribution', 'netted'):
                            for conv in ('none', 'this', 'past'):
                                if off == 0 and path not in ('flat', 'none'):
                                    continue
                                yield dict(synth=synth, path=path, year=year, edge=e, off=off, split=split, conv=conv)


def run_grid(c):
    """Withdrawals summing to (minimum +) indexed edge + offset."""
    age = 65
    cfg = dict(year=c['year'], born=c['year'] - age, bal=200000.0, path=c['path'], synth=c['synth'])
    kw = {}
    if c['conv'] != 'none':
        kw['rrif_conversion_year'] = c['year'] - (1 if c['conv'] == 'past' else 0)
    k, a = build(cfg, **kw)
    m = 200000.0 / (90 - age) if c['conv'] == 'past' else 0.0
    base = nearest(k.RRSP_WITHHOLDING_TAX_RATE, c['year'])
    target = max(0.0, m + c['edge'] * index(c['path'], c['year'], base) + c['off'])
    flows = {'one': [(0.5, -target)], 'two': [(0.0, -target / 4), (1.0, -target * 3 / 4)],
             'with_contribution': [(0.25, 700.0), (0.75, -target)],
             'netted': [(0.5, -target), (0.75, 1200.0), (0.0, 5.0)]}[c['split']]
    for t, v in flows:
        a.add_transaction(v, when=t)
    deposits = sum(v for _, v in flows if v > 0)
    want = withholding(k, c['path'], c['year'], target - m)
    if c['edge'] and abs(c['off']) >= 0.01 or c['off'] == 0 and m == 0:
        expect('withheld', a.tax_withheld, want, 'withheld on %s' % target)
    expect('income', a.taxable_income, target, 'taxable income')
    expect('deduction', a.tax_deduction, deposits, 'deduction')
    a.next_year()
    expect('history', a.taxable_income_history[c['year']], target, 'taxable income history')
    expect('history', a.tax_deduction_history[c['year']], deposits, 'deduction history')
    return dict(ops=3, outcome=r9(want))


# --- lifetime ---------------------------------------------------------------------------------

def lifetimes(tier):
    for synth in (0, 1, 2):
        for age in range(40, 100) if tier == 'quick' else range(18, 105):
            for conv in (None, 0, 5, 12):
                for spousal in (0, 7, -7):
                    yield dict(synth=synth, age=age, conv=conv, spousal=spousal)


def run_lifetime(c):
    """One plan advanced to age 105, no voluntary withdrawals: minimums every year."""
    year = 2015
    cfg = dict(year=year, born=year - c['age'], bal=10000.0, path='flat', synth=c['synth'], spousal=c['spousal'])
    k, a = build(cfg)
    last = cfg['born'] + k.RRSP_RRIF_CONVERSION_AGE
    conv = last
    if c['conv'] is not None:
        if year + c['conv'] > last:
            try:
                a.rrif_conversion_year = year + c['conv']
            except ValueError:
                pass
            else:
                raise Fail('late_conversion', 'accepted conversion in %d' % (year + c['conv']))
        else:
            a.rrif_conversion_year = conv = year + c['conv']
    bal, n = 10000.0, 0
    while year <= cfg['born'] + 105:
        m = minimum(k, conv, year, year - cfg['born'], bal)
        expect_eq('conversion', a.rrif_conversion_year, conv, 'conversion year')
        expect('minimum', -a.min_outflow_limit, m, 'minimum at age %d' % (year - cfg['born']))
        expect('offered_minimum', -sum(a.min_outflows(Timing({0: 1, 0.5: 1})).values()), m, 'offered minimum')
        a.add_transaction(-m, when=1)
        expect('withheld', a.tax_withheld, 0, 'withheld on the minimum alone')
        bal -= m
        a.next_year()
        year, n = year + 1, n + 1
    return dict(ops=n, outcome=r9(bal))


FAMILIES = [
    Hist('plan', configs, System, lambda tier, c: 3 if tier == 'quick' else 4,
         about='withdrawals, contributions, conversions and advances around the mandatory age'),
    Enum('withholding', grid, run_grid, about='amounts around every (indexed) bracket edge'),
    Enum('lifetime', lifetimes, run_lifetime, about='mandatory minimum from every age to 105'),
]
FAMILIES += [unread(f, configs=lambda tier: configs(tier)[::4 if tier == 'quick' else 1]) for f in FAMILIES if f.name in ('plan',)]
