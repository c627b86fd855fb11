"""C19: asset allocations sum to one within their equity bounds; rates are their weighted returns."""
import itertools
from datetime import datetime
from ..engine import Enum, Fail
from ..lib import *
from forecaster import Person, Scenario
from forecaster.strategy import AllocationStrategy
from forecaster.strategy.allocation import AssetAllocation
from forecaster.strategy.base import strategy_method

AGES = list(range(0, 121))
BOUNDS_Q = [(0, 1), (0.2, 0.8), (0.4, 0.4), (0, 0.9), (0.1, 1), (0, 0), (1, 1)]
BOUNDS_T = [(a / 10, b / 10) for a in range(0, 11) for b in range(a, 11)]


def clip(s, lo, hi):
    return max(lo, min(hi, s))


def stocks_ref(c, age, ret):
    """Documented equity share before bounds (None: the documented value is ambiguous)."""
    std, period = c.get('std', 65), c.get('period', 20)
    if c['strategy'] == 'n-age':
        if c['adjust']:
            age = age + std - ret
        return (c['target'] - age) / 100
    r = ret if c['adjust'] else std
    if age >= r:
        if period == 0 and age == r:
            return None
        return c['target']
    if age <= r - period:
        return c['max']
    return c['target'] + (c['max'] - c['target']) * (r - age) / period


def build(c):
    return AllocationStrategy(
        strategy=c['strategy'], target=c['target'], min_equity=c['min'], max_equity=c['max'],
        standard_retirement_age=c.get('std', 65), risk_transition_period=c.get('period', 20),
        adjust_for_retirement_plan=c['adjust'])


def valid(a, lo, hi, ctx):
    for k in ('stocks', 'bonds', 'other'):
        check('range', -1e-9 <= float(getattr(a, k)) <= 1 + 1e-9, '%s: %s is %s' % (ctx, k, getattr(a, k)))
    expect('sum', float(a.stocks) + float(a.bonds) + float(a.other), 1, ctx)
    check('bounds', lo - 1e-9 <= float(a.stocks) <= hi + 1e-9, '%s: stocks %s outside %s..%s' % (ctx, a.stocks, lo, hi))


def run_alloc(c):
    s = build(c)
    n, out = 0, []
    rets = c['rets']
    for ret in rets:
        prev = None
        for age in AGES:
            ctx = 'age %s, retirement %s' % (age, ret)
            a = s(age=age, retirement_age=ret)
            n += 1
            valid(a, c['min'], c['max'], ctx)
            want = stocks_ref(c, age, ret)
            if want is not None:
                expect('stocks', a.stocks, clip(want, c['min'], c['max']), ctx)
            expect('other', a.other, 0, ctx)
            if prev is not None:
                check('monotone', a.stocks <= prev + 1e-9, '%s: equity rose from %s to %s' % (ctx, prev, a.stocks))
            prev = float(a.stocks)
            if age % 20 == 0:
                out.append(r9(a.stocks))
    # earlier queries do not matter
    for ret in rets[:2]:
        for age in (64, 30, 90):
            a, b = s(age=age, retirement_age=ret), build(c)(age=age, retirement_age=ret)
            check('repeat', a == b, 'asked again: %s, before %s' % (a, b))
    if not c['adjust']:
        a, b = s(age=50), s(age=50, retirement_age=40)
        check('unadjusted', a == b, 'retirement age is not to be used: %s vs %s' % (a, b))
    return dict(ops=n, outcome=out)


def alloc_cases(tier):
    q = tier == 'quick'
    bounds = BOUNDS_Q if q else BOUNDS_T
    rets = [40, 18, 60, 65, 71, 110] if q else list(range(15, 121, 5)) + [61, 64, 66]
    for lo, hi in bounds:
        for adjust in (True, False):
            for std in ((65, 60) if q else (65, 60, 67, 40)):
                for target in ((100, 110, 120, 0, 65, 99.5) if q else (0, 20, 65, 80, 100, 110, 120, 125, 150, 220)):
                    yield dict(strategy='n-age', target=target, min=lo, max=hi, adjust=adjust, std=std, rets=rets)
                for target in ((0.5, 0.7, 0, 1, 0.3) if q else [x / 10 for x in range(0, 11)]):
                    for period in ((20, 10, 1, 0, 45) if q else (0, 1, 2, 5, 10, 15, 20, 30, 50, 100)):
                        yield dict(strategy='Transition to constant', target=target, min=lo, max=hi,
                                   adjust=adjust, std=std, period=period, rets=rets)


class Custom(AllocationStrategy):
    """ A strategy of the caller's own, which may also hold other assets. """
    @strategy_method('fixed')
    def strategy_fixed(self, age, *args, retirement_age=None, **kwargs):
        return self.mix[age % len(self.mix)]


def run_custom(c):
    s = Custom(strategy='fixed', target=0, min_equity=c['min'], max_equity=c['max'])
    s.mix = [AssetAllocation(*c['mix'])]
    a = s(age=40, retirement_age=65)
    valid(a, c['min'], c['max'], 'mix %s' % (c['mix'],))
    st, bo, ot = c['mix']
    expect('stocks', a.stocks, clip(st, c['min'], c['max']), 'mix %s' % (c['mix'],))
    if bo + ot > 0:
        expect('proportion', a.bonds * ot, a.other * bo, 'bonds to other of %s -> %s' % (c['mix'], a))
    return dict(ops=1, outcome=[r9(x) for x in a])


def custom_cases(tier):
    k = 10 if tier == 'quick' else 20
    for lo, hi in BOUNDS_Q if tier == 'quick' else BOUNDS_T:
        for i in range(k + 1):
            for j in range(k + 1 - i):
                yield dict(min=lo, max=hi, mix=[i / k, j / k, (k - i - j) / k])


def run_bad(c):
    try:
        AllocationStrategy(strategy='n-age', target=100, min_equity=c['min'], max_equity=c['max'])
    except ValueError:
        ok = False
    else:
        ok = True
    check('bounds-order', ok == (c['min'] <= c['max']), 'min %(min)s max %(max)s accepted: ' % c + str(ok))
    return dict(ops=1, outcome=ok)


def bad_cases(tier):
    for i in range(11):
        for j in range(11):
            yield dict(min=i / 10, max=j / 10)


CHANGES = [('target', 80), ('target', 30), ('min', 0.3), ('max', 0.55), ('std', 60), ('period', 5), ('adjust', False),
           ('adjust', True), ('strategy', 'n-age'), ('strategy', 'Transition to constant')]
ATTR = dict(target='target', min='min_equity', max='max_equity', std='standard_retirement_age',
            period='risk_transition_period', adjust='adjust_for_retirement_plan', strategy='strategy')


def run_change(c):
    """Attributes changed later act as if given at first, on this object only."""
    cfg, other = dict(c['start']), dict(c['start'])
    s, o = build(cfg), build(other)
    for k, v in c['changes']:
        s(age=50, retirement_age=65)
        if k == 'target' and cfg['strategy'] != 'n-age':
            v = v / 100
        cfg[k] = v
        setattr(s, ATTR[k], v)
    fresh, n = build(cfg), 0
    for age in (20, 46, 57, 62, 66, 90):
        for ret in (60, 65):
            a = s(age=age, retirement_age=ret)
            valid(a, cfg['min'], cfg['max'], 'after %s' % c['changes'])
            expect('changed', a.stocks, fresh(age=age, retirement_age=ret).stocks, 'after %s at %s' % (c['changes'], age))
            b = o(age=age, retirement_age=ret)
            expect('isolated', b.stocks, build(other)(age=age, retirement_age=ret).stocks, 'other object')
            n += 2
    return dict(ops=n, outcome=sorted(map(str, cfg.items())))


def change_cases(tier):
    for st in (dict(strategy='n-age', target=100, min=0.1, max=0.9, adjust=True, std=65, period=20),
               dict(strategy='Transition to constant', target=0.5, min=0, max=0.8, adjust=True, std=65, period=20)):
        for n in range(0, 3 if tier == 'quick' else 4):
            for ch in itertools.product(CHANGES, repeat=n):
                yield dict(start=st, changes=[list(x) for x in ch])


# Rates of return ----------------------------------------------------------------------

Y0, N = 2000, 40


def series(kind, base):
    if kind == 'const':
        return base
    if kind == 'list':
        return [base + 0.001 * i for i in range(N)]
    return {Y0 + i: base - 0.002 * i for i in range(N)}


def at(kind, base, year):
    if kind == 'const':
        return base
    return base + (0.001 if kind == 'list' else -0.002) * (year - Y0)


def run_rate(c):
    sc = Scenario(Y0, N, inflation=0.02, stock_return=series(c['s'], 0.07), bond_return=series(c['b'], 0.04),
                  other_return=series(c['o'], 0.01))
    person = Person(Y0, 'P', datetime(*c['birth']), retirement_date=datetime(*c['retire']))
    cfg = dict(c['alloc'])
    strat = Custom(strategy='fixed', target=0, min_equity=0.1, max_equity=0.9) if cfg['strategy'] == 'fixed' \
        else build(cfg)
    if cfg['strategy'] == 'fixed':
        strat.mix = [AssetAllocation(0.5, 0.3, 0.2), AssetAllocation(0.95, 0.04, 0.01), AssetAllocation(0, 0.5, 0.5)]
    f = strat.rate_function(person, sc)
    out = []

    def want(year):
        age = year - c['birth'][0]
        ret = c['retire'][0] - c['birth'][0] - (tuple(c['retire'][1:]) < tuple(c['birth'][1:]))
        if cfg['strategy'] == 'fixed':
            st, bo, ot = strat.mix[age % 3]
            st2 = clip(st, 0.1, 0.9)
            k = (1 - st2) / (bo + ot)
            bo, ot = bo * k, ot * k
        else:
            st2 = stocks_ref(cfg, age, ret)
            if st2 is None:
                return None
            st2 = clip(st2, cfg['min'], cfg['max'])
            bo, ot = 1 - st2, 0
        return st2 * at(c['s'], 0.07, year) + bo * at(c['b'], 0.04, year) + ot * at(c['o'], 0.01, year)
    years = list(range(Y0, Y0 + N))
    for year in years + [Y0 + 3, Y0]:
        w = want(year)
        if w is not None:
            expect('rate', f(year), w, 'rate in %s' % year)
            out.append(r9(f(year)))
    # the function's parts can be replaced (Forecaster does): the new ones are used
    sc2 = Scenario(Y0, N, inflation=0, stock_return=0.5, bond_return=0.25, other_return=0.125)
    f2 = strat.rate_function(person, sc)
    f2.scenario = sc2
    for year in (Y0, Y0 + 10):
        age = person.age(year)
        a = strat(age=age, retirement_age=person.retirement_age)
        expect('swapped', f2(year), a.stocks * 0.5 + a.bonds * 0.25 + a.other * 0.125, 'new scenario in %s' % year)
        expect('swapped', f(year), want(year) if want(year) is not None else f(year), 'old rate function in %s' % year)
    young = Person(Y0, 'Q', datetime(1990, 5, 5), retirement_date=datetime(2050, 1, 1))
    f2.person = young
    for year in (Y0, Y0 + 10):
        a = strat(age=year - 1990, retirement_age=59)
        expect('swapped', f2(year), a.stocks * 0.5 + a.bonds * 0.25 + a.other * 0.125, 'new person in %s' % year)
    f2.allocation_strategy = lambda age, retirement_age: AssetAllocation(3, 1 + (age == 10), 1)
    for year, b in ((Y0, 2), (Y0 + 10, 1)):
        expect('swapped', f2(year), (3 * 0.5 + b * 0.25 + 0.125) / (4 + b), 'weights which do not sum to one in %s' % year)
    return dict(ops=len(years), outcome=out)


def rate_cases(tier):
    allocs = [dict(strategy='n-age', target=t, min=lo, max=hi, adjust=adj)
              for t in (100, 120) for lo, hi in ((0, 1), (0.3, 0.6)) for adj in (True, False)]
    allocs += [dict(strategy='Transition to constant', target=t, min=lo, max=hi, adjust=adj, period=pd)
               for t in (0.5, 0.2) for lo, hi in ((0, 1), (0.3, 0.9)) for adj in (True, False) for pd in (20, 7)]
    allocs += [dict(strategy='fixed')]
    lives = [([1960, 6, 26], [2025, 6, 26]), ([1960, 6, 26], [2025, 6, 25]), ([1940, 1, 1], [2000, 12, 31]),
             ([1980, 12, 31], [2035, 1, 1]), ([1980, 2, 29], [2031, 3, 1])]
    kinds = ('const', 'list', 'dict')
    for al in allocs:
        for birth, ret in lives if tier == 'quick' else lives + [([1990, 3, 1], [2039, 12, 31]), ([1935, 7, 7], [1999, 7, 7])]:
            for s, b, o in (itertools.product(kinds, repeat=3) if tier != 'quick' else
                            [('const', 'list', 'dict'), ('dict', 'const', 'list'), ('list', 'dict', 'const')]):
                yield dict(alloc=al, birth=birth, retire=ret, s=s, b=b, o=o)


FAMILIES = [
    Enum('allocation', alloc_cases, run_alloc, about='strategies, targets, bounds, periods x all ages x retirement ages'),
    Enum('custom', custom_cases, run_custom, about="caller-defined mixes of the three asset classes under all bounds"),
    Enum('bad', bad_cases, run_bad, about='bounds in the wrong order are refused'),
    Enum('change', change_cases, run_change, about='sequences of attribute changes with queries in between'),
    Enum('rate', rate_cases, run_rate, about='rate functions over every scenario year'),
]
