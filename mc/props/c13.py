"""C13: inflation adjustment composes; scenarios report what they were built with; values extend to unlisted years."""
import itertools
from collections import defaultdict
from ..engine import Enum, Hist, Fail
from ..lib import *
from forecaster import Scenario
from forecaster.scenario import InflationAdjust
from forecaster.utility import (
    nearest_year, extend_inflation_adjusted, build_inflation_adjust)

Y = 2000
RATES = (0, 0.1, -0.05, 1)
ROLES = ('inflation', 'stock_return', 'bond_return', 'other_return', 'management_fees')


def product(rates, a, b):
    """Adjustment from year a to year b."""
    out = 1.0
    for y in range(min(a, b), max(a, b)):
        out *= 1 + rates(y)
    return out if a <= b else 1 / out


# ---------------------------------------------------------------- scenarios

def scenario_cases(tier):
    n = 5 if tier == 'thorough' else 4
    for k in range(1, n + 1):
        for seq in itertools.product(RATES, repeat=k):
            for form in ('list', 'tuple', 'dict', 'range_dict') + (('scalar', 'defaultdict') if len(set(seq)) == 1 else ()):
                yield dict(seq=list(seq), form=form)
    for k in (7, 12):                            # longer scenarios: one odd year, all different, alternating
        for seq in [[0.1] * i + [0.5] + [0.1] * (k - 1 - i) for i in range(k)] + [[0.01 * i for i in range(k)], [0.2, -0.1] * (k // 2) + [0.3] * (k % 2)]:
            for form in ('list', 'tuple', 'dict', 'range_dict'):
                yield dict(seq=seq, form=form)


def given(seq, form):
    if form == 'list':
        return list(seq)
    if form == 'tuple':
        return tuple(seq)
    if form == 'scalar':
        return seq[0]
    if form == 'defaultdict':
        return defaultdict(lambda v=seq[0]: v)
    d = {Y + i: v for i, v in enumerate(seq)}
    if form == 'range_dict':                     # more years than the scenario covers, in no particular order
        d = dict(sorted(d.items(), reverse=True))
        d[Y - 1], d[Y + len(seq)] = 0.5, 0.25
    return d


def run_scenario(case):
    seq, n = case['seq'], len(case['seq'])
    args = {r: given(seq[i % n:] + seq[:i % n], case['form']) for i, r in enumerate(ROLES)}
    copies = {r: given(seq[i % n:] + seq[:i % n], case['form']) for i, r in enumerate(ROLES)}
    s = Scenario(Y, n, **args)
    expect_eq('years', list(s), list(range(Y, Y + n)), 'years of the scenario')
    expect_eq('years', (len(s), s.num_years, s.initial_year), (n, n, Y), 'length')
    ops = 0
    for i, r in enumerate(ROLES):
        rot = seq[i % n:] + seq[:i % n]
        for y in range(n):
            want = rot[0] if case['form'] in ('scalar', 'defaultdict') else rot[y]
            expect_eq('rate', getattr(s, r)[Y + y], want, '%s in %d' % (r, Y + y))
            ops += 1
    wide = case['form'] in ('scalar', 'defaultdict')
    lo, hi = (Y - 3, Y + n + 3) if wide else ((Y - 1, Y + n + 1) if case['form'] == 'range_dict' else (Y, Y + n))

    def rate(y):
        if wide:
            return seq[0]
        return {Y - 1: 0.5, Y + n: 0.25}.get(y) if not Y <= y < Y + n else seq[y - Y]
    adj = s.inflation_adjust
    for y in range(lo, hi):
        expect('discount', s.discount_rate(y), rate(y), 'discount rate')
    for a, b in itertools.product(range(lo, hi + 1), repeat=2):
        want = product(rate, a, b)
        expect('accumulation', s.accumulation_function(a, b), want, 'accumulation %d to %d' % (a, b))
        expect('adjust', adj(b, a), want, 'adjustment of %d amounts to %d' % (a, b))
        expect('adjust', s.inflation_adjust(target_year=b, base_year=a), want, 'adjustment by name')
        expect('there_and_back', float(adj(b, a)) * float(adj(a, b)), 1, 'there and back %d %d' % (a, b))
        if a == b:
            expect('self', adj(a, a), 1, 'same year')
        if a == Y:
            expect('default_base', adj(b), want, 'from the initial year to %d' % b)
        for c in range(lo, hi + 1):
            expect('compose', float(adj(b, a)) * float(adj(c, b)), adj(c, a), '%d to %d to %d' % (a, b, c))
            ops += 1
        ops += 4
    for base in range(lo, hi + 1):
        table = s.inflation_adjustments(base)
        expect_map('adjustments', table, {y: product(rate, base, y) for y in range(Y, Y + n)}, 'adjustments from %d' % base)
        expect_eq('adjustments', sorted(table), list(range(Y, Y + n)), 'years of adjustments')
        if Y <= base < Y + n:
            f = build_inflation_adjust(table)
            for a, b in itertools.product(range(Y, Y + n), repeat=2):
                expect('table_adjust', f(b, a), product(rate, a, b), 'through the table')
    for r in ROLES:
        if case['form'] != 'defaultdict':
            expect_eq('input_changed', args[r], copies[r], "caller's %s" % r)
    return dict(ops=ops)


# ---------------------------------------------------------------- unlisted years

def value(kind, v):
    return {'scalar': v, 'list': [v, 2 * v, -1.0], 'tuple': (v, 0.5), 'dict': {'a': v, 7: 3 * v}, 'zero': 0 * v}[kind]


def scaled(val, f):
    if isinstance(val, dict):
        return {k: v * f for k, v in val.items()}
    if isinstance(val, (list, tuple)):
        return type(val)(v * f for v in val)
    return val * f


def extend_cases(tier):
    years = range(0, 7 if tier == 'thorough' else 6)
    for k in range(1, 5):
        for listed in itertools.combinations(years, k):
            for kind in ('scalar', 'list', 'tuple', 'dict', 'zero'):
                for infl in ('none', 'dict', 'call', 'scenario'):
                    yield dict(listed=list(listed), kind=kind, infl=infl)


def run_extend(case):
    rates = [0.1, -0.05, 0, 0.5, 0.02, 0.3, 0.04, 0.01, 0.2]
    scen = Scenario(Y - 1, 10, inflation=[0.25] + rates)

    def f(target, base):
        return 1.0 if case['infl'] == 'none' else product(lambda y: rates[y - Y] if Y <= y < Y + 9 else 0.25 if y == Y - 1 else 0.015, base, target)
    infl = {'none': None, 'dict': {y: f(y, Y) for y in range(Y - 40, Y + 40)}, 'call': f,
            'scenario': scen.inflation_adjust}[case['infl']]
    adj = build_inflation_adjust(infl)
    # listing order of the table must not matter
    orders = [case['listed'], case['listed'][::-1]]
    for order in orders:
        vals = {Y + i: value(case['kind'], 100.0 * (i + 1)) for i in order}
        copy = {Y + i: value(case['kind'], 100.0 * (i + 1)) for i in order}
        for i in list(range(-1, 9)) + ([-30, -12, 11, 12, 30] if case['infl'] != 'scenario' else []):
            y = Y + i
            past = [j for j in case['listed'] if j <= i]
            b = max(past) if past else min(case['listed'])
            expect_eq('nearest', nearest_year(vals, y), Y + b, 'nearest year to %d' % y)
            got = extend_inflation_adjusted(vals, adj, y)
            want = value(case['kind'], 100.0 * (b + 1))
            if b != i:
                want = scaled(want, f(y, Y + b))
                same(got, want, y)
            else:
                expect_eq('listed', got, want, 'listed year %d' % y)
                expect_eq('listed_type', type(got), type(want), 'listed year %d' % y)
        expect_eq('input_changed', vals, copy, 'table')
        expect_eq('nearest_empty', nearest_year({}, Y), None, 'nearest of nothing')
    return dict(ops=20)


def same(got, want, y):
    if isinstance(want, dict):
        expect_eq('keys', sorted(map(str, got)), sorted(map(str, want)), 'keys')
        for k in want:
            expect('extended', got[k], want[k], 'value for %d' % y)
    elif isinstance(want, (list, tuple)):
        expect_eq('type', type(got), type(want), 'type')
        expect_eq('length', len(got), len(want), 'length')
        for a, b in zip(got, want):
            expect('extended', a, b, 'value for %d' % y)
    else:
        expect('extended', got, want, 'value for %d' % y)


# ---------------------------------------------------------------- adjusters

def adjuster_cases(tier):
    for k in range(1, 5):
        for vals in itertools.product((1, 1.5, 0.8, 2), repeat=k):
            yield dict(vals=list(vals))
            if k > 1:
                yield dict(vals=list(vals), rev=1)


def run_adjuster(case):
    table = {Y + 2 * i: v for i, v in enumerate(case['vals'])}
    if case.get('rev'):
        table = dict(reversed(list(table.items())))
    f = build_inflation_adjust(table)
    for a, b in itertools.product(table, repeat=2):
        expect('adjuster', f(b, a), table[b] / table[a], 'table adjustment')
        expect('adjuster', f(target_year=b, base_year=a), table[b] / table[a], 'table adjustment by name')
        for c in table:
            expect('adjuster_compose', f(b, a) * f(c, b), f(c, a), 'composition')
    for b in table:
        expect('adjuster_default', f(b), table[b] / table[Y], 'from the first year')
    g = build_inflation_adjust(None)
    expect('adjuster_none', g(Y + 5, Y), 1, 'no inflation')
    h = build_inflation_adjust(lambda target_year, base_year=None: 3.5)
    expect('adjuster_call', h(1, 2), 3.5, 'a callable is used as it is')
    try:
        build_inflation_adjust('x')
        raise Fail('adjuster_bad', 'accepted a string')
    except TypeError:
        pass
    return dict(ops=len(table) ** 3)


# ---------------------------------------------------------------- orders of queries

class Queries:
    """Reads in any order on two scenarios built from the same inputs; replacing the scenario of an adjuster."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.rates = [0.1, 0, -0.05, 0.5]
        arg = {'list': self.rates, 'scalar': 0.125, 'dict': {Y + i: r for i, r in enumerate(self.rates)},
               'default': defaultdict(lambda: 0.125)}[cfg['form']]
        self.wide = cfg['form'] in ('scalar', 'default')
        self.s = [Scenario(Y, 4, inflation=arg, stock_return=arg), Scenario(Y + 1, 2, inflation=0.25, bond_return=arg)]
        self.rate = [lambda y: 0.125 if self.wide else self.rates[y - Y], lambda y: 0.25]
        self.adj = self.s[0].inflation_adjust
        self.at = 0
        self.log = []

    def events(self):
        ys = (Y - 2, Y + 6) if self.wide else (Y, Y + 3)
        return [['rate', ys[0]], ['rate', ys[1]], ['stock', ys[1]], ['bond', Y + 2], ['adj', ys[0], ys[1]], ['adj', ys[1], ys[0]],
                ['adj', Y + 1, Y + 3], ['table', Y + 1], ['iter'], ['swap'], ['other', Y, Y + 3]]

    def apply(self, ev):
        s, k = self.s[0], ev[0]
        self.log.append(ev)
        if k == 'rate':
            expect('rate', s.discount_rate(ev[1]), self.rate[0](ev[1]), 'discount rate')
        elif k == 'stock':
            expect('rate', s.stock_return[ev[1]], self.rate[0](ev[1]), 'stock return')
        elif k == 'bond':
            expect('rate', self.s[1].bond_return[ev[1]],
                   self.rate[0](ev[1] - (self.cfg['form'] == 'list')), 'bond return')      # lists start in the initial year
        elif k == 'adj':
            expect('adjust', self.adj(ev[2], ev[1]), product(self.rate[self.at], ev[1], ev[2]), 'adjustment')
        elif k == 'table':
            s.inflation_adjustments(ev[1])
        elif k == 'iter':
            expect_eq('years', [list(x) for x in self.s], [[Y, Y + 1, Y + 2, Y + 3], [Y + 1, Y + 2]], 'years')
        elif k == 'swap':
            self.at = 1 - self.at
            self.adj.scenario = self.s[self.at]
        else:
            expect('adjust', self.s[1].inflation_adjust(ev[2], ev[1]), product(self.rate[1], ev[1], ev[2]), 'other scenario')

    def final(self):
        for i, s in enumerate(self.s):
            for a, b in itertools.product(range(Y, Y + 4), repeat=2):
                expect('adjust_after', s.inflation_adjust(b, a), product(self.rate[i], a, b), 'after %s' % self.log)
        for b in (Y, Y + 3):
            expect('default_base', self.adj(b), product(self.rate[self.at], Y + self.at, b), 'default base after %s' % self.log)
        for base in (Y, Y + 3):
            expect_map('table', self.s[0].inflation_adjustments(base),
                       {y: product(self.rate[0], base, y) for y in range(Y, Y + 4)}, 'table after %s' % self.log)

    unmerged = True

    def canon(self):
        return self.log


FAMILIES = [
    Enum('scenarios', scenario_cases, run_scenario, 'all rate sequences in every notation; all pairs and triples of years'),
    Enum('extension', extend_cases, run_extend, 'all sets of listed years, value shapes and kinds of adjuster'),
    Enum('adjusters', adjuster_cases, run_adjuster, 'tables of cumulative inflation'),
    Hist('queries', lambda tier: [dict(form=f) for f in ('list', 'scalar', 'dict', 'default')], Queries,
         lambda tier, c: 5 if tier == 'thorough' else 4, 'every order of queries on two scenarios'),
]
