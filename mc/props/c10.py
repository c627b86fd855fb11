"""C10: household tax - each person once, each source once; jurisdictions add up; refunds are tax less withholding."""
import itertools
from ..engine import Enum, Hist, Fail, unread
from ..lib import *
from .c09 import Ref, make
from forecaster import Person
from forecaster.accounts import Account
from forecaster.ledger import recorded_property
from forecaster.tax import Tax, TaxMulti
from forecaster.forecast import TaxForecast
from forecaster.utility import Timing

Y = 2010
NAMES = ('taxable_income', 'tax_deduction', 'tax_credit', 'tax_withheld')
#          income, deduction, credit, withheld
SOURCES = ((0, 0, 0, 0), (700, 0, 0, 90), (-400, 150, 0, 0), (1500, 300, 40, 200), (0, 50, 400, 10), (250, 5000, 7, 0))
INCOMES = (0, 600, 1900, 40000)
JUR = (('two', 'one', 'one', 'wave'), ('changes', 'two', 'two', 'up'), ('gap', 'none', 'none', 'real'))


class Source(Account):
    """An account whose tax attributes are whatever it's told."""
    def __init__(self, owner, src, **kw):
        self.src = dict(zip(NAMES, src))
        super().__init__(owner, **kw)

    @recorded_property
    def taxable_income(self):
        return self.src['taxable_income']

    @recorded_property
    def tax_deduction(self):
        return self.src['tax_deduction']

    @recorded_property
    def tax_credit(self):
        return self.src['tax_credit']

    @recorded_property
    def tax_withheld(self):
        return self.src['tax_withheld']


def person_tax(ref, year, gross, srcs, ded=0, cred=0):
    inc = gross + sum(s[0] for s in srcs)
    d = ref.personal(year) + sum(s[1] for s in srcs) + ded
    return ref.tax(inc, year, d, sum(s[2] for s in srcs) + cred)


def containers(people):
    yield 'set', set(people)
    yield 'frozenset', frozenset(people)
    for perm in itertools.permutations(people):
        yield 'list', list(perm)
    yield 'tuple', tuple(reversed(people))
    yield 'generator', (p for p in people)
    yield 'dict', {p: None for p in people}
    if people:
        yield 'repeated', list(people) + [people[0]]


# ---------------------------------------------------------------- groups

def household_cases(tier):
    # one person, all pairs of sources, all incomes
    for g in INCOMES:
        for k in range(3):
            for ss in itertools.combinations_with_replacement(range(len(SOURCES)), k):
                yield dict(n=1, gross=[g], acc=[list(ss)], wed=None)
    picks = ([], [1], [2, 3], [4], [3, 1], [5, 1], [0])
    for wed in (None, [0, 1]):
        for g in itertools.product(INCOMES[1:] if tier == 'quick' else INCOMES, repeat=2):
            for acc in itertools.product(picks if tier == 'thorough' else picks[:6], repeat=2):
                yield dict(n=2, gross=list(g), acc=[list(a) for a in acc], wed=wed)
    small = ([], [3], [2, 4]) if tier == 'quick' else ([], [3], [2, 4], [1, 1], [5])
    for wed in (None, [0, 1], [1, 2], [0, 2]):
        for g in ((600, 1900, 0), (40000, 0, 600), (1900, 1900, 1900)):
            for acc in itertools.product(small, repeat=3):
                yield dict(n=3, gross=list(g), acc=[list(a) for a in acc], wed=wed)


def household(case, treatment=None):
    people = [Person(Y, 'P%d' % i, 1970, retirement_date=2060, gross_income=case['gross'][i], tax_treatment=treatment)
              for i in range(case['n'])]
    if case['wed']:
        a, b = case['wed']
        people[a].spouse = people[b]
    accounts = [[Source(people[i], SOURCES[k]) for k in case['acc'][i]] for i in range(case['n'])]
    return people, accounts


def run_household(case):
    refs = [Ref(*j) for j in JUR]
    taxes = [make(*j)[0] for j in JUR]
    n = case['n']
    people, _ = household(case)
    srcs = [[SOURCES[k] for k in case['acc'][i]] for i in range(n)]
    ops = 0
    for i, p in enumerate(people):
        for name, k in (('taxable_income', 0), ('tax_deduction', 1), ('tax_credit', 2)):
            expect('person_' + name, getattr(p, name), sum(s[k] for s in srcs[i]) + (case['gross'][i] if k == 0 else 0), name)
    extra = {0: (130, 0), n - 1: (0, 25)}
    for y in (Y,):
        for r in range(n + 1):
            for sub in itertools.combinations(range(n), r):
                group = [people[i] for i in sub]
                one = [sum(person_tax(ref, y, case['gross'][i], srcs[i]) for i in sub) for ref in refs]
                more = [sum(person_tax(ref, y, case['gross'][i], srcs[i], 130 if i == 0 else 0, 25 if i == n - 1 else 0)
                            for i in sub) for ref in refs]
                ded, cred = {people[0]: 130}, {people[n - 1]: 25}
                for kind, c in containers(group):
                    expect('group', taxes[0](c, y), one[0], 'tax of %s %s' % (kind, sub))
                    ops += 1
                for kind, c in containers(group):
                    expect('multi', TaxMulti(taxes)(c, y), sum(one), 'three jurisdictions, %s %s' % (kind, sub))
                    ops += 1
                for kind, c in containers(group):
                    expect('group_extra', taxes[1](c, y, deduction=ded, credit=cred), more[1], 'extra, %s %s' % (kind, sub))
                    ops += 1
                expect('multi_extra', TaxMulti(taxes[:2])(list(group), y, deductions={taxes[1]: ded}, credits_={taxes[1]: cred}),
                       one[0] + more[1], 'two jurisdictions, deductions in one')
                expect('tax_people', taxes[2].tax_people(group, y, ded, cred), more[2], 'tax_people')
                expect('multi_people', TaxMulti(taxes).tax_people(iter(group), y), sum(one), 'TaxMulti.tax_people')
                expect('multi_people', TaxMulti(taxes).tax_people(group, y, {taxes[0]: ded}, {taxes[0]: cred}),
                       more[0] + one[1] + one[2], 'TaxMulti.tax_people, deductions in one')
                expect_eq('changed', (ded, cred), ({people[0]: 130}, {people[n - 1]: 25}), "caller's mappings")
                if r == 1:
                    p, i = group[0], sub[0]
                    expect('single', taxes[0](p, y), one[0], 'one person')
                    expect('multi_single', TaxMulti(taxes)(p, y), sum(one), 'one person, three jurisdictions')
                    expect('multi_single', TaxMulti(taxes).tax_person(p, y), sum(one), 'TaxMulti.tax_person')
                    expect('single_extra', taxes[1](p, y, deduction=60, credit=9),
                           person_tax(refs[1], y, case['gross'][i], srcs[i], 60, 9), 'one person, extra deduction and credit')
                    expect('multi_single_extra', TaxMulti(taxes)(p, y, deductions={taxes[1]: 60}, credits_={taxes[1]: 9, taxes[0]: 3}),
                           one[2] + person_tax(refs[1], y, case['gross'][i], srcs[i], 60, 9)
                           + person_tax(refs[0], y, case['gross'][i], srcs[i], 0, 3), 'one person, extras in two of three')
                    m = TaxMulti(taxes)
                    for name, f in (('deduction', lambda t: t.deduction(p, y)), ('credit', lambda t: t.credit(p, y)),
                                    ('personal_deduction', lambda t: t.personal_deduction(y)), ('credit_rate', lambda t: t.credit_rate(y))):
                        expect('multi_first', f(m), f(taxes[0]), '%s of several jurisdictions (documented: of the first)' % name)
                        expect('multi_first', f(TaxMulti(taxes[::-1])), f(taxes[-1]), '%s of several jurisdictions, reversed' % name)
                    for k, t in enumerate(taxes):
                        expect('deduction', t.deduction(p, y), sum(s[1] for s in srcs[i]) + refs[k].personal(y), 'deductions')
                        expect('credit', t.credit(p, y), sum(s[2] for s in srcs[i]), 'credits')
                every = {p: 40 * (j + 1) for j, p in enumerate(people)}
                full = [sum(person_tax(ref, y, case['gross'][i], srcs[i], 40 * (i + 1), 40 * (i + 1)) for i in sub) for ref in refs]
                expect('group_every', taxes[0](list(group), y, deduction=every, credit=every), full[0], 'extras for everyone, %s' % (sub,))
                expect('multi_every', TaxMulti(taxes)(set(group), y, deductions={t: every for t in taxes}, credits_={t: every for t in taxes}),
                       sum(full), 'extras for everyone everywhere, %s' % (sub,))
                if r == 2:
                    expect('spouses', taxes[0].tax_spouses(group, y, every, every), full[0], 'tax_spouses, extras for both')
                    expect('spouses', taxes[0].tax_spouses(set(group), y), one[0], 'tax_spouses')
                    expect('spouses', taxes[1].tax_spouses(group, y, {people[0]: 130}, {people[n - 1]: 25}), more[1], 'tax_spouses')
                    expect('multi_spouses', TaxMulti(taxes).tax_spouses(group, y), sum(one), 'TaxMulti.tax_spouses')
                    expect('multi_spouses', TaxMulti(taxes).tax_spouses(group, y, {taxes[1]: ded}, {taxes[1]: cred}),
                           one[0] + more[1] + one[2], 'TaxMulti.tax_spouses, deductions in one')
    return dict(ops=ops)


# ---------------------------------------------------------------- couples taxed together

class Joint(Tax):
    """A treatment under which spouses share their income equally and get 10 back (the documented way to extend Tax)."""
    def tax_spouses(self, people, year, deduction=None, credit=None):
        a, b = people
        ded, cred = deduction or {}, credit or {}
        half = sum(p.taxable_income - self.deduction(p, year) - ded.get(p, 0) for p in (a, b)) / 2
        return 2 * self(max(half, 0), year) - sum(cred.get(p, 0) for p in (a, b)) - 10


def joint_cases(tier):
    couples = ([], [[0, 1]], [[2, 3]], [[0, 1], [2, 3]], [[0, 3], [1, 2]], [[1, 3]])
    for wed in couples:
        for g in itertools.product((0, 900, 30000), repeat=4):
            if tier == 'thorough' or len(set(g)) > 1:
                yield dict(wed=wed, gross=list(g))


def run_joint(case):
    rates = {Y: {0: 0.1, 1000: 0.2, 20000: 0.4}}
    one, two = (Joint({Y: {k: v * f for k, v in rates[Y].items()}}, personal_deduction={Y: 100}, credit_rate={Y: 1}) for f in (1, 2))
    people = [Person(Y, 'P%d' % i, 1970, retirement_date=2060, gross_income=case['gross'][i]) for i in range(4)]
    for a, b in case['wed']:
        people[a].spouse = people[b]

    def levy(x, f):
        return f * (0.1 * min(max(x, 0), 1000) + 0.2 * min(max(x - 1000, 0), 19000) + 0.4 * max(x - 20000, 0))

    def want(sub, f, ded=(), cred=()):
        """Tax of the people in `sub` at `f` times the rates."""
        total, left = 0.0, set(sub)
        for a, b in case['wed']:
            if a in left and b in left:
                net = sum(case['gross'][i] - 100 - dict(ded).get(i, 0) for i in (a, b)) / 2
                gain = sum(dict(cred).get(i, 0) for i in (a, b))
                # (the treatment above passes money to the taxing of an amount, which deducts nothing)
                total += 2 * levy(max(net, 0), f) - gain - 10
                left -= {a, b}
        for i in left:
            x = case['gross'][i] - 100 - dict(ded).get(i, 0)
            total += max(0.0, levy(x, f) - min(dict(cred).get(i, 0), levy(x, f)))
        return total

    one.payment_timing, two.payment_timing, one.refund_timing, two.refund_timing = 0.25, 0.5, {0: 1, 1: 1}, 'end'
    first = dict(payment_timing={0.25: 1}, refund_timing={0: 1, 1: 1})
    second = dict(payment_timing={0.5: 1}, refund_timing={1: 1})
    for name in first:
        expect_map('multi_timing', getattr(TaxMulti([one, two]), name), first[name], '%s is that of the first jurisdiction' % name)
        expect_map('multi_timing', getattr(TaxMulti([two, one]), name), second[name], '%s is that of the first jurisdiction' % name)
    ops = 0
    for r in range(5):
        for sub in itertools.combinations(range(4), r):
            for kind, c in containers([people[i] for i in sub][:4]) if r < 3 else [('list', [people[i] for i in sub]), ('set', {people[i] for i in sub})]:
                c = list(c)
                expect('joint', one(c, Y), want(sub, 1), 'treatment with joint filing, %s %s' % (kind, sub))
                expect('joint', TaxMulti([one, two])(c, Y), want(sub, 1) + want(sub, 2), 'two such treatments, %s %s' % (kind, sub))
                ops += 2
            ded = {i: 50 * (i + 1) for i in sub}
            expect('joint_extra', one([people[i] for i in sub], Y, deduction={people[i]: ded[i] for i in sub}, credit={people[i]: 3 for i in sub}),
                   want(sub, 1, ded, {i: 3 for i in sub}), 'joint filing with deductions and credits, %s' % (sub,))
            ops += 1
    return dict(ops=ops)


# ---------------------------------------------------------------- several jurisdictions, amounts

def multi_cases(tier):
    scheds = ('one', 'two', 'free', 'gap', 'changes', 'unsorted', 'regress')
    for k in (1, 2, 3):
        for js in itertools.product(scheds, repeat=k):
            if k == 3 and tier == 'quick' and len(set(js)) < 3:
                continue
            for path in ('real', 'up'):
                yield dict(js=list(js), path=path)


def run_multi(case):
    refs = [Ref(s, 'one', 'two', case['path']) for s in case['js']]
    taxes = [make(s, 'one', 'two', case['path'])[0] for s in case['js']]
    m = TaxMulti(taxes)
    ops = 0
    for y in (2010, 2012, 2009, 2015):
        keys = sorted({t for ref in refs for t, _ in ref.brackets(y)})
        probe = sorted({k + d for k in keys for d in (-50, 0.5, 60)} | {0, -5, 1e5})
        got = m.tax_brackets(y)
        for x in probe:
            expect('multi_money', m(x, y), sum(r.tax(x, y) for r in refs), 'tax on %s in %d' % (x, y))
            expect('multi_tax_money', m.tax_money(x, y), sum(r.tax(x, y) for r in refs), 'tax_money on %s in %d' % (x, y))
            expect('multi_ded', m(x, y, deductions={taxes[0]: 70}, credits_={taxes[-1]: 8}),
                   sum(r.tax(x, y, 70 if i == 0 else 0, 8 if i == len(refs) - 1 else 0) for i, r in enumerate(refs)),
                   'with a deduction in the first and a credit in the last')
            lo = max(k for k in got if k <= max(x, min(keys)))
            if x > max(min(k for k, _ in r.brackets(y)) for r in refs):
                expect('multi_marginal', m.marginal_rate(x, y), sum(r.marginal(x, y)[1] for r in refs), 'marginal rate at %s' % x)
                if all(abs(x - k) > 1e-6 for k in keys):
                    expect('multi_brackets', got[lo], sum(r.marginal(x, y)[1] for r in refs), 'combined bracket at %s' % x)
            if x >= min(keys):
                ks = sorted(got)
                expect('multi_brackets_tax', sum(got[a] * max(0.0, min(x, b) - a) for a, b in zip(ks, ks[1:] + [INF])),
                       sum(r.tax(x, y) for r in refs), 'tax on %s by the combined brackets' % x)
            expect('multi_marginal_bracket', m.marginal_bracket(x, y), max(r.marginal(x, y)[0] for r in refs), 'top bracket at %s' % x)
            ops += 4
        acc = m.accum(y)
        for k in got:
            expect('multi_accum', acc[k], sum(r.gross(k, y) for r in refs), 'accumulated tax at %s' % k)
            expect('multi_accum', m.accum(y, k), acc[k], 'accum(year, bracket)')
            expect('multi_brackets', m.tax_brackets(y, k), got[k], 'tax_brackets(year, bracket)')
    return dict(ops=ops)


# ---------------------------------------------------------------- histories

class Household:
    """Three people and three income sources: marry, part, move an account, change a source or an income, advance.
    The tax of every group, this year and last, and the year's refund are compared after every event."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.n = 3
        self.refs = [Ref(*j) for j in JUR[:2]]
        self.taxes = [make(*j)[0] for j in JUR[:2]]
        self.multi = TaxMulti(self.taxes)
        self.treat = {'none': None, 'tax': self.taxes[0], 'multi': self.multi}[cfg['treat']]
        self.year = Y
        self.gross = [600, 1900, 40000]
        self.people = [Person(Y, 'P%d' % i, 1970, retirement_date=2060, gross_income=self.gross[i], tax_treatment=self.treat)
                       for i in range(3)]
        self.owner = [0, 0, 1]
        self.src = [1, 3, 2]
        self.acc = [Source(self.people[o], SOURCES[s]) for o, s in zip(self.owner, self.src)]
        self.spouse = [None] * 3
        self.past = {}
        self.forecasts = {}
        for name, t in (('one', self.taxes[0]), ('multi', self.multi)):
            people = self.people if name == 'multi' else set(self.people)
            self.forecasts[name] = TaxForecast(Y, people, t)
        self.check()

    def events(self):
        ev = [['year']]
        ev += [['move', k, i] for k in range(2) for i in range(3) if self.owner[k] != i]
        ev += [['source', k, s] for k in range(2) for s in (3, 4, 2) if self.src[k] != s]
        ev += [['gross', 0, 1500], ['gross', 2, 0], ['wed', 0, 1], ['wed', 2, 1], ['part', 1]]
        return ev

    def snapshot(self):
        out = []
        for i in range(3):
            srcs = [SOURCES[self.src[k]] for k in range(3) if self.owner[k] == i]
            out.append((self.gross[i], srcs))
        return out

    def withheld_gross(self, i):
        if self.treat is None:
            return 0.0
        refs = self.refs[:1] if self.cfg['treat'] == 'tax' else self.refs
        return sum(r.tax(self.gross[i], self.year) for r in refs)

    def apply(self, ev):
        k = ev[0]
        if k == 'year':
            self.past[self.year] = self.snapshot()
            wh = sum(self.withheld_gross(i) for i in range(3)) + sum(SOURCES[s][3] for s in self.src)
            want = {}
            for name, f in self.forecasts.items():
                refs = self.refs[:1] if name == 'one' else self.refs
                owe = sum(person_tax(r, self.year, g, s) for r in refs for g, s in self.past[self.year])
                expect('refund', f.tax_adjustment, wh - owe, 'refund (%s)' % name)
                expect('owing', f.tax_owing, owe, 'owing (%s)' % name)
                expect('withheld', f.tax_withheld, wh, 'withheld (%s)' % name)
                want[name] = (wh - owe, owe, wh)
                f.next_year()
                for h, v in zip(('tax_adjustment', 'tax_owing', 'tax_withheld'), want[name]):
                    expect('recorded', getattr(f, '_%s_history' % h)[self.year], v, '%s of the closed year' % h)
            for x in self.people + self.acc:
                x.next_year()
            self.year += 1
        elif k == 'move':
            self.acc[ev[1]].owner = self.people[ev[2]]
            self.owner[ev[1]] = ev[2]
        elif k == 'source':
            self.acc[ev[1]].src = dict(zip(NAMES, SOURCES[ev[2]]))
            self.src[ev[1]] = ev[2]
        elif k == 'gross':
            self.people[ev[1]].gross_income = ev[2]
            self.gross[ev[1]] = ev[2]
        elif k == 'wed':
            self.people[ev[1]].spouse = self.people[ev[2]]
            for x in (ev[1], ev[2]):
                if self.spouse[x] is not None:
                    self.spouse[self.spouse[x]] = None
            self.spouse[ev[1]], self.spouse[ev[2]] = ev[2], ev[1]
        else:
            self.people[ev[1]].spouse = None
            if self.spouse[ev[1]] is not None:
                self.spouse[self.spouse[ev[1]]] = None
            self.spouse[ev[1]] = None
        self.check()

    def check(self):
        cur = self.snapshot()
        for year, snap in list(self.past.items()) + [(self.year, cur)]:
            for grp in ((0, 1, 2), (0, 1), (1, 2), (0,), (2,)):
                for r, t in zip(self.refs, self.taxes):
                    expect('group', t([self.people[i] for i in grp], year), sum(person_tax(r, year, *snap[i]) for i in grp),
                           'tax of %s for %d in %d' % (grp, year, self.year))
            expect('multi', self.multi(set(self.people), year), sum(person_tax(r, year, *s) for r in self.refs for s in snap),
                   'both jurisdictions for %d in %d' % (year, self.year))
        for i, p in enumerate(self.people):
            expect('withheld_gross', p.tax_withheld, self.withheld_gross(i), 'withheld on salary')

    def canon(self):
        return (self.year, self.owner, self.src, self.gross, self.spouse, sorted(self.past.items()))


FAMILIES = [
    Enum('households', household_cases, run_household,
         'one to three people, spouses, accounts, all subsets, orders and containers, extra deductions and credits'),
    Enum('couples', joint_cases, run_joint, 'a treatment that taxes spouses together: every couple in a group once, together'),
    Enum('jurisdictions', multi_cases, run_multi, 'one to three jurisdictions with aligned and unaligned brackets'),
    Hist('household_history', lambda tier: [dict(treat=t) for t in ('none', 'tax', 'multi')], Household,
         lambda tier, c: 5 if tier == 'thorough' else 3,
         'marry, part, move accounts, change sources and incomes, advance; every group every year'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('household_history',)]
