"""C11: Canadian income tax - federal plus provincial, personal amount, spousal and pension credits, indexation."""
import itertools
from ..engine import Enum, Hist, Fail, unread
from ..lib import *
from .c06 import constants, adjust, index, nearest, indexed
from .c10 import Source, SOURCES, containers
from forecaster import Person
from forecaster.canada import RRSP, TFSA, TaxableAccount
from forecaster.canada.tax import TaxCanada
from forecaster.forecast import TaxForecast

SYNTH = dict(
    TAX_BRACKETS={'Federal': {2015: {0: 0.1, 20000: 0.2, 50000: 0.4}, 2018: {0: 0.15, 30000: 0.35}},
                  'ON': {2016: {0: 0.05, 10000: 0.125, 45000: 0.25}}, 'BC': {2014: {0: 0.0625}}},
    TAX_PERSONAL_DEDUCTION={'Federal': {2016: 8000}, 'ON': {2015: 4000, 2018: 9000}, 'BC': {2016: 0}},
    TAX_PENSION_CREDIT={'Federal': {2016: 2000, 2019: 500}, 'ON': {2014: 1000}, 'BC': {2016: 0}},
    TAX_CREDIT_RATE={'Federal': {2015: 0.1, 2018: 0.15}, 'ON': {2016: 0.05}, 'BC': {2016: 0.0625}},
    TAX_SPOUSAL_AMOUNT={'Federal': {2016: 9000}, 'ON': {2015: 3000, 2018: 7000}, 'BC': {2016: 0}},
    TAX_REFUND_TIMING=0.25, TAX_PAYMENT_TIMING=0.75)

#  name: (kind, amount, ...)  taxable income, deduction, credit, pension income
HOLDINGS = {
    'none': [],
    'rrif_small': [('rrsp', -700)],
    'rrif_two': [('rrsp', -1200), ('rrsp', -1500)],
    'rrif_same': [('rrsp', -100), ('rrsp', -100), ('sub', -100), ('rrsp', -100)],
    'rrsp_in': [('rrsp', 6000)],
    'rrsp_both': [('rrsp', -1600), ('rrsp', 3000)],
    'tfsa': [('tfsa', -4000)],
    'sale': [('sale', -5000)],
    'loss': [('src', 2)],
    'big_deduct': [('src', 5)],
    'credit': [('src', 4)],
    'mixed': [('rrsp', -900), ('tfsa', 1000), ('sale', -2000), ('src', 3)],
}


class Rrif(RRSP):
    """A user's own kind of RRSP."""


def facts(holding):
    """taxable income, deduction, credit, pension income of a set of holdings."""
    inc = ded = cred = pension = 0.0
    for kind, v in HOLDINGS[holding]:
        if kind in ('rrsp', 'sub'):
            inc += max(0, -v)
            ded += max(0, v)
            pension += max(0, -v)
        elif kind == 'sale':                    # balance 8000, cost 3000: the gain is 5/8 of the proceeds, half taxable
            inc += -v * 0.625 * 0.5
        elif kind == 'src':
            inc, ded, cred = inc + SOURCES[v][0], ded + SOURCES[v][1], cred + SOURCES[v][2]
    return inc, ded, cred, pension


def open_accounts(p, holding, k, path):
    kw = dict(inflation_adjust=adjust(path), constants=k.real, contribution_room=1e6)
    for kind, v in HOLDINGS[holding]:
        if kind == 'rrsp':
            a = RRSP(p, balance=50000, **kw)
        elif kind == 'sub':
            a = Rrif(p, balance=50000, **kw)
        elif kind == 'tfsa':
            a = TFSA(p, balance=50000, **kw)
        elif kind == 'sale':
            a = TaxableAccount(p, balance=8000, acb=3000)
        else:
            Source(p, SOURCES[v])
            continue
        a.add_transaction(v, when=0.5)


class Ref:
    """One jurisdiction."""
    def __init__(self, k, j, path):
        self.k, self.j, self.path = k, j, path

    def amount(self, name, year):
        return indexed(getattr(self.k, name)[self.j], self.path, year)

    def rate(self, year):
        t = self.k.TAX_CREDIT_RATE[self.j]
        return t[nearest(t, year)]

    def gross(self, income, year):
        table = self.k.TAX_BRACKETS[self.j]
        base = nearest(table, year)
        f = index(self.path, year, base)
        b = sorted((t * f, r) for t, r in table[base].items())
        tops = [t for t, _ in b[1:]] + [INF]
        return sum(r * max(0.0, min(income, top) - t) for (t, r), top in zip(b, tops))

    def net(self, who, year):
        return who['income'] - who['ded'] - self.amount('TAX_PERSONAL_DEDUCTION', year)

    def tax(self, who, year, spousal, ded=0, cred=0):
        pension = min(who['pension'], self.amount('TAX_PENSION_CREDIT', year))
        return max(0.0, self.gross(self.net(who, year) - ded, year)
                   - (who['cred'] + pension + spousal + cred) * self.rate(year))

    def spousal(self, other, year):
        return max(0.0, self.amount('TAX_SPOUSAL_AMOUNT', year) - max(0.0, self.net(other, year)))

    def each(self, people, wed, year, ded=(0, 0), cred=(0, 0)):
        """Lists of acceptable [tax of each person]; two when net incomes tie."""
        if not wed:
            return [[self.tax(w, year, 0, ded[i], cred[i]) for i, w in enumerate(people)]]
        a, b = people
        na, nb = self.net(a, year), self.net(b, year)
        opts = []
        if na >= nb - 1e-6:
            opts.append([self.tax(a, year, self.spousal(b, year), ded[0], cred[0]), self.tax(b, year, 0, ded[1], cred[1])])
        if nb >= na - 1e-6:
            opts.append([self.tax(a, year, 0, ded[0], cred[0]), self.tax(b, year, self.spousal(a, year), ded[1], cred[1])])
        return opts


def facts_of(gross, holding):
    inc, ded, cred, pension = facts(holding)
    return dict(income=gross + inc, ded=ded, cred=cred, pension=pension)


def one_of(kind, got, wants, ctx):
    if not any(close(got, w) for w in wants):
        raise Fail(kind, '%s: got %s, expected %s' % (ctx, got, wants))


def setup(case):
    k = constants(SYNTH if case['synth'] else None)
    t = TaxCanada(adjust(case['path']) if case['path'] != 'none' else None, case['prov'], constants=k.real)
    return k, t, [Ref(k, 'Federal', case['path']), Ref(k, case['prov'], case['path'])]


def make_people(case, k, year):
    people = [Person(year, 'P%d' % i if case['year'] % 2 else 'P', 1950, retirement_date=2060, gross_income=g, tax_treatment=None)
              for i, g in enumerate(case['gross'])]
    for p, h in zip(people, case['hold']):
        open_accounts(p, h, k, case['path'])
    return people


# ---------------------------------------------------------------- amounts of money

def money_cases(tier):
    for synth, prov in ((0, 'BC'), (1, 'ON'), (1, 'BC')):
        for path in ('none', 'two', 'ramp', 'deflation'):
            for y in (*range(2013, 2021), 2034, 2051):
                yield dict(synth=synth, prov=prov, path=path, year=y)


def run_money(case):
    k, t, refs = setup(case)
    y = case['year']
    xs = {-10.0, 0.0, 1.0, 5000.0, 400000.0}
    for r in refs:
        for table in (k.TAX_BRACKETS[r.j],):
            for base in table:
                for thr in table[base]:
                    for f in (1, index(case['path'], y, base)):
                        xs |= {thr * f, thr * f + 1, thr * f - 1}
    n = 0
    for x in sorted(xs):
        each = [r.gross(x, y) for r in refs]
        expect('money', t(x, y), sum(each), 'tax on %s in %d' % (x, y))
        expect('federal', t.federal_tax(x, y), each[0], 'federal tax')
        expect('provincial', t.provincial_tax(x, y), each[1], 'provincial tax')
        fd, pc = {}, {}
        for ded, cred in ((700, 0), (0, 55), (1e6, 10)):
            want = [max(0, r.gross(x - ded, y) - cred * r.rate(y)) for r in refs]
            expect('federal_extra', t(x, y, federal_deduction=ded, federal_credit=cred), want[0] + each[1], 'federal extras')
            expect('provincial_extra', t(x, y, provincial_deduction=ded, provincial_credit=cred), each[0] + want[1], 'provincial extras')
            mine = ({t.federal_tax: 3}, {t.provincial_tax: 4})
            expect('mixed_extra', t(x, y, federal_deduction=ded, provincial_credit=cred, deductions=mine[0], credits_=mine[1]),
                   max(0, refs[0].gross(x - ded, y)) + max(0, refs[1].gross(x, y) - cred * refs[1].rate(y)), 'both kinds of extras')
            expect_eq('changed', mine, ({t.federal_tax: 3}, {t.provincial_tax: 4}), "caller's mappings")
            expect('named_extra', t(x, y, deductions={t.federal_tax: ded, t.provincial_tax: 2 * ded},
                                    credits_={t.federal_tax: 3 * cred, t.provincial_tax: cred}),
                   max(0, refs[0].gross(x - ded, y) - 3 * cred * refs[0].rate(y)) + max(0, refs[1].gross(x - 2 * ded, y) - cred * refs[1].rate(y)),
                   'extras by jurisdiction')
            for v in (0, None):
                expect('no_extra', t(x, y, v, v, v, v, deductions=None if v is None else {}, credits_=None), sum(each), 'extras of %s' % v)
                expect('zero_extra', t(x, y, federal_deduction=0, deductions={t.federal_tax: 900}), sum(each), 'an explicit deduction of 0')
            n += 3
    expect('personal', t.federal_tax.personal_deduction(y), refs[0].amount('TAX_PERSONAL_DEDUCTION', y), 'federal personal amount')
    expect('personal', t.provincial_tax.personal_deduction(y), refs[1].amount('TAX_PERSONAL_DEDUCTION', y), 'provincial personal amount')
    expect_map('timing', t.refund_timing, {float(k.TAX_REFUND_TIMING): 1}, 'refund timing')
    expect_map('timing', t.payment_timing, {float(k.TAX_PAYMENT_TIMING): 1}, 'payment timing')
    for kw in (dict(refund_timing=0.125), dict(payment_timing=1), dict(refund_timing={0: 1, 0.5: 3}, payment_timing='end')):
        u = TaxCanada(adjust(case['path']) if case['path'] != 'none' else None, case['prov'], constants=k.real, **kw)
        for side in (u, u.federal_tax, u.provincial_tax):
            for name, c in (('refund_timing', k.TAX_REFUND_TIMING), ('payment_timing', k.TAX_PAYMENT_TIMING)):
                v = kw.get(name, float(c))
                expect_map('timing_given', getattr(side, name), v if isinstance(v, dict) else {dict(end=1).get(v, v): 1}, name)
    return dict(ops=n)


# ---------------------------------------------------------------- households

GROSS = (0, 9000, 13000, 20000, 23000, 60000, 250000)


def household_cases(tier):
    worlds = [(0, 'BC', 'none', 2017), (0, 'BC', 'two', 2020), (1, 'ON', 'two', 2017), (1, 'ON', 'ramp', 2019),
              (1, 'BC', 'deflation', 2016), (0, 'BC', 'ramp', 2036)]
    if tier == 'thorough':
        worlds += [(0, 'BC', 'ramp', 2015), (1, 'ON', 'none', 2015), (1, 'ON', 'deflation', 2020)]
    for w, (synth, prov, path, year) in enumerate(worlds):
        base = dict(synth=synth, prov=prov, path=path, year=year)
        for g in GROSS + (16000, 46000):
            for h in HOLDINGS:
                yield dict(base, gross=[g], hold=[h], wed=False)
        holds = list(HOLDINGS) if tier == 'thorough' else ['none', 'rrif_small', 'rrsp_in', 'sale', 'big_deduct', 'mixed']
        for g in itertools.product(GROSS if tier == 'thorough' else GROSS[::2] + (20000,), repeat=2):
            for h in itertools.product(holds, repeat=2):
                for wed in (True, False):
                    yield dict(base, gross=list(g), hold=list(h), wed=wed)


def run_household(case):
    k, t, refs = setup(case)
    y = case['year']
    people = make_people(case, k, y)
    who = [facts_of(g, h) for g, h in zip(case['gross'], case['hold'])]
    if case['wed']:
        people[0].spouse = people[1]
    for p, w in zip(people, who):
        expect('income', p.taxable_income, w['income'], 'taxable income')
        expect('deduction', p.tax_deduction, w['ded'], 'deductions')
    opts = [r.each(who, case['wed'], y) for r in refs]
    ops = 0
    totals = [f + p for f in map(sum, opts[0]) for p in map(sum, opts[1])]
    for kind, c in containers(people):
        one_of('household', t(c, y), totals, 'household tax (%s)' % kind)
        ops += 1
    for j, (jt, o) in enumerate(zip((t.federal_tax, t.provincial_tax), opts)):
        got = [jt(p, y) for p in people]
        if not any(all(close(a, b) for a, b in zip(got, w)) for w in o):
            raise Fail('person', 'jurisdiction %d: taxes of each person %s, expected one of %s' % (j, got, o))
        check('negative', all(v >= 0 for v in got), 'negative tax')
        expect('sum', jt(people, y), sum(got), 'sum of the persons')
        ops += 3
    if case['wed']:
        single = sum(sum(r.each(who, False, y)[0]) for r in refs)
        saved = single - float(t(people, y))
        most = sum(r.amount('TAX_SPOUSAL_AMOUNT', y) * r.rate(y) for r in refs)
        check('spousal_increases', saved >= -1e-6, 'marriage increases tax by %s' % -saved)
        check('spousal_max', saved <= most + 1e-6, 'spousal credit %s above the maximum %s' % (saved, most))
        for i in (0, 1):
            one_of('alone', t(people[i], y), [f[i] + p[i] for f in opts[0] for p in opts[1]], 'person %d assessed alone' % i)
            one_of('alone', t({people[i]}, y), [f[i] + p[i] for f in opts[0] for p in opts[1]], 'person %d in a set' % i)
    ded, cred = {people[0]: 400}, {people[-1]: 90}
    d, c = [400] + [0] * (len(people) - 1), [0] * (len(people) - 1) + [90]
    more = [[sum(o) for o in r.each(who, case['wed'], y, d, c)] for r in refs]
    one_of('extra', t(people, y, federal_deduction=ded, provincial_credit=cred),
           [f + p for f in [sum(o) for o in refs[0].each(who, case['wed'], y, d, [0] * 2)]
            for p in [sum(o) for o in refs[1].each(who, case['wed'], y, [0] * 2, c)]], 'federal deduction, provincial credit')
    one_of('extra', t(people, y, federal_deduction=ded, provincial_deduction=ded, federal_credit=cred, provincial_credit=cred),
           [f + p for f in more[0] for p in more[1]], 'extras in both')
    return dict(ops=ops)


# ---------------------------------------------------------------- several years

class Years:
    """A couple over several years: incomes and withdrawals change, they marry and part; every assessed year is checked
    both in the year and afterwards, and the year's refund."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.k, self.t, self.refs = setup(cfg)
        self.year = cfg['year']
        self.path = cfg['path']
        self.people = [Person(self.year, 'P%d' % i, 1950, retirement_date=2060, gross_income=g, tax_treatment=self.t)
                       for i, g in enumerate(cfg['gross'])]
        kw = dict(inflation_adjust=adjust(self.path), constants=self.k.real, contribution_room=1e6)
        self.rrsp = [RRSP(p, balance=40000, **kw) for p in self.people]
        self.gross = list(cfg['gross'])
        self.tx = [0.0, 0.0]
        self.inflow = [0.0, 0.0]
        self.wed = False
        self.fc = TaxForecast(self.year, self.people, self.t)
        self.past = {}
        self.check()

    def events(self):
        return [['year'], ['wed'], ['part'], ['out', 0], ['out', 1], ['in', 0], ['gross', 0, 0], ['gross', 1, 30000], ['ask']]

    def now(self):
        return [dict(income=self.gross[i] + self.tx[i], ded=self.inflow[i], cred=0, pension=self.tx[i]) for i in (0, 1)]

    def apply(self, ev):
        k = ev[0]
        if k == 'year':
            who = self.now()
            owing = [f + p for f in [sum(o) for o in self.refs[0].each(who, self.wed, self.year)]
                     for p in [sum(o) for o in self.refs[1].each(who, self.wed, self.year)]]
            held = sum(r.gross(g, self.year) for r in self.refs for g in self.gross)
            held += sum(float(a.tax_withheld) for a in self.rrsp)
            one_of('owing', self.fc.tax_owing, owing, 'tax owing')
            expect('withheld', self.fc.tax_withheld, held, 'tax withheld')
            one_of('refund', self.fc.tax_adjustment, [held - o for o in owing], 'refund')
            self.past[self.year] = who
            for x in [self.fc] + self.people + self.rrsp:
                x.next_year()
            self.year += 1
            self.tx, self.inflow = [0.0, 0.0], [0.0, 0.0]
        elif k == 'wed':
            self.people[1].spouse = self.people[0]
            self.wed = True
        elif k == 'part':
            self.people[0].spouse = None
            self.wed = False
        elif k == 'out':
            self.rrsp[ev[1]].add_transaction(-1500, when=0.5)
            self.tx[ev[1]] += 1500
        elif k == 'in':
            self.rrsp[ev[1]].add_transaction(2500, when=0)
            self.inflow[ev[1]] += 2500
        elif k == 'gross':
            self.people[ev[1]].gross_income = ev[2]
            self.gross[ev[1]] = ev[2]
        else:
            self.t(50000, self.year + 2), self.t(50000, self.year - 3)
        self.check()

    def check(self):
        for y, who in list(self.past.items()) + [(self.year, self.now())]:
            opts = [r.each(who, self.wed, y) for r in self.refs]
            one_of('household', self.t(set(self.people), y), [sum(f) + sum(p) for f in opts[0] for p in opts[1]],
                   'tax for %d assessed in %d' % (y, self.year))

    def canon(self):
        return (self.year, self.gross, self.tx, self.inflow, self.wed, sorted((y, repr(w)) for y, w in self.past.items()))


def year_configs(tier):
    for synth, prov, path, year in ((0, 'BC', 'two', 2017), (1, 'ON', 'ramp', 2016), (1, 'ON', 'two', 2014), (1, 'BC', 'deflation', 2017)):
        for g in ([60000, 14000], [12000, 20000]):
            yield dict(synth=synth, prov=prov, path=path, year=year, gross=g)


FAMILIES = [
    Enum('money', money_cases, run_money, 'amounts around every threshold of both jurisdictions, with extras'),
    Enum('households', household_cases, run_household,
         'one or two people, incomes on both sides of every credit limit, holdings, married or not, all orders'),
    Hist('years', year_configs, Years, lambda tier, c: 6 if tier == 'thorough' else 4,
         'incomes, pension withdrawals, marriage over consecutive years, current and past assessments'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('years',)]
