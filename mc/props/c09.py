"""C09: tax on income - marginal brackets, indexation, deductions and credits, query-order independence."""
import itertools
from ..engine import Enum, Hist, Fail
from ..lib import *
from forecaster import Person
from forecaster.tax import Tax

SCHEDULES = {
    'one': {2010: {0: 0.25}},
    'two': {2010: {0: 0.125, 1000: 0.5}},
    'free': {2010: {200: 0.25, 1000: 0.375}},
    'regress': {2010: {0: 0.5, 400: 0.25, 1000: 0.125}},
    'gap': {2010: {0: 0.1, 1000: 0.0, 3000: 0.3}},
    'changes': {2010: {0: 0.1, 1000: 0.2}, 2013: {0: 0.15, 500: 0.25, 2000: 0.3}},
    'unsorted': {2014: {2000: 0.3, 0: 0.15, 500: 0.25}, 2008: {1000: 0.2, 0: 0.1}, 2011: {0: 0.05, 1500: 0.4}},
    'flatyear': {2010: {0: 0.1, 1000: 0.2}, 2011: {0: 0.1}},
}
# every order in which four brackets can be listed
for _n in range(6):
    SCHEDULES['order%d' % _n] = {
        2008 + 2 * _j: {b: {0: 0.1, 500: 0.2, 1500: 0.15, 2000: 0.4}[b]
                        for b in list(itertools.permutations((0, 500, 1500, 2000)))[4 * _n + _j]} for _j in range(4)}
DEDUCT = {'none': {}, 'one': {2010: 300}, 'two': {2012: 500, 2009: 100}}
CREDIT = {'none': {}, 'one': {2010: 0.2}, 'two': {2012: 0.25, 2009: 0.125}}
PATHS = {
    'real': None,
    'up': {y: 1.25 ** (y - 2010) for y in range(2000, 2030)},
    'wave': {y: (1, 1.5, 0.75, 1.25, 2, 0.5)[y % 6] for y in range(2000, 2030)},
    'call': 'call',
}
YEARS = (2007, 2008, 2009, 2010, 2011, 2012, 2013, 2014, 2016)


def index(path, year, base):
    p = PATHS[path]
    if p is None:
        return 1.0
    if p == 'call':
        return 1 + 0.0625 * (year - base)      # does not compose: shows which base year was used
    return p[year] / p[base]


def adjust(path):
    p = PATHS[path]
    return (lambda target_year, base_year: index(path, target_year, base_year)) if p == 'call' else p


def nearest(vals, year):
    past = [y for y in vals if y <= year]
    return max(past) if past else min(vals)


class Ref:
    def __init__(self, schedule, deduct='none', credit='none', path='real'):
        self.sch = {y: dict(b) for y, b in SCHEDULES[schedule].items()}
        self.ded, self.cred, self.path = DEDUCT[deduct], CREDIT[credit], path

    def brackets(self, year):
        base = nearest(self.sch, year)
        f = index(self.path, year, base) if base != year else 1.0
        return sorted((t * f, r) for t, r in self.sch[base].items())

    def gross(self, income, year):
        b = self.brackets(year)
        tops = [t for t, _ in b[1:]] + [INF]
        return sum(r * max(0.0, min(income, top) - t) for (t, r), top in zip(b, tops))

    def tax(self, income, year, deduction=0, credit=0):
        return max(0.0, self.gross(income - deduction, year) - credit * self.credit_rate(year))

    def marginal(self, income, year):
        b = self.brackets(year)
        return max([(t, r) for t, r in b if t < income], default=b[0])

    def personal(self, year):
        if not self.ded:
            return 0.0
        base = nearest(self.ded, year)
        return self.ded[base] * (index(self.path, year, base) if base != year else 1.0)

    def credit_rate(self, year):
        return self.cred[nearest(self.cred, year)] if self.cred else 1.0

    def accum(self, year):
        return {t: self.gross(t, year) for t, _ in self.brackets(year)}


def make(schedule, deduct='none', credit='none', path='real'):
    sch = {y: dict(b) for y, b in SCHEDULES[schedule].items()}
    ded, cred = dict(DEDUCT[deduct]), dict(CREDIT[credit])
    p = adjust(path)
    p = dict(p) if isinstance(p, dict) else p
    return Tax(sch, personal_deduction=ded, credit_rate=cred, inflation_adjust=p), (sch, ded, cred, p)


# ---------------------------------------------------------------- amounts

def incomes(ref, year, tier):
    out = {-1000.0, -0.01, 0.0, 0.01, 50.0, 300.0}
    b = ref.brackets(year)
    for t, _ in b:
        out |= {t - 1, t - 0.01, t, t + 0.01, t + 1}
    for (t, _), (u, _) in zip(b, b[1:]):
        out |= {(t + u) / 2, t + (u - t) / 8, u - (u - t) / 8}
    out |= {b[-1][0] + d for d in (500, 12345.67, 1e6)}
    return sorted(out)


def amount_cases(tier):
    for s, d, c, p in itertools.product(SCHEDULES, DEDUCT, CREDIT, PATHS):
        for y in YEARS if tier == 'thorough' else YEARS[::2] + (2014,):
            yield dict(s=s, d=d, c=c, p=p, y=y)


def run_amount(case):
    ref = Ref(case['s'], case['d'], case['c'], case['p'])
    y, n = case['y'], 0
    person = None
    prev = None
    t, inputs = make(case['s'], case['d'], case['c'], case['p'])
    expect('personal_deduction', t.personal_deduction(y), ref.personal(y), 'personal deduction %d' % y)
    expect('credit_rate', t.credit_rate(y), ref.credit_rate(y), 'credit rate %d' % y)
    expect_map('brackets', t.tax_brackets(y), dict(ref.brackets(y)), 'brackets %d' % y)
    expect_eq('brackets_n', len(t.tax_brackets(y)), len(ref.brackets(y)), 'number of brackets')
    expect_map('accum', t.accum(y), ref.accum(y), 'accumulated tax %d' % y)
    for b in t.tax_brackets(y):
        expect('accum_one', t.accum(y, b), ref.gross(b, y), 'accum(%d, %s)' % (y, b))
        expect('bracket_one', t.tax_brackets(y, b), dict((r9(k), v) for k, v in ref.brackets(y))[r9(b)], 'rate of bracket')
    edges = [e for e, _ in ref.brackets(y)]
    for x in incomes(ref, y, None):
        got = t(x, y)
        expect('tax', got, ref.tax(x, y), 'tax on %s in %d' % (x, y))
        if x <= 0:
            expect_eq('nonpositive', got, 0, 'tax on %s' % x)
        if prev is not None:
            check('monotone', got >= prev[1] - 1e-9, 'tax falls from %s to %s' % (prev, (x, got)))
            if x - prev[0] <= 0.0101:
                check('continuous', got - prev[1] <= 0.0101, 'tax jumps from %s to %s' % (prev, (x, got)))
        prev = (x, got)
        if all(abs(x - e) > 1e-6 for e in edges) or y in SCHEDULES[case['s']]:
            mt, mr = ref.marginal(x, y)
            expect('marginal_rate', t.marginal_rate(x, y), mr, 'marginal rate at %s in %d' % (x, y))
            expect('marginal_bracket', t.marginal_bracket(x, y), mt, 'marginal bracket at %s in %d' % (x, y))
        for ded, cred in ((0, 40), (150, 0), (150, 40), (ref.personal(y), 0), (2 * abs(x), 10), (0, 1e7)):
            want = ref.tax(x, y, ded, cred)
            expect('tax_ded_cred', t(x, y, deduction=ded, credit=cred), want, 'tax(%s, %d, %s, %s)' % (x, y, ded, cred))
            expect('tax_money', t.tax_money(x, y, ded, cred), want, 'tax_money(%s, %d, %s, %s)' % (x, y, ded, cred))
            n += 2
    # a person: gross income with the personal deduction
    for x in incomes(ref, y, None):
        if x < 0:
            continue
        p = Person(y, 'P', 1970, retirement_date=2060, gross_income=x)
        want = ref.tax(x, y, ref.personal(y), 0)
        expect('tax_person', t(p, y), want, 'tax of person earning %s in %d' % (x, y))
        expect('tax_person', t.tax_person(p, y, deduction=20, credit=7), ref.tax(x, y, ref.personal(y) + 20, 7),
               'person, extra deduction and credit')
        n += 2
    s2, i2 = make(case['s'], case['d'], case['c'], case['p'])
    for a, b in zip(inputs, i2):
        if not callable(a):
            expect_eq('input_changed', a, b, 'caller mapping')
    # the caller's mappings are the caller's: what they do with them afterwards doesn't matter
    u, (sch, ded, cred, _) = make(case['s'], case['d'], case['c'], case['p'])
    for m in sch.values():
        m[0] = 0.9
    sch[y] = {0: 0.8}
    ded[y] = 99
    cred[y] = 0.75
    for x in incomes(ref, y, None)[::4]:
        expect('aliased', u(x, y, deduction=u.personal_deduction(y), credit=3), ref.tax(x, y, ref.personal(y), 3),
               'tax on %s in %d once the caller has reused their mappings' % (x, y))
    return dict(ops=n, outcome=round(float(prev[1]), 6))


# ---------------------------------------------------------------- query orders

class Queries:
    """Any sequence of queries (and added listings); all answers equal those of a fresh object."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.ref = Ref(cfg['s'], cfg['d'], cfg['c'], cfg['p'])
        self.t, self.inputs = make(cfg['s'], cfg['d'], cfg['c'], cfg['p'])
        self.hist = []

    def events(self):
        ys = self.cfg['years']
        ev = [[k, y] for y in ys for k in ('tax', 'accum', 'brackets', 'marginal', 'personal', 'rate')]
        ev += [['person', y] for y in ys[:2]]
        ev += [['add', y] for y in self.cfg['add'] if ['add', y] not in self.hist]
        ev += [['replace', y] for y in self.ref.sch if ['replace', y] not in self.hist]
        return ev

    def apply(self, ev):
        k, y = ev
        self.hist.append(ev)
        t, r = self.t, self.ref
        if k == 'tax':
            for x in (700.0, 2500.0):
                expect('tax', t(x, y), r.tax(x, y), 'tax(%s, %d)' % (x, y))
        elif k == 'accum':
            expect_map('accum', t.accum(y), r.accum(y), 'accum %d' % y)
        elif k == 'brackets':
            expect_map('brackets', t.tax_brackets(y), dict(r.brackets(y)), 'brackets %d' % y)
        elif k == 'marginal':
            expect('marginal', t.marginal_rate(1234.5, y), r.marginal(1234.5, y)[1], 'marginal rate')
        elif k == 'personal':
            expect('personal_deduction', t.personal_deduction(y), r.personal(y), 'personal deduction')
        elif k == 'rate':
            expect('credit_rate', t.credit_rate(y), r.credit_rate(y), 'credit rate')
        elif k == 'person':
            p = Person(y, 'P', 1970, retirement_date=2060, gross_income=1800)
            expect('person', t({p}, y, credit={p: 11}), r.tax(1800, y, r.personal(y), 11), 'person')
        elif k in ('add', 'replace'):
            new = {0: 0.0625, 800: 0.6} if k == 'add' else {100: 0.3, 0: 0.2}
            t.add_brackets(dict(new), y)
            r.sch[y] = new

    def final(self):
        t, r = self.t, self.ref
        for y in self.cfg['years']:
            for x in (700.0, 2500.0):
                expect('tax_after', t(x, y), r.tax(x, y), 'tax(%s, %d) after %s' % (x, y, self.hist))
            expect_map('accum_after', t.accum(y), r.accum(y), 'accum %d after %s' % (y, self.hist))
            expect_map('brackets_after', t.tax_brackets(y), dict(r.brackets(y)), 'brackets %d after %s' % (y, self.hist))
            expect('personal_after', t.personal_deduction(y), r.personal(y), 'personal deduction')
        _, fresh = make(self.cfg['s'], self.cfg['d'], self.cfg['c'], self.cfg['p'])
        for a, b in zip(self.inputs, fresh):
            if not callable(a):
                expect_eq('input_changed', a, b, 'caller mapping')

    unmerged = True

    def canon(self):
        return self.hist


def query_configs(tier):
    for s, d, c, p in (('changes', 'two', 'two', 'wave'), ('unsorted', 'one', 'one', 'call'), ('two', 'two', 'none', 'up'),
                       ('gap', 'none', 'two', 'call'), ('flatyear', 'two', 'two', 'wave'), ('free', 'one', 'two', 'real')):
        for ys in ((2007, 2012, 2015), (2009, 2011, 2016), (2015, 2013, 2006)):
            for add in ((2012,), (2016, 2009)):
                yield dict(s=s, d=d, c=c, p=p, years=list(ys), add=list(add))


FAMILIES = [
    Enum('amounts', amount_cases, run_amount,
         'incomes on and around every threshold, deductions, credits, schedules, years, inflation paths'),
    Hist('queries', query_configs, Queries, lambda tier, c: (4 if c['years'][0] == 2007 and c['add'] == [2012] else 3) if tier == 'thorough' else 2,
         'every order of queries for listed, earlier, between and later years, and added listings'),
]
