"""C20: living-expense rules return their documented, never negative, amounts every year."""
import itertools
from datetime import datetime
from ..engine import Enum, Hist, Fail
from ..lib import *
from forecaster import Person, Scenario
from forecaster.accounts import Account, Debt
from forecaster.forecast import LivingExpensesForecast
from forecaster.strategy import LivingExpensesStrategy, LivingExpensesStrategySchedule
from forecaster.utility import Timing

Y0 = 2000
RULES = ['Constant contribution', 'Constant living expenses', 'Percentage of net income', 'Percentage of gross income',
         'Percentage of earnings growth', 'Percentage of principal at retirement',
         'Percentage of net income at retirement', 'Percentage of gross income at retirement']
AT_RET = RULES[5:]
INFL = [0.0, 0.1, -0.02, 0.03, 0.25, 0.0, 0.04, 0.01]     # per year from Y0


def accum(a, b):
    """Inflation factor from year a to year b."""
    if b < a:
        return 1 / accum(b, a)
    out = 1.0
    for y in range(a, b):
        out *= 1 + INFL[y - Y0]
    return out


def infl(kind):
    """(callable or None, oracle f(year, base))."""
    if kind is None:
        return None, lambda year, base=None: 1.0
    sc = Scenario(Y0, len(INFL), inflation=list(INFL))
    if kind == 'scenario':
        return sc.inflation_adjust, lambda year, base=Y0: accum(base, year)
    return (lambda year, base_year=Y0 + 2: accum(base_year, year)), lambda year, base=Y0 + 2: accum(base, year)


class Someone:
    """A person, their accounts and an exact record of both."""

    def __init__(self, c):
        self.c = c
        tax = c.get('tax', 0.2)
        self.p = Person(Y0, c.get('name', 'P'), '1 May 1950', retirement_date='1 June %d' % c.get('retire', Y0 + 3),
                        gross_income=c['gross'], raise_rate=c.get('raise', 0.1), tax_treatment=lambda g, y: g * tax,
                        payment_timing=Timing({float(k): v for k, v in c.get('timing', {'0.5': 1}).items()}))
        self.tax = tax
        self.accts = []
        for b, r in c.get('accounts', []):
            self.accts.append((Debt if b < 0 else Account)(self.p, balance=b, rate=r))
        self.year = Y0

    def gross(self, y):
        return 0.0 if y > self.c.get('retire', Y0 + 3) and y > Y0 else self.c['gross'] * (1 + self.c.get('raise', 0.1)) ** (y - Y0)

    def net(self, y):
        return self.gross(y) * (1 - self.tax)

    def principal(self, y):
        return sum(b * (1 + r) ** (y - Y0) for b, r in self.c.get('accounts', []))

    def to(self, year):
        while self.year < year:
            self.p.next_year()
            for a in self.accts:
                a.next_year()
            self.year += 1


def amount(c, people, year, ret, f):
    """The documented amount."""
    rule, base, rate = c['rule'], c['base'], c['rate']
    net, gross = sum(p.net(year) for p in people), sum(p.gross(year) for p in people)
    if rule == 'Constant contribution':
        v = net - base * f(year)
    elif rule == 'Constant living expenses':
        v = base * f(year)
    elif rule == 'Percentage of net income':
        v = rate * net
    elif rule == 'Percentage of gross income':
        v = rate * gross
    elif rule == 'Percentage of earnings growth':
        b = base * f(year)
        v = b + (net - b) * rate
    else:
        what = {'p': 'principal', 'n': 'net', 'g': 'gross'}[rule.split()[2][0]]
        v = rate * sum(getattr(p, what)(ret) for p in people) * f(year, ret)
    return max(0.0, v)


def make(c):
    fn, f = infl(c['infl'])
    return LivingExpensesStrategy(c['rule'], base_amount=c['base'], rate=c['rate'], inflation_adjust=fn), f


PEOPLE = {
    'none': [dict(gross=0)],
    'one': [dict(gross=1000, accounts=[[500, 0.1], [-200, 0]])],
    'two': [dict(gross=1000, accounts=[[500, 0.1]]), dict(gross=300, tax=0.5, retire=Y0 + 1, accounts=[[70, 0], [30, 0.2]])],
    'indebted': [dict(gross=10, tax=1.5, accounts=[[-900, 0.1]]), dict(gross=4, accounts=[])],
    'three': [dict(gross=0), dict(gross=50, accounts=[[1000, 0.05]], retire=Y0 + 5), dict(gross=2000, retire=Y0, accounts=[[5, 0]])],
}


def run_rule(c):
    people = [Someone(x) for x in PEOPLE[c['people']]]
    for p in people:
        p.to(Y0 + c['at'])
    year, ret = Y0 + c['at'], Y0 + c['ret']
    s, f = make(c)
    want = amount(c, people, year, ret, f)
    n, got = 0, None
    kw = dict(year=year)
    if c['rule'] in AT_RET:
        kw['retirement_year'] = ret
    forms = [list, tuple, set, lambda x: list(reversed(x))]
    if len(people) > 2:
        forms += [lambda x, o=o: [x[i] for i in o] for o in itertools.permutations(range(3))]
    for form in forms + [list]:
        got = s(people=form([p.p for p in people]), **kw)
        expect('amount', got, want, '%s in %s (retirement %s)' % (c['rule'], year, ret))
        check('negative', got >= 0, 'negative living expenses %s' % got)
        n += 1
    if c['rule'].startswith('Percentage of') and c['rule'].endswith('income') and 0 <= c['rate'] <= 1:
        inc = sum((p.net if 'net' in c['rule'] else p.gross)(year) for p in people)
        check('share', got <= max(0, inc) + 1e-9, 'living expenses %s exceed income %s' % (got, inc))
    # retirement year is irrelevant for the others
    if c['rule'] not in AT_RET:
        expect('irrelevant', s(people=[p.p for p in people], year=year, retirement_year=ret), want, 'with retirement year')
    return dict(ops=n, outcome=r9(want))


def rule_cases(tier):
    ats = range(0, 8)
    for rule in RULES:
        for who in PEOPLE:
            for base in ((0, 300, -50) if tier == 'quick' else (0, 1, 37.5, 300, 800, 5000, -50)):
                for rate in ((0, 0.4, 1) if tier == 'quick' else (0, 0.04, 0.4, 0.5, 0.75, 1, 1.2, 3)):
                    for inf in (None, 'scenario', 'based'):
                        for at in ats:
                            for ret in ([r for r in (0, 1, 3) if r <= at] if rule in AT_RET else [at]):
                                yield dict(rule=rule, people=who, base=base, rate=rate, infl=inf, at=at, ret=ret)


# Several queries of several strategies in any order ------------------------------------------

def run_queries(c):
    people = [Someone(x) for x in PEOPLE[c['people']]]
    now = Y0 + 4
    for p in people:
        p.to(now)
    made = [make(x) for x in c['strategies']]
    out = []
    for q in c['queries']:
        i, kind = q
        s, f = made[i]
        group = people if kind != 'first' else people[:1]
        ret = Y0 + (1 if kind != 'later' else 3)
        got = s(people=[p.p for p in group], year=now, retirement_year=ret)
        expect('order', got, amount(c['strategies'][i], group, now, ret, f), 'query %s of %s' % (q, c['queries']))
        out.append(r9(got))
    return dict(ops=len(out), outcome=out)


def query_cases(tier):
    pairs = []
    for i, a in enumerate(RULES):
        for b in RULES[i:] if tier != 'quick' else [a, RULES[(i + 3) % 8]]:
            pairs.append([dict(rule=a, base=200, rate=0.5, infl='scenario'), dict(rule=b, base=50, rate=0.25, infl='based')])
    acts = [[i, k] for i in (0, 1) for k in ('all', 'first', 'later')]
    for st in pairs:
        for n in (2, 3) if tier == 'quick' else (2, 3, 4):
            for q in itertools.product(acts, repeat=n):
                if n == 4 and q[0] > q[1]:
                    continue
                yield dict(people='two', strategies=st, queries=[list(x) for x in q])


# Schedules ----------------------------------------------------------------------------------

WORK = dict(rule='Percentage of net income', base=0, rate=0.5, infl='scenario')
OLD = dict(rule='Percentage of gross income at retirement', base=0, rate=0.3, infl='scenario')
SCHED = [
    dict(w=WORK, r=OLD),
    dict(w=dict(rule='Constant contribution', base=200, rate=0, infl='scenario'),
         r=dict(rule='Percentage of principal at retirement', base=0, rate=0.2, infl='scenario')),
    dict(w=dict(rule='Percentage of earnings growth', base=300, rate=0.4, infl='scenario'),
         r=dict(rule='Constant living expenses', base=250, rate=0, infl='scenario'),
         m=dict(rule='Constant living expenses', base=280, rate=0, infl=None)),
    dict(w=WORK, r=OLD, m=dict(rule='Constant living expenses', base=300, rate=0, infl='scenario')),
    dict(w=WORK, r=dict(rule='Percentage of net income at retirement', base=0, rate=0.6, infl=None),
         m=[dict(rule='Constant living expenses', base=350, rate=0, infl=None),
            dict(rule='Constant living expenses', base=100, rate=0, infl='scenario')]),
]


def schedule(d):
    w, fw = make(d['w'])
    r, fr = make(d['r'])
    m, fm = None, None
    if 'm' in d:
        if isinstance(d['m'], list):
            (a, fa), (b, fb) = make(d['m'][0]), make(d['m'][1])
            m = LivingExpensesStrategySchedule(a, b)

            def fm(people, year, ret):
                late = ret is not None and year > ret
                return amount(d['m'][late], people, year, ret, fb if late else fa)
        else:
            m, f1 = make(d['m'])

            def fm(people, year, ret):
                return amount(d['m'], people, year, ret, f1)
    s = LivingExpensesStrategySchedule(w, r, m) if m is not None else LivingExpensesStrategySchedule(w, r)

    def want(people, year, ret):
        late = year is not None and ret is not None and year > ret
        v = amount(d['r' if late else 'w'], people, year, ret, fr if late else fw)
        return v if fm is None else max(v, fm(people, year, ret))
    return s, want


def run_schedule(c):
    people = [Someone(x) for x in PEOPLE[c['people']]]
    s, want = schedule(SCHED[c['s']])
    out = []
    for year in range(Y0, Y0 + 8):
        for p in people:
            p.to(year)
        for ret in [None] + [r for r in range(Y0, Y0 + 8)]:
            w = want(people, year, ret)
            got = s(year=year, people=[p.p for p in people], retirement_year=ret)
            expect('schedule', got, w, 'year %s, retirement %s' % (year, ret))
            out.append(r9(got))
    return dict(ops=len(out), outcome=out)


def schedule_cases(tier):
    for s in range(len(SCHED)):
        for who in PEOPLE:
            yield dict(s=s, people=who)


# Within a forecast --------------------------------------------------------------------------

class Home:
    """LivingExpensesForecast over years: rule by year, shares by income and payment times."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.people = [Someone(dict(x, name='P%d' % i)) for i, x in enumerate(cfg['people'])]
        self.s, self.want = schedule(SCHED[cfg['s']])
        group = [p.p for p in self.people]
        self.f = LivingExpensesForecast(Y0, set(group) if cfg['set'] else group, self.s)
        self.year, self.called, self.hist = Y0, False, {}
        self.ret = min(p.c.get('retire', Y0 + 3) for p in self.people)
        self.trail = []

    def events(self):
        evs = [['read']]
        if not self.called:
            evs.append(['call'])
        if self.year < Y0 + 7:
            evs.append(['year'])
        return evs

    def value(self):
        return self.want(self.people, self.year, self.ret)

    def apply(self, ev):
        self.trail.append(ev[0])
        if ev[0] == 'read':
            expect('living-expenses', self.f.living_expenses, self.value(), 'living expenses in %s' % self.year)
        elif ev[0] == 'call':
            self.called = True
            avail = {0.0: 10000.0}
            self.f(avail)
            got = dict(avail)
            got[0.0] = got.get(0.0, 0) - 10000.0
            total = sum(p.net(self.year) for p in self.people)
            want = {}
            for p in self.people:
                share = p.net(self.year) / total if total else 1 / len(self.people)
                for t, w in p.c.get('timing', {'0.5': 1}).items():
                    tw = sum(p.c.get('timing', {'0.5': 1}).values())
                    want[float(t)] = want.get(float(t), 0.0) - self.value() * share * w / tw
            expect_map('paid', got, want, 'living expenses taken in %s' % self.year)
        else:
            self.hist[self.year] = self.value()
            self.f.next_year()
            self.year += 1
            self.called = False
            for p in self.people:
                p.to(self.year)

    def final(self):
        expect('living-expenses', self.f.living_expenses, self.value(), 'living expenses in %s' % self.year)
        for y, v in self.hist.items():
            expect('history', self.f.living_expenses_history[y], v, 'living expenses recorded for %s' % y)

    def canon(self):
        return (self.year, self.called, self.trail[-2:], sorted(self.hist.items()))


def home_configs(tier):
    a = dict(gross=1000, retire=Y0 + 2, timing={'0.5': 1}, accounts=[[500, 0.1]])
    b = dict(gross=400, tax=0.3, retire=Y0 + 1, timing={'0.25': 1, '0.75': 3}, accounts=[[90, 0.05]])
    c = dict(gross=0, retire=Y0 + 3, timing={'1.0': 1})
    d = dict(gross=700, retire=Y0, timing={'0.0': 1, '0.5': 1}, accounts=[[-100, 0.02], [1000, 0]])
    groups = [[a], [a, b], [b, a], [c], [a, c], [d, a], [a, b, d]] + ([] if tier == 'quick' else [[c, d], [d], [b, c, a], [b, d, a, c]])
    return [dict(people=g, s=s, set=st) for g in groups for s in range(len(SCHED)) for st in (False, True)]


FAMILIES = [
    Enum('rules', rule_cases, run_rule, about='all rules x households x parameters x inflation x years x orders of people'),
    Enum('queries', query_cases, run_queries, about='query sequences over two strategies'),
    Enum('schedule', schedule_cases, run_schedule, about='all years x retirement years for schedules with and without minimums'),
    Hist('forecast', home_configs, Home, lambda tier, c: 7 if tier == 'quick' else 10,
         about='LivingExpensesForecast read, called and advanced over years with people retiring at different times'),
]
