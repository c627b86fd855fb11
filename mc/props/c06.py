"""C06: contribution room of registered accounts follows the statutory rule, per contributor."""
import math
from ..engine import Enum, Hist, Fail, unread
from ..lib import *
from forecaster import Person
from forecaster.canada import RRSP, TFSA
from forecaster.canada.constants import ConstantsCanada
from ..statute import Statute
from forecaster.utility import Timing

# Reference data: the statutory amounts written down in statute.py (to which the library may add
# later years without violating anything) or synthetic ones.


def constants(over=None):
    """The statutory table for the oracles; its `.real` is the library's own, for the code."""
    return Statute(ConstantsCanada(), over)


SYNTH = dict(TFSA_ANNUAL_ACCRUAL={2009: 1000, 2010: 1500, 2011: 1500, 2012: 2500, 2013: 2000, 2014: 3000,
                                  2015: 3500, 2016: 3000, 2017: 500, 2018: 4500, 2019: 5000, 2020: 6000},
             RRSP_ACCRUAL_MAX={2014: 20000.0, 2016: 21000.0, 2018: 24000.0})

PATHS = {                       # cumulative inflation by year
    'none': None,
    'flat': lambda y: 1.0,
    'two': lambda y: 1.02 ** (y - 2009),
    'ramp': lambda y: 1.0 if y <= 2015 else 1.0 + 0.1 * (y - 2015),
    'deflation': lambda y: 0.95 ** (y - 2009),
}


def index(path, target, base):
    f = PATHS[path]
    return 1.0 if f is None else f(target) / f(base)


def adjust(path):
    f = PATHS[path]
    return None if f is None else {y: f(y) for y in range(1990, 2130)}


def nearest(table, year):
    if year in table:
        return year
    past = [y for y in table if y < year]
    return max(past) if past else min(y for y in table if y > year)


def indexed(table, path, year):
    b = nearest(table, year)
    return table[b] * index(path, year, b)


def rrsp_accrual(c, path, income, year):
    return min(c.RRSP_ACCRUAL_RATE * income, indexed(c.RRSP_ACCRUAL_MAX, path, year))


def tfsa_accrual(c, path, age, year):
    """The annual amount: listed, else the first year's amount indexed and rounded."""
    if age < c.TFSA_ELIGIBILITY_AGE:
        return 0.0
    t = c.TFSA_ANNUAL_ACCRUAL
    if year in t:
        return t[year]
    base, unit = min(t), c.TFSA_ACCRUAL_ROUNDING_FACTOR
    return round(t[base] * index(path, year, base) / unit) * unit


def income(cfg, p, year):
    p = cfg['people'][p]
    inc = p['income']
    for y in range(cfg['year'] + 1, year + 1):
        inc = 0.0 if p['retire'] < y else inc * (1 + p['raise'])
    return inc


class System:
    """People with registered accounts, advanced in any order."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.c = constants(SYNTH if cfg.get('synth') else None)
        cls = dict(rrsp=RRSP, tfsa=TFSA)
        self.people, self.accts, self.m = [], [], []
        for p in cfg['people']:
            self.people.append(Person(cfg['year'], p['name'], '1 July %d' % p['born'],
                                      retirement_date='1 July %d' % p['retire'],
                                      gross_income=p['income'], raise_rate=p['raise']))
        self.room, self.hist, self.groups = {}, {}, {}
        for i, a in enumerate(cfg['accounts']):
            kw = dict(contributor=self.people[a['contributor']]) if a['contributor'] is not None else {}
            if a.get('room') is not None:
                kw['contribution_room'] = a['room']
            if a.get('inputs'):
                kw['inputs'] = dict(contribution_room={int(y): v for y, v in a['inputs'].items()})
            acct = cls[a['kind']](self.people[a['owner']], balance=a.get('bal', 1000), rate=a.get('rate', 0),
                                  inflation_adjust=adjust(cfg['path']), constants=self.c.real, **kw)
            who = a['owner'] if a['contributor'] is None else a['contributor']
            g = (a['kind'], who)
            self.accts.append(acct)
            self.m.append(dict(group=g, year=cfg['year'], bal=float(a.get('bal', 1000)), tx={}))
            self.groups.setdefault(g, []).append(i)
            if a.get('room') is not None:
                self.room[g] = a['room']
            elif g not in self.room:
                if a['kind'] == 'rrsp':
                    self.room[g] = 0.0
                else:
                    born = cfg['people'][who]['born']
                    self.room[g] = sum(tfsa_accrual(self.c, cfg['path'], y - born, y)
                                       for y in range(min(self.c.TFSA_ANNUAL_ACCRUAL), cfg['year'] + 1))
            self.hist.setdefault(g, {})
        self.inputs = {}
        for i, a in enumerate(cfg['accounts']):
            for y, v in (a.get('inputs') or {}).items():
                self.inputs[(self.m[i]['group'], int(y))] = v
        self.check()

    def events(self):
        evs = []
        for i in range(len(self.accts)):
            evs += [['adv', i]]
            evs += [['in', i, v] for v in self.cfg.get('ins', [700])]
            evs += [['out', i, 400], ['full', i]]
        return evs + [['person', p] for p in range(len(self.people))]

    def flows(self, g, sign):
        return sum(v for i in self.groups[g] for v in self.m[i]['tx'].values() if v * sign > 0)

    def apply(self, ev):
        op, i = ev[0], ev[1]
        if op == 'person':
            self.people[i].next_year()
        elif op == 'adv':
            m = self.m[i]
            g = m['group']
            kind, who = g
            y = m['year']
            p = self.cfg['people'][who]
            left = self.room[g] - self.flows(g, 1)
            if kind == 'tfsa':
                new = left - self.flows(g, -1) + tfsa_accrual(self.c, self.cfg['path'], y + 1 - p['born'], y + 1)
            elif y + 1 - p['born'] > self.c.RRSP_RRIF_CONVERSION_AGE:
                new = 0.0
            else:
                new = left + rrsp_accrual(self.c, self.cfg['path'], income(self.cfg, who, y), y + 1)
            self.hist[g][y] = self.room[g]
            self.room[g] = self.inputs.get((g, y + 1), new)
            for j in self.groups[g]:
                mj = self.m[j]
                r = self.cfg['accounts'][j].get('rate', 0)
                mj['bal'] = mj['bal'] * (1 + r) + sum(v * (1 + r) ** (1 - t) for t, v in mj['tx'].items())
                mj['tx'], mj['year'] = {}, y + 1
            self.accts[i].next_year()
        else:
            m = self.m[i]
            if op == 'full':
                got = self.accts[i].max_inflows(Timing({0: 1, 0.5: 1}))
                flows = {float(t): float(v) for t, v in got.items()}
            else:
                flows = {0.5: ev[2] if op == 'in' else -ev[2]}
            for t, v in flows.items():
                if v:
                    self.accts[i].add_transaction(v, when=t)
                    m['tx'][t] = m['tx'].get(t, 0.0) + v
        self.check()

    def check(self):
        for i, (a, m) in enumerate(zip(self.accts, self.m)):
            g = m['group']
            expect_eq('year', a.this_year, m['year'], 'year of account %d' % i)
            expect('balance', a.balance, m['bal'], 'balance of account %d' % i)
            expect('room', a.contribution_room, self.room[g], 'room of account %d %s in %d' % (i, g, m['year']))
            want = dict(self.hist[g])
            want[m['year']] = self.room[g]
            expect_map('history', a.contribution_room_history,
                       {**{y: v for (gg, y), v in self.inputs.items()
                           if gg == g and y in a.contribution_room_history}, **want}, 'room history of account %d' % i)
            left = max(0.0, self.room[g] - self.flows(g, 1))
            for t in (Timing({1: 1}), Timing({0.25: 1, 0.75: 3})):
                expect('offer', sum(a.max_inflows(t).values()), left, 'offered contributions of account %d' % i)
            check('contributor', a.contributor is self.people[g[1]], 'contributor of account %d' % i)
            check('contributor', a.contributor.this_year >= a.this_year, 'contributor lags behind account %d' % i)

    def canon(self):
        return ([p.this_year for p in self.people], [(m['year'], r9(m['bal']), sorted(m['tx'].items())) for m in self.m],
                sorted((g, r9(v)) for g, v in self.room.items()))


def person(born=1980, income=60000.0, raise_=0.0, retire=2045, name='P'):
    return dict(born=born, income=income, retire=retire, name=name, **{'raise': raise_})


def acct(kind, owner=0, contributor=None, **kw):
    return dict(kind=kind, owner=owner, contributor=contributor, **kw)


def configs(tier):
    out = []
    solo, two, three = [(0, None)], [(0, None), (0, None)], [(0, None)] * 3
    cross = [(0, None), (1, 0)]                 # second account owned by the spouse
    sep = [(0, None), (1, None)]                # two contributors
    for kind in ('tfsa', 'rrsp'):
        for year, synth in ((2015, False), (2013, True)):
            for shape in (solo, two, three, cross, sep):
                ppl = [person(born=1980), person(born=1950 if kind == 'rrsp' else 2001, income=9000.0, name='Q',
                                                raise_=0.05)]
                out.append(dict(year=year, synth=synth, path='flat', people=ppl[:1 + max(o for o, _ in shape)],
                                accounts=[acct(kind, o, c) for o, c in shape], ins=[700]))
            out.append(dict(year=year, synth=synth, path='flat', people=[person()], ins=[700, 200000],
                            accounts=[acct(kind, 0, None, room=3000), acct(kind, 0, None, rate=0.1)]))
            out.append(dict(year=year, synth=synth, path='flat', people=[person(), person(name='Q')], ins=[700],
                            accounts=[acct(kind, 0, None, inputs={str(year + 1): 1234.5, str(year + 3): 777.0}),
                                      acct(kind, 1, 0)]))
            later = {str(year + 1): 1234.5, str(year + 2): 50.0}
            out.append(dict(year=year, synth=synth, path='flat', people=[person(), person(name='Q')], ins=[700],
                            accounts=[acct(kind, 0, None, inputs=later), acct(kind, 1, 0, inputs=later), acct(kind, 0, None, inputs=later)]))
        out.append(dict(year=2015, path='flat', people=[person(born=1980, raise_=0.5), person(name='Q', income=150000.0)],
                        ins=[700], accounts=[acct('rrsp', 0), acct('tfsa', 0), acct('rrsp', 1, 0)]))
        # ages around eligibility and conversion
        for born in ((1996, 1997, 1998, 1999) if kind == 'tfsa' else (1943, 1944, 1945, 1946)):
            out.append(dict(year=2015, path='flat', people=[person(born=born, retire=2016, raise_=0.1),
                                                            person(name='Q')],
                            ins=[700], accounts=[acct(kind, 0), acct(kind, 1, 0, room=None)]))
    for path in ('two', 'ramp', 'deflation', 'none'):
        out.append(dict(year=2014, path=path, people=[person(income=200000.0)], ins=[700],
                        accounts=[acct('rrsp', 0), acct('rrsp', 0)]))
        out.append(dict(year=2014, path=path, synth=True, people=[person(income=115000.0)], ins=[700],
                        accounts=[acct('rrsp', 0)]))
        out.append(dict(year=2013, path=path, synth=True, people=[person()], ins=[700], accounts=[acct('tfsa', 0)]))
    return out


def depth(tier, cfg):
    n = len(cfg['accounts'])
    if tier == 'quick':
        return 5 if n == 1 else 4
    return {1: 7, 2: 6, 3: 5}[n]


# --- grids -------------------------------------------------------------------------------

def initial_cases(tier):
    for born in list(range(1985, 2004)) if tier == 'quick' else list(range(1940, 2012)):
        for year in range(2007, 2019) if tier == 'quick' else range(2005, 2021):
            for mode in ('infer', 'explicit', 'prior', 'prior1', 'prior9', 'prior0', 'later', 'second', 'spouse'):
                yield dict(born=born, year=year, mode=mode)


def run_initial(c):
    """Room of a newly created TFSA (years listed by the constants, or flat inflation)."""
    k = constants()
    p = Person(c['year'], 'P', '1 July %d' % c['born'], retirement_date='1 July 2060')
    q = Person(c['year'], 'Q', '1 July 1930', retirement_date='1 July 2060')
    first = min(k.TFSA_ANNUAL_ACCRUAL)
    acc = lambda y: tfsa_accrual(k, 'flat', y - c['born'], y) if y >= first else 0.0
    kw, owner = {}, p
    total = sum(acc(y) for y in range(first, c['year'] + 1))
    if c['mode'] == 'explicit':
        kw['contribution_room'] = total = 321.0
    elif c['mode'].startswith('prior'):
        gap = {'1': 1, '9': 9}.get(c['mode'][5:], 2)
        known = 0.0 if c['mode'] == 'prior0' else 1000.0
        kw['inputs'] = dict(contribution_room={c['year'] - gap: known, c['year'] - gap - 2: 1.0})
        if c['year'] - gap + 1 < first:
            return dict(ops=0)
        total = known + sum(acc(y) for y in range(c['year'] - gap + 1, c['year'] + 1))
    elif c['mode'] == 'later':
        kw['inputs'] = dict(contribution_room={c['year'] + 2: 5.0})
    elif c['mode'] == 'spouse':
        owner, kw['contributor'] = q, p
    infl = {y: 1.0 for y in range(1990, 2130)}
    a = TFSA(owner, inflation_adjust=infl, constants=k.real, **kw)
    if c['mode'] == 'second':
        a.contribution_room = total = 55.0
        a = TFSA(owner, inflation_adjust=infl, constants=k.real)
    expect('initial_room', a.contribution_room, total, 'initial room of TFSA')
    a.next_year()
    expect('next_room', a.contribution_room, total + acc(c['year'] + 1) if c['year'] + 1 >= first else total,
           'room in the second year') if c['year'] + 1 >= first else None
    if c['mode'] == 'later' and c['year'] + 1 >= first:
        a.next_year()
        expect('input_room', a.contribution_room, 5.0, 'room given by inputs')
        expect('input_room', sum(a.max_inflows(Timing({1: 1})).values()), 5.0, 'offer under room given by inputs')
    return dict(ops=3, outcome=total)


def accrual_cases(tier):
    incomes = [0, 1, 9000, 18 / 0.18, 143058.61, 143058.62, 111111, 116667, 133333, 200000, 1e6]
    for income_ in incomes:
        for path in PATHS:
            for year in (2012, 2013, 2014, 2015, 2016, 2017, 2018, 2020, 2025):
                for synth in (False, True):
                    for room in (0, 12345.0):
                        for born in (1980, year - 70, year - 71):
                            for ins in (0, 500):
                                yield dict(income=income_, path=path, year=year, synth=synth, room=room, born=born, ins=ins)


def run_accrual(c):
    k = constants(SYNTH if c['synth'] else None)
    p = Person(c['year'], 'P', '1 July %d' % c['born'], retirement_date='1 July 2060', gross_income=c['income'])
    a = RRSP(p, balance=0, inflation_adjust=adjust(c['path']), constants=k.real, contribution_room=c['room'])
    if c['ins']:
        a.add_transaction(c['ins'])
    a.next_year()
    want = c['room'] - c['ins'] + rrsp_accrual(k, c['path'], c['income'], c['year'] + 1)
    if c['year'] + 1 - c['born'] > k.RRSP_RRIF_CONVERSION_AGE:
        want = 0.0
    expect('accrual', a.contribution_room, want, 'pension plan room')
    expect('offer', sum(a.max_inflows(Timing({0: 1, 1: 1})).values()), max(0, want), 'offer')
    return dict(ops=2, outcome=r9(want))


def indexation_cases(tier):
    for path in ('two', 'ramp', 'deflation'):
        for year in range(2018, 2024):
            yield dict(path=path, year=year)


def run_indexation(c):
    """TFSA accrual of a year the constants do not list (indexed from the first year, rounded)."""
    k = constants()
    p = Person(c['year'] - 1, 'P', '1 July 1980', retirement_date='1 July 2060')
    a = TFSA(p, inflation_adjust=adjust(c['path']), constants=k.real, contribution_room=0)
    a.next_year()
    want = tfsa_accrual(k, c['path'], 40, c['year'])
    if not close(a.contribution_room, want):
        raise Fail('accrual %d not %d' % (round(a.contribution_room), want),
                   'accrual of %d is %s instead of %s' % (c['year'], a.contribution_room, want))
    return dict(ops=1, outcome=want)


FAMILIES = [
    Hist('shared_room', configs, System, depth,
         about='contributions, withdrawals, advances in every order over 1-3 accounts and 1-2 people'),
    Enum('initial_room', initial_cases, run_initial, about='TFSA room at creation and in the year after'),
    Enum('rrsp_accrual', accrual_cases, run_accrual, about='RRSP accrual over income, year, inflation and age'),
    Enum('tfsa_indexation', indexation_cases, run_indexation, about='TFSA accrual in years not listed'),
]
FAMILIES += [unread(f, depth=lambda tier, c: depth('quick', c) - (tier == 'quick')) for f in FAMILIES if f.name in ('shared_room',)]
