"""C21: marriage is mutual and exclusive; ages, retirement dates and incomes are right in every year."""
import copy
import itertools
from calendar import isleap, monthrange
from datetime import date, datetime, timedelta
from ..engine import Enum, Hist, Fail, unread
from ..lib import *
from forecaster import Person, Timing

YEAR = 2000


# Marriage --------------------------------------------------------------------------------

class Wedding:
    def __init__(self, cfg):
        self.cfg = cfg
        self.people = [Person(YEAR, 'P%d' % i, 1970 + i, retirement_date=2040 + i) for i in range(cfg['n'])]
        self.sp = [None] * cfg['n']
        self.trail = []
        self.check()

    def events(self):
        n = len(self.people)
        evs = [['marry', i, j] for i in range(n) for j in range(n) if i != j]
        evs += [['part', i] for i in range(n)]
        evs += [['bad', i] for i in range(min(n, 2))]
        evs += [['copy', i] for i in range(n) if self.sp[i] is not None][:2]
        if n < self.cfg['max']:
            evs += [['new', None]] + [['new', j] for j in range(n)]
        return evs + [['year']]

    def unlink(self, i):
        if self.sp[i] is not None:
            self.sp[self.sp[i]] = None
            self.sp[i] = None

    def link(self, i, j):
        if self.sp[i] == j:
            return
        self.unlink(i)
        self.unlink(j)
        self.sp[i], self.sp[j] = j, i

    def apply(self, ev):
        op = ev[0]
        if op == 'marry':
            self.people[ev[1]].spouse = self.people[ev[2]]
            self.link(ev[1], ev[2])
        elif op == 'part':
            self.people[ev[1]].spouse = None
            self.unlink(ev[1])
        elif op == 'bad':
            try:
                self.people[ev[1]].spouse = 'somebody'
            except TypeError:
                pass
            else:
                raise Fail('bad-spouse', 'a spouse that is not a Person was accepted')
        elif op == 'new':
            k = len(self.people)
            other = None if ev[1] is None else self.people[ev[1]]
            self.people.append(Person(self.people[0].this_year, 'N%d' % k, 1980, retirement_date=2050, spouse=other))
            self.sp.append(None)
            if ev[1] is not None:
                self.link(k, ev[1])
        elif op == 'copy':
            p = self.people[ev[1]]
            q = copy.deepcopy(p)
            check('copy', q.spouse is not None and q.spouse is not p.spouse and q.spouse.spouse is q
                  and q.spouse.name == p.spouse.name, 'a copied person is not married to a copy of the spouse')
            q.spouse = None
        elif op == 'year':
            for p in self.people:
                p.next_year()
        self.trail = (self.trail + [ev])[-2:]
        self.check()

    def check(self):
        for i, p in enumerate(self.people):
            want = None if self.sp[i] is None else self.people[self.sp[i]]
            check('spouse', p.spouse is want, '%s is married to %s, expected %s' % (
                p.name, getattr(p.spouse, 'name', None), getattr(want, 'name', None)))
            check('mutual', p.spouse is None or p.spouse.spouse is p, "%s's spouse is married to another" % p.name)

    def canon(self):
        return (self.sp, self.trail, self.people[0].this_year)


def wedding_configs(tier):
    return [dict(n=2, max=3), dict(n=3, max=4), dict(n=4, max=4)]


# Ages ------------------------------------------------------------------------------------

def birthday(b, year):
    day = 28 if (b.month, b.day) == (2, 29) and not isleap(year) else b.day
    return b.replace(year=year, day=day)


def age_ref(b, d):
    return d.year - b.year - (1 if d < birthday(b, d.year) else 0)


def run_age(c):
    b = datetime(*c['birth'])
    p = Person(YEAR, 'P', b, retirement_date=datetime(2090, 1, 1))
    expect_eq('birth', p.birth_date, b, 'birth date')
    n, out = 0, []
    for year in c['years']:
        for q in (year, str(year)):
            expect_eq('age-year', p.age(q), year - b.year, 'age in %r' % (q,))
        d = datetime(year, 1, 1)
        while d.year == year:
            want = age_ref(b, d)
            expect_eq('age', p.age(d), want, 'born %s, age at %s' % (b, d))
            if d.day in (1, 15, 28, 29, 31) or (d.month, d.day) == (b.month, b.day):
                if (d + timedelta(hours=23)) < birthday(b, year) or d >= birthday(b, year):
                    expect_eq('age', p.age(d + timedelta(hours=23)), want, 'born %s, age late on %s' % (b, d))
                dd = d.replace(hour=b.hour, minute=b.minute)    # the time of day is taken from the birth date
                want = age_ref(b, dd)
                for q in (d.strftime('%Y-%m-%d'), d.strftime('%d %B %Y'), d.date()):
                    expect_eq('age-form', p.age(q), want, 'born %s, age at %r' % (b, q))
                n += 4
            d += timedelta(days=1)
            n += 1
        out.append(p.age(datetime(year, 7, 1)))
    return dict(ops=n, outcome=out)


def births(tier):
    q = tier == 'quick'
    for y in ((1996, 1999, 2000) if q else (1940, 1972, 1996, 1997, 1998, 1999, 2000)):
        for m in range(1, 13):
            for d in sorted({1, 15, 28, monthrange(y, m)[1]}) if not q else sorted({1, monthrange(y, m)[1]}):
                yield [y, m, d]
        if q:
            yield [y, 2, 28]
    yield [2000, 2, 29, 13, 30]
    yield [1999, 6, 15, 8, 0]


def age_cases(tier):
    for b in births(tier):
        y = b[0]
        if tier == 'quick':
            yield dict(birth=b, years=[y, y + 1, y + 4, y + 65])
        else:
            for k in range(0, 104, 8):
                yield dict(birth=b, years=list(range(y + k, y + k + 8)))
        yield dict(birth=b, years=[y - 1, y + 100, y + 104])


def run_forms(c):
    """Dates may be given as years, text, dates or datetimes; missing parts are filled in."""
    b = c['birth']
    full = datetime(*b)
    forms = {'int': b[0], 'stryear': str(b[0]), 'iso': full.strftime('%Y-%m-%d'), 'text': full.strftime('%d %B %Y'),
             'date': full.date(), 'datetime': full}
    v = forms[c['form']]
    want = datetime(b[0], 1, 1) if c['form'] in ('int', 'stryear') else full
    p = Person(YEAR, 'P', v, retirement_date=datetime(2090, 1, 1))
    expect_eq('birth', p.birth_date, want, 'birth date given as %r' % (v,))
    n = 0
    for r in c['retire']:
        rd = datetime(*r)
        rforms = {'int': rd.year, 'stryear': str(rd.year), 'iso': rd.strftime('%Y-%m-%d'), 'date': rd.date(), 'datetime': rd}
        for form, rv in rforms.items():
            rwant = birthday(want, rd.year) if form in ('int', 'stryear') else rd
            if form in ('iso', 'date'):
                rwant = rd.replace(hour=want.hour, minute=want.minute)
            for how in ('init', 'set'):
                ok = rwant >= want
                try:
                    if how == 'init':
                        q = Person(YEAR, 'Q', v, retirement_date=rv)
                    else:
                        q = Person(YEAR, 'Q', v, retirement_date=datetime(2090, 1, 1))
                        q.retirement_date = rv
                except ValueError:
                    check('retirement-order', not ok, 'born %s: retirement %r refused' % (want, rv))
                    continue
                check('retirement-order', ok, 'born %s: retirement %r before birth accepted' % (want, rv))
                expect_eq('retirement', q.retirement_date, rwant, 'retirement given as %r' % (rv,))
                expect_eq('retirement-age', q.retirement_age, age_ref(want, rwant), 'born %s, retires %s' % (want, rwant))
                expect_eq('retirement-age', q.age(q.retirement_date), q.retirement_age, 'born %s, age at retirement %s' % (want, rwant))
                n += 1
    for a in c['ages']:
        q = Person(YEAR, 'Q', v, retirement_date=datetime(2090, 1, 1))
        q.retirement_age = a
        expect_eq('retirement', q.retirement_date, birthday(want, want.year + a), 'retirement at age %s' % a)
        expect_eq('retirement-age', q.retirement_age, a, 'retirement age set to %s' % a)
        n += 1
    return dict(ops=n, outcome=[want, n])


def forms_cases(tier):
    for b in births(tier):
        y = b[0]
        rets = [[y, b[1], b[2]], [y, 1, 1], [y, 12, 31], [y - 1, 12, 31], [y + 1, 2, 28], [y + 64, 2, 29 if isleap(y + 64) else 28],
                [y + 65, b[1], min(b[2], 28)], [y + 65, b[1], 1], [y + 65, 3, 1]]
        if tier != 'quick':
            rets += [[y + 30, m, d] for m in range(1, 13) for d in (1, 28, 30 if m != 2 else 27)]
        for form in ('int', 'stryear', 'iso', 'text', 'date', 'datetime'):
            if len(b) > 3 and form != 'datetime':
                continue
            yield dict(birth=b, form=form, retire=rets,
                       ages=[0, 1, 4, 55, 65, 100] if tier == 'quick' else list(range(0, 101)))


# Incomes -----------------------------------------------------------------------------------

def raises(kind):
    if kind == 'dict':
        return {YEAR + i: 0.01 * i for i in range(0, 12)}
    if kind == 'call':
        return lambda year: (year - YEAR) / 50
    return kind


def raise_at(kind, year):
    if kind is None:
        return 0
    if kind == 'dict':
        return 0.01 * (year - YEAR)
    if kind == 'call':
        return (year - YEAR) / 50
    return kind


def treat(kind):
    if kind is None:
        return None
    return lambda income, year: tax_at(kind, income, year)


def tax_at(kind, income, year):
    if kind is None:
        return 0
    if kind == 'flat':
        return 0.25 * float(income)
    if kind == 'heavy':
        return 100 + 1.5 * float(income)
    if kind == 'refund':
        return 50 - 0.5 * float(income)
    return max(0.0, 0.3 * float(income) - 100 * (year - YEAR + 1))


class Worker:
    """Exact model of one person's income; values of a year are fixed once known."""

    def __init__(self, cfg, name='W'):
        self.cfg, self.year, self.tax = cfg, YEAR, cfg['tax']
        self.rate, self.ret = cfg['raise'], cfg['retire']
        self.inputs = {k: {int(y): v for y, v in d.items()} for k, d in (cfg.get('inputs') or {}).items()}
        self.h = {k: dict(self.inputs.get(k, {})) for k in ('gross_income', 'raise_rate', 'net_income', 'tax_withheld')}
        kw = {}
        if self.inputs:
            kw['inputs'] = {k: dict(v) for k, v in self.inputs.items()}
        self.day = cfg.get('day', '1 May')
        mine = Timing({0: 1, 0.25: 3})
        self.p = Person(YEAR, name, '1 May 1960', retirement_date='%s %d' % (self.day, self.ret), gross_income=cfg['gross'],
                        raise_rate=raises(self.rate), tax_treatment=treat(cfg['tax']), payment_timing=mine, **kw)
        mine[0.25] = 7              # the caller's object, not the person's
        mine[1] = 1
        check('timing', dict(self.p.payment_timing) == {0: 1, 0.25: 3}, 'payment timing follows the caller: %s' % self.p.payment_timing)
        self.put('gross_income', cfg['gross'] or 0)

    def put(self, k, v):
        if self.year not in self.inputs.get(k, {}):
            self.h[k][self.year] = v

    def known(self, k):
        return self.year in self.h[k]

    def raise_rate(self):
        if not self.known('raise_rate'):
            self.h['raise_rate'][self.year] = raise_at(self.rate, self.year)
        return self.h['raise_rate'][self.year]

    def gross(self):
        if not self.known('gross_income'):
            v = 0 if self.ret < self.year else self.h['gross_income'][self.year - 1] * (1 + self.raise_rate())
            self.h['gross_income'][self.year] = v
        return self.h['gross_income'][self.year]

    def withheld(self):
        if self.known('tax_withheld'):
            return self.h['tax_withheld'][self.year]
        return tax_at(self.tax, self.gross(), self.year)

    def net(self):
        return self.h['net_income'][self.year] if self.known('net_income') else self.gross() - self.withheld()

    def advance(self):
        for f, k in ((self.gross, 'gross_income'), (self.withheld, 'tax_withheld'), (self.net, 'net_income'),
                     (self.raise_rate, 'raise_rate')):
            self.h[k][self.year] = f()
        self.p.next_year()
        self.year += 1

    def read(self):
        p = self.p
        expect_eq('year', p.this_year, self.year, 'current year')
        expect('gross', p.gross_income, self.gross(), 'gross income in %s' % self.year)
        expect('raise', p.raise_rate, self.raise_rate(), 'raise in %s' % self.year)
        expect('withheld', p.tax_withheld, self.withheld(), 'tax withheld in %s' % self.year)
        expect('net', p.net_income, self.net(), 'net income in %s' % self.year)

    def histories(self):
        for k in ('gross_income', 'net_income', 'raise_rate'):
            self.raise_rate(), self.net()
            got = {y: v for y, v in getattr(self.p, k + '_history').items() if y <= self.year}
            want = {y: v for y, v in self.h[k].items() if y <= self.year}
            if k == 'net_income':
                want[self.year] = self.net()
            check('history-years', sorted(got) == sorted(want), '%s recorded for %s, expected %s' % (k, sorted(got), sorted(want)))
            for y in want:
                expect('history', got[y], want[y], '%s recorded for %s' % (k, y))

    def key(self):
        return (self.year, self.rate, self.ret, self.tax, [sorted((y, r9(v)) for y, v in self.h[k].items()) for k in sorted(self.h)])


class Incomes:
    def __init__(self, cfg):
        self.w = [Worker(c, 'W%d' % i) for i, c in enumerate(cfg['people'])]
        self.cfg = cfg

    def events(self):
        evs = [['read', 0]] if not self.w[0].known('raise_rate') else []
        evs += [['retire', y] for y in self.cfg['retires']]
        evs += [['raise', r] for r in self.cfg['raises']]
        evs += [['set', v] for v in (700, 0)]
        evs += [['tax', t] for t in self.cfg.get('taxes', ()) if t != self.w[0].tax]
        return evs + [['year']]

    def apply(self, ev):
        w = self.w[0]
        if ev[0] == 'year':
            for x in self.w:
                x.advance()
        elif ev[0] == 'read':
            w.read()
        elif ev[0] == 'retire':
            w.ret = ev[1]
            w.p.retirement_date = '%s %d' % (w.day, ev[1])
        elif ev[0] == 'raise':
            w.rate = ev[1]
            w.p.raise_rate_callable = raises(ev[1])
        elif ev[0] == 'tax':
            w.tax = ev[1]
            w.p.tax_treatment = treat(ev[1])
        elif ev[0] == 'set':
            w.put('gross_income', ev[1])
            w.p.gross_income = ev[1]

    def final(self):
        for w in self.w:
            w.read()
            w.histories()
        if len(self.w) > 1:
            a, b = self.w[0], self.w[1]
            if a.gross() == b.gross():
                check('order', not a.p > b.p and not b.p > a.p, 'people with the same gross income are ordered')
            if abs(a.gross() - b.gross()) > 1e-6:
                check('order', (a.p > b.p) == (a.gross() > b.gross()), 'people are ordered by gross income')
                check('order', max(a.p, b.p) is (a if a.gross() > b.gross() else b).p, 'max() of people')

    def canon(self):
        return [w.key() for w in self.w]


def income_configs(tier):
    out = []
    taxes = (None, 'flat', 'yearly')
    rates = (0, 0.1, -0.05, 'dict', 'call', None)
    for i, rate in enumerate(rates):
        for j, ret in enumerate((YEAR - 1, YEAR, YEAR + 1, YEAR + 2, YEAR + 9)):
            out.append(dict(people=[dict(gross=1000, tax=taxes[(i + j) % 3], **{'raise': rate, 'retire': ret}),
                                    dict(gross=1100, tax='flat', **{'raise': 0.02, 'retire': YEAR + 3})],
                            retires=[YEAR, YEAR + 2], raises=[0.2, 'dict', None]))
    for day in ('1 January', '31 December'):
        for tax in ('heavy', 'refund'):
            out.append(dict(people=[dict(gross=1000, tax=tax, day=day, **{'raise': 0.1, 'retire': YEAR + 1}),
                                    dict(gross=700, tax=tax, day=day, **{'raise': 0, 'retire': YEAR})],
                            retires=[YEAR, YEAR + 2], raises=[0.2], taxes=[None, 'yearly', tax]))
    for inp in (dict(gross_income={YEAR + 1: 5000}), dict(gross_income={YEAR: 300, YEAR + 2: 0}),
                dict(raise_rate={YEAR + 1: 0.5, YEAR + 2: 0}), dict(net_income={YEAR + 1: 77}),
                dict(tax_withheld={YEAR: 11, YEAR + 1: 13}), dict(net_income={YEAR: 5}, gross_income={YEAR + 1: 9})):
        for tax in taxes:
            out.append(dict(people=[dict(gross=1000, tax=tax, inputs={k: {str(y): v for y, v in d.items()} for k, d in inp.items()},
                                         **{'raise': 0.1, 'retire': YEAR + 2}),
                                    dict(gross=0, tax=None, **{'raise': 0.1, 'retire': YEAR + 9})],
                            retires=[YEAR + 1], raises=['call']))
    out.append(dict(people=[dict(gross=None, tax='flat', **{'raise': 0.1, 'retire': YEAR + 2})], retires=[YEAR + 1], raises=[0.3], taxes=[None, 'flat']))
    return out


FAMILIES = [
    Hist('marriage', wedding_configs, Wedding, lambda tier, c: 4 if tier == 'quick' else 6,
         about='sequences of marrying, parting, invalid and constructing assignments over three to four people'),
    Enum('age', age_cases, run_age, about='birth dates on calendar edges x every day of years, in all accepted forms'),
    Enum('dates', forms_cases, run_forms, about='birth and retirement dates in all accepted forms; retirement ages'),
    Hist('income', income_configs, Incomes, lambda tier, c: 5 if tier == 'quick' else 7,
         about='raises, retirement, tax withheld and recorded inputs over years, with and without reading'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('marriage',)]
