"""C01: year-by-year records - immutable past, exact closing values, inputs honoured, no mixing of objects."""
from ..engine import Enum, Hist, Fail
from ..lib import *
from forecaster import Person, Account, Debt, LinkedLimitAccount
from forecaster.ledger import Ledger, TaxSource, recorded_property, recorded_property_cached
from forecaster.canada import RRSP, TFSA, TaxableAccount
from forecaster.canada.accounts import PrincipleResidence
from forecaster.forecast import SubForecast, IncomeForecast, LivingExpensesForecast
from forecaster.utility import Timing

YEAR = 2000


# --- exact model of a ledger with all kinds of recorded property --------------------------------

class Base(Ledger):
    """Every kind of recorded property, computed from mutable state."""

    def __init__(self, inputs=None):
        super().__init__(YEAR, inputs=inputs)
        self.state = dict(plain=1, settable=2, cached=3, cset=4, inherited=5)
        self.deleted = 0

    @recorded_property
    def plain(self):
        return self.state['plain']

    @recorded_property
    def settable(self):
        return self.state['settable']

    @settable.setter
    def settable(self, val):
        self.state['settable'] = val

    @settable.deleter
    def settable(self):
        self.deleted += 1

    @recorded_property_cached
    def cached(self):
        return self.state['cached']

    @recorded_property_cached
    def cset(self):
        return self.state['cset']

    @cset.setter
    def cset(self, val):
        self.state['cset'] = val

    @recorded_property
    def inherited(self):
        return -1


class Derived(Base):
    """Overrides a recorded property of its parent class."""

    @recorded_property_cached
    def inherited(self):
        return self.state['inherited']


class Plainer(Derived):
    """Overrides a cached property with an uncached one, and one with a setter by one without."""

    @recorded_property
    def cached(self):
        return self.state['cached']

    @recorded_property_cached
    def cset(self):
        return self.state['cset']


CLASSES = dict(Derived=Derived, Plainer=Plainer)
PROPS = ['plain', 'settable', 'cached', 'cset', 'inherited']
CACHED = {'cached', 'cset', 'inherited'}
SETTER = {'settable', 'cset'}


class LedgerModel:
    def __init__(self, inputs, cls='Derived'):
        self.inputs = inputs or {}
        self.cached = CACHED - {'cached'} if cls == 'Plainer' else CACHED
        self.setter = SETTER - {'cset'} if cls == 'Plainer' else SETTER
        self.year = YEAR
        self.state = dict(plain=1, settable=2, cached=3, cset=4, inherited=5)
        self.rec = {p: dict(self.inputs.get(p, {})) for p in PROPS}

    def fixed(self, p):
        return self.year in self.inputs.get(p, {})

    def get(self, p):
        if self.year in self.rec[p]:
            return self.rec[p][self.year]
        if p in self.cached:
            self.rec[p][self.year] = self.state[p]
        return self.state[p]

    def set(self, p, v):
        if self.fixed(p):
            return
        if p in self.setter:
            self.rec[p].pop(self.year, None)
            self.state[p] = v
        else:
            self.rec[p][self.year] = v

    def delete(self, p):
        if not self.fixed(p):
            self.rec[p].pop(self.year, None)

    def history(self, p):
        self.get(p)
        h = dict(self.rec[p])
        h[self.year] = self.get(p)
        return h

    def next(self):
        for p in PROPS:
            self.rec[p].setdefault(self.year, self.get(p))
        self.year += 1


class LedgerSystem:
    def __init__(self, cfg):
        self.cfg = cfg
        self.real, self.model, self.log = [], [], []
        inputs = {p: {YEAR + int(k): v for k, v in d.items()} for p, d in cfg['inputs'].items()}
        given = [inputs if cfg['inputs'] else None, inputs if cfg.get('shared') else None]
        for i in range(2):
            cls = cfg.get('ledger', 'Derived')
            self.real.append(CLASSES[cls](given[i]))
            self.model.append(LedgerModel({p: dict(d) for p, d in (given[i] or {}).items()}, cls))
        self.inputs, self.orig = inputs, {p: dict(d) for p, d in inputs.items()}
        self.past = [{}, {}]

    def events(self):
        out = []
        for o in (0, 1) if self.cfg['both'] else (0,):
            for p in self.cfg['props']:
                out += [['bump', o, p], ['get', o, p], ['set', o, p], ['del', o, p], ['hist', o, p]]
                if self.cfg.get('empty'):
                    out += [['bump', o, p, e] for e in (None, 0)] + [['set', o, p, None]]
            out += [['clear', o], ['year', o]]
        return out

    def apply(self, ev):
        op, o = ev[0], ev[1]
        r, m = self.real[o], self.model[o]
        p = ev[2] if len(ev) > 2 else None
        v = ev[3] if len(ev) > 3 else 100 + 10 * len(self.log) + o
        self.log.append(ev)
        if op == 'bump':
            r.state[p] = m.state[p] = v
        elif op == 'get':
            expect_eq('value', getattr(r, p), m.get(p), '%s of object %d' % (p, o))
        elif op == 'set':
            setattr(r, p, v)
            m.set(p, v)
        elif op == 'del':
            delattr(r, p)
            m.delete(p)
        elif op == 'hist':
            expect_eq('history', dict(getattr(r, p + '_history')), m.history(p), '%s history of object %d' % (p, o))
        elif op == 'clear':
            r.clear_cache()
            for q in m.cached:
                m.delete(q)
        elif op == 'year':
            r.next_year()
            m.next()
            expect_eq('year', r.this_year, m.year, 'current year')
            self.past[o] = {q: {y: w for y, w in m.rec[q].items() if y < m.year} for q in PROPS}

    def final(self):
        """Everything is read and compared only at the end of each history."""
        for o in (0, 1):
            r, m = self.real[o], self.model[o]
            expect_eq('year', r.this_year, m.year, 'current year of object %d' % o)
            expect_eq('year', r.initial_year, YEAR, 'initial year')
            for p in PROPS:
                h = dict(getattr(r, p + '_history'))
                for y, w in (self.past[o].get(p) or {}).items():
                    expect_eq('past', h.get(y), w, '%s of object %d in %d' % (p, o, y))
                expect_eq('history', h, m.history(p), '%s history of object %d' % (p, o))
                expect_eq('value', getattr(r, p), m.get(p), '%s of object %d' % (p, o))
                for y, w in m.inputs.get(p, {}).items():
                    expect_eq('input', h[y], w, 'input %s for %d' % (p, y))
        expect_eq('inputs_changed', self.inputs, self.orig, "the caller's inputs")

    def canon(self):
        return [(m.year, sorted(m.state.items()), [sorted(m.rec[p].items()) for p in PROPS]) for m in self.model]


def ledger_configs(tier):
    out = []
    for p in PROPS:
        for inp in ({}, {p: {'1': 71}}, {p: {'1': 71, '3': 73}}, {p: {'2': 72}, 'plain': {'1': 61}}):
            out.append(dict(props=[p], inputs=inp, both=True))
        out.append(dict(props=[p], inputs={p: {'1': 71}}, both=True, shared=True))
        out.append(dict(props=[p], inputs={}, both=False, empty=True))
        out.append(dict(props=[p], inputs={p: {'1': None}}, both=False, empty=True))
        out.append(dict(props=[p], inputs={}, both=False, ledger='Plainer'))
        out.append(dict(props=[p, 'inherited' if p != 'inherited' else 'plain'], inputs={p: {'2': 72}}, both=False, ledger='Plainer'))
    for i, p in enumerate(PROPS):
        out.append(dict(props=[p, PROPS[(i + 1) % 5]], inputs={}, both=False))
        out.append(dict(props=[p, PROPS[(i + 2) % 5]], inputs={p: {'1': 5}}, both=False))
    return out


# --- library objects: past immutable, closing values recorded, objects isolated -------------------

def norm(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return round(float(v), 9)
    if hasattr(v, 'items'):
        return sorted((str(k) if not isinstance(k, (int, float)) else round(float(k), 9), norm(w))
                      for k, w in list(v.items()))
    return type(v).__name__


def names(obj):
    return sorted(n[:-8] for n in dir(type(obj)) if n.endswith('_history') and not n.startswith('_'))


def flat(kind, v):
    """Step transactions are keyed by account or pool: reduced to the totals per time."""
    if kind == 'transactions' and hasattr(v, '_unhashablekeys'):
        tot = {}
        for key in list(v):
            for t, w in v[key].items():
                k = (type(key).__name__, round(float(t), 9), w > 0)
                tot[k] = tot.get(k, 0) + w
        return sorted((k, round(float(w), 9)) for k, w in tot.items() if w)
    return norm(v)


def view(obj):
    out = {}
    for n in names(obj):
        cur = getattr(obj, n)
        h = getattr(obj, n + '_history')
        out[n] = (flat(n, cur), {y: flat(n, w) for y, w in h.items()
                                 if not (n == 'acb' and y > obj.this_year)})   # next year's opening cost base
    return out


def make_person(name, inputs=None, **kw):
    return Person(YEAR, name, '1 July 1960', retirement_date='1 July 2002', gross_income=1000.0,
                  raise_rate={y: 0.1 * (y - 1999) for y in range(1999, 2012)},
                  tax_treatment=lambda inc, year: inc / 10, inputs=inputs, **kw)


class Objects:
    """Two objects of one library class."""

    def __init__(self, cfg):
        self.cfg, self.log = cfg, []
        self.objs, self.snap = [], [{}, {}]
        inputs = {p: {YEAR + int(k): v for k, v in d.items()} for p, d in cfg['inputs'].items()}
        self.inputs = [inputs, {}]
        self.p = [make_person('P'), make_person('Q')]
        self.pool = [{0.0: 500.0}, {0.0: 500.0}]
        self.side = [Account(self.p[0], balance=900, rate=0.1), Account(self.p[1], balance=900, rate=0.1)]
        for i in range(2):
            self.objs.append(self.make(cfg['cls'], i, {p: dict(d) for p, d in inputs.items()} if i == 0 and inputs else None))
        self.before = [view(o) for o in self.objs] if cfg['eager'] else None
        self.before_year = [YEAR, YEAR]
        if cfg['eager']:
            self.check([0, 1])

    def make(self, cls, i, inputs):
        own = self.p[i]
        kw = dict(inputs=inputs) if inputs else {}
        rate = {y: 0.05 * (y - 1999) for y in range(1990, 2012)}
        if cls == 'Person':
            return make_person('R%d' % i, **kw)
        if cls == 'SubForecast':
            return SubForecast(YEAR)
        if cls == 'IncomeForecast':
            return IncomeForecast(YEAR, [own])
        if cls == 'LivingExpensesForecast':
            return LivingExpensesForecast(YEAR, [own], lambda year, people, retirement_year: 100 + year)
        if cls == 'RRSP':
            return RRSP(own, balance=1000, rate=rate, contribution_room=300, **kw)
        if cls == 'TFSA':
            return TFSA(own, balance=1000, rate=rate, contribution_room=300, **kw)
        if cls == 'LinkedLimitAccount':
            return LinkedLimitAccount(own, balance=1000, rate=rate, max_inflow_link=(own, 't'), max_inflow_limit=50, **kw)
        return dict(Account=Account, Debt=Debt, TaxableAccount=TaxableAccount, PrincipleResidence=PrincipleResidence)[cls](
            own, balance=1000, rate=rate, **kw)

    def events(self):
        cls = self.cfg['cls']
        out = []
        for o in (0, 1):
            if cls == 'Person':
                ev = [['gross', 777.0], ['net', 55.0], ['treat', 0.5], ['raise', 0.2], ['del', 'net_income'], ['acct']]
            elif cls in ('IncomeForecast', 'LivingExpensesForecast', 'SubForecast'):
                ev = [['call'], ['undo'], ['move', 40.0, 0.5], ['move', 30.0, 0.25]]
            else:
                ev = [['add', 40.0, 0.5], ['add', -30.0, 0.75], ['set', 25.0, 0.5], ['clear'],
                      ['rate', 0.3], ['del', 'rate']]
                if cls in ('RRSP', 'TFSA'):
                    ev.append(['room', 90.0])
            out += [[e[0], o] + e[1:] for e in ev] + [['year', o]]
        return out

    def apply(self, ev):
        op, o = ev[0], ev[1]
        obj = self.objs[o]
        self.log.append(ev)
        closing = None
        if op == 'year':
            if self.cfg['eager']:
                closing = {n: v[0] for n, v in view(obj).items()}
            y = obj.this_year
            obj.next_year()
            expect_eq('year', obj.this_year, y + 1, 'year after advancing')
            for a in (self.p[o], self.side[o]):
                while isinstance(obj, SubForecast) and a.this_year < obj.this_year:
                    a.next_year()
            if closing:
                now = view(obj)
                for n, v in closing.items():
                    expect_eq('closing', now[n][1].get(y), v, '%s of %d' % (n, y))
            if isinstance(obj, SubForecast):
                self.pool[o] = {0.0: 500.0}
        elif op == 'gross':
            obj.gross_income = ev[2]
        elif op == 'net':
            obj.net_income = ev[2]
        elif op == 'treat':
            obj.tax_treatment = lambda inc, year, r=ev[2]: inc * r
        elif op == 'raise':
            obj.raise_rate_callable = ev[2]
        elif op == 'acct':
            obj.accounts.add(self.side[o])
        elif op == 'del':
            if not self.is_input(o, ev[2]):
                delattr(obj, ev[2])
        elif op == 'call':
            obj(self.pool[o])
        elif op == 'undo':
            obj.undo_transactions()
        elif op == 'move':
            obj.add_transaction(ev[2], timing=ev[3], from_account=self.pool[o],
                                to_account=self.side[o] if ev[2] == 40.0 else None)
        elif op == 'add':
            obj.add_transaction(ev[2], when=ev[3])
        elif op == 'set':
            obj[ev[3]] = ev[2]
        elif op == 'clear':
            obj.clear()
        elif op == 'rate':
            obj.rate = ev[2]
        elif op == 'room':
            obj.contribution_room = ev[2]
        if self.cfg['eager']:
            self.check([o])

    def is_input(self, o, p):
        return self.objs[o].this_year in self.inputs[o].get(p, {})

    def check(self, touched):
        after = [view(x) for x in self.objs]
        for o in (0, 1):
            if o not in touched:
                expect_eq('isolation', after[o], self.before[o], 'object %d after an operation on the other' % o)
            obj = self.objs[o]
            for n, (cur, hist) in after[o].items():
                keys = set(hist) - set(self.inputs[o].get(n, {}))
                want = set(range(YEAR, obj.this_year + 1))
                check('years', keys <= want and want <= set(hist), '%s history has years %s, now %d' % (n, sorted(hist), obj.this_year))
                expect_eq('current', hist[obj.this_year], cur, '%s of this year in its history' % n)
                for y, v in self.inputs[o].get(n, {}).items():
                    expect_eq('input', hist.get(y), norm(v), 'input %s for %d' % (n, y))
                    if y == obj.this_year:
                        expect_eq('input', cur, norm(v), 'input %s for %d' % (n, y))
                if self.before:
                    for y, v in self.before[o].get(n, (0, {}))[1].items():
                        if y < self.before_year[o]:
                            expect_eq('past', hist.get(y), v, '%s of object %d in %d' % (n, o, y))
        self.before = after
        self.before_year = [x.this_year for x in self.objs]

    def final(self):
        if not self.cfg['eager']:
            for o in (0, 1):
                obj = self.objs[o]
                for n, (cur, hist) in view(obj).items():
                    keys = set(hist) - set(self.inputs[o].get(n, {}))
                    want = set(range(YEAR, obj.this_year + 1))
                    check('years', keys <= want and want <= set(hist), '%s history has years %s, now %d' % (n, sorted(hist), obj.this_year))
                    expect_eq('current', hist[obj.this_year], cur, '%s of this year in its history' % n)
                    for y, v in self.inputs[o].get(n, {}).items():
                        expect_eq('input', hist.get(y), norm(v), 'input %s for %d' % (n, y))
            if not any(e[1] == 1 for e in self.log):
                fresh = Objects(dict(self.cfg, eager=False))
                expect_eq('isolation', view(self.objs[1]), view(fresh.objs[1]), 'untouched object')

    @property
    def unmerged(self):
        return not self.cfg['eager']

    def canon(self):
        if self.unmerged:
            return self.log
        return [sorted((n, v[0], sorted(v[1].items())) for n, v in view(o).items()) for o in self.objs] + [
            norm(p) for p in self.pool] + [norm(a.transactions) for a in self.side] + [
            [(e[0], e[2]) for e in self.log if e[0] in ('treat', 'raise') and e[1] == o] for o in (0, 1)] + [
            getattr(o, '_call_invoked', None) for o in self.objs]


def object_configs(tier):
    out = []
    inputs = dict(Person=[{}, dict(gross_income={'1': 333.0, '3': 444.0}), dict(raise_rate={'1': 0.5}), dict(net_income={'2': 9.0})],
                  RRSP=[{}, dict(contribution_room={'1': 17.0}), dict(rate={'1': 0.4, '2': 0.0})],
                  TFSA=[{}, dict(contribution_room={'1': 17.0, '3': 19.0})],
                  SubForecast=[{}], IncomeForecast=[{}], LivingExpensesForecast=[{}])
    for cls in ('Person', 'Account', 'Debt', 'TaxableAccount', 'PrincipleResidence', 'LinkedLimitAccount', 'RRSP', 'TFSA',
                'SubForecast', 'IncomeForecast', 'LivingExpensesForecast'):
        for inp in inputs.get(cls, [{}, dict(rate={'1': 0.4, '2': 0.0}), dict(balance={'1': 5000.0})]):
            if cls == 'Debt' and 'balance' in inp:
                inp = dict(balance={'1': -5000.0})
            for eager in (True, False):
                out.append(dict(cls=cls, inputs=inp, eager=eager))
    return out


FAMILIES = [
    Hist('ledger', ledger_configs, LedgerSystem, lambda tier, c: (4 if c['both'] and len(c['props']) == 1 else 5) + (tier != 'quick'),
         about='all read/assign/delete/clear/advance histories of two ledgers; compared only at the end'),
    Hist('objects', object_configs, Objects, lambda tier, c: 5 if tier != 'quick' and c['eager'] else 4 if tier != 'quick' or (c['eager'] and c['cls'] in ('Person', 'Account', 'SubForecast')) else 3,
         about='people, accounts, debts and forecast steps: past years, closing values, inputs, isolation'),
]
