"""C27: copies of people and accounts behave like their originals, and none of them affects another.

Each world (the first one, and every copy made of a world at any time) has a twin, which was never copied: it was
built from scratch, by the operations which the world and its ancestors have been through. A world must report what its
twin does, and reach no person or account of another world."""
import copy
import itertools
from ..engine import Hist, Fail, unread
from ..lib import *
from forecaster import Person, Account, Debt, Scenario, Tax, AllocationStrategy, Forecaster, LivingExpensesStrategy
from forecaster.accounts import LinkedLimitAccount
from forecaster.accounts.link import AccountLink
from forecaster.canada import RRSP, TFSA, TaxableAccount, ForecasterCanada
from forecaster.ledger import Ledger
from forecaster.utility import Timing

Y = 2016
LIMITS = ('max_inflow', 'min_inflow', 'max_outflow', 'min_outflow')
NO_INFLATION = {y: 1.0 for y in range(1970, 2120)}


def tax():
    return Tax({Y: {0: 0.1, 500: 0.3}}, personal_deduction={Y: 100}, inflation_adjust=NO_INFLATION)


class RaiseByPlan:
    """A caller's callable object, which refers to a person."""
    person = None

    def __call__(self, year):
        return 0.01 * (year - Y + 1) + 0.001 * self.person.retirement_age


class Mortgage:
    """A rate which refers to an account."""
    account = None

    def __call__(self, year):
        return 0.05 if self.account is None or self.account.balance_at_time('end') < 150 else 0.03


class World:
    def __init__(self, cfg):
        self.log, self.year = [], Y
        kind = cfg['kind']
        t = tax() if kind in ('plain', 'taxes', 'linked') else None
        kw = dict(tax_treatment=t) if t is not None else {}
        if cfg.get('inputs'):
            kw['inputs'] = {'gross_income': {Y + 1: 5000.0}, 'net_income': {Y + 2: 1.0}}
        raises = RaiseByPlan()
        p = Person(Y, 'P', '5 May 1960', retirement_date='31 December 2018', gross_income=1000.0,
                   raise_rate=raises if kind == 'taxes' else 0.1, payment_timing={0.5: 1, 1: 1}, **kw)
        q = Person(Y, 'Q', '29 February 1972', retirement_date='28 February 2030', gross_income=700.0,
                   raise_rate={Y: 0.02, Y + 1: 0.03, Y + 2: 0.04, Y + 3: 0.05, Y + 4: 0.06}, spouse=p if cfg.get('wed') else None,
                   **({'tax_treatment': t} if t is not None else {}))
        self.people = [p, q]
        raises.person = q
        a = []
        rate = Mortgage()
        if kind == 'plain':
            ins = dict(inputs={'balance': {Y + 1: 77.0}, 'transactions': {Y: {0.5: 10.0, 0: 1.0}, Y + 1: {0.5: 3.0}}}) if cfg.get('inputs') else {}
            a = [Account(p, balance=100.0, rate={Y + i: 0.1 * i for i in range(6)}, nper='M', default_timing={0.5: 1, 1: 3}, **ins),
                 Debt(q, balance=500.0, rate=rate, minimum_payment=20, accelerated_payment=50)]
            rate.account = a[0]
        elif kind == 'linked':
            shared = AccountLink((p, 'tok'))
            a = [LinkedLimitAccount(p, balance=100.0, rate=0.1, max_inflow_link=shared, max_inflow_limit=60, min_outflow_link=(p, 'min'),
                                    min_outflow_limit=-10),
                 LinkedLimitAccount(q, balance=50.0, max_inflow_link=(p, 'tok'), max_outflow_link=(q, 'out'), max_outflow_limit=-30),
                 LinkedLimitAccount(q, balance=40.0, max_outflow_link=(q, 'out'))]
        elif kind == 'taxes':
            a = [TaxableAccount(p, balance=100.0, rate=0.1, acb=40.0), Account(p, balance=10.0, rate=0.2, nper='Q'), TaxableAccount(q, balance=5.0)]
        elif kind == 'canada':
            a = [RRSP(p, balance=1000.0, rate=0.1, contribution_room=300, rrif_conversion_year=Y + 1),
                 RRSP(p, balance=100.0, contributor=q, contribution_room=200), TFSA(q, balance=10.0, contribution_room=50), TFSA(q, rate=0.02)]
        else:                                               # allocation
            s = Scenario(initial_year=Y, num_years=8, inflation=0.02, stock_return=[.1, .2, .05, -.1, .07, .08, .01, .02],
                         bond_return=0.03, other_return=0.01, management_fees=0.001)
            st = AllocationStrategy(AllocationStrategy.strategy_transition_to_const, 0.5, risk_transition_period=5)
            st2 = AllocationStrategy(AllocationStrategy.strategy_n_minus_age, 90, adjust_for_retirement_plan=True)
            a = [Account(p, balance=100.0, rate=st2.rate_function(p, s)), TFSA(q, balance=10.0, rate=st.rate_function(q, s), contribution_room=9),
                 Account(q, balance=1.0, rate=st2.rate_function(p, s))]
        self.accounts = a

    def do(self, ev):
        self.log.append(ev)
        what = ev[0]
        if what == 'tx':
            self.accounts[ev[1]].add_transaction(ev[2], when=ev[3])
        elif what == 'next':
            self.accounts[ev[1]].next_year()
        elif what == 'person':
            self.people[ev[1]].next_year()
        elif what == 'own':
            self.accounts[ev[1]].owner = self.people[ev[2]]
        elif what == 'wed':
            self.people[0].spouse = self.people[1]
        elif what == 'part':
            self.people[0].spouse = None
        elif what == 'income':
            self.people[ev[1]].gross_income = 1234.5
        elif what == 'retire':
            self.people[ev[1]].retirement_age = 50
        elif what == 'limit':
            setattr(self.accounts[ev[1]], ev[2] + '_limit', ev[3])
        elif what == 'timing':
            self.accounts[ev[1]].default_timing = Timing(0.25)
        elif what == 'nper':
            self.accounts[ev[1]].nper = 'D'
        elif what == 'rate':
            self.accounts[ev[1]].rate = 0.5
        elif what == 'retime':                              # (in place)
            x = (self.accounts + self.people)[ev[1]]
            t = x.default_timing if isinstance(x, Account) else x.payment_timing
            t[1.0] = t.get(1.0, 0) + 2
        elif what == 'amend':
            t = self.accounts[ev[1]].transactions
            t[0.75] = ev[2]
        elif what == 'year':
            for x in self.people + self.accounts:
                year = self.year + 1
                while x.this_year < year:
                    x.next_year()
            self.year = year
        elif what == 'read':
            self.report()

    def where(self, x, pool):
        for i, y in enumerate(pool):
            if x is y:
                return i
        return 'elsewhere' if x is not None else None

    def report(self):
        """Everything public, with relationships by position."""
        out = []
        for i, p in enumerate(self.people):
            out += [('P%d %s' % (i, n), v) for n, v in (
                ('year', p.this_year), ('initial year', p.initial_year), ('name', p.name), ('birth', str(p.birth_date)), ('retires', str(p.retirement_date)),
                ('spouse', self.where(p.spouse, self.people)), ('age', p.age(p.this_year)), ('timing', flat(p.payment_timing)),
                ('accounts', sorted(str(self.where(x, self.accounts)) for x in p.accounts)), ('raise', r9(p.raise_rate_callable(p.this_year))),
                ('tax', None if p.tax_treatment is None else r9(p.tax_treatment(p.taxable_income, p.this_year))),
                ('same tax', p.tax_treatment is self.people[0].tax_treatment))]
            out += histories(p, 'P%d' % i)
        for i, a in enumerate(self.accounts):
            out += [('A%d %s' % (i, n), v) for n, v in (
                ('year', a.this_year), ('owner', self.where(a.owner, self.people)), ('nper', a.nper), ('timing', flat(a.default_timing)),
                ('now', flat(a.transactions)), ('end', r9(a.balance_at_time('end'))), ('rate', r9(a.rate)),
                ('rates', [r9(a.rate_callable(y)) for y in (a.this_year, a.this_year + 1)]),
                ('in', flat(a.max_inflows())), ('out', flat(a.max_outflows())), ('least in', flat(a.min_inflows())), ('least out', flat(a.min_outflows())))]
            out += histories(a, 'A%d' % i)
            if isinstance(a, Debt):
                out += [('A%d debt' % i, (r9(a.minimum_payment), r9(a.accelerated_payment)))]
            if isinstance(a, LinkedLimitAccount):
                for n in LIMITS:
                    link = getattr(a, n + '_link')
                    out.append(('A%d %s' % (i, n), (r9(getattr(a, n + '_limit')), None if link is None else (
                        self.where(link.owner, self.people), sorted(str(self.where(x, self.accounts)) for x in link.group)))))
            if isinstance(a, (RRSP, TFSA)):
                out.append(('A%d contributor' % i, (self.where(a.contributor, self.people), r9(a.contribution_room))))
            if isinstance(a, RRSP):
                out.append(('A%d converts' % i, a.rrif_conversion_year))
        return out


def flat(m):
    return [(r9(k), r9(v)) for k, v in sorted(m.items())]


def histories(o, name):
    out = []
    for prop in sorted(o._recorded_properties, key=lambda p: p.__name__):
        h = getattr(o, prop.history_prop_name)
        out.append(('%s %s' % (name, prop.__name__), [(y, flat(v) if isinstance(v, dict) else r9(v)) for y, v in sorted(h.items())]))
    return out


def same(who, got, want):
    if got != want:
        diff = [(g, x) for g, x in zip(got, want) if g != x]
        raise Fail('differs', '%s: %r, expected: %r' % (who, diff[0][0], diff[0][1]))


def reach(roots):
    """All people and accounts which can be reached from `roots` (other than by the code of functions)."""
    seen, todo, found = {}, list(roots), {}
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (str, bytes, int, float, complex, type, type(None))):
            continue
        seen[id(x)] = x
        if isinstance(x, Ledger):
            found[id(x)] = x
        if isinstance(x, dict):
            todo += list(dict.keys(x)) + list(dict.values(x))
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        if getattr(x, '__self__', None) is not None:
            todo.append(x.__self__)
        d = getattr(x, '__dict__', None)
        if isinstance(d, dict):
            todo.append(d)
    return found


def duplicate(w, way):
    """The ways in which callers, and the library, copy."""
    if way == 'all':
        people, accounts = copy.deepcopy((w.people, w.accounts))
    elif way == 'memo':                                    # as a Forecaster does
        memo = {}
        people = copy.deepcopy(w.people, memo)
        accounts = copy.deepcopy(w.accounts, memo)
    elif way == 'back':
        memo = {}
        accounts = copy.deepcopy(list(reversed(w.accounts)), memo)[::-1]
        people = copy.deepcopy(tuple(w.people), memo)
    else:                                                   # one by one
        memo = {}
        accounts = [copy.deepcopy(a, memo) for a in w.accounts]
        people = [copy.deepcopy(p, memo) for p in w.people]
    out = World.__new__(World)
    out.people, out.accounts, out.log, out.year = list(people), list(accounts), list(w.log), w.year
    return out


def run(w, kind):
    """Runs a forecast; returns what it reports, and its copies as a world."""
    f = (ForecasterCanada if kind == 'canada' else Forecaster)(
        scenario=Scenario(initial_year=w.year, num_years=2, inflation=0.02, stock_return=0.05, bond_return=0.03, other_return=0.01, management_fees=0),
        living_expenses_strategy=LivingExpensesStrategy(LivingExpensesStrategy.strategy_const_living_expenses, base_amount=900))
    fc = f.run_forecast(set(w.people), {a for a in w.accounts if not isinstance(a, Debt)}, {a for a in w.accounts if isinstance(a, Debt)})
    out = World.__new__(World)
    out.year, out.log = w.year + 2, []
    out.people = in_order(fc.income_forecast.people, w.people)
    out.accounts = in_order(set(fc.saving_forecast.retirement_accounts) | set(fc.saving_forecast.debt_accounts), w.accounts)
    return [(n, flat(getattr(fc, n + '_history'))) for n in ('income', 'living_expenses', 'saving', 'withdrawals', 'tax', 'net_worth', 'principal')
            if hasattr(fc, n + '_history')], out


def in_order(copies, originals):
    """Copies share the number of their original."""
    by = {x.creation_order: x for x in copies}
    check('copies', len(by) == len(list(copies)) == len(originals) and set(by) == {x.creation_order for x in originals}, 'people and accounts of a forecast')
    return [by[x.creation_order] for x in originals]


class System:
    eager = False

    def __init__(self, cfg):
        self.cfg = cfg
        self.worlds, self.twins = [World(cfg)], [World(cfg)]
        self.check()

    def events(self):
        out = []
        if len(self.worlds) < self.cfg['worlds']:
            out += [['copy', k, way] for k in range(len(self.worlds)) for way in self.cfg['ways']]
        if self.cfg.get('run'):
            out += [['run', k] for k, w in enumerate(self.worlds) if all(x.this_year == w.year for x in w.people + w.accounts)]
        for k, w in enumerate(self.worlds):
            out += [['do', k] + e for e in self.cfg['events'] if len(w.log) < 6]
        return out

    def again(self, log):
        """A world built from scratch, and read when the original was: some values are kept once read."""
        w = World(self.cfg)
        for e in [None] + log:
            if e is not None:
                w.do(e)
            if self.eager:
                w.report()
        return w

    def apply(self, ev):
        if ev[0] == 'copy':
            w = self.worlds[ev[1]]
            self.worlds.append(duplicate(w, ev[2]))
            self.twins.append(self.again(w.log))
        elif ev[0] == 'run':
            w = self.worlds[ev[1]]
            if self.eager:
                before = w.report()
            got, mine = run(w, self.cfg['kind'])
            if self.eager:
                same('the originals after a run', w.report(), before)
            want, its = run(self.again(w.log), self.cfg['kind'])
            same('a run', got, want)
            same('people and accounts of a run', mine.report(), its.report())
            inside = reach([mine.people, mine.accounts])
            check('strays', len(inside) == len(mine.people) + len(mine.accounts), 'a run reaches %d people and accounts, has %d' % (
                len(inside), len(mine.people) + len(mine.accounts)))
            for k, x in enumerate(self.worlds):
                check('shared', not set(inside) & set(reach([x.people, x.accounts])), 'a run and world %d share people or accounts' % k)
        else:
            for x in (self.worlds[ev[1]], self.twins[ev[1]]):
                x.do(ev[2:])
        self.check()

    def check(self):
        self.eager = True
        for k, (w, t) in enumerate(zip(self.worlds, self.twins)):
            same('world %d' % k, w.report(), t.report())
        everyone = [reach([w.people, w.accounts]) for w in self.worlds]
        for k, w in enumerate(self.worlds):
            check('strays', len(everyone[k]) == len(w.people) + len(w.accounts), 'world %d reaches %d people and accounts, has %d' % (
                k, len(everyone[k]), len(w.people) + len(w.accounts)))
        for (i, a), (j, b) in itertools.combinations(enumerate(everyone), 2):
            check('shared', not set(a) & set(b), 'worlds %d and %d share people or accounts' % (i, j))

    def canon(self):
        return tuple(len(w.log) for w in self.worlds)       # (the rest is in the real objects, the twins among them)


EVENTS = dict(
    plain=[['tx', 0, 50.0, 0.5], ['next', 0], ['next', 1], ['own', 0, 1], ['income', 0], ['timing', 0], ['amend', 1, 30.0], ['wed'], ['retime', 0], ['retime', 2]],
    linked=[['tx', 0, 20.0, 0.5], ['tx', 1, -5.0, 0], ['next', 1], ['limit', 0, 'max_inflow', 90], ['limit', 2, 'max_outflow', -1], ['own', 1, 0], ['rate', 0]],
    taxes=[['tx', 0, -30.0, 0.5], ['next', 0], ['person', 1], ['tx', 2, 10.0, 0], ['own', 0, 1], ['part'], ['nper', 1], ['retire', 1], ['person', 0]],
    canada=[['tx', 0, -100.0, 0.5], ['tx', 1, 50.0, 0], ['tx', 3, 10.0, 1], ['next', 0], ['next', 1], ['next', 3], ['person', 1], ['own', 2, 0]],
    allocation=[['retire', 0], ['retire', 1], ['next', 0], ['person', 0], ['next', 1], ['tx', 0, 5.0, 0]])


RUNS = dict(
    plain=[['tx', 0, 50.0, 0.5], ['year'], ['own', 0, 1], ['income', 0], ['retime', 2]],
    taxes=[['tx', 0, -30.0, 0.5], ['year'], ['own', 0, 1], ['retire', 1]],
    linked=[['tx', 0, 20.0, 0.5], ['year'], ['limit', 0, 'max_inflow', 90], ['limit', 2, 'max_outflow', -1]],
    canada=[['tx', 0, -100.0, 0.5], ['tx', 1, 50.0, 0], ['year'], ['own', 2, 0]],
    allocation=[['retire', 0], ['retire', 1], ['year'], ['tx', 0, 5.0, 0]])


def run_configs(tier):
    return [dict(kind=kind, wed=wed, inputs=False, ways=['all'], events=events, worlds=1 if tier == 'quick' else 2, run=True)
            for kind, events in RUNS.items() for wed in (False, True)]


def configs(tier):
    out = []
    ways = ('all', 'memo') if tier == 'quick' else ('all', 'memo', 'back', 'each')
    for kind, events in EVENTS.items():
        for wed in (False, True):
            for inputs in (False, True) if kind == 'plain' else (False,):
                for way in ways:
                    out.append(dict(kind=kind, wed=wed, inputs=inputs, ways=[way], events=events, worlds=2))
        if tier != 'quick':
            out.append(dict(kind=kind, wed=True, inputs=False, ways=['all'], events=events[:5], worlds=3))
    return out


def depth(tier, c):
    return 3 if tier == 'quick' else 4


FAMILIES = [
    Hist('copies', configs, System, depth, about='two or three worlds of people and accounts, copied at any time, each beside a twin never copied'),
    Hist('runs', run_configs, System, depth, about='forecasts run at any time in a history: the originals, the copies of the run, and later runs'),
]
FAMILIES += [unread(f) for f in FAMILIES]
