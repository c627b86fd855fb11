"""C22: high-precision objects report high-precision values that agree with ordinary ones; no state is shared."""
import decimal
import threading
from decimal import Decimal
from fractions import Fraction
from ..engine import Enum, Hist, Fail
from ..lib import *
from .c15 import BRACKETS
from forecaster import Person, Scenario, Tax
from forecaster.accounts import Account, Debt, LinkedLimitAccount
from forecaster.canada import RRSP, TFSA, TaxableAccount, TaxCanada
from forecaster.canada.accounts import PrincipleResidence
from forecaster.forecast import (
    Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast)
from forecaster.strategy import (
    AllocationStrategy, DebtPaymentStrategy, LivingExpensesStrategy, LivingExpensesStrategySchedule, TransactionStrategy)
from forecaster.utility import HighPrecisionOptional, HighPrecisionOptionalProperty, HighPrecisionOptionalPropertyCached, Timing

Y = 2000


class Mode:
    """Ordinary (float) or high-precision (Decimal) numbers and constructor arguments."""

    def __init__(self, hp):
        self.hp = hp
        self.kw = dict(high_precision=Decimal) if hp else {}
        self.out = []

    def __call__(self, x):
        if x == 'inf':
            x = INF
        if isinstance(x, dict):
            return {k: self(v) for k, v in x.items()}
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        return Decimal(repr(x)) if self.hp else float(x)

    def when(self, d):
        return {self(k): self(v) for k, v in d.items()}

    def obs(self, label, v):
        self.out.append((label, v))

    def flows(self, label, d):
        self.out.append((label, {k: v for k, v in d.items()}))


def compare(script, case, rel=1e-9, tol=1e-6):
    a, b = Mode(False), Mode(True)
    script(a, case)
    script(b, case)
    check('shape', [l for l, _ in a.out] == [l for l, _ in b.out], 'different results: %s' % case)
    for (label, x), (_, y) in zip(a.out, b.out):
        if isinstance(x, dict):
            for k in list(y) + list(y.values()):
                check('type', not isinstance(k, float), '%s holds an ordinary float: %r' % (label, y))
            gx = {round(float(k), 9): float(v) for k, v in x.items()}
            gy = {round(float(k), 9): float(v) for k, v in y.items()}
            for k in sorted(set(gx) | set(gy)):
                if not close(gx.get(k, 0), gy.get(k, 0), rel, tol):
                    raise Fail('value', '%s: ordinary %s, high precision %s' % (label, gx, gy))
            continue
        if x is None or y is None:
            check('value', x is y, '%s: ordinary %r, high precision %r' % (label, x, y))
            continue
        check('type', isinstance(y, Decimal), '%s is %r in high precision' % (label, y))
        if not close(x, y, rel, tol):
            raise Fail('value', '%s: ordinary %r, high precision %r' % (label, x, y))
    return dict(ops=len(a.out), outcome=[(l, r9(v)) if not isinstance(v, (dict, type(None))) else l for l, v in a.out][:60])


def run(c):
    if c['script'] in ('moves', 'forecast'):    # money within EPSILON of a limit may stay unassigned
        return compare(SCRIPTS[c['script']], c, 1e-7, 1e-3)
    return compare(SCRIPTS[c['script']], c)


def person(m, name='P', born=1970, retire=2035, monthly=False, gross_income=None, tax_treatment=None):
    return Person(Y, name, '1 May %d' % born, retirement_date='1 June %d' % retire, raise_rate=m(0.03), tax_treatment=tax_treatment,
                  gross_income=m(60000) if gross_income is None else gross_income,
                  payment_timing=Timing(frequency='M', **m.kw) if monthly else None, **m.kw)


# Accounts --------------------------------------------------------------------------------

TIMINGS = {'mid': {0.5: 1}, 'two': {0: 1, 1: 1}, 'uneven': {0.25: 3, 0.75: 1}, 'none': None}


def watch(m, a, timing, tag):
    for t in (0, 0.3, 'start', 0.5, 1, 'end'):
        m.obs('%s balance at %s' % (tag, t), a.balance_at_time(m(t) if not isinstance(t, str) else t))
    m.obs(tag + ' balance', a.balance)
    m.obs(tag + ' rate', a.rate)
    m.obs(tag + ' returns', a.returns)
    for name in ('taxable_income', 'tax_withheld', 'tax_credit', 'tax_deduction'):
        m.obs(tag + ' ' + name, getattr(a, name))
    for name in ('max_inflow_limit', 'min_inflow_limit', 'max_outflow_limit', 'min_outflow_limit'):
        m.obs(tag + ' ' + name, getattr(a, name))
    for name in ('inflows', 'outflows'):
        m.obs(tag + ' ' + name, getattr(a, name)())
    for name in ('max_inflows', 'min_inflows', 'max_outflows', 'min_outflows'):
        m.flows(tag + ' ' + name, getattr(a, name)(timing))
        m.flows(tag + ' ' + name + ' default', getattr(a, name)())
        m.flows(tag + ' ' + name + ' limited', getattr(a, name)(
            timing, transaction_limit=m(30 if 'inflow' in name else -30)))


def s_account(m, c):
    p = person(m)
    kind, arg = c['kind'], {}
    if kind == 'debt':
        if c['debt'] is not None:
            arg = dict(minimum_payment=m(c['debt'][0]), accelerated_payment=m(c['debt'][1]))
        a = Debt(p, balance=m(-1000), rate=m(c['rate']), nper=c['nper'], **arg, **m.kw)
    elif kind == 'account':
        a = Account(p, balance=m(1000), rate=m(c['rate']), nper=c['nper'], default_timing=Timing(
            m.when({0.25: 1, 0.75: 2}), **m.kw), **m.kw)
    elif kind == 'empty':
        a = Account(p, **m.kw)
    elif kind == 'linked':
        a = LinkedLimitAccount(p, balance=m(500), rate=m(c['rate']), nper=c['nper'], max_inflow_link=(p, 'in'), max_inflow_limit=m(100),
                               max_outflow_link=(p, 'out'), max_outflow_limit=m(-90), **m.kw)
    elif kind == 'home':
        a = PrincipleResidence(p, balance=m(1000), rate=m(c['rate']), **m.kw)
    else:
        a = TaxableAccount(p, balance=m(1000), rate=m(c['rate']), nper=c['nper'], acb=m(700), **m.kw)
    timing = TIMINGS[c['timing']]
    timing = None if timing is None else Timing(m.when(timing), **m.kw)
    for year in range(3):
        for v, w in c['flows'][year % len(c['flows'])]:
            a.add_transaction(m(v), when=m(w) if not isinstance(w, str) else w)
        watch(m, a, timing, 'year %d' % year)
        for t in (0, 0.5):
            for name in ('max_inflow', 'max_outflow', 'min_inflow', 'min_outflow'):
                m.obs(name, getattr(a, name)(m(t)))
            if kind not in ('debt', 'empty') and c['rate'] > 0:
                m.obs('time', a.time_to_balance(m(1200), when=m(t)))
        if kind == 'taxable':
            m.obs('acb', a.acb)
            m.obs('gain', a.capital_gain)
        if kind == 'debt':
            m.obs('minimum', a.minimum_payment)
            m.obs('accelerated', a.accelerated_payment)
        if year == 1:
            a.rate = m(0.015)
            m.obs('assigned rate', a.rate)
        p.next_year()
        a.next_year()
    for name in ('balance', 'rate', 'returns', 'taxable_income'):
        for y, v in getattr(a, name + '_history').items():
            m.obs('%s recorded for %s' % (name, y), v)


FLOWS = [[[]], [[[100, 0.5]]], [[[100, 'start'], [-50.25, 0.75]], [[-10, 'end']]], [[[-33.3, 0.1]], [], [[70, 0.9], [1, 1]]]]


def account_cases(tier):
    q = tier == 'quick'
    for kind in ('account', 'debt', 'linked', 'home', 'taxable', 'empty'):
        for rate in (0.05, 0, 0.1) if q else (0.05, 0, 0.1, -0.04, 1.5):
            for nper in (1, 'M', 12, 'BW') if q else (1, 'A', 'M', 12, 2, 'BW', 'D'):
                for timing in TIMINGS:
                    for fl in FLOWS:
                        if kind == 'debt':
                            fl = [[[abs(v), w] for v, w in y] for y in fl]
                            for debt in (None, [50, 'inf'], [20, 100]) if q else (None, [50, 'inf'], [20, 100], [0, 0], [400, 0]):
                                yield dict(script='account', kind=kind, rate=rate, nper=nper, timing=timing, flows=fl, debt=debt)
                        elif kind in ('home', 'empty') and (nper != 1):
                            continue
                        else:
                            yield dict(script='account', kind=kind, rate=rate, nper=nper, timing=timing, flows=fl)


# Registered accounts ------------------------------------------------------------------------

INFL = {Y + i: 1 + 0.02 * i + (0.005 if i % 3 == 0 else 0) for i in range(-10, 60)}


def infl(m):
    d = m(INFL)
    return lambda target, base=Y: d[target] / d[base]


def s_registered(m, c):
    f = infl(m)
    p = person(m, born=c['born'], retire=c['born'] + 75, gross_income=m(c['gross']))
    arg = {} if c['room'] is None else dict(contribution_room=m(c['room']))
    kind = dict(rrsp=RRSP, tfsa=TFSA)[c['kind']]
    a = kind(p, balance=m(c['balance']), rate=m(0.04), inflation_adjust=f, **arg, **m.kw)
    b = kind(p, balance=m(100), rate=m(0), inflation_adjust=f, **m.kw) if c['two'] else None
    timing = Timing(m.when({0.25: 1, 0.75: 1}), **m.kw)
    for year in range(4):
        for x in (a, b):
            if x is not None:
                m.obs('room %d' % year, x.contribution_room)
        watch(m, a, timing, 'year %d' % year)
        if hasattr(a, 'min_outflow_limit'):
            m.obs('minimum', a.min_outflow_limit)
        for v, w in c['flows']:
            a.add_transaction(m(v), when=m(w))
        watch(m, a, timing, 'after, year %d' % year)
        p.next_year()
        for x in (a, b):
            if x is not None:
                x.next_year()
    for y, v in a.contribution_room_history.items():
        m.obs('room of %s' % y, v)


def registered_cases(tier):
    for kind in ('rrsp', 'tfsa'):
        for born in (1970, 1930, 1928, 1904, 1983) if tier == 'quick' else (1970, 1960, 1932, 1930, 1928, 1915, 1904, 1983):
            for gross in (0, 60000, 400000):
                for room in (None, 0, 1000.5):
                    for balance in (0, 20000):
                        for two in (False, True):
                            for flows in ([], [[500, 0.5]], [[800, 0.25], [-300.75, 1]]):
                                if balance == 0 and any(v < 0 for v, _ in flows):
                                    continue
                                yield dict(script='registered', kind=kind, born=born, gross=gross, room=room, balance=balance,
                                           two=two, flows=flows)


# Taxes and people -----------------------------------------------------------------------------

def s_tax(m, c):
    f = infl(m)
    if c['kind'] == 'canada':
        t = TaxCanada(inflation_adjust=f, province='BC', **m.kw)
    else:
        t = Tax({Y: m.when(BRACKETS), Y + 2: m.when({0: 0.05, 10000.5: 0.15})} if c['kind'] == 'two' else {Y: m.when(BRACKETS)},
                personal_deduction={Y: m(1000.25)}, credit_rate={Y: m(0.1)}, inflation_adjust=f, **m.kw)
    for y in range(Y, Y + 5):
        for inc in c['incomes']:
            m.obs('tax on %s in %s' % (inc, y), t(m(inc), y))
        if c['kind'] != 'canada':
            for b, r in t.tax_brackets(y).items():
                m.obs('bracket', b)
                m.obs('rate', r)
            m.obs('deduction', t.personal_deduction(y))
            m.obs('credit', t.credit_rate(y))
    people = [person(m, name='A', gross_income=m(c['incomes'][0]), tax_treatment=t, born=1930),
              person(m, name='B', gross_income=m(c['incomes'][-1]), tax_treatment=t)]
    if c['couple']:
        people[0].spouse = people[1]
    accts = [RRSP(people[0], balance=m(50000), rate=m(0.05), contribution_room=m(10000), inflation_adjust=f, **m.kw),
             TaxableAccount(people[1], balance=m(20000), acb=m(5000), rate=m(0.05), **m.kw)]
    accts[0].add_transaction(m(-4000.5), when=m(0.5))
    accts[1].add_transaction(m(-6000), when=m(0.25))
    for y in range(Y, Y + 3):
        for p in people:
            for k in ('gross_income', 'net_income', 'raise_rate', 'taxable_income', 'tax_withheld', 'tax_credit', 'tax_deduction'):
                m.obs(p.name + ' ' + k, getattr(p, k))
            m.obs(p.name + ' tax', t(p, y))
        m.obs('household tax', t(set(people), y))
        for p in people:
            p.next_year()
        for a in accts:
            a.next_year()


def tax_cases(tier):
    incomes = (0, 500, 1000.25, 20000, 60000, 61234.56, 150000, 1e6)
    for kind in ('plain', 'two', 'canada'):
        for couple in (False, True):
            for a in incomes:
                for b in incomes if tier != 'quick' else incomes[::2]:
                    yield dict(script='tax', kind=kind, couple=couple, incomes=[a, 5e4, b])


# Scenarios, strategies ----------------------------------------------------------------------------

def scenario(m):
    return Scenario(Y, 12, inflation=[m(0.01 + 0.003 * i) for i in range(12)], stock_return=m(0.07), bond_return={
        Y + i: m(0.04 - 0.001 * i) for i in range(12)}, other_return=m(0.02), management_fees=m(0.005))


def s_alloc(m, c):
    s = scenario(m)
    args = dict(target=m(c['target']), min_equity=m(c['min']), max_equity=m(c['max']))
    if c['plain']:          # ordinary numbers are converted too
        args = dict(target=c['target'], min_equity=c['min'], max_equity=c['max'])
    a = AllocationStrategy(strategy=c['strategy'], adjust_for_retirement_plan=c['adjust'], **args, **m.kw)
    for k in ('target', 'min_equity', 'max_equity'):
        m.obs(k, getattr(a, k))
    for age in (20, 40, 51, 60, 64, 65, 80, 119):
        for ret in (60, 65):
            for part, v in zip(('stocks', 'bonds', 'other'), a(age=age, retirement_age=ret)):
                m.obs('%s at %d' % (part, age), v)
    p = person(m, born=1950, retire=2012)
    r = a.rate_function(p, s)
    for y in range(Y, Y + 12):
        m.obs('rate in %d' % y, r(y))
        m.obs('inflation', s.inflation_adjust(y, Y) * m(1))
        m.obs('inflation', s.inflation_adjust(Y, y) * m(1))
    acct = Account(p, balance=m(1000), rate=r, **m.kw)
    for _ in range(3):
        m.obs('rate', acct.rate)
        m.obs('balance', acct.balance_at_time('end'))
        p.next_year()
        acct.next_year()


def alloc_cases(tier):
    for strategy, targets in (('n-age', (100, 120.5, 65)), ('Transition to constant', (0.5, 0.35, 1))):
        for t in targets:
            for lo, hi in ((0, 1), (0.2, 0.8), (0.3, 0.3), (0.1, 0.9)):
                for adjust in (True, False):
                    for plain in (False, True):
                        yield dict(script='alloc', strategy=strategy, target=t, min=lo, max=hi, adjust=adjust, plain=plain)


RULES = sorted(LivingExpensesStrategy.strategies)


def s_living(m, c):
    s = scenario(m)
    people = [person(m, name='A', gross_income=m(50000)), person(m, name='B', gross_income=m(1234.5), retire=2001)]
    accts = [Account(people[0], balance=m(777), rate=m(0.1), **m.kw)]
    conv = (lambda x: x) if c['plain'] else m
    st = LivingExpensesStrategy(c['rule'], base_amount=conv(c['base']), rate=conv(c['rate']),
                                inflation_adjust=s.inflation_adjust if c['infl'] else None, **m.kw)
    sched = LivingExpensesStrategySchedule(st, LivingExpensesStrategy(
        'Constant living expenses', base_amount=conv(300.5), inflation_adjust=s.inflation_adjust, **m.kw))
    f = LivingExpensesForecast(Y, people, sched, **m.kw)
    for y in range(Y, Y + 4):
        if 'retirement' not in c['rule'] or y > Y:
            m.obs('living expenses in %d' % y, st(people=people, year=y, retirement_year=Y))
            m.obs('schedule in %d' % y, sched(people=people, year=y, retirement_year=Y + 1))
            if 'retirement' not in c['rule']:
                m.obs('forecast in %d' % y, f.living_expenses)
                avail = {m(0): m(100000)}
                f(avail)
                m.flows('left in %d' % y, avail)
        if 'retirement' not in c['rule']:
            f.next_year()
        for p in people:
            p.next_year()
        for a in accts:
            a.next_year()


def living_cases(tier):
    for rule in RULES:
        for base in (0, 1000.1):
            for rate in (0, 0.3, 1):
                for inf in (False, True):
                    for plain in (False, True):
                        yield dict(script='living', rule=rule, base=base, rate=rate, infl=inf, plain=plain)


def s_moves(m, c):
    """Saving, withdrawing and repaying through strategies."""
    f = infl(m)
    p = person(m, born=1950)
    A = dict(a=Account(p, balance=m(100), rate=m(0.05), **m.kw), t=TFSA(p, balance=m(50), contribution_room=m(70), inflation_adjust=f, **m.kw),
             r=RRSP(p, balance=m(80), contribution_room=m(33.3), inflation_adjust=f, **m.kw),
             x=TaxableAccount(p, balance=m(10), acb=m(5), **m.kw),
             l1=LinkedLimitAccount(p, balance=m(40), max_inflow_link=(p, 'x'), max_inflow_limit=m(25), **m.kw),
             l2=LinkedLimitAccount(p, balance=m(20), max_inflow_link=(p, 'x'), max_inflow_limit=m(25), **m.kw),
             d=Debt(p, balance=m(-40), rate=m(0.2), minimum_payment=m(5), accelerated_payment=m('inf'), **m.kw),
             e=Debt(p, balance=m(-90), rate=m(0.03), minimum_payment=m(10), accelerated_payment=m(20), **m.kw),
             u=Debt(p, balance=m(-15), rate=m(0.1), **m.kw))
    accts = [A[k] for k in c['accounts']]
    avail = m.when({float(k): v for k, v in c['available'].items()})
    if c['debtonly']:
        s = DebtPaymentStrategy(c['strategy'], **m.kw)
        got = s(accts, avail)
    else:
        w = {'RRSP': 2, 'TFSA': 1, 'TaxableAccount': 3, 'Account': 4, 'LinkedLimitAccount': 5, 'Debt': 6}
        if c['strategy'] == 'Weighted':
            w = m(w)
        s = TransactionStrategy(c['strategy'], w, **({} if c['thr'] is None else dict(high_interest_threshold=m(c['thr']))), **m.kw)
        m.obs('threshold', s.high_interest_threshold)
        got = s(avail, accts)
    names = {id(v): k for k, v in A.items()}
    for k in c['accounts']:
        m.flows(k, dict(got.get(A[k], {})))
    check('accounts', all(id(k) in names for k in got))


def moves_cases(tier):
    sets = [['a'], ['t', 'r'], ['r', 't', 'x', 'a'], ['l1', 'l2'], ['l1', 'l2', 'a'], ['d', 'e', 'u'], ['a', 'd', 'e'], ['t', 'u', 'x'],
            ['a', 't', 'r', 'x', 'd', 'e']]
    avs = [{0: 10}, {0.5: 100}, {0: 20, 0.5: 30.5}, {0.25: 1000}, {0: 50, 0.5: -20, 1: 10}]
    for acc in sets:
        for av in avs + ([{0.5: -30}, {1: -1000}, {0: -5, 0.5: -10}] if not set(acc) & set('deu') else []):
            for st in ('Ordered', 'Weighted'):
                for thr in (None, 0.05):
                    yield dict(script='moves', accounts=acc, available=av, strategy=st, thr=thr, debtonly=False)
            if set(acc) <= set('deu'):
                for st in ('Avalanche', 'Snowball'):
                    yield dict(script='moves', accounts=acc, available=av, strategy=st, thr=None, debtonly=True)


# Whole forecasts ----------------------------------------------------------------------------------

def s_forecast(m, c):
    sc = Scenario(Y, c['years'], inflation=m(0.02), stock_return=m(0.05), bond_return=m(0.03), other_return=m(0.01), management_fees=m(0))
    f = sc.inflation_adjust
    if c['tax'] == 'canada':
        tax = TaxCanada(inflation_adjust=infl(m), province='BC', **m.kw)
    else:
        tax = Tax({Y: m.when(BRACKETS)}, inflation_adjust=f, **m.kw)
    people = [person(m, name='A', gross_income=m(60000), tax_treatment=tax, retire=c['retire'], monthly=c['monthly'])]
    if c['couple']:
        people.append(person(m, name='B', gross_income=m(20000), tax_treatment=tax, retire=c['retire'] + 1, born=1930))
        people[0].spouse = people[1]
    p, q = people[0], people[-1]
    rate = AllocationStrategy('n-age', target=m(100), min_equity=m(0.1), max_equity=m(0.9), **m.kw).rate_function(p, sc)
    assets = {RRSP(p, balance=m(20000), rate=rate, contribution_room=m(3000), inflation_adjust=infl(m), **m.kw),
              TFSA(q, balance=m(1000), rate=m(0.02), contribution_room=m(5000), inflation_adjust=infl(m), **m.kw),
              TaxableAccount(p, balance=m(50000), acb=m(20000), rate=rate, **m.kw)}
    if c['couple']:
        assets.add(RRSP(q, balance=m(40000), rate=m(0.01), inflation_adjust=infl(m), **m.kw))
    debts = {Debt(p, balance=m(-5000), rate=m(0.1), minimum_payment=m(500), accelerated_payment=m(c['acc']), **m.kw)} if c['debts'] else set()
    w = {'RRSP': 1, 'TFSA': 2, 'TaxableAccount': 3, 'Debt': 4}
    w2 = {'RRSP': 3, 'TFSA': 1, 'TaxableAccount': 2}
    if c['strategy'] == 'Weighted':
        w, w2 = m(w), m(w2)
    living = LivingExpensesStrategy('Constant living expenses', base_amount=m(c['spend']), inflation_adjust=f, **m.kw)
    steps = [IncomeForecast(Y, people, **m.kw), LivingExpensesForecast(Y, people, living, **m.kw),
             SavingForecast(Y, assets, debts, TransactionStrategy(c['strategy'], w, **m.kw), **m.kw),
             WithdrawalForecast(Y, people, assets, TransactionStrategy(c['strategy'], w2, **m.kw), **m.kw),
             TaxForecast(Y, people, tax, **m.kw)]
    fc = Forecast(*steps, sc, **m.kw)
    for k in ('income', 'living_expenses', 'savings', 'principal', 'withdrawals', 'tax'):
        for y, v in getattr(fc, k + '_history').items():
            m.obs('%s in %d' % (k, y), v)
    for i, s in enumerate(steps):
        for k in ('gross_income', 'net_income', 'tax_withheld', 'tax_owing', 'tax_adjustment'):
            if hasattr(s, k + '_history'):
                for y, v in getattr(s, k + '_history').items():
                    m.obs('%s of step %d in %d' % (k, i, y), v)
    m.flows('available', fc.available)
    for a in sorted(assets | debts, key=lambda a: (type(a).__name__, float(a.balance_history[Y]))):
        for y, v in a.balance_history.items():
            m.obs('%s balance in %d' % (type(a).__name__, y), v)


def forecast_cases(tier):
    q = tier == 'quick'
    for tax in ('canada', 'plain'):
        for couple in (False, True):
            for spend in (30000, 60000, 10000):
                for strategy in ('Ordered', 'Weighted'):
                    for debts, acc in ((False, 0), (True, 'inf'), (True, 600)):
                        for retire in (2001, 2040) if q else (1999, 2000, 2001, 2002, 2040):
                            for monthly in (False,) if q else (False, True):
                                yield dict(script='forecast', tax=tax, couple=couple, spend=spend, strategy=strategy, debts=debts,
                                           acc=acc, retire=retire, years=3 if q else 5, monthly=monthly)


SCRIPTS = dict(account=s_account, registered=s_registered, tax=s_tax, alloc=s_alloc, living=s_living, moves=s_moves, forecast=s_forecast)


# Isolation: two scripts run in lockstep ---------------------------------------------------------

class Turns:
    """Runs callables in threads, strictly alternating at every observation (the first one runs first)."""

    def __init__(self, n):
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.errors = []

    def switch(self, i):
        nxt = self.live[(self.live.index(i) + 1) % len(self.live)]
        if nxt != i:
            self.locks[nxt].release()
            self.locks[i].acquire()

    def body(self, i, fn):
        self.locks[i].acquire()
        try:
            fn()
        except BaseException as e:      # reported by the main thread
            self.errors.append((i, e))
        nxt = self.live[(self.live.index(i) + 1) % len(self.live)]
        self.live.remove(i)
        if nxt != i:
            self.locks[nxt].release()

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=x, daemon=True) for x in enumerate(fns)]
        for t in ts:
            t.start()
        self.locks[0].release()
        for t in ts:
            t.join()
        if self.errors:
            raise self.errors[0][1]


class TurnMode(Mode):
    def __init__(self, hp, turns, i):
        super().__init__(hp)
        self.turns, self.i = turns, i

    def obs(self, label, v):
        super().obs(label, v)
        self.turns.switch(self.i)

    def flows(self, label, d):
        super().flows(label, d)
        self.turns.switch(self.i)


def same(x, y, loose=False):
    """Equal in value and in type. (Loose: money within EPSILON of a limit may go elsewhere.)"""
    if loose and isinstance(x, dict):
        gx, gy = [{round(float(k), 9): float(v) for k, v in z.items()} for z in (x, y)]
        return all(
            close(gx.get(k, 0), gy.get(k, 0), 1e-7, 1e-3) for k in set(gx) | set(gy))
    if loose:
        return isinstance(x, Decimal) == isinstance(y, Decimal) and close(x, y, 1e-7, 1e-3)
    if isinstance(x, dict):
        return isinstance(y, dict) and len(x) == len(y) and all(
            same(a, c) and same(b, d) for (a, b), (c, d) in zip(sorted(x.items()), sorted(y.items())))
    if x != x:
        return y != y
    return type(x) is type(y) and (x == y or isinstance(x, float) and close(x, y, 1e-12, 1e-12))


def run_pair(c):
    alone = []
    for case, hp in zip(c['cases'], c['hp']):
        m = Mode(hp)
        SCRIPTS[case['script']](m, case)
        alone.append(m.out)
    turns = Turns(len(c['cases']))
    ms = [TurnMode(hp, turns, i) for i, hp in enumerate(c['hp'])]
    turns.run([lambda m=m, case=case: SCRIPTS[case['script']](m, case) for m, case in zip(ms, c['cases'])])
    for i, (m, out) in enumerate(zip(ms, alone)):
        check('isolation', [l for l, _ in m.out] == [l for l, _ in out], 'other results when not alone')
        loose = c['cases'][i]['script'] in ('moves', 'forecast')
        for (label, x), (_, y) in zip(m.out, out):
            if not (x is y or same(x, y, loose)):
                raise Fail('isolation', '%s of object %d: %r beside another object, %r alone' % (label, i, x, y))
    return dict(ops=sum(len(m.out) for m in ms), outcome=[len(m.out) for m in ms])


def pair_cases(tier):
    gens = dict(account=account_cases, registered=registered_cases, tax=tax_cases, alloc=alloc_cases, living=living_cases,
                moves=moves_cases, forecast=forecast_cases)
    for name, gen in gens.items():
        full = list(gen('quick'))
        n = {'forecast': 12}.get(name, 40) if tier == 'quick' else {'forecast': 48}.get(name, 160)
        some = full[::max(1, len(full) // n)]
        for i, case in enumerate(some):
            other = some[(i * 7 + 3) % len(some)]
            for hp in ((False, True), (True, False), (True, True)):
                yield dict(cases=[case, case], hp=hp) if hp[0] != hp[1] else dict(cases=[case, other], hp=hp)
                if hp[0] != hp[1]:
                    yield dict(cases=[case, other], hp=hp)


# Conversion descriptors ------------------------------------------------------------------------------

class Demo(HighPrecisionOptional):
    p = HighPrecisionOptionalProperty()
    q = HighPrecisionOptionalPropertyCached()
    r = HighPrecisionOptionalPropertyCached()

    def __init__(self, p, q, r, **kw):
        super().__init__(**kw)
        self.p, self.q, self.r = p, q, r


class Sub(Demo):
    pass


CONV = {'none': None, 'decimal': Decimal, 'fraction': Fraction, 'text': repr,
        'cut': lambda v: int(v * 64), 'up': lambda v: Decimal(v) + 1}
MAKERS = {
    'demo': (Demo, ('p', 'q', 'r')),
    'sub': (Sub, ('p', 'q', 'r')),
    'alloc': (lambda t, a, b, **kw: AllocationStrategy('n-age', target=t, min_equity=a, max_equity=b, **kw),
              ('target', 'min_equity', 'max_equity')),
    'living': (lambda a, b, **kw: LivingExpensesStrategy('Constant living expenses', base_amount=a, rate=b, **kw),
               ('base_amount', 'rate')),
    'moves': (lambda a, **kw: TransactionStrategy('Ordered', {}, high_interest_threshold=a, **kw), ('high_interest_threshold',)),
}
START = (0.25, 0.125, 0.75)


class Converted:
    """Objects with convertible attributes; the model is a plain dictionary per object."""

    def __init__(self, cfg):
        self.objs, self.model, self.seen = [], [], []
        self.attrs = []
        for kind, conv in cfg['objects']:
            make, attrs = MAKERS[kind]
            if kind == 'moves' and conv == 'text':
                conv = 'none'
            vals = [v + len(self.objs) / 64 for v in START[:len(attrs)]]
            self.objs.append(make(*vals, high_precision=CONV[conv]))
            self.model.append(dict(zip(attrs, vals), hp=conv))
            self.attrs.append(attrs)
            self.seen.append({})
        self.cfg = cfg

    def events(self):
        out = []
        for i, attrs in enumerate(self.attrs):
            for a in attrs[:self.cfg['width']]:
                out.append(['read', i, a])
            for a in attrs[:self.cfg['width']]:
                for v in (0.5, 0.3125):
                    out.append(['set', i, a, v])
            for conv in self.cfg['convs']:
                out.append(['hp', i, conv])
        return out

    def read(self, i, a):
        got = getattr(self.objs[i], a)
        want, f = self.model[i][a], CONV[self.model[i]['hp']]
        want = f(want) if f else want
        check('value', type(got) is type(want) and got == want, '%s of object %d is %r, expected %r' % (a, i, got, want))

    def apply(self, ev):
        kind, i, a = ev[:3]
        if kind == 'read':
            self.read(i, a)
            self.seen[i][a] = (self.model[i][a], self.model[i]['hp'])
        elif kind == 'set':
            self.model[i][a] = ev[3]
            setattr(self.objs[i], a, ev[3])
        else:
            self.model[i]['hp'] = a
            self.objs[i].high_precision = CONV[a]

    def final(self):
        for i, attrs in enumerate(self.attrs):
            for a in attrs:
                self.read(i, a)

    def canon(self):
        # what was read last (a cache may hold it), and when relative to now, matters to the future
        return [self.model, self.seen]


def converted_configs(tier):
    kinds = (['demo', 'demo'], ['demo', 'sub'], ['alloc', 'alloc'], ['living', 'living'], ['moves', 'moves'], ['living', 'alloc'])
    for ks in kinds:
        for convs in (('none', 'decimal'), ('decimal', 'none'), ('decimal', 'decimal'), ('decimal', 'fraction')):
            yield dict(objects=[list(x) for x in zip(ks, convs)], width=2 if ks[0] == 'demo' else 1, convs=['none', 'decimal', 'fraction'])
    yield dict(objects=[['demo', 'none'], ['demo', 'decimal'], ['demo', 'text']], width=1, convs=['decimal', 'text'])
    yield dict(objects=[['demo', 'cut'], ['demo', 'up']], width=1, convs=['cut', 'up'])
    yield dict(objects=[['alloc', 'cut']], width=2, convs=['cut', 'up', 'none'])
    yield dict(objects=[['demo', 'text']], width=3, convs=['none', 'decimal', 'text'])


# Exactness: no result passes through an ordinary float ------------------------------------------------

WIDE = decimal.Context(prec=80)
TIGHT = Decimal('1e-22')


def exact(kind, got, want, ctx):
    check('type', isinstance(got, Decimal), '%s: %r' % (ctx, got))
    if abs(WIDE.subtract(got, want)) > TIGHT * max(1, abs(want)):
        raise Fail(kind, '%s: got %s, expected %s' % (ctx, got, WIDE.plus(want)))


D = Decimal
ODD = dict(third=D(1) / 3, tiny=D('0.1'), cents=D('1234.56'), seventh=D(1) / 7, big=D('98765432.10987654321'))


def x_account(c):
    d = lambda k: D(k)
    p = Person(Y, 'P', '1 May 1970', retirement_date='1 May 2035', high_precision=D)
    rate, bal = d(c['rate']), d(c['balance'])
    n = None if c['nper'] == 'none' else c['nper']
    kind = dict(account=Account, debt=Debt, taxable=TaxableAccount)[c['kind']]
    if c['kind'] == 'debt':
        bal = -bal
    a = kind(p, balance=bal, rate=rate, nper=n, high_precision=D)
    cx = decimal.Context(prec=60)

    def grow(t):
        return cx.power(cx.add(D(1), cx.divide(rate, D(n))), cx.multiply(D(n), t))
    for year in range(c['years']):
        flows = {}
        for v, w in c['flows']:
            v = d(v) if c['kind'] == 'debt' else d(v)
            a.add_transaction(v, when=d(w))
            flows[d(w)] = cx.add(flows.get(d(w), D(0)), v)

        def at(t):
            tot = cx.multiply(bal, grow(t))
            for w, v in flows.items():
                if w <= t:
                    tot = cx.add(tot, cx.multiply(v, grow(cx.subtract(t, w))))
            return tot
        for t in ('0', '0.1', '0.5', '0.9', '1'):
            exact('balance', a.balance_at_time(d(t)), at(d(t)), 'balance at %s of year %d' % (t, year))
        end = at(D(1))
        exact('returns', a.returns, cx.subtract(cx.subtract(end, bal), sum(flows.values(), D(0))), 'returns in year %d' % year)
        bal = end
        p.next_year()
        a.next_year()
        exact('balance', a.balance, bal, 'balance in year %d' % (year + 1))
    return dict(ops=6 * c['years'], outcome=str(round(bal, 6)))


def x_tax(c):
    br = {D(k): D(v) for k, v in (('0', '0.1'), ('1000.1', '0.2'), ('50000.07', '0.333333333333333333333'))}
    infl = {y: D('1.01') ** (y - Y) for y in range(Y, Y + 4)}
    t = Tax({Y: br}, personal_deduction={Y: D('0.1')}, credit_rate={Y: D('0.1')}, inflation_adjust=lambda a, b=Y: infl[a] / infl[b],
            high_precision=D)
    cx = decimal.Context(prec=60)
    for y in range(Y, Y + 4):
        inc, f = D(c['income']), infl[y]
        bs = sorted((b * f, r) for b, r in br.items())
        inc_net = max(cx.subtract(inc, D('0.1') * f), D(0)) if c['deduct'] else inc
        want, prev = D(0), None
        for i, (b, r) in enumerate(bs):
            top = bs[i + 1][0] if i + 1 < len(bs) else None
            part = (inc_net if top is None else min(inc_net, top)) - b
            if part > 0:
                want = cx.add(want, cx.multiply(part, r))
        exact('tax', t(D(c['income']), y) if not c['deduct'] else t(D(c['income']), y), want, 'tax in %d' % y)
    p = Person(Y, 'P', '1 May 1970', retirement_date='1 May 2035', gross_income=D(c['income']), raise_rate=D('0.1'), tax_treatment=t,
               high_precision=D)
    g = D(c['income'])
    for y in range(Y, Y + 4):
        exact('income', p.gross_income, g, 'gross income in %d' % y)
        exact('income', cx.add(p.net_income, p.tax_withheld), g, 'net income and tax in %d' % y)
        if y < Y + 3:
            p.next_year()
            g = cx.multiply(g, D('1.1'))
    return dict(ops=12, outcome=str(g))


def x_plan(c):
    s = Scenario(Y, 8, inflation=D(c['rate']), stock_return=D('0.1'), bond_return=D('0.01'), other_return=D('0.3'),
                 management_fees=D('0.001'))
    cx = decimal.Context(prec=60)
    one = cx.add(D(1), D(c['rate']))
    for y in range(Y, Y + 8):
        f = cx.power(one, D(y - Y))
        exact('inflation', s.inflation_adjust(y, Y) * D(1), f, 'inflation to %d' % y)
        exact('inflation', s.inflation_adjust(Y, y) * D(1), cx.divide(D(1), f), 'inflation from %d' % y)
        for amount in ODD.values():
            st = LivingExpensesStrategy('Constant living expenses', base_amount=amount, inflation_adjust=s.inflation_adjust, high_precision=D)
            exact('living', st(year=y), cx.multiply(amount, f), 'living expenses in %d' % y)
    al = AllocationStrategy('n-age', target=D(c['target']), min_equity=D(0), max_equity=D(1), adjust_for_retirement_plan=False,
                            high_precision=D)
    p = Person(Y, 'P', 1970, retirement_date=2035, high_precision=D)
    r = al.rate_function(p, s)
    for y in range(Y, Y + 8):
        stocks = max(D(0), min(D(1), (D(c['target']) - (y - 1970)) / 100))
        got = al(age=y - 1970, retirement_age=65)
        exact('allocation', got.stocks, stocks, 'stocks')
        exact('allocation', got.bonds, 1 - stocks, 'bonds')
        ages = [(D(c['target']) - a) / 100 for a in (y - 1970, y - 1970 - 1, y - 1970 + 1)]
        rates = [cx.add(cx.multiply(D('0.1'), max(D(0), min(D(1), x))), cx.multiply(D('0.01'), 1 - max(D(0), min(D(1), x)))) for x in ages]
        got = r(y)
        check('type', isinstance(got, Decimal), 'rate %r' % got)
        rates += [x - D('0.001') for x in rates]
        check('rate', any(abs(got - x) < TIGHT for x in rates), 'rate in %d: %s, expected one of %s' % (y, got, rates))
    return dict(ops=60, outcome=str(one))


def run_exact(c):
    return dict(account=x_account, tax=x_tax, plan=x_plan)[c['what']](c)


def exact_cases(tier):
    flows = [[], [['10.1', '0.5']], [['0.333', '0.1'], ['7.77', '0.9']], [['1e-9', '0.1'], ['3.3', '0.1'], ['4.4', '1']]]
    for kind in ('account', 'debt', 'taxable'):
        for bal in ('1000', '0.1', '1234567.891011121314'):
            for rate in ('0', '0.1', '0.0333333333333333333333', '1.07'):
                for nper in (1, 2, 12, 365):
                    for fl in flows:
                        yield dict(what='account', kind=kind, balance=bal, rate=rate, nper=nper, flows=fl, years=2 if tier == 'quick' else 4)
    for inc in ('0', '0.1', '999.99', '1000.1', '1000.100000000000000000001', '33333.333333333333333333', '50000.07', '123456.789'):
        yield dict(what='tax', income=inc, deduct=False)
    for rate in ('0', '0.1', '0.0333333333333333333333', '-0.01'):
        for target in ('100', '120.1', '65.123456789012345678901'):
            yield dict(what='plan', rate=rate, target=target)


FAMILIES = [
    Hist('descriptors', converted_configs, Converted, lambda tier, c: 5 if tier == 'quick' else 6,
         about='two or three objects with converted attributes: reads, assignments and precision changes'),
    Enum('exact', exact_cases, run_exact, about='balances, taxes, incomes, inflation and allocations to 22 digits'),
    Enum('pair', pair_cases, run_pair, about='two objects of different precision used in lockstep behave as each does alone'),
    Enum('account', account_cases, run, about='accounts of all kinds in both precisions over three years'),
    Enum('registered', registered_cases, run, about='RRSPs and TFSAs in both precisions over four years'),
    Enum('tax', tax_cases, run, about='taxes and people in both precisions'),
    Enum('alloc', alloc_cases, run, about='allocation, rates of return and inflation in both precisions'),
    Enum('living', living_cases, run, about='living expenses in both precisions'),
    Enum('moves', moves_cases, run, about='saving, withdrawing and repaying in both precisions'),
    Enum('forecast', forecast_cases, run, about='whole forecasts in both precisions'),
]
