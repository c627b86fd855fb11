"""C15: whole forecasts - cash balance per year and at each time, reported totals, tax settled once, one clock, net worth."""
import itertools
from ..engine import Enum, Fail
from ..lib import *
from forecaster import Person, Scenario, Tax
from forecaster.accounts import Account, Debt
from forecaster.canada import RRSP, TFSA, TaxableAccount, TaxCanada
from forecaster.forecast import (
    Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast)
from forecaster.strategy import TransactionStrategy, LivingExpensesStrategy, LivingExpensesStrategySchedule
from forecaster.utility import Timing

Y = 2000
TOL = 5e-4              # money lost by the numeric search of a weighted allocation, in a year
BRACKETS = {0: 0.1, 20000: 0.2, 60000: 0.35}


def norm(d):
    return {round(float(k), 9): float(v) for k, v in d.items() if abs(float(v)) > 1e-9}


def plus(a, b, sign=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0.0) + sign * v
    return out


def tot(d):
    return sum(d.values())


def cum(d, t):
    return sum(v for k, v in d.items() if k <= t)


def watched(cls):
    class Watched(cls):
        def __call__(self, available):
            before = norm(available)
            super().__call__(available)
            self.seen[self.this_year] = (before, norm(available))
            self.pool = available
            if self.spy:
                self.spy(self.this_year)
    Watched.seen, Watched.spy, Watched.pool = None, None, None
    return Watched


STEPS = [watched(c) for c in (IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast)]

# ------------------------------------------------------------------ worlds

PEOPLE = {
    'one': [dict(gross=70000, ret=2040, pay={0.5: 1}, raise_=0.03)],
    'low': [dict(gross=12000, ret=2040, pay={0.25: 1, 0.75: 3}, raise_=0)],
    'retiring': [dict(gross=80000, ret=2001, pay='M', raise_=0.02)],
    'retired': [dict(gross=0, ret=1999, pay={0.0: 1, 0.5: 1}, raise_=0)],
    'pair': [dict(gross=60000, ret=2040, pay={0.25: 1, 0.75: 1}, raise_=0.02),
             dict(gross=30000, ret=2040, pay={1.0: 1}, raise_=-0.1)],
    'mixed': [dict(gross=50000, ret=2001, pay={0.0: 1}, raise_=0), dict(gross=0, ret=1998, pay={0.5: 1, 1.0: 3}, raise_=0)],
    'three': [dict(gross=20000, ret=2040, pay={0.75: 1}, raise_=0), dict(gross=45000, ret=2002, pay='BW', raise_=0.05),
              dict(gross=5000, ret=2040, pay={0.0: 2, 1.0: 1}, raise_=0.5)],
}

HOLD = {
    'acct': ['acct'],
    'nothing': ['poor'],
    'rrsp_tfsa_tax': ['rrsp', 'tfsa', 'taxable'],
    'debts': ['acct', 'loan', 'card'],
    'many': ['tfsa', 'acct', 'acct2', 'rrsp2', 'taxable', 'loan'],
    'rrsp': ['rrsp'],
    'rrsps': ['rrsp', 'acct', 'rrsp2', 'tfsa', 'rrsp_plain', 'tfsa_plain'],
    'none_free': ['tfsa', 'card'],
    'below': ['below', 'acct'],
}

LIVING = {
    'const': lambda inf: LivingExpensesStrategy(
        LivingExpensesStrategy.strategy_const_living_expenses, base_amount=32000, inflation_adjust=inf),
    'share': lambda inf: LivingExpensesStrategy(LivingExpensesStrategy.strategy_net_percent, rate=0.7),
    'save_const': lambda inf: LivingExpensesStrategy(
        LivingExpensesStrategy.strategy_const_contribution, base_amount=9000, inflation_adjust=inf),
    'schedule': lambda inf: LivingExpensesStrategySchedule(
        LivingExpensesStrategy(LivingExpensesStrategy.strategy_gross_percent, rate=0.5),
        LivingExpensesStrategy(LivingExpensesStrategy.strategy_const_living_expenses, base_amount=20000, inflation_adjust=inf)),
}

ORDER = {'RRSP': 2, 'TFSA': 3, 'TaxableAccount': 4, 'Account': 5, 'Debt': 1}
WEIGHT = {'RRSP': 0.4, 'TFSA': 0.2, 'TaxableAccount': 0.1, 'Account': 0.2, 'Debt': 0.1}
PARTIAL = {'RRSP': 1, 'TFSA': 2}          # nothing goes to the other types
TAKE = {'RRSP': 3, 'TFSA': 1, 'TaxableAccount': 2, 'Account': 4}
FREE = ('acct', 'acct2', 'poor', 'taxable')       # accept any amount


def infl(year, base=None):
    base = Y if base is None else base
    f = 1.0
    for y in range(min(base, year), max(base, year)):
        f *= 1 + INFLATION.get(y, 0.02)
    return f if year >= base else 1 / f


INFLATION = {Y: 0.02, Y + 1: 0.03, Y + 2: 0.0, Y + 3: -0.01, Y + 4: 0.1, Y + 5: 0.02, Y + 6: 0.01, **{Y + i: 0.02 for i in range(7, 14)}}
STOCK = {Y: 0.07, Y + 1: -0.2, Y + 2: 0.12, Y + 3: 0.0, Y + 4: 0.05, Y + 5: 0.08, Y + 6: -0.03,
         **{Y + i: 0.01 * (i % 5) for i in range(7, 14)}}


class World:
    def __init__(self, case):
        self.case = case
        self.n = n = case['years']
        self.scenario = Scenario(inflation=INFLATION, stock_return=STOCK, bond_return=0.02, management_fees=0,
                                 initial_year=Y, num_years=n)
        ref, pay = case['settle']
        self.ref, self.pay = ref, pay
        tt = dict(refund_timing=self.timing(ref), payment_timing=self.timing(pay))
        self.canada = case['tax'] == 'CA'
        self.make_tax = (lambda **k: TaxCanada(inflation_adjust=infl, province='BC', **k)) if self.canada else (
            lambda **k: Tax({Y: dict(BRACKETS)}, inflation_adjust=infl, **k))
        tax = self.make_tax(**tt)
        self.fresh_tax = self.make_tax()
        self.people = []
        for i, d in enumerate(PEOPLE[case['people']]):
            p = Person(Y, 'P%d' % i, '2 May %d' % (1938 + 20 * (d['ret'] > 2030)), retirement_date='15 June %d' % d['ret'],
                       gross_income=d['gross'], raise_rate=d['raise_'], tax_treatment=tax, payment_timing=Timing(d['pay']))
            self.people.append(p)
        if case['people'] == 'pair':
            self.people[0].spouse = self.people[1]
        self.assets, self.debts, self.free = [], [], []
        self.rates = {}
        for i, h in enumerate(HOLD[case['hold']]):
            p = self.people[i % len(self.people)]
            const = lambda r: (lambda year: r)
            if h == 'acct':
                a, r = Account(p, balance=90000, rate=const(0.05), default_timing=Timing({0.5: 1, 1: 1})), const(0.05)
            elif h == 'acct2':
                a, r = Account(p, balance=2500, rate=STOCK.__getitem__, default_timing=Timing({0.25: 1}), nper=2), STOCK.__getitem__
            elif h == 'below':
                a, r = Account(p, balance=-700, rate=const(0.04)), const(0.04)
            elif h == 'poor':
                a, r = Account(p, balance=4000, rate=const(0.04)), const(0.04)
            elif h == 'taxable':
                a, r = TaxableAccount(p, balance=40000, acb=25000, rate=STOCK.__getitem__), STOCK.__getitem__
            elif h in ('rrsp', 'rrsp2'):
                a = RRSP(p, balance=70000, rate=const(0.03), contribution_room=6000 if h == 'rrsp' else 900,
                         inflation_adjust=infl)
                r = const(0.03)
            elif h == 'rrsp_plain':
                a, r = RRSP(p, balance=500, rate=STOCK.__getitem__, inflation_adjust=infl), STOCK.__getitem__
            elif h == 'tfsa_plain':
                a, r = TFSA(p, balance=0, rate=const(0.01), inflation_adjust=infl), const(0.01)
            elif h == 'tfsa':
                a, r = TFSA(p, balance=15000, rate=const(0.06), contribution_room=3000, inflation_adjust=infl), const(0.06)
            elif h == 'loan':
                a = Debt(p, balance=-20000, rate=const(0.06), minimum_payment=1200, accelerated_payment=2500)
                r = const(0.06)
            else:
                a = Debt(p, balance=-3000, rate=const(0.19), minimum_payment=100, accelerated_payment=float('inf'),
                         default_timing=Timing({0.25: 1, 0.5: 2, 1.0: 1}))
                r = const(0.19)
            self.rates[a] = r
            (self.debts if h in ('loan', 'card') else self.assets).append(a)
            if h in FREE:
                self.free.append(a)
        save_w, take_w = {'ordered': (ORDER, TAKE), 'weighted': (WEIGHT, {k: v for k, v in WEIGHT.items() if k != 'Debt'}),
                          'partial': (PARTIAL, PARTIAL)}[case['strategy']]
        kind = 'Weighted' if case['strategy'] == 'weighted' else 'Ordered'
        self.save_w, self.take_w = save_w, take_w
        self.living = LIVING[case['living']](self.scenario.inflation_adjust)
        self.steps = [STEPS[0](Y, self.people), STEPS[1](Y, self.people, self.living),
                      STEPS[2](Y, set(self.assets), set(self.debts), TransactionStrategy(kind, dict(save_w))),
                      STEPS[3](Y, self.people, set(self.assets), TransactionStrategy(kind, dict(take_w))),
                      STEPS[4](Y, self.people, tax)]
        for s in self.steps:
            s.seen = {}
        self.wheld, self.least = {}, {}
        self.end = {}          # balances and state at the end of each year's steps
        self.clocks = []
        self.steps[4].spy = self.spy
        self.steps[0].spy = lambda y: self.clock(y, ())
        self.worth = {}
        self.forecast = Forecast(*self.steps, self.scenario)

    @staticmethod
    def timing(t):
        return Timing(dict(t) if isinstance(t, list) else t)

    def clock(self, year, skip):
        for x in self.people + self.assets + self.debts + self.steps:
            expect_eq('clock', x.this_year, year, 'year of %s' % type(x).__name__)

    def spy(self, year):
        self.clock(year, ())
        self.end[year] = {a: float(a.balance_at_time('end')) for a in self.assets + self.debts}
        self.least[year] = {a: abs(float(a.min_outflow_limit)) for a in self.assets}
        self.wheld[year] = abs(float(self.steps[3].tax_withheld))
        self.worth[year] = float(self.fresh_tax(set(self.people), year))

    def flow(self, step, year, obj):
        h = self.steps[step].transactions_history[year]
        for k in h:
            if k is obj:
                return norm(h[k])
        return {}


def run(case):
    w = World(case)
    f = w.forecast
    years = list(range(Y, Y + case['years']))
    I, L, S, W, T = w.steps
    pool = f.available
    for x in [f] + w.steps + w.people + w.assets + w.debts:
        expect_eq('clock', x.this_year, years[-1], 'last year of %s' % type(x).__name__)
    for name in ('income', 'living_expenses', 'savings', 'principal', 'withdrawals', 'tax'):
        expect_eq('years', sorted(getattr(f, name + '_history')), years, 'years on record: ' + name)
    for s in w.steps:
        expect_eq('years', sorted(s.seen), years, 'years computed')
        expect_eq('years', sorted(s.transactions_history), years, 'years of transactions')
    left, adjust = {}, None
    out = []
    for y in years:
        ctx = ' in year %d' % (y - Y)
        F = [w.flow(i, y, pool) for i in range(5)]
        # -- opening: last year's remainder at the start, last year's tax settled at its timing
        opening = I.seen[y][0]
        want = {0.0: tot(left)} if y > Y else {}
        if adjust:
            tm = w.timing(w.ref if adjust > 0 else w.pay)
            tw = sum(tm.values())
            want = plus(want, {round(float(t), 9): adjust * v / tw for t, v in tm.items()})
        expect_map('opening', opening, norm(want), 'money at the start' + ctx, abs_=1e-6)
        # -- each step moves what it recorded and nothing else touches the pool
        for i, s in enumerate(w.steps):
            if i:
                expect_map('between', s.seen[y][0], w.steps[i - 1].seen[y][1], 'pool between steps' + ctx)
            expect_map('step', norm(plus(s.seen[y][1], s.seen[y][0], -1)), F[i], 'pool flows of step %d%s' % (i, ctx), abs_=1e-6)
            parties = s.transactions_history[y]
            expect('conserved', sum(tot(norm(parties[k])) for k in parties), 0, 'sum over parties of step %d%s' % (i, ctx), abs_=1e-6)
        # -- income
        want, net, gross, held = {}, 0.0, 0.0, 0.0
        for p in w.people:
            n = float(p.net_income_history[y])
            expect('net', n, float(p.gross_income_history[y]) - float(p.tax_withheld_history[y]), 'net income' + ctx)
            net, gross, held = net + n, gross + float(p.gross_income_history[y]), held + float(p.tax_withheld_history[y])
            tw = sum(p.payment_timing.values())
            want = plus(want, {round(float(t), 9): n * v / tw for t, v in p.payment_timing.items()})
        expect_map('income', F[0], norm(want), 'income as paid' + ctx, abs_=1e-6)
        expect('income', I.net_income_history[y], net, 'net income of the household' + ctx)
        expect('income', I.gross_income_history[y], gross, 'gross income of the household' + ctx)
        expect('income', I.tax_withheld_history[y], held, 'tax withheld from pay' + ctx)
        expect('income', f.income_history[y], net, 'reported income' + ctx)
        expect('carryover', I.carryover_history[y], tot(opening), 'carry-over' + ctx)
        # -- living expenses
        liv = living(case, w, y, net, gross)
        expect('living', f.living_expenses_history[y], liv, 'reported living expenses' + ctx)
        expect('living', L.living_expenses_history[y], liv, 'living expenses' + ctx)
        expect('living', -tot(F[1]), liv, 'living expenses paid' + ctx, abs_=1e-6)
        due = {}
        for p in w.people:
            share = float(p.net_income_history[y]) / net if net else 1.0 / len(w.people)
            tw = sum(p.payment_timing.values())
            due = plus(due, {round(float(t), 9): liv * share * v / tw for t, v in p.payment_timing.items()})
        for t in sorted(set(due) | set(F[1])):
            check('paid_early', -cum(F[1], t) <= cum(due, t) + 1e-6, 'living expenses paid before due' + ctx)
        before = L.seen[y][0]
        for t in sorted(F[1]):
            if t not in due:
                check('paid_odd', t in before or t in due, 'living expenses paid at an arbitrary time' + ctx)
        # -- saving
        surplus = tot(S.seen[y][0])
        by = {a: w.flow(2, y, a) for a in w.assets + w.debts}
        saved = sum(tot(v) for v in by.values())
        expect('saved', -tot(F[2]), saved, 'money saved' + ctx, abs_=1e-6)
        expect('saved', S.total_history[y], saved, 'reported contributions' + ctx, abs_=1e-6)
        expect('saved', S.retirement_savings_history[y], sum(tot(by[a]) for a in w.assets), 'reported savings' + ctx, abs_=1e-6)
        expect('saved', S.debt_repayment_history[y], sum(tot(by[a]) for a in w.debts), 'reported debt payments' + ctx, abs_=1e-6)
        for a, fl in by.items():
            check('saved_neg', all(v >= -1e-6 for v in fl.values()), 'savings taken out of an account' + ctx)
            if type(a).__name__ not in w.save_w:
                check('saved_other', not fl, 'saved to a type without weight' + ctx)
        check('surplus', saved <= max(0.0, surplus) + TOL, 'saved %s out of a surplus of %s%s' % (saved, surplus, ctx))
        if surplus > 0 and any(type(a).__name__ in w.save_w for a in w.free):
            expect('surplus', saved, surplus, 'surplus saved' + ctx, abs_=TOL)
        before, after = S.seen[y]
        for t in sorted(set(before) | set(after)):
            check('drawn_down', cum(after, t) >= min(0.0, cum(before, t)) - TOL, 'saving leaves %s at %s where there was %s%s' % (
                cum(after, t), t, cum(before, t), ctx))
        expect('savings', f.savings_history[y], max(0.0, net - liv), 'reported savings' + ctx)
        # -- withdrawal
        short = -tot(W.seen[y][0])
        by = {a: w.flow(3, y, a) for a in w.assets}
        taken = -sum(tot(v) for v in by.values())
        for a, fl in by.items():
            check('taken_neg', all(v <= 1e-6 for v in fl.values()), 'withdrawal paid into an account' + ctx)
            if type(a).__name__ not in w.take_w:
                check('taken_other', not fl, 'withdrawn from a type without weight' + ctx)
        for a in w.debts:
            check('taken_debt', not w.flow(3, y, a), 'withdrawn from a debt' + ctx)
        usable = [a for a in w.assets if type(a).__name__ in w.take_w]
        # (a registered account's minimum withdrawal is taken even if less is needed)
        least = sum(w.least[y][a] for a in usable) if short > 0 else 0.0
        check('shortfall', taken <= max(0.0, short, least) + TOL,
              'withdrew %s for a shortfall of %s%s' % (taken, short, ctx))
        for a in usable:
            if short > 0:
                check('least', -tot(by[a]) >= w.least[y][a] - TOL, 'withdrew %s from %s, minimum is %s%s' % (
                    -tot(by[a]), type(a).__name__, w.least[y][a], ctx))
        if taken < short - TOL:
            for a in usable:
                expect('shortfall', max(0.0, w.end[y][a]), 0, 'shortfall not covered although %s has money%s' % (type(a).__name__, ctx), abs_=0.01)
        wheld = sum(float(a.tax_withheld_history[y]) for a in w.assets)
        expect('wheld', w.wheld[y], wheld, 'tax withheld on withdrawals' + ctx, abs_=1e-6)
        expect('gross', f.withdrawals_history[y], W.gross_withdrawals_history[y], 'reported withdrawals' + ctx)
        funded = short <= 0 or abs(taken - short) <= TOL
        if case.get('reported'):                  # what is reported when accounts run dry: family `underfunded`
            g = float(W.gross_withdrawals_history[y])
            check('year %d: reported %.0f, withdrew %.0f' % (y - Y, g, taken), close(g, taken, abs_=TOL))
        elif funded:
            expect('gross', W.gross_withdrawals_history[y], taken, 'withdrawals' + ctx, abs_=TOL)
            expect('net_w', W.net_withdrawals_history[y], taken - wheld, 'net withdrawals' + ctx, abs_=TOL)
        expect('wheld', tot(F[3]), taken - wheld, 'money received from withdrawals' + ctx, abs_=1e-6)
        # -- tax
        expect('held', T.tax_withheld_history[y], held + wheld, 'tax withheld' + ctx, abs_=1e-6)
        owing = owed(w, y)
        expect('owing', T.tax_owing_history[y], owing, 'tax owing' + ctx, abs_=1e-5)
        expect('owing', f.tax_history[y], owing, 'reported tax' + ctx, abs_=1e-5)
        adjust = held + wheld - float(T.tax_owing_history[y])
        expect('adjustment', T.tax_adjustment_history[y], adjust, 'tax settlement' + ctx, abs_=1e-6)
        check('tax_pool', not F[4], 'tax step moved money' + ctx)
        # -- accounts
        for a in w.assets + w.debts:
            steps = {}
            for i in range(5):
                steps = plus(steps, w.flow(i, y, a))
            actual = norm(a.transactions_history[y])
            expect_map('account', actual, norm(steps), 'flows of %s%s' % (type(a).__name__, ctx), abs_=1e-6)
            rate = w.rates[a](y)
            nper = a.nper
            end = float(a.balance_history[y]) * growth(1, rate, nper) + sum(
                v * growth(1 - t, rate, nper) for t, v in actual.items())
            expect('balance', w.end[y][a], end, 'closing balance of %s%s' % (type(a).__name__, ctx), abs_=TOL)
            if a in w.debts:
                check('debt', w.end[y][a] <= TOL, 'debt overpaid' + ctx)
            else:
                least = min(0.0, float(a.balance_history[y]) * growth(1, rate, nper))    # (opened below zero)
                check('overdrawn', w.end[y][a] >= least - TOL, 'account overdrawn' + ctx)
            if y < years[-1]:
                expect('carried', a.balance_history[y + 1], w.end[y][a], 'next opening balance' + ctx, abs_=1e-6)
            expect('returns', a.returns_history[y], end - float(a.balance_history[y]) - tot(actual),
                   'returns of %s%s' % (type(a).__name__, ctx), abs_=TOL)
        expect('principal', f.principal_history[y], sum(float(a.balance_history[y]) for a in w.assets), 'principal' + ctx)
        # -- net worth: accounts and cash; changes by pay, spending, tax and returns only
        worth0 = sum(float(a.balance_history[y]) for a in w.assets + w.debts) + tot(opening)
        worth1 = sum(w.end[y].values()) + tot(T.seen[y][1])
        rets = sum(float(a.returns_history[y]) for a in w.assets + w.debts)
        expect('worth', worth1 - worth0, net - liv - wheld + rets, 'change of net worth' + ctx, abs_=2 * TOL)
        left = T.seen[y][1]
        out.append([round(surplus, 1), round(taken, 1)])
    expect_map('rest', norm(pool), left, 'money left at the end')
    return dict(ops=5 * len(years), outcome=out)


def living(case, w, y, net, gross):
    k = case['living']
    ret = min(d['ret'] for d in PEOPLE[case['people']])
    if k == 'const':
        v = 32000 * infl(y)
    elif k == 'share':
        v = 0.7 * net
    elif k == 'save_const':
        v = net - 9000 * infl(y)
    else:
        v = 0.5 * gross if y <= ret else 20000 * infl(y)
    return max(0.0, v)


def owed(w, y):
    if w.canada:
        return w.worth[y]
    total = 0.0
    f = infl(y)
    for p in w.people:
        inc = float(p.gross_income_history[y]) + sum(float(a.taxable_income_history[y]) for a in p.accounts)
        inc = max(0.0, inc - sum(float(a.tax_deduction_history[y]) for a in p.accounts))
        marks = sorted(BRACKETS)
        for i, m in enumerate(marks):
            lo = m * f
            hi = marks[i + 1] * f if i + 1 < len(marks) else float('inf')
            total += BRACKETS[m] * max(0.0, min(inc, hi) - lo)
        total -= sum(float(a.tax_credit_history[y]) for a in p.accounts)
    return total


# ------------------------------------------------------------------ enumeration

SETTLE = [[0, 0], [[[0.25, 1], [0.75, 1]], 0.5], ['M', [[0.0, 1], [1.0, 3]]]]


def cases(tier):
    thorough = tier == 'thorough'
    for living, people, hold, strategy in itertools.product(LIVING, PEOPLE, HOLD, ('ordered', 'weighted', 'partial')):
        for i, settle in enumerate(SETTLE):
            for years in (1, 2, 4, 7, 13) if thorough else (4,) if i else (13,) if people in ('retired', 'mixed') else (6,):
                if i == 2 and not thorough and hold not in ('acct', 'many', 'debts', 'rrsps'):
                    continue
                yield dict(people=people, hold=hold, strategy=strategy, living=living, settle=settle, tax='base', years=years)


def canada_cases(tier):
    thorough = tier == 'thorough'
    for living, people, hold, strategy in itertools.product(LIVING, PEOPLE, HOLD, ('ordered', 'weighted')):
        if not thorough and (strategy == 'weighted' or living in ('share', 'schedule')):
            continue
        yield dict(people=people, hold=hold, strategy=strategy, living=living, settle=SETTLE[1 + thorough], tax='CA',
                   years=5 if thorough else 3)


def underfunded_cases(tier):
    """A shortfall that the accounts can't cover: what is reported as withdrawn."""
    for people, hold, strategy in (('low', 'nothing', 'ordered'), ('retired', 'nothing', 'ordered'), ('low', 'nothing', 'weighted'),
                                   ('retired', 'rrsp', 'ordered'), ('low', 'acct', 'partial')):
        yield dict(people=people, hold=hold, strategy=strategy, living='const', settle=SETTLE[0], tax='base',
                   years=4, reported=True)
    # (a minimum withdrawal larger than the shortfall)
    yield dict(people='retired', hold='many', strategy='ordered', living='share', settle=[0, 0], tax='base', years=11, reported=True)


FAMILIES = [
    Enum('forecasts', cases, run, 'complete forecasts over people, accounts, strategies, spending rules and tax timings'),
    Enum('canadian', canada_cases, run, 'the same with Canadian taxes'),
    Enum('underfunded', underfunded_cases, run, 'withdrawals reported when the accounts run dry'),
]
