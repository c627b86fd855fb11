"""C14: forecast steps - flows are recorded once on each side, recomputing is idempotent, undoing restores, closing keeps."""
import itertools
import math
from collections import defaultdict
from ..engine import Enum, Hist, Fail, unread
from ..lib import *
from forecaster import Person, Tax
from forecaster.accounts import Account, Debt
from forecaster.canada import RRSP, TFSA, TaxableAccount
from forecaster.forecast import (
    SubForecast, IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast)
from forecaster.strategy import TransactionStrategy, LivingExpensesStrategy
from forecaster.utility import Timing

Y = 2000


def norm(d):
    return {round(float(k), 9): float(v) for k, v in d.items() if abs(float(v)) > 1e-9}


def flows_of(sub, obj):
    return norm(sub.transactions[obj]) if obj is None or obj in list(sub.transactions) or any(
        k is obj for k in sub.transactions) else {}


def plus(a, b, sign=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0.0) + sign * v
    return {k: v for k, v in out.items() if abs(v) > 1e-9}


# ---------------------------------------------------------------- transfers

class Pool:
    """Reference for one party to a transfer: opening balance plus flows (no growth)."""
    def __init__(self, opening, flows, floor):
        self.opening, self.flows, self.floor = opening, dict(flows), floor

    def at(self, t):
        v = self.opening + sum(x for r, x in self.flows.items() if r <= t)
        return max(0.0, v) if self.floor else v

    def shift(self, value, when):
        """Earliest known time from `when` on at which taking `value` leaves no later point short; else `when`."""
        times = sorted(set(self.flows) | {when})
        times = [t for t in times if t >= when]
        ok = [t for t in times if all(self.at(r) >= value for r in times if r >= t)]
        return min(ok, default=when)

    def add(self, v, t):
        self.flows[t] = self.flows.get(t, 0.0) + v
        if abs(self.flows[t]) < 1e-9:           # nothing happens at this time, on balance
            del self.flows[t]


class Transfers:
    """One plain step; transfers between accounts A and B, a cash pool (mapping) D and the outside world."""
    def __init__(self, cfg):
        self.cfg = cfg
        p = Person(Y, 'P', 1970, retirement_date=2050)
        self.rate = cfg['rate']
        self.A = Account(p, balance=100, rate=self.rate)
        self.B = Account(p, balance=40)
        init = {float(k): v for k, v in cfg['pool']}
        self.D = dict(init) if cfg['plain'] else defaultdict(lambda: 0, init)
        self.other = Account(p, balance=5)
        self.f = SubForecast(Y)
        self.g = SubForecast(Y)                         # a second step: never disturbed by the first
        self.g.add_transaction(10, timing=0.5, to_account=self.other)
        self.obj = dict(A=self.A, B=self.B, D=self.D, None_=None)
        pre = {w: float(v) for w, v in cfg.get('pre', ())}
        for w, v in pre.items():
            self.A.add_transaction(v, when=w)
        self.m = dict(A=Pool(100.0, pre, True), B=Pool(40.0, {}, True), D=Pool(0.0, init, False))
        self.mine = {k: {} for k in ('A', 'B', 'D', 'N')}
        self.exact = self.rate == 0
        self.called = False
        self.year = Y
        self.hist = {}
        self.base = {k: dict(self.m[k].flows) for k in self.m}
        self.log = []
        self.check()

    def events(self):
        ev = [['move', 'D', 'A', 30, 0.25, 0], ['move', 'A', 'D', 70, 0.5, 0], ['move', 'D', 'N', 60, [[0.0, 1], [0.5, 3]], 0],
              ['move', 'N', 'D', 25, None, 0], ['move', 'A', 'B', -40, 0.75, 0], ['move', 'D', 'B', 90, 0.0, 1],
              ['move', 'D', 'D', 10, 0.25, 0], ['map', 'D', 'B', [[0.5, 20], [1.0, -30], [0.0, 15]], 0],
              ['move', 'B', 'N', 35, 'start', 0], ['undo'], ['call'], ['year'], ['outside', 'D', 0.5, 45],
              ['move', 'N', 'D', -25, 0.25, 0], ['move', 'N', 'A', -60, 0.5, 0], ['map', 'D', 'A', [[0.25, 45], [0.0, 20]], 1],
              ['move', 'A', 'D', 102, 0.0, 0]]
        return ev

    def apply(self, ev):
        self.log.append(ev)
        k = ev[0]
        if k == 'move':
            self.move(*ev[1:])
        elif k == 'map':
            frm, to = self.obj[ev[1]], self.obj[ev[2]]
            self.snap()
            self.f.add_transactions({t: v for t, v in ev[3]}, from_account=frm, to_account=to, strict_timing=bool(ev[4]))
            for t, v in ev[3]:
                self.expected(ev[1], ev[2], v, [(t, 1)], ev[4])
        elif k == 'undo':
            self.f.undo_transactions()
            self.undo()
        elif k == 'call':
            pool = self.D
            if self.called:
                self.undo()
            self.f(pool)
            self.called = True
            expect('total_available', self.f.total_available, sum(self.m['D'].flows.values()), 'money available')
        elif k == 'outside':                            # someone else uses the pool
            v = self.D.get(ev[2], 0)
            self.D[ev[2]] = v + ev[3]
            self.m['D'].add(ev[3], ev[2])
        elif k == 'year':
            self.hist[self.year] = {n: dict(v) for n, v in self.mine.items()}
            bal = {n: float(getattr(self, n).balance_at_time('end')) for n in 'AB'}
            self.f.next_year()
            self.g.next_year()
            for a in (self.A, self.B, self.other):
                a.next_year()
            self.year += 1
            self.D.clear()
            self.m = dict(A=Pool(bal['A'], {}, True), B=Pool(bal['B'], {}, True), D=Pool(0.0, {0.0: 50.0}, False))
            self.D[0.0] = 50
            self.mine = {n: {} for n in self.mine}
            self.called = False
            for n in 'AB':
                expect('carried', getattr(self, n).balance, bal[n], 'opening balance of %s' % n)
        self.check()

    def undo(self):
        for n in 'ABD':
            self.m[n].flows = plus(self.m[n].flows, self.mine[n], -1)
        # a time at which nothing is left stays a known time of the pool
        self.mine = {n: {} for n in self.mine}
        self.called = False

    def snap(self):
        pass

    def move(self, frm, to, value, timing, strict):
        t = timing
        if isinstance(t, list):
            t = {a: b for a, b in t}
        self.f.add_transaction(value, timing=t, from_account=self.obj.get(frm), to_account=self.obj.get(to),
                               strict_timing=bool(strict))
        times = [(0.5, 1)] if timing is None else [(0.0, 1)] if timing == 'start' else timing if isinstance(timing, list) else [(timing, 1)]
        total = sum(w for _, w in times)
        self.expected(frm, to, value, [(a, w / total) for a, w in times], strict)

    def expected(self, frm, to, value, times, strict):
        if value < 0:
            frm, to, value = to, frm, -value
        for when, w in times:
            v = value * w
            if frm != 'N' and not strict:
                when = self.m[frm].shift(v, when) if (self.exact or frm != 'A') else self.observe_shift(frm, v, when)
            for n, s in ((frm, -v), (to, v)):
                if n != 'N':
                    self.m[n].add(s, when)
                self.mine[n] = plus(self.mine[n], {when: s})

    def observe_shift(self, frm, v, when):
        """Growing account: the time used is read off, but must be a time at or after `when` and, unless it is `when`,
        one from which the account can afford the transfer although at `when` it can't."""
        cur = norm({t: x for t, x in self.obj[frm].items()})
        diff = plus(cur, {k: x for k, x in self.m[frm].flows.items() if abs(x) > 1e-9}, -1)
        times = [t for t, x in diff.items() if close(x, -v)]
        check('shift', len(times) == 1, 'no single outflow of %s from %s: %s' % (v, frm, diff))
        t = times[0]
        check('shift', t >= when, 'moved at %s although due at %s' % (t, when))
        m, r = self.m[frm], self.rate

        def bal(x):
            return max(0.0, m.opening * (1 + r) ** x + sum(y * (1 + r) ** (x - s) for s, y in m.flows.items() if s <= x))
        known = sorted(x for x in set(m.flows) | {when} if x >= when)

        def earliest(v):
            """First time, no later than the last known one, from which `v` can be spared at every known time."""
            reached = list(known)
            for a, b in zip(known, known[1:]):
                if r > 0 and 0 < bal(a) < v:
                    x = a + math.log(v / bal(a)) / math.log(1 + r)
                    if x < b:
                        reached.append(x)
            return min((x for x in reached if all(bal(z) >= v for z in known if z > x) and
                        (x not in known or bal(x) >= v)), default=None)
        surely, perhaps = earliest(v + 1e-6), earliest(v - 1e-6)
        if surely is not None:
            check('shift', t <= surely + 1e-6, 'moved at %s although affordable at %s' % (t, surely))
        if perhaps is None:
            check('shift', t == when, 'moved to %s although never affordable' % t)
        else:
            check('shift', t == when and surely is None or t >= perhaps - 1e-6, 'moved at %s although only affordable at %s' % (t, perhaps))
        if t != when:
            check('shift', bal(t) >= v - 1e-6, 'moved to %s where only %s is available' % (t, bal(t)))
        return t

    def check(self):
        for n in 'ABD':
            expect_map('flows', self.obj[n] if n == 'D' else dict(self.obj[n].items()), self.m[n].flows, 'flows of %s' % n)
        for n in 'ABDN':
            expect_map('recorded', flows_of(self.f, self.obj.get(n)), self.mine[n], 'recorded flows of %s' % n)
        tot = {}
        for n in 'ABDN':
            tot = plus(tot, flows_of(self.f, self.obj.get(n)))
        expect_map('conserved', tot, {}, 'sum over all parties')
        expect_map('other', flows_of(self.g, self.other), {0.5: 10} if self.year == Y else {}, 'the other step')
        expect_eq('year', self.f.this_year, self.year, 'year')

    def final(self):
        for y, rec in self.hist.items():
            t = self.f.transactions_history[y]
            for n in 'ABN':
                expect_map('history', t[self.obj.get(n)] if any(k is self.obj.get(n) for k in t) else {}, rec[n],
                           'recorded flows of %s in %d' % (n, y))
            expect_map('history', t[self.D] if any(k is self.D for k in t) else {}, rec['D'], 'recorded flows of the pool in %d' % y)

    def canon(self):
        return (self.year, self.called, sorted((n, sorted(p.flows.items()), p.opening) for n, p in self.m.items()),
                sorted((n, sorted(v.items())) for n, v in self.mine.items()), sorted(self.hist), repr(self.hist),
                sorted(map(float, self.D)), sorted(map(float, self.A)), sorted(map(float, self.B)))


def transfer_configs(tier):
    for pool in ([[0.5, 60]], [[0.0, 50], [0.5, -40], [1.0, 50]], [[0.25, 20], [0.75, 100]]):
        for rate in (0, 0.21):
            yield dict(pool=pool, rate=rate, plain=pool[0][0] == 0.25)
    # an account whose balance rises and falls over the year on its own
    yield dict(pool=[[0.5, 60]], rate=0.21, plain=False, pre=[[0.25, 10], [0.5, -20], [1.0, 5]])


# ---------------------------------------------------------------- a whole year of steps

WORLDS = {
    'plain': dict(gross=[50000], ret=[2050], hold=['acct', 'debt'], spend=['constant', 30000]),
    'pair': dict(gross=[50000, 20000], ret=[2050, 2050], hold=['acct', 'rrsp', 'debt'], spend=['net', 0.6]),
    'short': dict(gross=[8000], ret=[2050], hold=['acct', 'rrsp'], spend=['constant', 30000]),
    'retired': dict(gross=[0, 0], ret=[1999, 1999], hold=['acct', 'rrsp', 'taxable'], spend=['constant', 24000]),
    'rrsp_only': dict(gross=[1000], ret=[2050], hold=['rrsp'], spend=['constant', 18000]),
    'empty': dict(gross=[1000], ret=[2050], hold=['poor'], spend=['constant', 18000]),
}


TWINS = {}        # runs of each configuration in which every step is computed once


class Year:
    """The steps of a year called in order, each any number of times, undone, redone, over consecutive years.
    Reference: the flows of a twin in which every step is called exactly once (`plain` history)."""
    NAMES = ('income', 'living', 'saving', 'withdrawal', 'tax')

    def __init__(self, cfg):
        self.cfg = cfg
        self.world = World(cfg)
        self.done = 0
        self.year = Y
        self.bal = None
        self.check()

    def events(self):
        ev = [['step']] if self.done < 5 else [['year']]
        if self.done:
            ev += [['redo'], ['undo']]
        if self.done >= 2:
            ev += [['rewind']]
        return ev

    def apply(self, ev):
        w, k = self.world, ev[0]
        if k == 'step':
            w.steps[self.done](w.available)
            self.done += 1
        elif k == 'redo':
            w.touched.append((self.done, 'r'))
            w.steps[self.done - 1](w.available)
        elif k == 'undo':
            w.touched.append((self.done, 'u'))
            w.steps[self.done - 1].undo_transactions()
            self.done -= 1
        elif k == 'rewind':                           # undo all steps, last first
            w.touched.append((self.done, 'w'))
            while self.done:
                self.done -= 1
                w.steps[self.done].undo_transactions()
        else:
            w.close()
            self.done = 0
            self.year += 1
        self.check()

    def check(self):
        w = self.world
        key = repr((self.cfg, self.year, self.done))
        if key not in TWINS:
            twin = TWINS[key] = World(self.cfg)
            for _ in range(self.year - Y):
                for s in twin.steps:
                    s(twin.available)
                twin.close()
            for s in twin.steps[:self.done]:
                s(twin.available)
        twin = TWINS[key]
        compare(w, twin, self.done)
        conserve(w, self.done)

    def final(self):
        w = self.world
        for y, rec in w.closed.items():
            for i, s in enumerate(w.steps):
                for label, flows in rec[i].items():
                    expect_map('history', w.find(s.transactions_history[y], label), flows,
                               '%s of %s in %d' % (label, self.NAMES[i], y), abs_=2e-4)

    def canon(self):
        t = self.world.touched
        return (self.cfg['world'], self.year, self.done, sorted(set(t)) if self.cfg['full'] else t[:1], t[-1:])


class World:
    def __init__(self, cfg):
        c = WORLDS[cfg['world']]
        tax = Tax({Y: {0: 0.1, 10000: 0.2}}, refund_timing=0.25, payment_timing=0.5)
        timings = [Timing({0.25: 1, 0.75: 3}), Timing('M')]
        self.people = [Person(Y, 'P%d' % i, 1940, retirement_date='1 January %d' % r, gross_income=g, tax_treatment=tax,
                              payment_timing=timings[i]) for i, (g, r) in enumerate(zip(c['gross'], c['ret']))]
        p = self.people[0]
        self.assets, self.debts = [], []
        for h in c['hold']:
            if h == 'acct':
                self.assets.append(Account(p, balance=60000, rate=0.05, default_timing=Timing({0.5: 1, 1: 1})))
            elif h == 'poor':
                self.assets.append(Account(p, balance=6000, rate=0.05))
            elif h == 'taxable':
                self.assets.append(TaxableAccount(p, balance=20000, acb=15000, rate=0.04))
            elif h == 'rrsp':
                self.assets.append(RRSP(p, balance=90000, rate=0.03, contribution_room=4000, inflation_adjust=lambda *a, **k: 1))
            elif h == 'debt':
                self.debts.append(Debt(p, balance=-9000, rate=0.08, minimum_payment=600, accelerated_payment=1000))
        save = TransactionStrategy(TransactionStrategy.strategy_ordered, {'RRSP': 2, 'Account': 3, 'Debt': 1})
        take = TransactionStrategy(cfg['take'], {'RRSP': 1, 'Account': 2, 'TaxableAccount': 3})
        kind, amount = c['spend']
        living = LivingExpensesStrategy(
            LivingExpensesStrategy.strategy_const_living_expenses if kind == 'constant'
            else LivingExpensesStrategy.strategy_net_percent,
            base_amount=amount if kind == 'constant' else 0, rate=amount if kind != 'constant' else 0)
        self.steps = [IncomeForecast(Y, self.people), LivingExpensesForecast(Y, self.people, living),
                      SavingForecast(Y, self.assets, self.debts, save),
                      WithdrawalForecast(Y, self.people, self.assets, take), TaxForecast(Y, self.people, tax)]
        self.available = defaultdict(lambda: 0)
        self.available[0] = self.start = cfg['start']
        self.opening = {0.0: float(self.start)}
        self.closed = {}
        self.touched = []

    def labels(self):
        return [('pool', self.available), ('outside', None)] + [
            ('asset%d' % i, a) for i, a in enumerate(self.assets)] + [('debt%d' % i, a) for i, a in enumerate(self.debts)]

    def find(self, transactions, label):
        obj = dict((n, o) for n, o in self.labels())[label]
        for k in transactions:
            if k is obj:
                return norm(transactions[k])
        return {}

    def flows(self, step):
        return {n: self.find(step.transactions, n) for n, _ in self.labels()}

    def totals(self):
        i, l, s, w, t = self.steps
        return dict(carryover=i.carryover, gross=i.gross_income, withheld=i.tax_withheld, net=i.net_income,
                    living=l.living_expenses, debt=s.debt_repayment, saving=s.retirement_savings, total=s.total,
                    w_held=w.tax_withheld, owing=t.tax_owing, tax_held=t.tax_withheld, adjust=t.tax_adjustment)

    def close(self):
        year = self.steps[0].this_year
        self.closed[year] = [self.flows(s) for s in self.steps]
        left = sum(self.available.values())
        for s in self.steps:
            s.next_year()
        for x in self.people + self.assets + self.debts:
            while x.this_year < year + 1:
                x.next_year()
        self.available.clear()
        self.available[0] = left
        self.opening = {0.0: float(left)}


def compare(w, twin, done):
    for (n, a), (_, b) in zip(w.labels(), twin.labels()):
        if a is None:
            continue
        fa, fb = (norm(a), norm(b)) if isinstance(a, dict) else (norm(dict(a.items())), norm(dict(b.items())))
        expect_map('same_flows', fa, fb, 'flows of %s, every step computed once' % n, abs_=2e-4)
        if not isinstance(a, dict):
            expect('same_balance', a.balance_at_time('end'), b.balance_at_time('end'), 'closing balance of %s' % n, abs_=2e-4)
    for i in range(5):
        for n, fl in w.flows(w.steps[i]).items():
            expect_map('same_record', fl, twin.flows(twin.steps[i])[n], 'recorded flows of %s, step %d' % (n, i), abs_=2e-4)
            if i >= done:
                expect_map('undone', fl, {}, 'flows of a step not (or no longer) computed')


def conserve(w, done):
    for s in w.steps:
        tot = {}
        for fl in w.flows(s).values():
            tot = plus(tot, fl)
        expect_map('conserved', tot, {}, 'sum over all parties of one step', abs_=1e-6)
    for n, obj in w.labels():
        if obj is None:
            continue
        tot = dict(w.opening) if n == 'pool' else {}
        for s in w.steps:
            tot = plus(tot, w.flows(s)[n])
        expect_map('explained', norm(dict(obj.items())), tot, 'all flows of %s are recorded by some step' % n, abs_=1e-6)
    i, l, s, wd, t = w.steps
    F = [w.flows(x) for x in w.steps]
    if done >= 1:
        expect('income', sum(F[0]['pool'].values()), sum(float(p.net_income) for p in w.people), 'income received')
        expect('carryover', i.carryover, sum(w.opening.values()), 'carried over')
        want = {}
        for p in w.people:
            tw = sum(p.payment_timing.values())
            for when, weight in p.payment_timing.items():
                k = round(float(when), 9)
                want[k] = want.get(k, 0.0) + float(p.net_income) * weight / tw
        expect_map('income_timing', F[0]['pool'], {k: v for k, v in want.items()}, 'income as paid')
    if done >= 2:
        expect('living', -sum(F[1]['pool'].values()), l.living_expenses, 'living expenses paid')
        expect('living', sum(F[1]['outside'].values()), l.living_expenses, 'living expenses paid to outside')
    if done >= 3:
        a = sum(sum(F[2]['asset%d' % k].values()) for k in range(len(w.assets)))
        d = sum(sum(F[2]['debt%d' % k].values()) for k in range(len(w.debts)))
        expect('saving', s.retirement_savings, a, 'savings')
        expect('debt', s.debt_repayment, d, 'debt repayment')
        expect('total', s.total, a + d, 'total contributions')
        expect('saving_pool', -sum(F[2]['pool'].values()), a + d, 'money saved comes from the pool', abs_=1e-6)
        for k in range(len(w.debts)):
            check('overpaid', float(w.debts[k].balance_at_time('end')) <= 2e-4, 'debt overpaid')
    if done >= 4:
        out = -sum(sum(F[3]['asset%d' % k].values()) for k in range(len(w.assets)))
        held = sum(float(a.tax_withheld) for a in w.assets)
        expect('withheld', abs(float(wd.tax_withheld)), held, 'tax withheld on withdrawals', abs_=1e-6)
        expect('withheld_paid', sum(F[3]['outside'].values()), held, 'tax withheld leaves', abs_=1e-6)
        expect('net_received', sum(F[3]['pool'].values()), out - held, 'withdrawals net of tax reach the pool', abs_=1e-6)
    if done >= 5:
        held = sum(float(p.tax_withheld) for p in w.people) + sum(float(a.tax_withheld) for a in w.assets)
        expect('tax_withheld', t.tax_withheld, held, 'all tax withheld')
        expect('adjustment', t.tax_adjustment, held - float(t.tax_owing), 'refund or amount owing')


def year_configs(tier):
    for world in WORLDS:
        for take in ('Ordered', 'Weighted') if tier == 'thorough' or world in ('retired', 'pair') else ('Ordered',):
            for start in (0, 2500, -700) if tier == 'thorough' else (0,) if world in ('empty', 'rrsp_only') else (0, 2500):
                yield dict(world=world, take=take, start=start, full=tier == 'thorough')


# ---------------------------------------------------------------- recomputing after something changed

CHANGES = ('pool+', 'pool-', 'gross', 'deposit', 'takeout', 'living', 'none')


def change(w, kind):
    if kind == 'pool+':
        w.available[0.5] += 4000
    elif kind == 'pool-':
        w.available[0.0] -= 2000
    elif kind == 'gross':
        w.people[0].gross_income = 91000
    elif kind == 'deposit':
        w.assets[0].add_transaction(3000, when=0.25)
    elif kind == 'takeout':
        w.assets[-1].add_transaction(-800, when=0.75)
    elif kind == 'living':
        w.steps[1].living_expenses_strategy = LivingExpensesStrategy(
            LivingExpensesStrategy.strategy_const_living_expenses, base_amount=11000)


def run_changed(case):
    """Compute the steps, read what they report, go back to step k, change something, compute again:
    as if the change had been there from the start."""
    cfg = dict(world=case['world'], take='Ordered', start=2500)
    w, ref = World(cfg), World(cfg)
    for x in (w, ref):
        for _ in range(case['years']):
            for s in x.steps:
                s(x.available)
            x.close()
    k = case['step']
    for s in w.steps:
        s(w.available)
        if case['read']:
            w.totals()
    if case['read']:
        w.totals()
    for i in range(4, k if case['redo'] else k - 1, -1):
        w.steps[i].undo_transactions()
        if case['read'] == 'often':
            w.totals()
    change(w, case['change'])
    for s in w.steps[k:]:
        s(w.available)
    for s in ref.steps[:k]:
        s(ref.available)
    change(ref, case['change'])
    for i, s in enumerate(ref.steps):
        if i >= k:
            before = sum(abs(float(a.tax_withheld)) for a in ref.assets)
            s(ref.available)
            if i == 3:                                  # only the tax on this step's withdrawals is taken out of them
                held = sum(abs(float(a.tax_withheld)) for a in ref.assets) - before
                F = ref.flows(s)
                out = -sum(sum(F['asset%d' % j].values()) for j in range(len(ref.assets)))
                expect('withheld', abs(float(s.tax_withheld)), held, 'tax withheld on withdrawals', abs_=1e-6)
                expect('net_received', sum(F['pool'].values()), out - held, 'withdrawals net of tax reach the pool', abs_=1e-6)
    for (n, a), (_, b) in zip(w.labels(), ref.labels()):
        if a is not None:
            expect_map('same_flows', norm(dict(a.items())), norm(dict(b.items())), 'flows of %s' % n, abs_=2e-4)
    for i in range(5):
        for n, fl in w.flows(w.steps[i]).items():
            expect_map('same_record', fl, ref.flows(ref.steps[i])[n], 'recorded flows of %s, step %d' % (n, i), abs_=2e-4)
    a, b = w.totals(), ref.totals()
    for n in b:
        expect('same_total', a[n], b[n], n, abs_=2e-4)
    w.close()
    ref.close()
    ya = [{n: getattr(s, n)[Y + case['years']] for n in HISTORIES[i]} for i, s in enumerate(w.steps)]
    yb = [{n: getattr(s, n)[Y + case['years']] for n in HISTORIES[i]} for i, s in enumerate(ref.steps)]
    for x, y in zip(ya, yb):
        for n in y:
            expect('same_history', x[n], y[n], n, abs_=2e-4)
    return dict(ops=10, outcome=[round(float(v)) for v in b.values()])


HISTORIES = [('carryover_history', 'gross_income_history', 'tax_withheld_history', 'net_income_history'),
             ('living_expenses_history',), ('debt_repayment_history', 'retirement_savings_history', 'total_history'),
             ('gross_withdrawals_history', 'net_withdrawals_history'),
             ('tax_withheld_history', 'tax_owing_history', 'tax_adjustment_history')]


def changed_cases(tier):
    for world, kind, k, redo, read, years in itertools.product(
            WORLDS, CHANGES, range(5), (False, True), (False, 'once', 'often'), (0, 1, 2) if tier == 'thorough' else (0, 1)):
        if kind == 'gross' and k or kind == 'living' and k > 1:     # (read by an earlier step already)
            continue
        yield dict(world=world, change=kind, step=k, redo=redo, read=read, years=years)


# ---------------------------------------------------------------- an account as the pool

class AccountPool:
    """Steps may also move money in and out of an account used as the pool."""
    def __init__(self, cfg):
        self.cfg = cfg
        p = Person(Y, 'P', 1970, retirement_date=2050)
        self.P = Account(p, balance=cfg['bal'], rate=cfg['rate'])
        self.Q = Account(p, balance=10)
        self.f = SubForecast(Y)
        self.tx, self.q, self.mine, self.called = {}, {}, {}, False

    def events(self):
        return [['in', 50, 0.5], ['out', 30, 0.0], ['out', 120, 0.25], ['out', 80, 0.75], ['in', 40, 1.0], ['call'], ['undo'],
                ['outside', -20, 0.5], ['outside', 60, 0.5]]

    def apply(self, ev):
        k = ev[0]
        before = norm(dict(self.P.items()))
        if k == 'in':
            self.f.add_transaction(ev[1], timing=ev[2], from_account=None, to_account=self.P)
            self.move(ev[2], ev[1])
        elif k == 'out':
            self.f.add_transaction(ev[1], timing=ev[2], from_account=self.P, to_account=self.Q)
            diff = plus(norm(dict(self.P.items())), before, -1)
            check('one_flow', len(diff) == 1, 'outflow of %s recorded as %s' % (ev[1], diff))
            (t, v), = diff.items()
            expect('one_flow', v, -ev[1], 'outflow')
            check('shift', t >= ev[2], 'moved to %s before %s' % (t, ev[2]))
            self.move(t, -ev[1])
            self.q = plus(self.q, {t: ev[1]})
        elif k == 'outside':
            self.P.add_transaction(ev[1], when=ev[2])
            self.tx = plus(self.tx, {ev[2]: ev[1]})
        else:
            if k == 'call':
                if self.called:
                    self.undo()
                self.f(self.P)
                self.called = True
                expect('total_available', self.f.total_available, max(0.0, self.closing()), 'money available at the end')
            else:
                self.f.undo_transactions()
                self.undo()
        expect_map('flows', dict(self.P.items()), self.tx, 'flows of the pool')
        expect_map('flows', dict(self.Q.items()), self.q, 'flows of the other account')
        expect('closing', self.P.balance_at_time('end'), self.closing(), 'closing balance')

    def closing(self):
        r = self.cfg['rate']
        return self.cfg['bal'] * (1 + r) + sum(v * (1 + r) ** (1 - t) for t, v in self.tx.items())

    def move(self, t, v):
        self.tx = plus(self.tx, {t: v})
        self.mine = plus(self.mine, {t: v})

    def undo(self):
        self.tx = plus(self.tx, self.mine, -1)
        self.mine, self.q, self.called = {}, {}, False

    def canon(self):
        return (sorted(self.tx.items()), sorted(self.mine.items()), self.called, sorted(map(float, self.P)))


FAMILIES = [
    Hist('transfers', transfer_configs, Transfers, lambda tier, c: 4 if tier == 'thorough' else 3,
         'transfers among two accounts, a pool and outside; recompute, undo, outside use, year close'),
    Hist('year_of_steps', year_configs, Year, lambda tier, c: 8,
         'the five steps of a year in order, each recomputed or undone, against a twin computing each once'),
    Enum('changed', changed_cases, run_changed, 'steps recomputed after something they depend on has changed'),
    Hist('account_pool', lambda tier: [dict(bal=b, rate=r) for b in (100, 0) for r in (0, 0.21, -0.1)], AccountPool,
         lambda tier, c: 5 if tier == 'thorough' else 4, 'an account as the pool of available money'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('transfers', 'year_of_steps')]
