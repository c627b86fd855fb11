"""C08: taxable accounts - average-cost method, capital gains, order of recording and reading."""
from ..engine import Enum, Hist, Fail
from ..lib import *
from .c02 import NPER
from forecaster import Person
from forecaster.canada import TaxableAccount

YEAR = 2000


def average_cost(bal, acb, rate, n, tx):
    """(balance, cost, gain) at year end: transactions taken in time order."""
    t, gain = 0.0, 0.0
    for when in sorted(tx):
        bal *= growth(when - t, rate, n)
        t, v = when, tx[when]
        if v >= 0:
            bal, acb = bal + v, acb + v
        else:
            sold = -v / bal
            gain += -v - acb * sold
            bal, acb = bal + v, acb * (1 - sold)
    return bal * growth(1 - t, rate, n), acb, gain


class System:
    def __init__(self, cfg):
        self.cfg = cfg
        p = Person(YEAR, 'P', '1 January 1980', retirement_date='1 January 2045')
        self.rates = cfg['rates']
        self.n = NPER[cfg['nper']]
        kw = {} if cfg['acb'] is None else dict(acb=cfg['acb'])
        self.a = TaxableAccount(p, balance=cfg['bal'], rate={YEAR + i: r for i, r in enumerate(cfg['rates'])},
                                nper=cfg['nper'], **kw)
        self.bal = float(cfg['bal'])
        self.acb = self.bal if cfg['acb'] is None else float(cfg['acb'])
        self.acb0 = self.bal - self.acb
        self.bal0, self.year, self.tx = self.bal, YEAR, {}
        self.hist = dict(acb={}, capital_gain={}, taxable_income={})
        self.earned = self.gains = 0.0
        self.log = []

    def feasible(self, tx):
        bal, t = self.bal, 0.0
        r = self.rate()
        for when in sorted(tx):
            bal *= growth(when - t, r, self.n)
            t, v = when, tx[when]
            if v < 0 and (bal <= 1e-6 or bal + v < -1e-9):
                return False
            bal += v
        return True

    def rate(self):
        return self.rates[self.year - YEAR]

    def events(self):
        evs = []
        for v, w in self.cfg['flows']:
            tx = dict(self.tx)
            tx[w] = tx.get(w, 0.0) + v
            if self.feasible(tx):
                evs.append(['add', v, w])
        full = self.full()
        if full is not None:
            evs.append(['sellall', full])
        if self.cfg.get('mapping'):
            for w in sorted(self.tx):
                tx = {k: v for k, v in self.tx.items() if k != w}
                if self.feasible(tx):
                    evs.append(['del', w])
                tx[w] = 150.0
                if self.feasible(tx):
                    evs.append(['set', 150.0, w])
            if self.tx:
                evs.append(['clear'])
        if not self.cfg['eager']:
            evs.append(['read'])
        if self.year - YEAR + 1 < len(self.rates):
            evs.append(['year'])
        return evs

    def full(self):
        """Time of a complete liquidation which is feasible now, if any."""
        for w in self.cfg['sell']:
            if not any(k >= w for k in self.tx) and self.balance_at(w) > 1:
                return w
        return None

    def balance_at(self, t):
        r = self.rate()
        return self.bal * growth(t, r, self.n) + sum(v * growth(t - w, r, self.n) for w, v in self.tx.items() if w <= t)

    def apply(self, ev):
        op = ev[0]
        a = self.a
        self.log.append(ev)
        if op == 'add':
            a.add_transaction(ev[1], when=ev[2])
            self.tx[ev[2]] = self.tx.get(ev[2], 0.0) + ev[1]
        elif op == 'sellall':
            v = -self.balance_at(ev[1])
            a.add_transaction(v, when=ev[1])
            self.tx[ev[1]] = self.tx.get(ev[1], 0.0) + v
        elif op == 'set':
            a[ev[2]] = ev[1]
            self.tx[ev[2]] = ev[1]
        elif op == 'del':
            del a[ev[1]]
            self.tx.pop(ev[1])
        elif op == 'clear':
            a.clear()
            self.tx = {}
        elif op == 'year':
            end, acb, gain = self.now()
            self.hist['acb'][self.year] = self.acb
            self.hist['capital_gain'][self.year] = gain
            self.hist['taxable_income'][self.year] = gain / 2
            self.earned += end - self.bal - sum(self.tx.values())
            self.gains += gain
            self.bal, self.acb, self.tx, self.year = end, acb, {}, self.year + 1
            a.next_year()
        if self.cfg['eager'] or op == 'read':
            self.check()

    def final(self):
        self.check()

    def now(self):
        return average_cost(self.bal, self.acb, self.rate(), self.n, self.tx)

    def check(self):
        a = self.a
        end, acb, gain = self.now()
        tol = dict(abs_=1e-5)
        expect('acb', a.acb, self.acb, 'cost base', **tol)
        expect('capital_gain', a.capital_gain, gain, 'capital gain', **tol)
        expect('taxable_income', a.taxable_income, gain / 2, 'taxable income', **tol)
        expect('acb', a.acb, self.acb, 'cost base read again', **tol)
        expect('balance', a.balance_at_time('end'), end, 'year-end balance', **tol)
        for name, cur in (('acb', self.acb), ('capital_gain', gain), ('taxable_income', gain / 2)):
            got = {y: v for y, v in getattr(a, name + '_history').items() if y <= self.year}
            expect_map(name + '_history', got, {**self.hist[name], self.year: cur}, name + ' history', abs_=1e-5)
        # conservation over the life of the account
        total = sum(v for y, v in a.capital_gain_history.items() if y < self.year)
        expect('conservation', float(total) + float(a.balance) - float(a.acb), self.acb0 + self.earned,
               'realised plus embedded gain', abs_=1e-4)
        expect('returns', sum(v for y, v in a.returns_history.items() if y < self.year), self.earned, 'growth', **tol)

    @property
    def unmerged(self):
        return not self.cfg['eager']

    def canon(self):
        if self.unmerged:
            return self.log
        return (self.year, r9(self.bal), r9(self.acb), sorted((w, r9(v)) for w, v in self.tx.items()))


FLOWS = [[300.0, 0.5], [-300.0, 0.75], [200.0, 0.0], [-100.0, 0.25], [-250.0, 1.0], [100.0, 1.0], [-50.0, 0.5]]


def configs(tier):
    out = []
    for rates, nper in (([0.1, 0.1, 0.1], 'A'), ([0.0, 0.5, -0.2], 'A'), ([-0.3, 0.2, 0.0], 'M'), ([0.07, 0.0, 0.3], 'C')):
        for bal, acb in ((1000, None), (1000, 400), (0, None), (500, 800), (1000, 0)):
            out.append(dict(bal=bal, acb=acb, rates=rates, nper=nper, eager=True, flows=FLOWS, sell=[1.0, 0.5]))
            out.append(dict(bal=bal, acb=acb, rates=rates, nper=nper, eager=True, mapping=True,
                            flows=FLOWS[:4], sell=[0.5]))
    for rates, nper in (([0.1, 0.3, -0.1], 'A'), ([0.0, 0.5, 0.1], 'Q')):
        for bal, acb in ((1000, None), (1000, 400)):
            out.append(dict(bal=bal, acb=acb, rates=rates, nper=nper, eager=False, mapping=True,
                            flows=FLOWS[:4], sell=[1.0]))
    return out


def depth(tier, cfg):
    if not cfg['eager']:
        return 4 if tier == 'quick' else 5
    return 5 if tier == 'quick' else 6


FAMILIES = [
    Hist('average_cost', configs, System, depth,
         about='buy/sell/assign/delete/clear/advance in any recording order; eager and lazy reading'),
]
