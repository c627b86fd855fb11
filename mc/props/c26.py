"""C26: what each kind of account reports for tax, and what its owner adds up."""
import itertools
from ..engine import Hist, unread
from ..lib import *
from forecaster import Person, Account, Debt, Tax
from forecaster.accounts import LinkedLimitAccount
from forecaster.canada import RRSP, TFSA, TaxableAccount, PrincipleResidence

Y = 2000
GROSS, RAISE = 1000.0, 0.25
NAMES = ('taxable_income', 'tax_deduction', 'tax_credit', 'tax_withheld')


def make(kind, owner, bal, rate, nper):
    kw = dict(balance=bal, rate=rate, nper=nper)
    if kind == 'plain':
        return Account(owner, **kw)
    if kind == 'debt':
        return Debt(owner, **kw)
    if kind == 'home':
        return PrincipleResidence(owner, **kw)
    if kind == 'linked':
        return LinkedLimitAccount(owner, max_inflow_link=(owner, 'x'), max_inflow_limit=500, **kw)
    if kind == 'tfsa':
        return TFSA(owner, contribution_room=5000, **kw)
    if kind == 'rrsp':
        return RRSP(owner, contribution_room=5000, **kw)
    return TaxableAccount(owner, acb=bal / 2, **kw)


class Ref:
    def __init__(self, kind, bal, rate, nper):
        self.kind, self.bal, self.rate, self.nper, self.tx = kind, -abs(bal) if kind == 'debt' else bal, rate, nper, {}
        self.acb = bal / 2.0

    def at(self, t, tx=None):
        return self.bal * growth(t, self.rate, self.nper) + sum(v * growth(t - w, self.rate, self.nper) for w, v in self.tx.items() if w <= t)

    def gains(self):
        acb, gain = self.acb, 0.0
        for w in sorted(self.tx):
            v = self.tx[w]
            if v >= 0:
                acb += v
            else:
                before = self.at(w) - v
                gain += -v * (1 - acb / before)
                acb *= 1 + v / before
        return gain, acb

    def returns(self):
        return self.at(1.0) - self.bal - sum(self.tx.values())

    def tax(self):
        inc = ded = 0.0
        if self.kind in ('plain', 'linked', 'debt'):
            inc = max(0.0, self.returns())
        elif self.kind == 'rrsp':
            inc, ded = -sum(v for v in self.tx.values() if v < 0), sum(v for v in self.tx.values() if v > 0)
        elif self.kind == 'taxable':
            inc = self.gains()[0] / 2
        return dict(taxable_income=inc, tax_deduction=ded, tax_credit=0.0, tax_withheld=0.0)

    def next_year(self):
        end, acb = self.at(1.0), self.gains()[1] if self.kind == 'taxable' else 0
        self.bal, self.acb, self.tx = end, acb, {}


class System:
    """cfg: accounts = [kind, owner, balance]; rates are keyed by year so that a year with a loss follows one with a gain."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.year = Y
        self.people = [Person(Y, 'P%d' % i, '1 May 1970', retirement_date='31 December 2050', gross_income=GROSS * (i + 1), raise_rate=RAISE,
                              tax_treatment=Tax({Y: {0: 0.2}}, inflation_adjust=lambda a, b=None: 1) if i == 0 else None)
                       for i in range(2)]
        self.own = [o for _, o, _ in cfg['accounts']]
        rates = {Y + i: r for i, r in enumerate(cfg['rates'])}
        self.acc = [make(k, self.people[o], b, rates, cfg['nper']) for k, o, b in cfg['accounts']]
        self.rates = rates
        self.ref = [Ref(k, b, rates[Y], None if cfg['nper'] == 'C' else cfg['nper']) for k, _, b in cfg['accounts']]
        self.hist = [{n: {} for n in NAMES} for _ in self.acc]
        self.phist = [{n: {} for n in NAMES} for _ in self.people]
        self.check()

    def events(self):
        evs = []
        for i, (k, _, _) in enumerate(self.cfg['accounts']):
            for v, w in self.cfg['flows']:
                if v < 0 and k in ('taxable', 'rrsp', 'tfsa', 'home') and self.ref[i].at(1.0) + 2 * v < 10:
                    continue                        # (no overdrafts of assets)
                if v < 0 and k == 'debt':
                    continue
                evs.append(['flow', i, v, w])
            if len(self.acc) > 1 and k != 'linked':
                evs.append(['own', i, 1 - self.own[i]])
        if self.year < Y + len(self.cfg['rates']) - 1:
            evs.append(['year'])
        return evs

    def personal(self, i):
        out = {n: 0.0 for n in NAMES}
        for j, r in enumerate(self.ref):
            if self.own[j] == i:
                t = r.tax()
                for n in NAMES[:3]:
                    out[n] += t[n]
        gross = GROSS * (i + 1) * (1 + RAISE) ** (self.year - Y)
        out['taxable_income'] += gross
        out['tax_withheld'] = 0.2 * gross if i == 0 else 0.0
        return out

    def apply(self, ev):
        if ev[0] == 'flow':
            i = ev[1]
            self.acc[i].add_transaction(ev[2], when=ev[3])
            self.ref[i].tx[ev[3]] = self.ref[i].tx.get(ev[3], 0.0) + ev[2]
        elif ev[0] == 'own':
            self.acc[ev[1]].owner = self.people[ev[2]]
            self.own[ev[1]] = ev[2]
        else:
            for i, p in enumerate(self.people):
                for n, v in self.personal(i).items():
                    self.phist[i][n][self.year] = v
            for r, h in zip(self.ref, self.hist):
                for n, v in r.tax().items():
                    h[n][self.year] = v
            for p in self.people:
                p.next_year()
            for a, r in zip(self.acc, self.ref):
                while a.this_year <= self.year:
                    a.next_year()
                r.next_year()
            self.year += 1
            for r in self.ref:
                r.rate = self.rates[self.year]
        self.check()

    def check(self):
        for a, r, h, (k, _, _) in zip(self.acc, self.ref, self.hist, self.cfg['accounts']):
            for n, v in r.tax().items():
                if k == 'rrsp' and n == 'tax_withheld':     # (amounts: C07)
                    out = r.tax()['taxable_income']
                    check('rrsp_withheld', 0 <= float(a.tax_withheld) <= out and (float(a.tax_withheld) > 0) == (out > 0), 'withheld %s on %s' % (
                        a.tax_withheld, out))
                    continue
                expect(k + '_' + n, getattr(a, n), v, '%s of a %s account in %d' % (n, k, self.year))
                expect_map('history', getattr(a, n + '_history'), {**h[n], self.year: v},
                           '%s history of a %s account' % (n, k))
        for i, p in enumerate(self.people):
            for n, v in self.personal(i).items():
                expect('person_' + n, getattr(p, n), v, "person's %s in %d" % (n, self.year))
                expect_map('person_history', getattr(p, n + '_history'), {**self.phist[i][n], self.year: v}, "person's %s history" % n)

    def canon(self):
        return (self.year, tuple(self.own), tuple((r9(r.bal), r9(r.acb), tuple(sorted(r.tx.items()))) for r in self.ref),
                tuple(tuple(sorted(h['taxable_income'].items())) for h in self.phist), tuple(tuple(sorted(h['taxable_income'].items())) for h in self.hist))


FLOWS = [[30, 0.5], [-40, 1], [-20, 0]]
KINDS = ('plain', 'debt', 'home', 'linked', 'tfsa', 'rrsp', 'taxable')


def configs(tier):
    out = []
    for k in KINDS:
        for rates in ([0.1, -0.2, 0.05], [-0.1, 0.3, 0], [0, 0.1, 0.1]):
            for nper in ((1, 'C') if tier == 'quick' else (1, 12, 'C')):
                if nper == 'C' and k in ('taxable', 'rrsp') and tier == 'quick':
                    continue
                for bal in (100, 1000):
                    out.append(dict(accounts=[[k, 0, bal]], rates=rates, nper=nper, flows=FLOWS + [[25, 0.25], [-60, 0.75], [50, 1]]))
        out.append(dict(accounts=[[k, 0, 0]], rates=[0.1, 0.2, -0.1], nper=1, flows=[[30, 0.5], [30, 0]]))
        if k == 'plain':
            out.append(dict(accounts=[[k, 0, -300]], rates=[0.1, -0.2, 0.1], nper=1, flows=FLOWS + [[400, 0.5]]))
    for a, b in itertools.combinations_with_replacement(KINDS, 2):
        for o in (0, 1):
            out.append(dict(accounts=[[a, 0, 500], [b, o, 200]], rates=[0.1, -0.1], nper=1, flows=FLOWS[:2]))
    for a, b, c in (('plain', 'plain', 'plain'), ('plain', 'rrsp', 'taxable'), ('taxable', 'taxable', 'debt'), ('rrsp', 'rrsp', 'tfsa')):
        out.append(dict(accounts=[[a, 0, 500], [b, 1, 200], [c, 0, 300]], rates=[0.1, 0.2], nper=1, flows=FLOWS[:2]))
    return out


def depth(tier, c):
    d = {1: 4, 2: 3, 3: 2}[len(c['accounts'])]
    return d + (0 if tier == 'quick' else 1)


FAMILIES = [
    Hist('tax_sources', configs, System, depth,
         about='histories of flows, owner changes and advances over every kind of account, alone and in groups of up to three'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('tax_sources',)]
