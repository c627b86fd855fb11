"""C24: accounts belong to exactly one owner, and people and accounts keep pace."""
import itertools
from ..engine import Hist, unread
from ..lib import *
from forecaster import Person, Account, Debt
from forecaster.canada import RRSP, TFSA

Y = 2000
RATE, RAISE = 0.1, 0.05


def plain(owner, year, c):
    return Account(owner, balance=100, rate=RATE, nper=1, initial_year=year)


def debt(owner, year, c):
    return Debt(owner, balance=100, rate=RATE, nper=1, initial_year=year)


def rrsp(owner, year, c):
    return RRSP(owner, balance=100, rate=RATE, nper=1, initial_year=year, contribution_room=1000, contributor=c)


def tfsa(owner, year, c):
    return TFSA(owner, balance=100, rate=RATE, nper=1, initial_year=year, contribution_room=1000, contributor=c)


KINDS = dict(plain=plain, debt=debt, rrsp=rrsp, tfsa=tfsa)
REGISTERED = ('rrsp', 'tfsa')


class System:
    """cfg: people = initial years; accounts = [kind, owner index or None, initial year or None, contributor index or None]."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.people = [Person(y, 'P%d' % i, '1 June 1970', retirement_date='31 December 2060', gross_income=1000, raise_rate=RAISE)
                       for i, y in enumerate(cfg['people'])]
        self.py0 = list(cfg['people'])
        self.py = list(cfg['people'])
        self.accounts, self.kind, self.own, self.con, self.ay, self.ay0 = [], [], [], [], [], []
        for a in cfg['accounts']:
            self.create(*a)
        self.check()

    def create(self, kind, owner, year, con):
        who = None if owner is None else self.people[owner]
        self.accounts.append(KINDS[kind](who, year, None if con is None else self.people[con]))
        self.kind.append(kind)
        self.own.append(owner)
        self.con.append((owner if con is None else con) if kind in REGISTERED else None)
        year = self.py0[owner] if year is None else year
        self.ay.append(year)
        self.ay0.append(year)

    def events(self):
        evs = []
        for i in range(len(self.accounts)):
            if self.ay[i] < self.ay0[i] + self.cfg.get('years', 3):
                evs.append(['next', i])
            if not self.cfg.get('fixed'):
                who = list(range(len(self.people))) + ([] if self.kind[i] == 'rrsp' else [None])   # (a pension plan needs an owner)
                evs += [['own', i, w] for w in who]
                if self.cfg.get('bad'):
                    evs.append(['bad', i])
        evs += [['person', i] for i in range(len(self.people)) if self.py[i] < self.py0[i] + 3]
        if len(self.accounts) < len(self.cfg['accounts']) + self.cfg.get('new', 0):
            evs += [['new'] + list(n) for n in self.cfg['create']]
        return evs

    # the model: years of people and accounts
    def pnext(self, i):
        self.py[i] += 1

    def group(self, i):
        return [j for j in range(len(self.accounts)) if self.kind[j] == self.kind[i] and self.con[j] == self.con[i]]

    def anext(self, i):
        registered = self.kind[i] in REGISTERED
        own = self.own[i]
        while own is not None and self.py[own] < self.ay[i]:
            self.pnext(own)
        self.ay[i] += 1
        if registered:
            for j in self.group(i):
                while self.ay[j] < self.ay[i]:
                    self.anext(j)
            while self.py[self.con[i]] < self.ay[i]:
                self.pnext(self.con[i])

    def apply(self, ev):
        if ev[0] == 'next':
            self.accounts[ev[1]].next_year()
            self.anext(ev[1])
        elif ev[0] == 'person':
            self.people[ev[1]].next_year()
            self.pnext(ev[1])
        elif ev[0] == 'own':
            self.accounts[ev[1]].owner = None if ev[2] is None else self.people[ev[2]]
            self.own[ev[1]] = ev[2]
        elif ev[0] == 'new':
            self.create(*ev[1:])
        elif ev[0] == 'bad':
            try:
                self.accounts[ev[1]].owner = 'somebody'
            except TypeError:
                pass
            else:
                check('accepted', False, 'an owner who is not a Person')
        self.check()

    def check(self):
        for i, p in enumerate(self.people):
            want = {id(a) for a, o in zip(self.accounts, self.own) if o == i}
            check('registered', len(p.accounts) == len(want) and {id(a) for a in p.accounts} == want,
                  'P%d has %d accounts, owns %d' % (i, len(p.accounts), len(want)))
            expect_eq('person_year', p.this_year, self.py[i], 'year of P%d' % i)
            want = {y: 1000 * (1 + RAISE) ** (y - self.py0[i]) for y in range(self.py0[i], self.py[i] + 1)}
            expect_eq('person_history', sorted(p.gross_income_history), sorted(want), 'years of P%d' % i)
            expect_map('income', p.gross_income_history, want, 'income of P%d' % i)
        for i, a in enumerate(self.accounts):
            o = self.own[i]
            check('owner', a.owner is (None if o is None else self.people[o]), 'owner of account %d is %r, expected P%s' % (i, a.owner, o))
            expect_eq('account_year', a.this_year, self.ay[i], 'year of account %d (%s)' % (i, self.kind[i]))
            sign = -1 if self.kind[i] == 'debt' else 1
            want = {y: sign * 100 * (1 + RATE) ** (y - self.ay0[i]) for y in range(self.ay0[i], self.ay[i] + 1)}
            expect_eq('account_history', sorted(a.balance_history), sorted(want), 'years of account %d' % i)
            expect_map('balance', a.balance_history, want, 'balance of account %d' % i)
            if self.kind[i] in REGISTERED:
                check('contributor', a.contributor is self.people[self.con[i]], 'contributor of account %d' % i)
                expect_eq('group', {id(x) for x in a.max_inflow_link.group}, {id(self.accounts[j]) for j in self.group(i)},
                          'accounts sharing room with %d' % i)

    def canon(self):
        return (tuple(self.own), tuple(self.ay), tuple(self.py), tuple(self.kind), tuple(self.con), tuple(self.ay0))


def configs(tier):
    out = []
    for people in ([Y, Y], [Y, Y + 1]):
        for a, b in itertools.combinations_with_replacement(('plain', 'debt', 'tfsa', 'rrsp'), 2):
            out.append(dict(people=people, accounts=[[a, 0, None, None], [b, 0, None, None]], bad=True))
            out.append(dict(people=people, accounts=[[a, 0, None, None], [b, 1, None, None]]))
    out.append(dict(people=[Y], accounts=[], new=3, create=[['plain', 0, None, None], ['tfsa', 0, None, None], ['plain', None, Y, None]]))
    out.append(dict(people=[Y, Y], accounts=[['plain', 0, None, None]], new=2, bad=True,
                    create=[['plain', 0, None, None], ['debt', 1, None, None], ['rrsp', 0, None, 1], ['tfsa', 1, None, 0]]))
    out.append(dict(people=[Y, Y, Y], accounts=[['plain', 0, None, None], ['plain', 1, None, None]]))
    out.append(dict(people=[Y, Y], accounts=[['rrsp', 0, None, 1], ['rrsp', 1, None, None]], bad=True))
    out.append(dict(people=[Y, Y], accounts=[['tfsa', 0, None, 1], ['tfsa', 1, None, 0], ['plain', 0, None, None]]))
    out.append(dict(people=[Y - 2, Y - 1], accounts=[['plain', 0, Y, None], ['tfsa', 1, Y, 0]], bad=True))
    for k in KINDS:                                 # advances only, further
        out.append(dict(people=[Y - 2, Y], fixed=True, years=5, accounts=[[k, 0, Y, None], [k, 1, Y, None], [k, 0, Y, 1]]))
        out.append(dict(people=[Y, Y], fixed=True, years=5, accounts=[[k, 0, None, None], [k, 0, None, None], [k, 1, None, 0]]))
        out.append(dict(people=[Y, Y], fixed=True, years=3, accounts=[[k, 0, Y, None], [k, 0, Y + 2, None], [k, 1, Y + 1, 0]]))
        out.append(dict(people=[Y - 2, Y], fixed=True, years=4, accounts=[[k, 0, Y, None], [k, 0, Y - 1, None], [k, 0, Y + 1, None], [k, 1, Y, None]]))
    return out


def depth(tier, c):
    d = 4 if len(c['accounts']) + c.get('new', 0) <= 2 else 3
    if c.get('fixed'):
        d = 6
    return d + (0 if tier == 'quick' else 2)


FAMILIES = [
    Hist('relations', configs, System, depth,
         about='histories of owner changes, rejected owner changes, new accounts and advances over 1-3 people and up to 3 accounts'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('relations',)]
