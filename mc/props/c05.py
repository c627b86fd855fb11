"""C05: linked accounts share one limit, consistently for all of the group."""
from ..engine import Enum, Hist, Fail, unread
from ..lib import *
from .c03 import reference, model_end, norm_timing, TIMINGS, KINDS, YEAR, NPER
from forecaster import Person, LinkedLimitAccount
from forecaster.accounts.link import AccountLink
from forecaster.utility import Timing

LIMS = ['max_inflow', 'min_inflow', 'max_outflow', 'min_outflow']
DEFAULT = dict(max_inflow=INF, min_inflow=0.0, max_outflow=-INF, min_outflow=0.0)


def person(name):
    return Person(YEAR, name, '1 January 1980', retirement_date='1 January 2045')


# --- link registry ----------------------------------------------------------------------

class Registry:
    """Two link objects for one (owner, token), one for another token, one for another owner."""
    KEYS = [('p', 'x'), ('p', 'x'), ('p', 'y'), ('q', 'x')]

    def __init__(self, cfg):
        self.cfg = cfg
        self.owner = dict(p=person('P'), q=person('Q'))
        self.factory = (lambda: 7) if cfg.get('factory') else None
        self.links = [AccountLink((self.owner[o], t), default_factory=self.factory) if cfg.get('factory')
                      else AccountLink((self.owner[o], t)) for o, t in self.KEYS]
        self.accts = [LinkedLimitAccount(self.owner['p']) for _ in range(2)]
        self.rec = {k: self.fresh() for k in set(self.KEYS)}
        self.check()

    def fresh(self):
        return dict(data=7 if self.cfg.get('factory') else {}, group=frozenset())

    def events(self):
        evs = []
        for i in range(4):
            evs += [['link', i, a] for a in (0, 1)] + [['unlink', i, a] for a in (0, 1)]
            evs += [['data', i, 10 + i], ['reg', i], ['unreg', i]]
        return evs + [['new', 1], ['wrap', 1]]

    def apply(self, ev):
        op, i = ev[0], ev[1]
        k, link = self.KEYS[i], self.links[i]
        r = self.rec.get(k)
        if op == 'link':
            if r is None:
                try:
                    link.link_account(self.accts[ev[2]])
                except KeyError:
                    pass
                else:
                    raise Fail('link', 'linked to an unregistered link')
            else:
                link.link_account(self.accts[ev[2]])
                r['group'] |= {ev[2]}
        elif op == 'unlink':
            if r is not None and ev[2] in r['group']:
                link.unlink_account(self.accts[ev[2]])
                r['group'] -= {ev[2]}
        elif op == 'data':
            if r is None:
                try:
                    link.data = ev[2]
                except AttributeError:
                    pass
                else:
                    raise Fail('data', 'data set on an unregistered link')
            else:
                link.data = ev[2]
                r['data'] = ev[2]
        elif op == 'reg':
            link.register()
            if r is None:
                self.rec[k] = self.fresh()
        elif op == 'unreg':
            link.unregister()
            self.rec.pop(k, None)
        elif op in ('new', 'wrap'):        # another link object for the same pair
            arg = link if op == 'wrap' else (self.owner[k[0]], k[1])
            if op == 'wrap':
                self.links[i] = AccountLink(arg)
            else:
                self.links[i] = AccountLink(arg, default_factory=self.factory)
            if r is None:
                self.rec[k] = self.fresh()
        self.check()

    def check(self):
        for i, link in enumerate(self.links):
            r = self.rec.get(self.KEYS[i])
            expect_eq('registered', link.is_registered(), r is not None, 'link %d registered' % i)
            if r is None:
                expect_eq('data', link.data, None, 'data of unregistered link')
                expect_eq('group', link.group, None, 'group of unregistered link')
                continue
            expect_eq('data', link.data, r['data'], 'data of link %d' % i)
            expect_eq('group', frozenset(n for n, a in enumerate(self.accts) if a in link.group), r['group'],
                      'group of link %d' % i)
            expect_eq('group', len(link.group), len(r['group']), 'size of group')
            for n, a in enumerate(self.accts):
                expect_eq('group', link.is_linked(a), n in r['group'], 'account %d linked by %d' % (n, i))
            for j, other in enumerate(self.links):
                same = self.KEYS[i] == self.KEYS[j]
                expect_eq('equality', link == other, same, 'links %d and %d equal' % (i, j))
                if same:
                    expect_eq('equality', hash(link), hash(other), 'hash of equal links')

    def canon(self):
        return sorted((k, str(r['data']), sorted(r['group'])) for k, r in self.rec.items())


# --- accounts sharing limits --------------------------------------------------------------

class Group:
    """Accounts A, B share the configured limits; C shares another token; D is unlinked."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.p, self.q = person('P'), person('Q')
        self.n = NPER['A']
        self.year = YEAR
        self.accts, self.model = [], []
        lims = cfg['limits']            # kind -> value
        self.lim = {}                   # (token, kind) -> value
        for name in 'ABCD':
            kw = {}
            links = {}
            for kind in LIMS:
                token = cfg.get('tokens', dict(A='x', B='x', C='y', D=None))[name]
                if name == 'B' and kind in cfg.get('b_unlinked', ()):
                    token = None
                if token is None or kind not in lims:
                    continue
                key = (token + kind, kind)
                links[kind] = key
                kw[kind + '_link'] = (self.q if cfg.get('foreign') else self.p, key[0])
                if name in cfg.get('setter', 'AC'):
                    value = cfg.get('values', {}).get(name, {}).get(kind, lims[kind])
                    kw[kind + '_limit'] = value
                    self.lim[key] = value
            a = LinkedLimitAccount(self.p, balance=cfg['bal'], rate=cfg['rate'],
                                   default_timing=Timing({0.5: 1, 1: 1}), **kw)
            self.accts.append(a)
            self.model.append(dict(name=name, links=links, bal=float(cfg['bal']), tx={}))
        self.check()

    def events(self):
        evs = []
        for i in range(4):
            for v, w in self.cfg['txs']:
                evs.append(['add', i, v, w])
        for i in (0, 1):
            for kind in sorted(self.cfg['limits']):
                if kind in self.model[i]['links']:
                    evs.append(['limit', i, kind, 35 if 'inflow' in kind else -35])
        return evs + [['year']]

    def apply(self, ev):
        if ev[0] == 'add':
            m = self.model[ev[1]]
            self.accts[ev[1]].add_transaction(ev[2], when=ev[3])
            m['tx'][ev[3]] = m['tx'].get(ev[3], 0.0) + ev[2]
        elif ev[0] == 'limit':
            setattr(self.accts[ev[1]], ev[2] + '_limit', ev[3])
            self.lim[self.model[ev[1]]['links'][ev[2]]] = ev[3]
        else:
            for a, m in zip(self.accts, self.model):
                m['bal'] = model_end(m['bal'], self.cfg['rate'], self.n, self.txs(m))
                m['tx'] = {}
                a.next_year()
            self.year += 1
        self.check()

    @staticmethod
    def txs(m):
        return [(v, w) for w, v in sorted(m['tx'].items())]

    def others(self, i, kind):
        """Flows of the rest of account i's group for this kind of limit."""
        key = self.model[i]['links'].get(kind)
        if key is None:
            return 0.0
        inflow = 'inflow' in kind
        return sum(v for j, m in enumerate(self.model) if j != i and m['links'].get(kind) == key
                   for v in m['tx'].values() if v and (v > 0) == inflow)

    def extra(self, i, kind, flows):
        key = self.model[i]['links'].get(kind)
        return sum(v for j, v in flows.items() if key and j != i and self.model[j]['links'].get(kind) == key)

    def limit(self, i, kind):
        key = self.model[i]['links'].get(kind)
        return DEFAULT[kind] if key is None else self.lim[key]

    def check(self):
        cfg = self.cfg
        for i, (a, m) in enumerate(zip(self.accts, self.model)):
            expect('balance', a.balance_at_time('end'),
                   model_end(m['bal'], cfg['rate'], self.n, self.txs(m)), 'balance of ' + m['name'])
            for kind in LIMS:
                key = m['links'].get(kind)
                expect('limit', getattr(a, kind + '_limit'), self.limit(i, kind), '%s limit of %s' % (kind, m['name']))
                link = getattr(a, kind + '_link')
                expect_eq('linked', link is None, key is None, '%s link of %s' % (kind, m['name']))
                if link is not None:
                    expect_eq('group', set(id(x) for x in link.group),
                              set(id(x) for x, n in zip(self.accts, self.model) if n['links'].get(kind) == key),
                              '%s group of %s' % (kind, m['name']))
            for tname in cfg['timings']:
                timing = norm_timing(tname)
                for K in KINDS:
                    kind = K[:-1]
                    lims = {kind: self.limit(i, kind) - self.others(i, kind)}
                    total = reference(K, m['bal'], cfg['rate'], self.n, self.txs(m), lims, timing)
                    got = getattr(a, K)(TIMINGS[tname])
                    expect_map(K, got, {t: total * w for t, w in timing.items()},
                               '%s of %s (%s)' % (K, m['name'], tname))
            # hypothetical flows of the group count against the shared limit
            timing = norm_timing('two')
            gt = {self.accts[1]: {0.5: 12.0}, self.accts[3]: {0.5: 500.0}}
            hyp = [[12.0, 0.5]] if i == 1 else [[500.0, 0.5]] if i == 3 else []
            extra = self.extra(i, 'max_inflow', {1: 12.0, 3: 500.0})
            lims = dict(max_inflow=self.limit(i, 'max_inflow') - self.others(i, 'max_inflow') - extra)
            total = reference('max_inflows', m['bal'], cfg['rate'], self.n, self.txs(m), lims, timing, hyp=hyp)
            got = a.max_inflows({0: 1, 1: 1}, group_transactions=gt)
            expect_map('group_hypothetical', got, {t: total * w for t, w in timing.items()},
                       'max_inflows of %s with hypothetical group flows' % m['name'])
            gt = {self.accts[1]: {1.0: -12.0}, self.accts[2]: {0.5: -500.0}}
            hyp = [[-12.0, 1.0]] if i == 1 else [[-500.0, 0.5]] if i == 2 else []
            extra = self.extra(i, 'max_outflow', {1: -12.0, 2: -500.0})
            lims = dict(max_outflow=self.limit(i, 'max_outflow') - self.others(i, 'max_outflow') - extra)
            total = reference('max_outflows', m['bal'], cfg['rate'], self.n, self.txs(m), lims, timing, hyp=hyp)
            got = a.max_outflows({0: 1, 1: 1}, group_transactions=gt)
            expect_map('group_hypothetical', got, {t: total * w for t, w in timing.items()},
                       'max_outflows of %s with hypothetical group flows' % m['name'])

    def canon(self):
        return (self.year, sorted((k, r9(v)) for k, v in self.lim.items()),
                [(r9(m['bal']), sorted((w, r9(v)) for w, v in m['tx'].items())) for m in self.model])


def group_configs(tier):
    full = dict(max_inflow=100, min_inflow=50, max_outflow=-80, min_outflow=-30)
    base = dict(bal=1000, rate=0.0, timings=['two'], txs=[[30, 0.5], [-20, 0.5]])
    out = [dict(base, limits=full), dict(base, limits=full, rate=0.1, foreign=1, txs=[[70, 0], [-60, 1]])]
    for kind in LIMS:
        out.append(dict(base, limits={kind: full[kind]}, rate=0.1, txs=[[60, 0.5], [-50, 1], [-10, 0.5]]))
        out.append(dict(base, limits=full, b_unlinked=[kind], txs=[[60, 0.25], [-50, 0.75]]))
    out.append(dict(base, limits=full, bal=40, txs=[[60, 0.5], [-30, 1]]))
    out.append(dict(base, limits=full, setter='ABC', timings=['uneven', 'start']))
    out.append(dict(base, limits=full, setter='BC', timings=['end']))
    quad = dict(A='x', B='x', C='x', D='x')
    other = dict(max_inflow=900, min_inflow=700, max_outflow=-850, min_outflow=-600)
    out.append(dict(base, limits=full, tokens=quad, setter='ABCD', values=dict(A=other, B=other), txs=[[30, 0.5], [-20, 1]]))
    out.append(dict(base, limits=full, tokens=dict(quad, B=None), setter='ACD', values=dict(A=other, C=dict(max_inflow=0))))
    return out


def reg_configs(tier):
    return [dict(), dict(factory=1)]


# --- every argument of the offers ------------------------------------------------------------

LIMVAL = dict(max_inflow=100.0, min_inflow=50.0, max_outflow=-80.0, min_outflow=-30.0)
RECORDED = [{}, {0.5: 30.0}, {0.0: -20.0}, {0.0: 10.0, 1.0: -10.0}]
OWN = [None, {}, {0.5: 7.0}, {0.5: -7.0}]
GROUP = [None, {}, {0: {0.0: 5.0}}, {1: {0.0: 9.0}}, {1: {1.0: -9.0}, 0: {1.0: -5.0}}, {'last': {0.5: 11.0, 1.0: -11.0}}, {'stranger': {0.0: 45.0, 1.0: -45.0}}]


def query_cases(tier):
    for n in (1, 2, 3, 4):
        for which in ('all', 'max', 'in'):
            for recs in ([0], [1], [2], [3], [0, 1], [1, 2], [2, 3, 1], [3, 3, 3, 3]):
                if len(recs) > n:
                    continue
                for own in range(len(OWN)):
                    for gt in range(len(GROUP)):
                        for rate in (0.0, 0.1) if tier != 'quick' else (0.0,):
                            yield [n, which, recs, own, gt, rate]


def run_query(case):
    n, which, recs, own, gt, rate = case
    p = person('P')
    linked = [k for k in LIMS if which == 'all' or k.startswith(which) or (which == 'in' and 'inflow' in k)]
    kw = {}
    for kind in linked:
        kw[kind + '_link'] = (p, kind)
    accts = [LinkedLimitAccount(p, balance=1000, rate=rate, nper=1, default_timing=Timing({0.5: 1, 1: 1}), **kw) for _ in range(n)]
    stranger = LinkedLimitAccount(p, balance=1000, rate=rate, nper=1)
    for kind in linked:
        setattr(accts[-1], kind + '_limit', LIMVAL[kind])
    rec = [dict(RECORDED[recs[i]]) if i < len(recs) else {} for i in range(n)]
    for a, r in zip(accts, rec):
        for w, v in r.items():
            a.add_transaction(v, when=w)
    group = None
    flows = {}
    if GROUP[gt] is not None:
        group = {}
        for who, tx in GROUP[gt].items():
            i = n - 1 if who == 'last' else who
            if who == 'stranger':
                group[stranger] = dict(tx)
            elif i < n:
                group[accts[i]] = dict(tx)
                flows[i] = tx
    timing = norm_timing('two')
    out, outcome = 0, []
    for i, a in enumerate(accts):
        mine = OWN[own] if OWN[own] is not None else flows.get(i)
        hyp = [[v, w] for w, v in (mine or {}).items()]
        for K in KINDS:
            kind, inflow = K[:-1], 'inflow' in K
            lims = {}
            if kind in linked:
                lims[kind] = LIMVAL[kind] - sum(v for j in range(n) if j != i for tx in (rec[j], flows.get(j, {}))
                                                for v in tx.values() if (v > 0) == inflow)
            for tl in (None, 0.0, 6.0, 400.0):
                tl = tl if tl is None or inflow else -tl
                for bl in (None, 1010.0 if inflow else 990.0):
                    total = reference(K, 1000.0, rate, 1, [[v, w] for w, v in sorted(rec[i].items())], lims, timing, tlimit=tl,
                                      blimit=bl, hyp=hyp)
                    keep = None if OWN[own] is None else dict(OWN[own])
                    got = getattr(a, K)({0: 1, 1: 1}, transaction_limit=tl, balance_limit=bl, transactions=keep,
                                        group_transactions=group)
                    expect_map('query', got, {t: total * w for t, w in timing.items()},
                               '%s of account %d (transaction_limit=%s, balance_limit=%s)' % (K, i, tl, bl))
                    expect_eq('pure', keep, OWN[own], 'transactions passed to ' + K)
                    out += 1
                    outcome.append(r9(total))
    for a, r in zip(accts, rec):
        expect_eq('pure', {w: v for w, v in a.items() if v}, {w: v for w, v in r.items() if v}, 'recorded transactions')
    return dict(ops=out, outcome=outcome[:12])


def run_link_eq(case):
    """Links are the same exactly if they have the same owner and the same token."""
    (o1, t1), (o2, t2) = case
    owners = [person('P'), person('P')]
    tok = lambda t: tuple(t) if isinstance(t, list) else t
    a, b = AccountLink((owners[o1], tok(t1))), AccountLink((owners[o2], tok(t2)), default_factory=lambda: 3)
    same = o1 == o2 and tok(t1) == tok(t2)
    expect_eq('equality', a == b, same, 'equality of links')
    expect_eq('equality', a != b, not same, 'inequality of links')
    expect_eq('equality', len({a, b}), 1 if same else 2, 'size of a set of the links')
    a.data = None
    expect_eq('data', a.data, None, 'data set to None')
    b.data = 0
    expect_eq('data', a.data, 0 if same else None, 'data of the other link')
    expect_eq('data', b.data, 0, 'data set to zero')
    acct = LinkedLimitAccount(owners[0])
    a.link_account(acct)
    a.link_account(acct)
    expect_eq('group', b.is_linked(acct), same, 'seen by the other link')
    expect_eq('group', len(a.group), 1, 'size of group')
    for v in (5, None, [], 0):
        a.data = v
        expect_eq('data', (a.data, type(a.data)), (v, type(v)), 'data of a link with accounts')
    a.unlink_account(acct)
    expect_eq('group', (a.is_registered(), a.data, len(a.group)), (True, 0, 0), 'after the last account left')
    return dict(ops=9, outcome=same)


def link_eq_cases(tier):
    toks = ['x', 'X', '1', 1, '', 0, None, ['x', 1], "('x', 1)"]
    ends = [(o, t) for o in (0, 1) for t in toks]
    for a in ends:
        for b in ends:
            yield [list(a), list(b)]


FAMILIES = [
    Hist('registry', reg_configs, Registry, lambda t, c: 4 if t == 'quick' else 6,
         about='link/unlink/register/unregister/set over two links to one record, another token, another owner'),
    Hist('shared_limits', group_configs, Group, lambda t, c: 3 if t == 'quick' else 4,
         about='transactions, limit changes and advances of four accounts in two groups and none; all offers'),
    Enum('queries', query_cases, run_query,
         about='one to four linked accounts x recorded x hypothetical own and group transactions x limits: every kind of offer'),
    Enum('link_equality', link_eq_cases, run_link_eq, about='all pairs of (owner, token): identity of links, shared data'),
]
FAMILIES += [unread(f) for f in FAMILIES if f.name in ('registry', 'shared_limits')]
