"""C17: allocating money over a priority tree - feasible, maximal, minimums first, ordered, proportional."""
import itertools
from ..engine import Enum, Fail
from ..lib import *
from forecaster import Person
from forecaster.accounts import Account, LinkedLimitAccount, LimitTuple
from forecaster.strategy import TransactionTraversal, TransactionNode

Y = 2000
TOL = 2e-3          # the allocation is computed with a resolution of 1e-5 per edge

# A case:
#   tree:  ['a'] ordered list; {'w': [[sub, weight], ...]} weighted; 'a' leaf; ['limit', sub, {field: value}] a limited node
#   accts: {'a': {'max': x|None, 'min': x, 'group': g|None}}
#   groups: {'g': {'max': x}}
#   available: [[when, value]...]


def build(case, person=None):
    p = person or Person(Y, 'P', 1970, retirement_date=2050)
    out = case['dir'] < 0
    accts = {}
    for name, s in case['accts'].items():
        kw = {}
        sign = -1 if out else 1
        side = 'outflow' if out else 'inflow'
        if s.get('group'):
            kw['max_%s_link' % side] = (p, s['group'])
            kw['max_%s_limit' % side] = sign * case['groups'][s['group']]
        elif s.get('max') is not None:
            kw['max_%s_link' % side] = (p, 'max' + name)
            kw['max_%s_limit' % side] = sign * s['max']
        if s.get('min'):
            kw['min_%s_link' % side] = (p, 'min' + name)
            kw['min_%s_limit' % side] = sign * s['min']
        bal = s.get('bal', 10 ** 6)
        accts[name] = LinkedLimitAccount(p, balance=bal, rate=case.get('rate', 0), nper=1, **kw)
    return accts


def node(tree, accts, side, top=True, neg=False):
    if isinstance(tree, str):
        return accts[tree]
    if isinstance(tree, dict):
        d = {}
        for sub, w in tree['w']:
            k = node(sub, accts, side, False, neg)
            d[k] = w
        return d if top else TransactionNode(d)
    if tree and tree[0] == 'limit':
        src = node(tree[1], accts, side, True, neg)
        sign = -1 if side == 'outflow' and neg else 1
        return TransactionNode(src, limits=LimitTuple(**{k + '_' + side: sign * v for k, v in tree[2].items()}))
    seq = [node(s, accts, side, False, neg) for s in tree]
    return seq if top else tuple(seq)


# ------------------------------------------------------------------ reference

class Ref:
    """Exact allocation for trees whose leaves are distinct and not linked."""
    def __init__(self, tree, caps, mins):
        self.caps, self.mins, self.taken = dict(caps), dict(mins), {}
        self.tree = tree

    def cap(self, t, kind):
        """What t can still take of this kind (given what it has taken)."""
        if isinstance(t, str):
            lim = self.mins.get(t, 0) if kind == 'min' else self.caps[t]
            return max(0.0, min(lim, self.caps[t]) - self.taken.get(t, 0.0))
        if isinstance(t, dict):
            return sum(self.cap(s, kind) for s, _ in t['w'])
        if t and t[0] == 'limit':
            c = self.cap(t[1], kind)
            if kind in t[2]:
                c = min(c, max(0.0, t[2][kind] - self.has(t[1])))
            return c
        return sum(self.cap(s, kind) for s in t)

    def has(self, t):
        return sum(self.taken.get(a, 0.0) for a in leaves(t))

    def give(self, t, amount, kind):
        amount = min(amount, self.cap(t, kind))
        if amount <= 0:
            return 0.0
        if isinstance(t, str):
            self.taken[t] = self.taken.get(t, 0.0) + amount
        elif isinstance(t, dict):
            self.fill([(s, w) for s, w in t['w']], amount, kind)
        elif t and t[0] == 'limit':
            self.give(t[1], amount, kind)
        else:
            left = amount
            for s in t:
                left -= self.give(s, left, kind)
        return amount

    def fill(self, subs, amount, kind):
        """Shares so that totals (including earlier minimums) are proportional where possible."""
        had = [self.has(s) for s, _ in subs]
        room = [self.cap(s, kind) for s, _ in subs]
        lo, hi = 0.0, 1.0

        def total(lam):
            return sum(min(max(lam * w - h, 0.0), r) for (s, w), h, r in zip(subs, had, room))
        while total(hi) < amount - 1e-12 and hi < 1e15:
            hi *= 2
        for _ in range(200):
            mid = (lo + hi) / 2
            if total(mid) < amount:
                lo = mid
            else:
                hi = mid
        for (s, w), h, r in zip(subs, had, room):
            self.give(s, min(max(hi * w - h, 0.0), r), kind)


def leaves(t, skip=None):
    if t is skip and skip is not None:
        return []
    if isinstance(t, str):
        return [t]
    if isinstance(t, dict):
        return [x for s, _ in t['w'] for x in leaves(s, skip)]
    if t and t[0] == 'limit':
        return leaves(t[1], skip)
    return [x for s in t for x in leaves(s, skip)]


class Net:
    """Independent reference for linked or repeated leaves: exact shares by augmenting paths.

    Money runs from `S` through the nodes whose amounts are decided so far, down the tree to leaves, from there to `T`,
    through a shared node for linked accounts.  Decided amounts are exact; deciding a node's children keeps all other
    decided amounts feasible (higher levels take precedence, as documented)."""
    def __init__(self, case, caps, group_caps, field='max'):
        self.case, self.caps, self.groups, self.field = case, caps, group_caps, field

    def down(self, edges, t, tag):
        if isinstance(t, str):
            return ('leaf', t)
        me = ('n',) + tag
        if isinstance(t, dict):
            for i, (s, _) in enumerate(t['w']):
                edges.append((me, self.down(edges, s, tag + (i,)), INF))
        elif t and t[0] == 'limit':
            edges.append((me, self.down(edges, t[1], tag + (0,)), t[2].get(self.field, INF)))
        else:
            for i, s in enumerate(t):
                edges.append((me, self.down(edges, s, tag + (i,)), INF))
        return me

    def net(self, front):
        """Residual network for demands [(tree, amount, tag)]."""
        edges, tops = [], []
        for t, x, tag in front:
            top = self.down(edges, t, tag)
            edges.append((('top',) + tag, top, INF))
            tops.append(('top',) + tag)
        for a, s in self.case['accts'].items():
            if s.get('group') in self.groups:
                edges.append((('leaf', a), ('g', s['group']), self.caps[a]))
            else:
                edges.append((('leaf', a), 'T', self.caps[a]))
        for g, c in self.groups.items():
            edges.append((('g', g), 'T', c))
        res = {}
        for u, v, c in edges:
            res.setdefault(u, {})[v] = res.get(u, {}).get(v, 0.0) + c
            res.setdefault(v, {}).setdefault(u, 0.0)
        res.setdefault('S', {})
        return res, tops

    @staticmethod
    def augment(res, top, amount):
        res['S'][top] = res['S'].get(top, 0.0) + amount
        res.setdefault(top, {}).setdefault('S', 0.0)
        flow = 0.0
        while True:
            prev, q = {'S': None}, ['S']
            while q and 'T' not in prev:
                u = q.pop()
                for v, c in res.get(u, {}).items():
                    if c > 1e-10 and v not in prev:
                        prev[v] = u
                        q.append(v)
            if 'T' not in prev:
                return flow
            path, v = [], 'T'
            while prev[v] is not None:
                path.append((prev[v], v))
                v = prev[v]
            f = min(res[u][v] for u, v in path)
            for u, v in path:
                res[u][v] -= f
                res[v][u] += f
            flow += f

    def most(self, front, t, tag, limit):
        """The most `t` can take, up to limit, with the demands `front` met."""
        res, tops = self.net(front + [(t, 0, tag)])
        for (_, x, _), top in zip(front, tops):
            self.augment(res, top, x)
        return self.augment(res, tops[-1], limit)

    def feasible(self, front):
        res, tops = self.net(front)
        return all(self.augment(res, top, x) > x - 1e-7 for (_, x, _), top in zip(front, tops))

    def solve(self, amount, had=lambda t: 0.0):
        root = self.case['tree']
        front = [(root, self.most([], root, (), amount), ())]
        todo, out = [front[0]], {}
        while todo:
            item = todo.pop(0)
            t, x, tag = item
            if isinstance(t, str):
                out[t] = out.get(t, 0.0) + x
                continue
            front.remove(item)
            if isinstance(t, dict):
                parts = self.fair(front, t['w'], x, tag, had)
            elif t and t[0] == 'limit':
                parts = [(t[1], x, tag + (0,))]
            else:
                parts, left = [], x
                for i, s in enumerate(t):
                    m = self.most(front + parts, s, tag + (i,), left)
                    parts.append((s, m, tag + (i,)))
                    left -= m
            front += parts
            todo += parts
        return out

    def fair(self, front, subs, x, tag, had):
        """Weighted shares of total amounts; members which can't take more drop out."""
        tags = [tag + (i,) for i in range(len(subs))]
        fixed, active = {}, list(range(len(subs)))
        hads = [had(s) for s, _ in subs]

        def demands(lam):
            return [(subs[i][0], fixed[i] if i in fixed else max(0.0, lam * subs[i][1] - hads[i]), tags[i])
                    for i in range(len(subs))]
        while active:
            lo, hi = 0.0, (x + sum(hads) + 1) / min(subs[i][1] for i in active)

            def ok(lam):
                d = demands(lam)
                return sum(v for _, v, _ in d) <= x + 1e-9 and self.feasible(front + d)
            for _ in range(45):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if ok(mid) else (lo, mid)
            d = demands(lo)
            if sum(v for _, v, _ in d) > x - 1e-6:
                return d
            stuck = []
            for i in active:
                rest = [q for k, q in enumerate(d) if k != i]
                if self.most(front + rest, subs[i][0], tags[i], d[i][1] + 1) < d[i][1] + 1e-5:
                    stuck.append(i)
            if not stuck:
                return d
            for i in stuck:
                fixed[i] = d[i][1]
                active.remove(i)
        return demands(0.0)


def maxflow(case, caps, group_caps, limit):
    net = Net(case, caps, group_caps)
    return net.most([], case['tree'], (), limit)


def prepare(case):
    custom = case.get('custom')
    accts = {n: 'leaf ' + n for n in case['accts']} if custom else build(case)
    side = 'outflow' if case['dir'] < 0 else 'inflow'
    pri = node(case['tree'], accts, side, neg=case.get('neg', False))
    if custom:
        return accts, TransactionTraversal(pri, transaction_methods=methods(case), group_methods=lookup_groups(case, accts))
    if case.get('root_node'):
        pri = TransactionNode(pri)
    return accts, TransactionTraversal(pri)


def methods(case):
    """Limits of leaves which aren't accounts."""
    sign = case['dir']

    def limit(which):
        def of(leaf):
            spec = case['accts'][leaf[5:]]
            v = spec.get(which)
            v = (10 ** 6 if v is None else v) if which == 'max' else v or 0
            if which == 'max' and spec.get('group'):
                v = case['groups'][spec['group']]

            def flows_(timing, transaction_limit=None):
                x = v if transaction_limit is None else min(v, abs(transaction_limit))
                return {t: sign * x / len(timing) for t in timing}
            return flows_
        return of
    return LimitTuple(limit('min'), limit('max'), limit('min'), limit('max'))


def lookup_groups(case, accts):
    def max_group(leaf):
        g = case['accts'][leaf[5:]].get('group')
        return {accts[n] for n, a in case['accts'].items() if a.get('group') == g} if g else None
    return LimitTuple(lambda leaf: None, max_group, lambda leaf: None, max_group)


def kwargs(case):
    return {k: case[k] for k in ('total', 'assign_min') if case.get(k) is not None}


def flows(accts, res):
    byname = {id(a) if not isinstance(a, str) else a: n for n, a in accts.items()}
    for k in res:
        check('stranger', (k if isinstance(k, str) else id(k)) in byname, 'money allocated to something else')
    return {n: {round(float(t), 9): float(v) for t, v in res.get(a, {}).items()} for n, a in accts.items()}


def totals(case, res):
    sign, got = case['dir'], {}
    for n, fl in res.items():
        for t, v in fl.items():
            check('sign', v * sign >= -1e-6, '%s gets %s at %s' % (n, v, t))
        got[n] = sign * sum(fl.values())
    return got


def limits(case, accts):
    caps, mins = {}, {}
    for n, s in case['accts'].items():
        caps[n] = INF if s.get('max') is None else s['max']
        if s.get('group'):
            caps[n] = case['groups'][s['group']]
        if case['dir'] < 0 and not case.get('custom'):
            bal = s.get('bal', 10 ** 6)
            if case.get('rate'):          # (what grows can be withdrawn too: per account, decided by C11)
                bal = -sum(accts[n].max_outflows(dict(map(tuple, case['available']))).values())
            caps[n] = min(caps[n], bal)
        mins[n] = min(s.get('min', 0), caps[n])
    return caps, mins


def judge(case, accts, res):
    got = totals(case, res)
    sign = case['dir']
    amount = abs(case['total'] if case.get('total') is not None else sum(v for _, v in case['available']))
    groups = case.get('groups', {})
    caps, mins = limits(case, accts)
    with_min = case.get('assign_min') is not False
    # ---- feasible
    for n, s in case['accts'].items():
        check('over_max', got[n] <= caps[n] + TOL, '%s gets %s, at most %s possible' % (n, got[n], caps[n]))
    for g, c in groups.items():
        s = sum(got[n] for n, a in case['accts'].items() if a.get('group') == g)
        check('over_group', s <= c + TOL, 'linked accounts get %s of %s' % (s, c))
    for t in nodes(case['tree']):
        if isinstance(t, list) and t and t[0] == 'limit':
            l = set(leaves(t))
            if not l & set(leaves(case['tree'], t)):
                s = sum(got[a] for a in l)
                check('over_limit', s <= max(t[2]['max'], sum(mins[a] for a in l)) + TOL, 'node gets %s of %s' % (s, t[2]['max']))
    s = sum(got.values())
    forced = sum(mins.values()) if sign < 0 and with_min else 0
    check('over_total', s <= max(amount, forced) + TOL, 'allocated %s of %s' % (s, amount))
    # ---- maximal
    if not any(mins.values()):
        want = maxflow(case, caps, groups, amount)
        check('not_all', s >= want - TOL, 'allocated %s although %s could be' % (s, want))
    if amount < 1e-4:                             # nothing to allocate
        check('nothing', not s, 'allocated %s of nothing' % s)
        return got
    # ---- exact shares
    l = leaves(case['tree'])
    if len(set(l)) == len(l) and not groups:
        ref = Ref(case['tree'], caps, mins)
        if with_min:
            ref.give(case['tree'], INF if sign < 0 else amount, 'min')
        given = sum(ref.taken.values())
        ref.give(case['tree'], max(0.0, amount - given), 'max')
        want = ref.taken
    elif case.get('exact', True):
        first = Net(case, mins, {}, 'min').solve(forced if sign < 0 else amount) if with_min and any(mins.values()) else {}
        left = {n: c - first.get(n, 0) for n, c in caps.items()}
        gleft = {g: c - sum(first.get(n, 0) for n, a in case['accts'].items() if a.get('group') == g) for g, c in groups.items()}
        want = Net(case, left, gleft).solve(max(0.0, amount - sum(first.values())),
                                            lambda t: sum(first.get(a, 0) for a in leaves(t)))
        want = {n: want.get(n, 0) + first.get(n, 0) for n in case['accts']}
    else:
        return got
    blobs = [set(leaves(x)) for x in competing(case)]
    for b in blobs:
        expect('share', sum(got[n] for n in b), sum(want.get(n, 0.0) for n in b), 'amount to %s' % sorted(b), abs_=TOL)
    for n in case['accts']:
        if any(n in b for b in blobs):
            continue
        expect('share', got[n], want.get(n, 0.0), 'amount to %s of %s' % (n, {k: round(v, 3) for k, v in want.items()}), abs_=TOL)
    return got


def competing(case):
    """Sibling nodes (each with choices inside) of a weighted node which compete for one shared limit: their own totals are
    determined, but which of them gives way inside isn't."""
    linked = {n for n, a in case['accts'].items() if a.get('group')}
    for t in nodes(case['tree']):
        if isinstance(t, dict):
            subs = [s for s, _ in t['w'] if not isinstance(s, str) and linked & set(leaves(s))]
            if len(subs) > 1:
                return subs
    return []


def run(case):
    accts, tr = prepare(case)
    available = {t: v for t, v in case['available']}
    res = flows(accts, tr(available, **kwargs(case)))
    expect_eq('mutated', available, {t: v for t, v in case['available']}, 'the argument')
    got = judge(case, accts, res)
    ops = 1
    for nxt in case.get('then', ()):              # the same traversal used again: no memory of earlier calls
        c2 = dict(case, **nxt)
        ops += 1
        if 'tree' in nxt:
            tr.priority = node(nxt['tree'], accts, 'outflow' if case['dir'] < 0 else 'inflow')
        got = judge(c2, accts, flows(accts, tr({t: v for t, v in c2['available']}, **kwargs(c2))))
    return dict(ops=ops, outcome=sorted((n, round(v, 2)) for n, v in got.items()))


def nodes(t):
    yield t
    if isinstance(t, dict):
        for x, _ in t['w']:
            yield from nodes(x)
    elif isinstance(t, list):
        for x in (t[1:2] if t and t[0] == 'limit' else t):
            yield from nodes(x)


# ------------------------------------------------------------------ enumeration

W = lambda *p: {'w': [list(x) for x in p]}
L = lambda sub, x: ['limit', sub, {'max': x}]
FLAT = ['a', ['a', 'b', 'c'], ['c', 'a', 'b'], W(('a', 1), ('b', 1), ('c', 1)), W(('a', 5), ('b', 3), ('c', 2)),
        W(('c', 2), ('a', 5), ('b', 3)), W(('a', 1), ('b', 100), ('c', 9))]
NESTED = [
    [W(('a', 1), ('b', 1)), 'c'],
    ['c', W(('a', 1), ('b', 3))],
    W((['a', 'b'], 1), ('c', 2)),
    W((W(('a', 1), ('b', 3)), 1), ('c', 1)),
    [['a', 'b'], 'c'],
    W((['a', 'c'], 3), ('b', 1)),
]
DEEP = [
    [W(('a', 1), ('b', 2)), W(('c', 3), ('d', 1))],
    W((W(('a', 1), ('b', 1)), 1), (W(('c', 2), ('d', 1)), 1)),
    W((['a', 'b'], 1), (['c', 'd'], 3)),
    W(([W(('a', 1), ('b', 1)), 'c'], 2), ('d', 1)),
    [W((['a', 'b'], 1), ('c', 1)), 'd'],
    W((W((W(('a', 1), ('b', 1)), 1), ('c', 1)), 1), ('d', 3)),
    W(('a', 4), ('b', 3), ('c', 2), ('d', 1)),
    ['d', ['c', 'b'], 'a'],
    ['d', [W(('a', 2), ('b', 1)), 'c']],
]


def amounts(caps, mins=None, names='abcd'):
    mins = mins or (0,) * len(caps)
    return {n: dict(max=c, min=m) for n, c, m in zip(names, caps, mins)}


def bad(caps, mins):
    return any(c is not None and c < m for c, m in zip(caps, mins))


def flat_cases(tier):
    for dirn in (1, -1):
        for tree in FLAT + NESTED:
            for cs in itertools.product((None, 50, 20, 0), repeat=3):
                for ms in itertools.product((0, 10), repeat=3):
                    if bad(cs, ms):
                        continue
                    for total in (5, 25, 60, 1000) if tier == 'thorough' else (25, 90):
                        yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * total]], accts=amounts(cs, ms))


def deep_cases(tier):
    for tree in DEEP:
        for cs in itertools.product((None, 30, 7) if tier == 'quick' else (None, 30, 7, 0), repeat=4):
            for ms in ((0, 0, 0, 0), (0, 6, 0, 0), (0, 0, 6, 0), (5, 0, 0, 6)) + (
                    ((6, 0, 0, 0), (0, 0, 0, 6), (5, 6, 0, 0), (0, 5, 6, 0), (6, 6, 6, 0), (6, 6, 6, 6)) if tier == 'thorough' else ()):
                if bad(cs, ms):
                    continue
                for dirn, total in ((1, 40), (-1, 40)) + (((1, 13), (1, 70), (-1, 70)) if tier == 'thorough' else ()):
                    yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * total]], accts=amounts(cs, ms))


LINKTREES = FLAT[1:] + NESTED
LINKDEEP = DEEP


def linked_cases(tier):
    """Two or three accounts sharing one limit."""
    for trees, names in ((LINKTREES, 'abc'), (LINKDEEP, 'abcd')):
        for tree in trees:
            for grp in itertools.combinations(names, 2) if tier == 'quick' else (
                    list(itertools.combinations(names, 2)) + list(itertools.combinations(names, 3))):
                for shared in (0, 12, 50):
                    for other in (None, 15):
                        for ms in ((0,) * len(names), (6,) + (0,) * (len(names) - 1)) + (
                                (((0,) * (len(names) - 1) + (4,)),) if tier == 'thorough' else ()):
                            if shared < 6 and any(ms):
                                continue
                            for dirn, total in ((1, 40), (-1, 40)) + (((1, 10), (1, 90)) if tier == 'thorough' else ()):
                                accts = {n: dict(max=None if n in grp else other, min=m, group='g' if n in grp else None)
                                         for n, m in zip(names, ms)}
                                yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * total]], accts=accts, groups={'g': shared})


def limit_cases(tier):
    """Nodes with limits of their own."""
    trees = []
    for x in (0, 10, 30, 1000):
        trees += [L(['a', 'b', 'c'], x), L(W(('a', 1), ('b', 1), ('c', 2)), x), [L('a', x), 'b', 'c'],
                  [L(W(('a', 1), ('b', 3)), x), 'c'], W((L(['a', 'b'], x), 1), ('c', 1)), W((L('a', x), 1), ('b', 1), ('c', 1)),
                  [L([L('a', 8), 'b'], x), 'c'], W((L(W(('a', 1), ('b', 1)), x), 3), (L('c', 12), 1)),
                  L(W((L('a', 5), 1), (['b', 'c'], 1)), x)]
    for tree in trees:
        for cs in itertools.product((None, 20), repeat=3):
            for ms in ((0, 0, 0), (4, 0, 0), (0, 0, 3)):
                for dirn in (1, -1):
                    for total in (25, 90) if tier == 'quick' else (5, 25, 60, 1000):
                        yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * total]], accts=amounts(cs, ms))
                        if dirn < 0 and total == 25:    # (limits on outflows may be given as negative amounts)
                            yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * total]], accts=amounts(cs, ms), neg=True)


def repeat_cases(tier):
    """The same account in several places."""
    trees = [['a', 'b', 'a'], [W(('a', 1), ('b', 1)), 'b'], [W(('a', 1), ('b', 1)), W(('b', 1), ('c', 1))],
             W((['a', 'b'], 1), (['b', 'c'], 1)), [L('a', 10), 'b', 'a'], [L(W(('a', 1), ('b', 1)), 10), 'c', 'b', 'a'],
             W((['a', 'c'], 2), (['b', 'c'], 1)), [['a', 'b'], ['c', 'a']]]
    for tree in trees:
        for cs in itertools.product((None, 20, 5), repeat=3):
            for dirn in (1, -1):
                for total in (12, 40) if tier == 'quick' else (12, 25, 40, 90):
                    yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * total]], accts=amounts(cs))


def timing_cases(tier):
    """Money coming and going at several times; explicit totals; no minimums; the same traversal used repeatedly."""
    plans = ([[0, 30]], [[1, 30]], [[0, 10], [0.5, 10], [1, 10]], [[0.25, 50], [0.75, -20]], [[0, -20], [0.5, 60]],
             [[0.25, 10], [0.5, 10], [0.75, -5], [1, 25]])
    for dirn in (1, -1):
        for plan in plans:
            plan = [[t, dirn * v] for t, v in plan]
            for total in (None, 10, 60, 0, 0.5):
                for amin in (None, False, True):
                    for tree in (['a', 'b', 'c'], W(('a', 5), ('b', 3), ('c', 2)), W((['a', 'b'], 1), ('c', 2))):
                        for cs, ms in (((None,) * 3, (0, 0, 0)), ((20, 10, None), (0, 5, 0)), ((5, 10, 0), (0, 0, 0)), ((None, 20, None), (5, 0, 6))):
                            c = dict(dir=dirn, tree=tree, available=plan, accts=amounts(cs, ms), root_node=amin is None)
                            if total is not None:
                                c['total'] = dirn * total
                            if amin is not None:
                                c['assign_min'] = amin
                            c['then'] = [dict(total=dirn * 7), dict(total=dirn * 45, assign_min=True), dict(available=[[0.5, dirn * 20]])]
                            yield c
                            if amin is None and total in (None, 60):
                                for other in (['c', 'a'], W(('b', 1), ('c', 3)), 'b'):
                                    yield dict(c, then=[dict(tree=other), dict(tree=tree, total=dirn * 45)])


def empty_cases(tier):
    """Nodes without any children."""
    E = {'w': []}
    for dirn in (1, -1):
        for tree in ([], E, [[]], [E], ['a', []], [[], 'a'], ['a', E, 'b'], W(([], 1), ('a', 2)), W((E, 1), ('a', 2), ('b', 1)),
                     [W(([], 1)), 'b'], W((L([], 10), 1), ('a', 1))):
            for cs in itertools.product((None, 20), repeat=2):
                for ms in ((0, 0), (5, 0)):
                    yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * 40]], accts=amounts(cs, ms))


WIDE = [
    ['a', 'b', 'c', 'd', 'e', 'f'],
    W(('a', 1), ('b', 2), ('c', 3), ('d', 4), ('e', 5), ('f', 6)),
    W((W(('a', 1), ('b', 1), ('c', 1)), 2), (W(('d', 1), ('e', 3)), 1), ('f', 1)),
    ['a', W(('b', 1), (['c', 'd'], 2)), ['e', 'f']],
    [[['a', 'b'], 'c'], [['d', 'e'], 'f']],
    W((['a', 'b', 'c'], 1), (['d', 'e', 'f'], 1)),
]


def wide_cases(tier):
    for tree in WIDE:
        for cs in itertools.product((None, 9), repeat=6):
            for ms in ((0,) * 6, (0, 0, 5, 0, 0, 0), (0, 3, 0, 0, 8, 0)):
                for dirn, total in ((1, 50),) if tier == 'quick' else ((1, 50), (1, 20), (1, 200), (-1, 20), (-1, 50)):
                    yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * total]], accts=amounts(cs, ms, 'abcdef'))


def balance_cases(tier):
    """Withdrawals limited by what accounts hold (and earn until the time of the withdrawal)."""
    for plan in ([[0.5, -40]], [[0, -10], [1, -30]]) + (([[0, -40]], [[0.25, -20], [0.5, 5], [1, -25]]) if tier == 'thorough' else ()):
        for rate in (0, 0.1):
            for tree in FLAT[1:] + NESTED:
                for bals in itertools.product((0, 10, 1000), repeat=3):
                    for mx in (None, 18):
                        for ms in ((0, 0, 0), (0, 6, 0)):
                            accts = {n: dict(max=mx, min=m, bal=b) for n, b, m in zip('abc', bals, ms)}
                            if any(a['min'] > a['bal'] for a in accts.values()):
                                continue
                            yield dict(dir=-1, tree=tree, available=plan, accts=accts, rate=rate)


def custom_cases(tier):
    """Leaves which aren't accounts, with methods to look up their limits and groups."""
    for dirn in (1, -1):
        for tree in FLAT[1:] + NESTED:
            for cs in itertools.product((None, 20, 7), repeat=3):
                for ms in ((0, 0, 0), (0, 6, 0), (5, 0, 6)):
                    yield dict(dir=dirn, tree=tree, available=[[0, dirn * 10], [1, dirn * 25]], accts=amounts(cs, ms), custom=True)
            for grp in ('ab', 'bc', 'ac'):
                accts = {n: dict(max=None, min=0, group='g' if n in grp else None) for n in 'abc'}
                yield dict(dir=dirn, tree=tree, available=[[0.5, dirn * 40]], accts=accts, groups={'g': 12}, custom=True)


def pooled_cases(tier):
    """Linked withdrawals from accounts which hold different amounts."""
    for tree in FLAT[1:] + NESTED:
        for bals in itertools.product((10, 30, 1000), repeat=3):
            for grp in ('ab', 'bc', 'abc'):
                for shared in (25, 60):
                    accts = {n: dict(max=None, bal=b, group='g' if n in grp else None) for n, b in zip('abc', bals)}
                    if max(accts[n]['bal'] for n in grp) < shared:
                        continue                    # (family `pooled_short`)
                    # weighted shares aren't always exact here (known finding); how much is withdrawn is
                    uneven = len({min(shared, accts[n]['bal']) for n in grp}) > 1
                    yield dict(dir=-1, tree=tree, available=[[0.5, -70]], accts=accts, groups={'g': shared},
                               exact=not (uneven and weighted(tree)))


def weighted(tree):
    return any(isinstance(t, dict) for t in nodes(tree))


def pooled_short_cases(tier):
    """As above, where no single account could withdraw all of the shared limit."""
    for tree in FLAT[1:3] + FLAT[3:4] + NESTED[:1]:
        for grp, shared in (('ab', 25), ('bc', 60)):
            accts = {n: dict(max=None, bal=b, group='g' if n in grp else None) for n, b in zip('abc', (15, 20, 30))}
            yield dict(dir=-1, tree=tree, available=[[0.5, -70]], accts=accts, groups={'g': shared})


    for bal in (30, 1000):       # a weighted share of a limit shared with a member that can't withdraw its part
        yield dict(dir=-1, tree=FLAT[5], available=[[0.5, -70]], groups={'g': 25},
                   accts={'a': dict(max=None, bal=1000), 'b': dict(max=None, bal=10, group='g'), 'c': dict(max=None, bal=bal, group='g')})


FAMILIES = [
    Enum('pooled_short', pooled_short_cases, run, 'linked withdrawals where no account alone could reach the shared limit'),
    Enum('wide', wide_cases, run, 'six accounts'),
    Enum('custom', custom_cases, run, 'leaves with their own limit and group methods'),
    Enum('balances', balance_cases, run, 'withdrawals limited by balances'),
    Enum('pooled', pooled_cases, run, 'linked withdrawals limited by balances'),

    Enum('three', flat_cases, run, 'trees of three accounts'),
    Enum('deep', deep_cases, run, 'nested trees of four accounts'),
    Enum('linked', linked_cases, run, 'accounts sharing a limit'),
    Enum('limits', limit_cases, run, 'nodes with limits of their own'),
    Enum('repeats', repeat_cases, run, 'accounts in several places'),
    Enum('empty', empty_cases, run, 'nodes without children'),
    Enum('timing', timing_cases, run, 'several times, explicit totals, repeated use'),
]
