"""C18: saving and debt strategies rank accounts exactly as configured."""
import itertools
from ..engine import Enum, Fail
from ..lib import *
from . import c17
from forecaster import Person
from forecaster.accounts import Account, LinkedLimitAccount, Debt
from forecaster.strategy import TransactionStrategy, DebtPaymentStrategy

Y = 2000


class Bank(Account):
    pass


class OtherBank(Bank):
    pass


class Fund(LinkedLimitAccount):
    pass


class Mortgage(Debt):
    pass


CLASSES = dict(Bank=Bank, OtherBank=OtherBank, Fund=Fund, Account=Account, Debt=Debt, Mortgage=Mortgage)
# name: (type, balance, maximum or None, link, rate, minimum payment, accelerated payment)
POOL = {
    'b1': dict(type='Bank', bal=100),
    'b2': dict(type='Bank', bal=30),
    'o': dict(type='OtherBank', bal=50),
    'a': dict(type='Account', bal=15),
    'f1': dict(type='Fund', bal=40, max=8),
    'f2': dict(type='Fund', bal=0, max=20),
    'l1': dict(type='Fund', bal=60, link='x', max=14),
    'l2': dict(type='Fund', bal=10, link='x', max=14),
    'd1': dict(type='Debt', bal=-40, rate=0.02, min=3),
    'd2': dict(type='Debt', bal=-10, rate=0.2, min=2),
    'd3': dict(type='Debt', bal=-25, rate=0.05, min=0, accel=9),
    'd4': dict(type='Debt', bal=-4, rate=0.1, min=6),
    'd5': dict(type='Debt', bal=-12, rate=0.05, min=1),
    'd6': dict(type='Debt', bal=-26, rate=0.0, min=1),
    'd0': dict(type='Debt', bal=0, rate=0.5, min=2),
    'm': dict(type='Mortgage', bal=-60, rate=0.03, min=5, accel=6),
    'm2': dict(type='Mortgage', bal=-8, rate=0.08, min=1),
    'm3': dict(type='Mortgage', bal=-50, rate=0.04, min=0),
}
MRO = {'Bank': ['Bank', 'Account'], 'OtherBank': ['OtherBank', 'Bank', 'Account'], 'Account': ['Account'],
       'Fund': ['Fund', 'LinkedLimitAccount', 'Account'], 'Debt': ['Debt', 'Account'], 'Mortgage': ['Mortgage', 'Debt', 'Account']}


def build(names, later=False):
    p = Person(Y, 'P', 1970, retirement_date=2050)
    out = {}
    for n in names:
        s = POOL[n]
        kw = {}
        if 'max' in s:
            link = (p, s.get('link', n))
            kw.update(max_inflow_link=link, max_inflow_limit=s['max'])
        if s['bal'] < 0 or 'accel' in s or n == 'd0':
            kw.update(minimum_payment=s['min'])
            if 'accel' in s:
                kw.update(accelerated_payment=s['accel'])
        rate = s.get('rate', 0)
        if later:                                     # (as usual, but only from its second year)
            rate = {Y: 0, Y + 1: rate}
        out[n] = CLASSES[s['type']](p, balance=s['bal'], rate=rate, nper=1, **kw)
    if later:
        for x in [p] + list(out.values()):
            x.next_year()
    return out


def spec(names, available, direction):
    """What each account can take, as a case of C17."""
    accts, groups = {}, {}
    when = {t for t, _ in available}
    assert len(when) == 1
    for n in names:
        s = POOL[n]
        if s['type'] in ('Debt', 'Mortgage'):
            due = -s['bal'] * (1 if when == {0} else 1 + s['rate'])
            accts[n] = dict(max=min(due, s['min'] + s.get('accel', INF)), min=min(s['min'], due), bal=0)
        else:
            accts[n] = dict(max=s.get('max'), min=0, bal=s['bal'])
            if s.get('link') and direction > 0:
                accts[n]['group'] = s['link']
                groups[s['link']] = s['max']
        if direction < 0:
            accts[n].update(max=None, min=0)
    return accts, groups


def debt_orders(names, strategy):
    """All orders allowed: by rate (highest first) or by balance (smallest first); ties either way."""
    key = (lambda n: -POOL[n]['rate']) if strategy == 'Avalanche' else (lambda n: abs(POOL[n]['bal']))
    return [list(p) for p in itertools.permutations(sorted(names)) if all(key(x) <= key(y) for x, y in zip(p, p[1:]))]


def groups_of(names, weights):
    by = {}
    for n in names:
        for t in MRO[POOL[n]['type']]:
            if t in weights:
                by.setdefault(t, []).append(n)
                break
    return by


def trees(case):
    """The priority trees which the configuration allows (several if debts are tied)."""
    debts = [n for n in case['names'] if POOL[n]['bal'] < 0]
    dead = [n for n in case['names'] if n == 'd0']
    th = case.get('threshold')
    high = [n for n in debts if th is not None and POOL[n]['rate'] >= th]
    rest = [n for n in case['names'] if n not in high and n not in dead]
    by = groups_of(rest, case['weights'])
    options = []
    for t, members in by.items():
        if all(n in debts for n in members):
            options.append([(t, o) for o in debt_orders(members, case.get('debt', 'Avalanche'))])
        else:
            options.append([(t, {'w': [[n, 1] for n in members]})])
    for combo in itertools.product(*options):
        if case['strategy'] == 'Ordered':
            base = [sub for _, sub in sorted(combo, key=lambda x: case['weights'][x[0]])]
        else:
            base = {'w': [[sub, case['weights'][t]] for t, sub in combo]}
        if high:
            for o in debt_orders(high, case.get('debt', 'Avalanche')):
                yield [o, base]
        else:
            yield base


def settle(case, accts, res, trees_):
    direction = 1 if sum(v for _, v in case['available']) > 0 else -1
    last = None
    for tree in trees_:
        used = sorted(set(c17.leaves(tree)))
        got = {n: fl for n, fl in c17.flows(accts, res).items()}
        for n in case['names']:
            if n not in used:
                check('unranked', abs(sum(got[n].values())) < 1e-6, '%s gets %s' % (n, got[n]))
        specs, groups = spec(used, case['available'], direction)
        sub = dict(dir=direction, tree=tree, accts=specs, groups=groups, available=case['available'])
        try:
            if not used:
                return {}
            return c17.judge(sub, None, {n: got[n] for n in used})
        except Fail as e:
            last = e
    raise last


def run(case):
    out = None
    orders = [case['names']] if len(case['names']) > 4 else list(itertools.permutations(case['names']))[::case.get('skip', 1)]
    for names in orders:
        accts = build(case['names'], case.get('later'))
        listed = [accts[n] for n in names]
        if case.get('kind') == 'debts':
            s = DebtPaymentStrategy(case['strategy'])
            res = s(listed, dict(map(tuple, case['available'])))
            t = debt_orders(case['names'], case['strategy'])
        else:
            strategy = case['strategy']
            if case.get('method'):
                strategy = getattr(TransactionStrategy, 'strategy_' + strategy.lower())
            s = TransactionStrategy(strategy, dict(case['weights']), debt_strategy=case.get('debt'),
                                    high_interest_threshold=case.get('threshold'))
            res = s(dict(map(tuple, case['available'])), set(listed) if case.get('as_set') else listed)
            t = trees(case)
        got = settle(case, accts, res, t)
        got = sorted((n, round(v, 2)) for n, v in got.items())
        if out is None:
            out = got
        elif not case.get('ties'):
            check('order', all(abs(x[1] - y[1]) < 0.02 for x, y in zip(out, got)), 'listing order matters: %s or %s' % (out, got))
    return dict(ops=len(orders), outcome=out)


def subsets(pool, lo, hi):
    for k in range(lo, hi + 1):
        yield from itertools.combinations(pool, k)


WEIGHTS = [
    dict(Bank=1, Fund=2, Debt=3, Mortgage=4), dict(Fund=1, Debt=2, Account=3), dict(Debt=1, Bank=5, OtherBank=3),
    dict(Mortgage=7, Debt=2, Account=9, LinkedLimitAccount=4), dict(Bank=2), {}, dict(Account=1),
]


def saving_cases(tier):
    thorough = tier == 'thorough'
    pool = ['b1', 'b2', 'o', 'f1', 'f2', 'a', 'd1', 'd2', 'd0', 'm', 'm2']
    amounts = ([[0, 12]], [[1, 45]]) + (([[0, 3]], [[1, 100]], [[0.0, 400]]) if thorough else ())
    for names in subsets(pool, 1, 3):
        for strategy in ('Ordered', 'Weighted'):
            for weights in WEIGHTS:
                for av in amounts:
                    for th in (None, 0.05):
                        if th and not any(POOL[n]['bal'] < 0 for n in names):
                            continue
                        yield dict(names=names, strategy=strategy, weights=weights, available=av, threshold=th, skip=1 if thorough else 3)
                        if thorough or len(names) < 3:
                            yield dict(names=names, strategy=strategy, weights=weights, available=av, threshold=th, skip=3, later=True)
            if strategy == 'Ordered':
                for weights in (dict(Bank=-1, Fund=2, Debt=-3, Account=0), dict(Account=0.5, Debt=0.25, Bank=0.75, Fund=-0.1)):
                    for th in (None, 0.05):
                        yield dict(names=names, strategy=strategy, weights=weights, available=amounts[1], threshold=th, skip=3)


def household_cases(tier):
    """Larger households: several debts of each kind, thresholds at, below and above their rates, both debt strategies."""
    thorough = tier == 'thorough'
    debts = ['d1', 'd2', 'd3', 'd4', 'd0', 'm', 'm2', 'm3']
    for names in subsets(debts, 3, 4 if thorough else 3):
        for base in (('b1', 'f1'), ('b2', 'o', 'f2')) if thorough else (('b1', 'f1'),):
            for strategy in ('Ordered', 'Weighted'):
                for weights in WEIGHTS[:4]:
                    for debt in ('Avalanche', 'Snowball'):
                        for th in (None, 0.05, 0.2, 0.01):
                            for x in ((30,) if tier == 'quick' else (10, 30, 90)):
                                yield dict(names=base + names, strategy=strategy, weights=weights, available=[[1, x]], threshold=th,
                                           debt=debt, method=th is None, as_set=x == 10)


def many_debts_cases(tier):
    for names in subsets(['d1', 'd2', 'd3', 'd4', 'd6', 'm', 'm2', 'm3'], 5, 6):
        for strategy, debt in itertools.product(('Ordered', 'Weighted'), ('Avalanche', 'Snowball')):
            for th in (None, 0.01, 0.045):
                for x in (25, 120):
                    yield dict(names=('b1', 'f1') + names, strategy=strategy, weights=WEIGHTS[0], available=[[1, x]], threshold=th, debt=debt)
    for names in subsets(['d1', 'd2', 'd3', 'd4', 'd5', 'd6', 'm', 'm2'], 5, 7):
        for strategy in ('Avalanche', 'Snowball'):
            for x in (20, 110):
                yield dict(kind='debts', names=names, strategy=strategy, available=[[1, x]], ties='d3' in names and 'd5' in names)


def linked_cases(tier):
    for names in subsets(['l1', 'l2', 'f1', 'b1', 'o', 'd2'], 2, 4):
        if 'l1' not in names:
            continue
        for strategy in ('Ordered', 'Weighted'):
            for weights in (dict(Fund=1, Bank=2, Debt=3), dict(Bank=1, Fund=3, Debt=2), dict(Account=1)):
                for x in (9, 40) if tier == 'quick' else (5, 9, 25, 40, 100):
                    yield dict(names=names, strategy=strategy, weights=weights, available=[[0, x]], skip=5)


def withdrawal_cases(tier):
    for names in subsets(['b1', 'b2', 'o', 'f1', 'f2', 'a', 'd1', 'd2'], 1, 4 if tier == 'thorough' else 3):
        if all(POOL[n]['bal'] < 0 for n in names):
            continue
        for strategy in ('Ordered', 'Weighted'):
            for weights in WEIGHTS[:4] + [dict(Bank=2)]:
                for x in (25, 110) if tier == 'quick' else (5, 25, 60, 110, 500):
                    for th in (None, 0.05):
                        yield dict(names=names, strategy=strategy, weights=weights, available=[[0.5, -x]], threshold=th, skip=5)


def debt_cases(tier):
    pool = ['d1', 'd2', 'd3', 'd4', 'd5', 'd6', 'd0', 'm', 'm2']
    for names in subsets(pool, 0, 4):
        for strategy in ('Avalanche', 'Snowball'):
            for when in (0, 1):
                for x in (2, 8, 30, 75, 300) if tier == 'thorough' else (8, 30, 75):
                    yield dict(kind='debts', names=names, strategy=strategy, available=[[when, x]], ties='d3' in names and 'd5' in names,
                               skip=1 if tier == 'thorough' else 5)
                    if len(names) == 2:
                        yield dict(kind='debts', names=names, strategy=strategy, available=[[when, x]], later=True,
                                   ties='d3' in names and 'd5' in names)


FAMILIES = [
    Enum('debts', debt_cases, run, 'debt payment strategies, in all listing orders'),
    Enum('saving', saving_cases, run, 'accounts and debts of several types, strategies and weights, in all listing orders'),
    Enum('households', household_cases, run, 'several debts, debt strategies and thresholds'),
    Enum('many_debts', many_debts_cases, run, 'five and more debts'),
    Enum('linked', linked_cases, run, 'types with shared limits'),
    Enum('withdrawals', withdrawal_cases, run, 'withdrawals by the same strategies'),
]
