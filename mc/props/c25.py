"""C25: invalid input is rejected, whatever the state, and a rejected call changes nothing.

Histories run on two copies of the same objects; only one of them also receives the invalid calls.  After every
event the two must be indistinguishable.  Valid boundary values must be accepted and take effect."""
import decimal
import itertools
import json
import os
import tempfile
from ..engine import Enum, Hist, Fail
from ..lib import *
from forecaster import (Person, Account, Debt, Scenario, Tax, Timing, AllocationStrategy, LivingExpensesStrategy, TransactionStrategy,
                        DebtPaymentStrategy)
from forecaster.accounts import LinkedLimitAccount
from forecaster.accounts.link import AccountLink
from forecaster.canada import RRSP, TFSA, TaxableAccount
from forecaster.utility import extend_inflation_adjusted, when_conv, frequency_conv
from forecaster.value_reader import ValueReader

Y = 2000
WHEN = (-0.1, 1.1, -1e-9, 1.000001, 2, -1, INF)
FREQ = (('Z', ValueError), ('', ValueError), ('a', ValueError), (0, ValueError), (-1, ValueError), (-12, ValueError), (1.5, TypeError),
        (0.5, TypeError))


def rejected(types, fn, what):
    try:
        got = fn()
    except types as e:
        return
    except Exception as e:
        raise Fail('wrong_error', '%s raised %s: %s; documented: %s' % (what, type(e).__name__, e, types))
    raise Fail('accepted', '%s was accepted (%r)' % (what, got))


def seen(o):
    """What an object reports."""
    out = []
    if isinstance(o, (Person, Account)):
        for p in sorted(o._recorded_properties, key=lambda p: p.__name__):
            h = getattr(o, p.history_prop_name)
            out.append((p.__name__, sorted((y, str(sorted(v.items())) if isinstance(v, dict) else str(v)) for y, v in h.items())))
        out.append(o.this_year)
    if isinstance(o, Person):
        out += [o.name, str(o.birth_date), str(o.retirement_date), o.retirement_age, o.spouse.name if o.spouse else None, len(o.accounts),
                repr(o.tax_treatment)[:20], str(sorted(o.payment_timing.items()))]
    if isinstance(o, Account):
        out += [o.owner.name if o.owner else None, o.nper, str(sorted(o.default_timing.items())), o.owner is None or o in o.owner.accounts,
                str(o.balance_at_time('end')), str(sorted(o.max_outflows().items())), str(sorted(o.max_inflows().items()))]
    if isinstance(o, LinkedLimitAccount):
        for n in ('max_inflow', 'min_inflow', 'max_outflow', 'min_outflow'):
            link = getattr(o, n + '_link')
            out.append((n, str(getattr(o, n + '_limit')), None if link is None else len(link.group)))
    if isinstance(o, RRSP):
        out += [o.rrif_conversion_year]
    return out


class Twin:
    """Two copies; events marked '!' are invalid and reach the first one only."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.a, self.b = self.make(), self.make()
        self.log = []

    def apply(self, ev):
        if ev[0] == '!':
            types, fn = self.invalid(self.a)[ev[1]]
            rejected(types, fn, ev[1])
        else:
            self.log.append(ev)
            for side in (self.a, self.b):
                self.valid(side, ev)
        for x, y in zip(self.a, self.b):
            s, t = seen(x), seen(y)
            if s != t:
                diff = [(u, v) for u, v in zip(s, t) if u != v]
                raise Fail('changed', 'a rejected call (or its aftermath) changed %s: %r, otherwise %r' % (type(x).__name__, diff[0][0],
                                                                                                       diff[0][1]))

    def events(self):
        return [['!', k] for k in self.invalid(self.b)] + self.valids()

    def canon(self):
        return repr([seen(x) for x in self.b])


def tax():
    return Tax({Y: {0: 0.1, 500: 0.3}}, inflation_adjust={y: 1.0 for y in range(Y - 5, Y + 60)})


class People(Twin):
    def make(self):
        p = Person(Y, 'P', '5 May 1970', retirement_date='31 December 2040', gross_income=1000, raise_rate=0.1, tax_treatment=tax())
        q = Person(Y, 'Q', '29 February 1972', retirement_date='28 February 2030', gross_income=700, spouse=p if self.cfg['wed'] else None)
        r = Person(Y, 'R', '1 January 1990', retirement_date='1 January 1990')
        return p, q, r

    def valids(self):
        evs = [['spouse', i, j] for i, j in ((0, 1), (0, 2), (1, 2), (1, None))]
        evs += [['retire', 0, '5 May 1970'], ['retire', 1, '1 March 2002'], ['age', 0, 31], ['age', 1, 0], ['tax', 0, None], ['year', 0], ['year', 1]]
        return evs

    def valid(self, side, ev):
        k, i = ev[0], ev[1]
        if k == 'spouse':
            side[i].spouse = None if ev[2] is None else side[ev[2]]
        elif k == 'retire':
            side[i].retirement_date = ev[2]
            check('boundary', side[i].retirement_date >= side[i].birth_date, 'retirement date set')
        elif k == 'age':
            side[i].retirement_age = ev[2]
            expect_eq('boundary', side[i].retirement_age, ev[2], 'retirement age set')
        elif k == 'tax':
            side[i].tax_treatment = ev[2]
        else:
            side[i].next_year()

    def invalid(self, side):
        out = {}
        for i, p in enumerate(side):
            for name, attr, val, types in (
                    ('spouse text', 'spouse', 'Q', TypeError), ('spouse number', 'spouse', 3, TypeError), ('spouse falsy', 'spouse', 0, TypeError),
                    ('tax number', 'tax_treatment', 0.3, TypeError), ('tax mapping', 'tax_treatment', {Y: 1}, TypeError),
                    ('early retirement', 'retirement_date', '28 February 1970', ValueError),
                    ('no retirement', 'retirement_date', None, NotImplementedError), ('no retirement age', 'retirement_age', None, NotImplementedError),
                    ('retirement text', 'retirement_date', 'some day', ValueError), ('retirement age', 'retirement_age', -1, ValueError),
                    ('fractional retirement age', 'retirement_age', 60.5, ValueError), ('birth text', 'birth_date', 'never', ValueError)):
                if i == 1 and not name.startswith(('early', 'spouse', 'no ')):
                    continue
                if i == 2 and name != 'spouse text':
                    continue
                out['%s of %s' % (name, p.name)] = (types, lambda p=p, attr=attr, val=val: setattr(p, attr, val))
        return out


class Accounts(Twin):
    def make(self):
        p = Person(Y, 'P', '5 May 1940', retirement_date='31 December 2040', gross_income=1000)
        q = Person(Y, 'Q', '5 May 1975', retirement_date='31 December 2040', gross_income=50000)
        kw = dict(balance=100, rate=0.1, nper=4, default_timing=Timing({0.25: 1, 0.75: 3}))
        k = self.cfg['kind']
        if k == 'plain':
            a = Account(p, **kw)
        elif k == 'debt':
            a = Debt(p, minimum_payment=10, accelerated_payment=20, **kw)
        elif k == 'taxable':
            a = TaxableAccount(p, acb=60, **kw)
        elif k == 'rrsp':
            a = RRSP(p, contribution_room=300, contributor=q, **kw)
        elif k == 'tfsa':
            a = TFSA(p, contribution_room=300, **kw)
        else:
            a = LinkedLimitAccount(p, max_inflow_link=(p, 'in'), max_inflow_limit=250, **kw)
        return a, p, q

    def valids(self):
        evs = [['add', 10, 0.5], ['add', 20, 'start'], ['add', -30, 1], ['year'], ['own', 2], ['own', 1], ['nper', 'M'], ['nper', 1], ['timing', 0.5],
               ['timing', 'start'], ['notiming']]
        if self.cfg['kind'] == 'rrsp':
            evs += [['rrif', d] for d in (0, -3)]
        if self.cfg['kind'] == 'linked':
            evs += [['limit', 5]]
        return evs

    def valid(self, side, ev):
        a, k = side[0], ev[0]
        if k == 'add':
            a.add_transaction(ev[1], when=ev[2])
        elif k == 'year':
            a.next_year()
        elif k == 'own':
            a.owner = side[ev[1]]
        elif k == 'nper':
            a.nper = ev[1]
            expect_eq('boundary', a.nper, frequency_conv(ev[1]), 'compounding set')
        elif k == 'timing':
            a.default_timing = ev[1]
        elif k == 'notiming':
            del a.default_timing
            expect_eq('boundary', dict(a.default_timing), dict(Timing()), 'default timing deleted')
        elif k == 'limit':
            a.max_inflow_limit = ev[1]
        elif k == 'rrif':
            last = a.initial_year + 71 - a.owner.age(a.initial_year)
            a.rrif_conversion_year = last + ev[1]
            expect_eq('boundary', a.rrif_conversion_year, last + ev[1], 'conversion year set')

    def invalid(self, side):
        a, p, q = side
        out = {}
        for w in WHEN[:self.cfg.get('whens', 3)]:
            out['transaction at %s' % w] = (ValueError, lambda w=w: a.add_transaction(7, when=w))
            out['balance at %s' % w] = (ValueError, lambda w=w: a.balance_at_time(w))
            out['default timing %s' % w] = (ValueError, lambda w=w: setattr(a, 'default_timing', w))
        out['transaction midway'] = ((ValueError, TypeError), lambda: a.add_transaction(7, when='middle'))
        out['owner text'] = (TypeError, lambda: setattr(a, 'owner', 'P'))
        out['owner number'] = (TypeError, lambda: setattr(a, 'owner', 0))
        if isinstance(a, RRSP):
            for d in (1, 30):
                out['conversion %d years late' % d] = (ValueError, lambda d=d: setattr(
                    a, 'rrif_conversion_year', a.initial_year + 71 - a.owner.age(a.initial_year) + d))
                out['convert %d years late' % d] = (ValueError, lambda d=d: a.convert_to_rrif(
                    a.initial_year + 71 - a.owner.age(a.initial_year) + d))
            out['conversion text'] = (ValueError, lambda: setattr(a, 'rrif_conversion_year', 'soon'))
        if isinstance(a, LinkedLimitAccount):
            for n in ('min_inflow', 'max_outflow', 'min_outflow'):
                if getattr(a, n + '_link') is None:
                    out['unlinked ' + n] = (AttributeError, lambda n=n: setattr(a, n + '_limit', 5))
        # rejected constructions leave the intended owner as they were
        kind = type(a)
        for name, kw, types in (('nper zero', dict(nper=0), ValueError), ('nper text', dict(nper='Z'), ValueError),
                                ('nper fraction', dict(nper=2.5), TypeError), ('timing', dict(default_timing=1.5), ValueError)):
            out['new account, ' + name] = (types, lambda kw=kw: kind(p, balance=5, **kw))
        out['new account, owner'] = (TypeError, lambda: kind('P', balance=5))
        if isinstance(a, (RRSP, TFSA)):
            out['new account, two rooms'] = (ValueError, lambda: kind(p, contribution_room=7, max_inflow_limit=8))
            out['new account, two links'] = (ValueError, lambda: kind(p, contributor=q, max_inflow_link=(q, 'x')))
        return out


# ---------------------------------------------------------------- single calls: rejected, or accepted at the boundary

def sc(**kw):
    kw = dict(dict(initial_year=Y, num_years=3, inflation=0.02), **kw)
    return Scenario(**kw)


def alloc(**kw):
    return AllocationStrategy(AllocationStrategy.strategy_n_minus_age, 120, **kw)


CALLS = {}


def call(name, types, fn):
    CALLS[name] = (types, fn)


for _n in (0, -1, -50, 0.5):
    call('scenario of %d years' % _n, ValueError, lambda n=_n: sc(num_years=n))
for _n in (1, 2, 100):
    call('scenario of %d years' % _n, None, lambda n=_n: expect_eq('boundary', sc(num_years=n).num_years, n, 'years'))
for _w in WHEN:
    call('when %s' % _w, ValueError, lambda w=_w: when_conv(w))
    call('timing %s' % _w, ValueError, lambda w=_w: Timing(w))
    call('timing %s, monthly' % _w, ValueError, lambda w=_w: Timing(w, 'M'))
for _w in (0, 1, 0.5, 'start', 'end', 1e-12):
    call('when %s' % _w, None, lambda w=_w: expect('boundary', when_conv(w), dict(start=0, end=1).get(w, w), 'when'))
    call('exact when %s' % _w, None, lambda w=_w: expect_eq('boundary', type(when_conv(w, high_precision=decimal.Decimal)), decimal.Decimal, 'type'))
for _f, _t in FREQ:
    call('frequency %r' % (_f,), _t, lambda f=_f: frequency_conv(f))
    call('timing of frequency %r' % (_f,), _t, lambda f=_f: Timing(0.5, f))
for _f, _v in (('C', None), ('D', 365), ('W', 52), ('BW', 26), ('SM', 24), ('M', 12), ('BM', 6), ('Q', 4), ('SA', 2), ('A', 1), (None, None), (1, 1),
               (7, 7), (12.0, 12)):
    call('frequency %r' % (_f,), None, lambda f=_f, v=_v: expect_eq('boundary', frequency_conv(f), v, 'frequency'))
for _lo, _hi in ((0.5, 0.4), (0.01, 0), (1, 0.999)):
    call('equity between %s and %s' % (_lo, _hi), ValueError, lambda lo=_lo, hi=_hi: alloc(min_equity=lo, max_equity=hi))
for _lo in (0, 0.5, 1):
    call('equity exactly %s' % _lo, None, lambda lo=_lo: expect('boundary', alloc(min_equity=lo, max_equity=lo)(age=50, retirement_age=65)[0], lo, 'stocks'))
for _c, _kw in ((AllocationStrategy, dict(target=100)), (LivingExpensesStrategy, {}), (TransactionStrategy, dict(weights={})), (DebtPaymentStrategy, {})):
    if hasattr(_c, 'strategies'):
        for _v, _t in (('No such', ValueError), ('', ValueError), (3, TypeError), (None, TypeError)):
            call('%s %r' % (_c.__name__, _v), _t, lambda c=_c, v=_v, kw=_kw: c(v, **kw))
        for _v in sorted(_c.strategies):
            call('%s %r' % (_c.__name__, _v), None, lambda c=_c, v=_v, kw=_kw: expect_eq('boundary', c(v, **kw).strategy, v, 'strategy'))
            call('%s by method %r' % (_c.__name__, _v), None,
                 lambda c=_c, v=_v, kw=_kw: expect_eq('boundary', c(c.strategies[v], **kw).strategy, v, 'strategy'))
call('inflation of nothing', ValueError, lambda: extend_inflation_adjusted({}, lambda a, b: 1, Y))
call('link from a number', TypeError, lambda: AccountLink(5))
call('link from nothing', TypeError, lambda: AccountLink(None))


def unregistered():
    p = Person(Y, 'P', '5 May 1940', retirement_date='31 December 2040')
    link = AccountLink((p, 'token'))
    link.unregister()
    return p, link


def _assign():
    p, link = unregistered()
    try:
        link.data = 5
    finally:
        check('changed', not p.data, 'owner data after a rejected assignment')


def _join():
    p, link = unregistered()
    try:
        link.link_account(Account(p))
    finally:
        check('changed', not p.data, 'owner data after a rejected link')


def _read(content):
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'x.json')
        with open(path, 'w') as f:
            json.dump(content, f)
        return ValueReader(path)


call('data of an unregistered link', AttributeError, _assign)
call('joining an unregistered link', KeyError, _join)
for _c in ([1, 2], 5, 'text', None, True):
    call('file with %r' % (_c,), TypeError, lambda c=_c: _read(c))
call('file with a mapping', None, lambda: expect_eq('boundary', _read({'a': 1}).values, {'a': 1}, 'values'))
for _n in ('Account', 'RRSP', 'TFSA', 'Debt'):
    _k = dict(Account=Account, RRSP=RRSP, TFSA=TFSA, Debt=Debt)[_n]
    call('%s of nobody' % _n, TypeError, lambda k=_k: k(None))
for _d, _t in (('some day', ValueError), ('31 February 1970', ValueError)):
    call('born %s' % _d, _t, lambda d=_d: Person(Y, 'P', d, retirement_date='31 December 2040'))
call('retired before birth', ValueError, lambda: Person(Y, 'P', '2 January 1970', retirement_date='1 January 1970'))
call('retired at birth', None, lambda: expect_eq('boundary', Person(Y, 'P', '2 January 1970', retirement_date='2 January 1970').retirement_age, 0, 'age'))
call('spouse by name', TypeError, lambda: Person(Y, 'P', '2 January 1970', retirement_date='2 January 2030', spouse='Q'))
call('tax by number', TypeError, lambda: Person(Y, 'P', '2 January 1970', retirement_date='2 January 2030', tax_treatment=0.3))


def calls(tier):
    for name in sorted(CALLS):
        yield dict(call=name)
    if tier != 'quick':
        for a, b in itertools.product(sorted(CALLS), repeat=2):
            yield dict(call=a, after=b)


def run_call(c):
    for name in ([c['after']] if 'after' in c else []) + [c['call']]:
        types, fn = CALLS[name]
        if types is None:
            fn()
        else:
            rejected(types, fn, name)
    return dict(ops=1, outcome=c['call'])


def configs_a(tier):
    return [dict(kind=k, whens=3 if tier == 'quick' else len(WHEN)) for k in ('plain', 'debt', 'taxable', 'rrsp', 'tfsa', 'linked')]


FAMILIES = [
    Enum('calls', calls, run_call, about='single calls with invalid and boundary arguments; thorough: every ordered pair of them'),
    Hist('people', lambda t: [dict(wed=False), dict(wed=True)], People, lambda t, c: 3 if t == 'quick' else 5,
         about='histories of valid and invalid assignments to three people, against twins which never receive the invalid ones'),
    Hist('accounts', configs_a, Accounts, lambda t, c: 3 if t == 'quick' else 4,
         about='histories of valid and invalid operations on an account of each kind, against twins which never receive the invalid ones'),
]
