"""C16: forecasters - repeatable, isolated, explicit over settings over defaults, exactly the scenario's years."""
import collections
import itertools
import json
import os
import shutil
import tempfile
from decimal import Decimal
from ..engine import Enum, Hist, Fail
from ..lib import *
from forecaster import Person, Scenario, Settings, Tax
from forecaster.accounts import Account, Debt
from forecaster.canada import ForecasterCanada, RRSP, SettingsCanada, TFSA, TaxableAccount, TaxCanada
from forecaster.forecast import (
    Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast)
from forecaster.forecaster import Forecaster, Parameter
from forecaster.strategy import AllocationStrategy, LivingExpensesStrategy, TransactionStrategy
from forecaster.utility import Timing

Y = 2017
NAMES = ('scenario', 'living_expenses_strategy', 'saving_strategy', 'withdrawal_strategy', 'allocation_strategy', 'tax_treatment')
RUN = NAMES[:4] + NAMES[5:]

# ------------------------------------------------------------------ the model: settings to constructor arguments

# argument of each parameter: the setting which provides its default value
ARGS = {
    'scenario': {k: k for k in ('initial_year', 'inflation', 'stock_return', 'bond_return', 'other_return', 'management_fees', 'num_years')},
    'living_expenses_strategy': dict(strategy='living_expenses_strategy', base_amount='living_expenses_base_amount',
                                     rate='living_expenses_rate'),
    'saving_strategy': dict(strategy='saving_strategy', weights='saving_weights', debt_strategy='debt_payment_strategy'),
    'withdrawal_strategy': dict(strategy='withdrawal_strategy', weights='withdrawal_weights'),
    'allocation_strategy': dict(
        strategy='allocation_strategy', target='allocation_target', min_equity='allocation_min_equity',
        max_equity='allocation_max_equity', standard_retirement_age='allocation_std_retirement_age',
        risk_transition_period='allocation_risk_trans_period', adjust_for_retirement_plan='allocation_adjust_retirement'),
    'tax_treatment': dict(tax_brackets='tax_brackets', personal_deduction='tax_personal_deduction', credit_rate='tax_credit_rate',
                          payment_timing='tax_payment_timing'),
    'canada': dict(province='tax_province'),
}
KINDS = dict(scenario=Scenario, living_expenses_strategy=LivingExpensesStrategy, saving_strategy=TransactionStrategy,
             withdrawal_strategy=TransactionStrategy, allocation_strategy=AllocationStrategy, tax_treatment=Tax)

# An alternative value for each setting. (Two, where runs are compared.)
ALT = dict(
    initial_year=2019, inflation=0.05, stock_return=0.11, bond_return=0.015, other_return=0.045, management_fees=0.0125, num_years=4,
    living_expenses_strategy='Percentage of gross income', living_expenses_base_amount=4321, living_expenses_rate=0.55,
    living_expenses_inflation_adjust=False, saving_strategy='Weighted', saving_weights={'Account': 3, 'RRSP': 1, 'Debt': 2},
    withdrawal_strategy='Weighted', withdrawal_weights={'TFSA': 1, 'Account': 4}, allocation_strategy='Transition to constant',
    allocation_target=0.6, allocation_min_equity=0.125, allocation_max_equity=0.9, allocation_std_retirement_age=60,
    allocation_risk_trans_period=12, allocation_adjust_retirement=False, debt_payment_strategy='Snowball',
    tax_brackets={2017: {0: 0.1, 30000: 0.4}}, tax_personal_deduction={2017: 1500}, tax_credit_rate={2017: 0.15},
    tax_payment_timing='end', tax_province='Federal', display_year=2001, currency='USD')
# An explicit argument, different from both.
EXPLICIT = {
    'scenario': dict(initial_year=2018, inflation=0.03, stock_return=0.1, bond_return=0.02, other_return=0.01, management_fees=0.001, num_years=3),
    'living_expenses_strategy': dict(strategy='Percentage of net income', base_amount=777, rate=0.35),
    'saving_strategy': dict(strategy='Weighted', weights={'TaxableAccount': 5}, debt_strategy='Snowball', high_interest_threshold=0.3),
    'withdrawal_strategy': dict(strategy='Weighted', weights={'TaxableAccount': 7}),
    'allocation_strategy': dict(strategy='Transition to constant', target=0.55, min_equity=0.0625, max_equity=0.75,
                                standard_retirement_age=63, risk_transition_period=9, adjust_for_retirement_plan=False),
    'tax_treatment': dict(tax_brackets={2017: {0: 0.3}}, personal_deduction={2017: 99}, credit_rate={2017: 0.25}, payment_timing=0.75,
                          refund_timing=0.25),
    'canada': dict(province='Federal', payment_timing=0.75),
}


def plain_value(x):
    return {k: plain_value(v) for k, v in x.items()} if isinstance(x, dict) else x


def arguments(name, canada, values, kwargs):
    """Constructor arguments of a parameter, except for inflation."""
    out = {a: values[s] for a, s in ARGS['canada' if canada and name == 'tax_treatment' else name].items()}
    out.update(kwargs)
    return out


def inflate(rate):
    return lambda target, base=Y: (1 + rate) ** (target - base)


def observe(name, canada, p):
    """What a parameter object reports, by constructor argument."""
    if name == 'scenario':
        out = {k: getattr(p, k)[p.initial_year + 1] for k in ('inflation', 'stock_return', 'bond_return', 'other_return', 'management_fees')}
        out.update(initial_year=p.initial_year, num_years=p.num_years)
        check('years', list(p) == list(range(p.initial_year, p.initial_year + p.num_years)), 'years of the scenario: %s' % list(p))
        return out
    if name == 'tax_treatment':
        out = dict(inflation=p.inflation_adjust(2021, 2018) if not canada else p.federal_tax.inflation_adjust(2021, 2018),
                   payment_timing=dict(p.payment_timing), refund_timing=dict(p.refund_timing))
        if canada:
            out.update(province=p.province, tax=p(55555, 2017))
        else:
            out.update(tax_brackets={2017: p.tax_brackets(2017)}, personal_deduction={2017: p.personal_deduction(2017)},
                       credit_rate={2017: p.credit_rate(2017)})
        return out
    keys = dict(living_expenses_strategy=('strategy', 'base_amount', 'rate'),
                saving_strategy=('strategy', 'weights', 'debt_strategy', 'high_interest_threshold'),
                withdrawal_strategy=('strategy', 'weights', 'high_interest_threshold'),
                allocation_strategy=tuple(ARGS['allocation_strategy']))[name]
    out = {k: getattr(p, k) for k in keys}
    if name == 'living_expenses_strategy':
        out['inflation'] = p.inflation_adjust(2021, 2018)
    return out


def wanted(name, canada, values, kwargs, rate):
    """What a parameter built of these settings and explicit arguments shall report. (Straight from the statement.)"""
    a = arguments(name, canada, values, kwargs)
    if name == 'living_expenses_strategy':
        a['inflation'] = (1 + rate) ** 3 if values['living_expenses_inflation_adjust'] else 1
    if name in ('saving_strategy', 'withdrawal_strategy'):
        a.setdefault('high_interest_threshold', None)
    if name == 'tax_treatment':
        t = dict(start=0, end=1)
        a['inflation'] = (1 + rate) ** 3
        a['payment_timing'] = {t.get(a.get('payment_timing', 0.3), a.get('payment_timing', 0.3)): 1}
        a['refund_timing'] = {a.get('refund_timing', 0.3 if canada else 0): 1}
        if canada:
            a['tax'] = TaxCanada(inflate(rate), province=a['province'])(55555, 2017)
    return a


def defaults(canada):
    s = (SettingsCanada if canada else Settings)()
    names = {n for k, d in ARGS.items() for n in d.values() if canada or k != 'canada'} | {
        'living_expenses_inflation_adjust', 'display_year', 'currency'}
    return {n: getattr(s, n) for n in names}


DOCUMENTED = dict(       # from the shipped settings file
    initial_year=2017, inflation=0.02, stock_return=0.07, bond_return=0.04, other_return=0.03, management_fees=0.005, num_years=100,
    living_expenses_strategy='Constant living expenses', living_expenses_base_amount=60000, living_expenses_rate=0.2)


def match(ctx, got, want):
    for k, w in want.items():
        g = got[k]
        if isinstance(w, (int, float)) and not isinstance(w, bool):
            ok = close(g, w, 1e-9, 1e-9)
        elif isinstance(w, dict):
            ok = isinstance(g, dict) and plain_value(g) == plain_value(w)
        else:
            ok = g == w
        if not ok:
            raise Fail('precedence', '%s of the %s: %r, expected %r' % (k, ctx, g, w))


def make_settings(canada, changed, source):
    kind = SettingsCanada if canada else Settings
    if source == 'attribute':
        s = kind()
        for k, v in changed.items():
            setattr(s, k, plain_value(v))
        return s, lambda: None
    folder = tempfile.mkdtemp(prefix='c16')
    path = os.path.join(folder, 's.json')
    keep = ('initial_year', 'tax_brackets', 'tax_personal_deduction', 'tax_credit_rate')      # (defaults depend on today's date)
    vals = {k: v for k, v in defaults(canada).items() if source == 'file' or k in keep}         # 'sparse': others aren't listed
    vals.update(changed)
    with open(path, 'w') as f:
        json.dump(vals, f)
    s = kind(path)
    shutil.rmtree(folder)
    return s, lambda: None


def run_precedence(c):
    canada, changed = c['canada'], {k: ALT[k] for k in c['changed']}
    s, _ = make_settings(canada, changed, c['source'])
    f = (ForecasterCanada if canada else Forecaster)(settings=s)
    base = defaults(canada)
    if c['source'] == 'sparse':         # defaults of the class
        base = {k: getattr(s, k) for k in base if k not in changed}
    values = dict(base, **{k: v for k, v in changed.items() if k in defaults(canada)})
    explicit = {}
    for name, arg in c['explicit']:
        key = 'canada' if canada and name == 'tax_treatment' else name
        explicit.setdefault(name, {})[arg] = EXPLICIT[key][arg]
    rate = values['inflation']
    kept = {}
    for name, kw in explicit.items():
        if c['how'] != 'build':
            if c['how'] == 'set':
                f.set_param(name if c['enum'] else Parameter(name), **kw)
            else:
                setattr(f, name, f.build_param(name, **kw))
            kept[name] = getattr(f, name)
            if name == 'scenario' and 'inflation' in kw:
                rate = kw['inflation']
    for name in NAMES:
        kw = explicit.get(name, {})
        if name in kept:
            p = f.get_param(name)
            check('explicit', p is kept[name], 'the explicitly given %s is used as it is' % name)
        elif kw:
            p = f.build_param(name if c['enum'] else Parameter(name), **kw)
        else:
            p = f.get_param(name)
        r = rate
        if name in kept and 'scenario' in kept and list(kept).index(name) < list(kept).index('scenario'):
            r = values['inflation']         # built before the scenario was given
        check('type', type(p) is (TaxCanada if canada and name == 'tax_treatment' else KINDS[name]), '%s is a %s' % (name, type(p).__name__))
        match(name, observe(name, canada, p), wanted(name, canada, values, kw, r))
        if not kw:
            check('fresh', getattr(f, name) is None, 'building %s sets no attribute' % name)
    return dict(ops=len(NAMES), outcome=[sorted(c['changed']), c['explicit']])


def precedence_cases(tier):
    for canada in (False, True):
        names = sorted(n for n in defaults(canada))
        if canada:
            names = [n for n in names if not n.startswith('tax_') or n == 'tax_province']
        exps = [(name, a) for name in NAMES for a in EXPLICIT['canada' if canada and name == 'tax_treatment' else name]]
        for source in ('attribute', 'file', 'sparse'):
            for k in range(3 if tier == 'quick' else 4):
                if k == 3 and source != 'attribute':
                    continue
                for changed in itertools.combinations(names, k):
                    yield dict(canada=canada, changed=changed, source=source, explicit=[], how='build', enum=True)
        for how in ('build', 'set', 'assign'):
            for n in range(1, 3):
                for ex in itertools.permutations(exps, n) if how != 'build' else itertools.combinations(exps, n):
                    sel = [()] + [(x,) for x in names] if n == 1 else [()] if tier == 'quick' else [(), ('inflation',), tuple(names[:9]), tuple(names[9:])]
                    for changed in sel:
                        yield dict(canada=canada, changed=changed, source='attribute', explicit=ex, how=how, enum=len(changed) % 2 == 0)


def run_positional(c):
    """Arguments given by position take precedence, too."""
    f = Forecaster(settings=make_settings(False, {k: ALT[k] for k in c['changed']}, 'attribute')[0])
    values = dict(defaults(False), **{k: ALT[k] for k in c['changed']})
    name = c['name']
    kw = {a: EXPLICIT[name][a] for a in c['args']}
    if c['how'] == 'allocation':
        p = f.build_allocation_strategy(*kw.values(), **{a: EXPLICIT[name][a] for a in c['more']})
    else:
        p = f.build_param(name, *kw.values(), **{a: EXPLICIT[name][a] for a in c['more']})
    kw.update({a: EXPLICIT[name][a] for a in c['more']})
    match(name, observe(name, False, p), wanted(name, False, values, kw, values['inflation']))


def positional_cases(tier):
    order = dict(allocation_strategy=('strategy', 'target', 'min_equity', 'max_equity', 'standard_retirement_age',
                                      'risk_transition_period', 'adjust_for_retirement_plan'),
                 living_expenses_strategy=('strategy', 'base_amount', 'rate'), saving_strategy=('strategy', 'weights', 'debt_strategy'),
                 scenario=('initial_year', 'num_years'), tax_treatment=('tax_brackets',))
    import inspect
    for name, args in order.items():
        have = [p for p in inspect.signature(KINDS[name].__init__).parameters if p != 'self']
        order_now = []
        for a in have:
            if a not in EXPLICIT[name]:
                break
            order_now.append(a)
        for n in range(len(order_now) + 1):
            rest = [a for a in EXPLICIT[name] if a not in order_now[:n]]
            for more in [()] + [(a,) for a in rest]:
                for changed in ((), tuple(ARGS[name].values())):
                    for how in ('build', 'allocation') if name == 'allocation_strategy' else ('build',):
                        yield dict(name=name, args=order_now[:n], more=more, changed=changed, how=how)


# ------------------------------------------------------------------ arguments that no setting provides

def kinds_like(name, canada):
    base = TaxCanada if canada and name == 'tax_treatment' else KINDS[name]
    return type('My' + base.__name__, (base,), {})


def run_extras(c):
    """High precision, inflation adjustment, type and memo given explicitly; parameters given at init and taken back."""
    canada, name = c['canada'], c['name']
    vals = {k: ALT[k] for k in c['changed'] if canada or k != 'tax_province'}
    s, _ = make_settings(canada, vals, 'attribute')
    values = dict(defaults(canada), **vals)
    own = (lambda x: Decimal(repr(x)) if isinstance(x, float) else Decimal(x)) if c['own_hp'] else None
    f = (ForecasterCanada if canada else Forecaster)(settings=s, **(dict(high_precision=own) if own else {}))
    kw, extra = {}, {}
    n = 1
    if c['inflation'] is not None:
        kw['inflation_adjust'] = inflate(0.11)
    if c['kind']:
        extra['param_type'] = kinds_like(name, canada)
    if c['hp']:
        kw['high_precision'] = None if own else Decimal
    memo = {}
    if c['memo']:
        extra['memo'] = memo
        if c['memo'] == 'given':
            memo['scenario'] = Scenario(initial_year=2018, num_years=3, inflation=0.04)
    if c['how'] == 'set':
        f.set_param(name, **kw, **extra)
        p = getattr(f, name)
        check('explicit', f.get_param(name) is p, 'the explicitly set %s is used as it is' % name)
    elif c['how'] == 'allocation':
        extra.pop('param_type', None)
        p = f.build_allocation_strategy(**kw, **extra)
    else:
        p = f.build_param(Parameter(name), **kw, **extra)
    check('type', type(p) is extra.get('param_type', TaxCanada if canada and name == 'tax_treatment' else KINDS[name]), type(p).__name__)
    if name != 'scenario':
        want = kw.get('high_precision', own)
        check('precision', p.high_precision is want, 'high_precision of the %s: %r, expected %r' % (name, p.high_precision, want))
    rate = 0.04 if c['memo'] == 'given' else values['inflation']
    got = observe(name, canada, p)
    want = wanted(name, canada, values, {}, rate)
    if 'inflation' in want and name != 'scenario' and 'inflation_adjust' in kw:
        want['inflation'] = 1.11 ** 3
    if canada and name == 'tax_treatment':
        got.pop('tax'), want.pop('tax')         # (numbers of the other type)
    match(name, {k: plain_number(v) for k, v in got.items()}, want)
    if c['memo']:
        check('memo', memo.get(name) is p or c['how'] == 'skip', 'the %s built is remembered' % name)
        q = f.build_param(name, memo=memo)
        check('memo', q is p, 'the %s remembered is used again' % name)
        for other in NAMES:
            r = f.get_param(other, memo=memo) if getattr(f, other) is None else None
            adj = getattr(r, 'inflation_adjust', None)
            if r is not None and hasattr(adj, '__self__') and adj.__func__ is Scenario.inflation_adjust:
                check('memo', adj.__self__ is memo['scenario'], 'parameters built together use one scenario')
                n += 1
    return dict(ops=n + 1, outcome=[name, str(sorted(kw)), sorted(extra)])


def plain_number(v):
    if isinstance(v, dict):
        return {plain_number(k): plain_number(x) for k, x in v.items()}
    return float(v) if isinstance(v, Decimal) else v


def extras_cases(tier):
    for canada in (False, True):
        for name in NAMES:
            for changed in ((), ('living_expenses_inflation_adjust',), ('inflation',), ('inflation', 'living_expenses_inflation_adjust')):
                for inflation in (None, True) if name in ('living_expenses_strategy', 'tax_treatment') else (None,):
                    for kind in (False, True):
                        for hp in (False, True) if name != 'scenario' else (False,):
                            for own_hp in (False, True):
                                for memo in (None, 'empty', 'given'):
                                    if memo == 'given' and name == 'scenario':
                                        continue
                                    for how in ('build', 'set') + (('allocation',) if name == 'allocation_strategy' else ()):
                                        if canada and name == 'tax_treatment' and kind:
                                            continue            # (its own init makes taxes of its class)
                                        yield dict(canada=canada, name=name, changed=changed, inflation=inflation, kind=kind, hp=hp,
                                                   own_hp=own_hp, memo=memo, how=how)


def run_unset(c):
    """Parameters given at init are used; once taken back, settings are."""
    canada = c['canada']
    s, _ = make_settings(canada, {'inflation': 0.05}, 'attribute')
    values = dict(defaults(canada), inflation=0.05)
    kind = ForecasterCanada if canada else Forecaster
    maker = kind(settings=make_settings(canada, {}, 'attribute')[0])
    given = {}
    for name in c['given']:
        key = 'canada' if canada and name == 'tax_treatment' else name
        given[name] = maker.build_param(name, **EXPLICIT[key])
    f = kind(settings=s, **given)
    for step in ((), c['back']):
        for name in step:
            setattr(f, name, None)
            given.pop(name, None)
        for name in NAMES:
            p = f.get_param(name)
            if name in given:
                check('explicit', p is given[name], 'the %s given at init is used as it is' % name)
                continue
            rate = EXPLICIT['scenario']['inflation'] if 'scenario' in given else values['inflation']
            check('type', type(p) is (TaxCanada if canada and name == 'tax_treatment' else KINDS[name]), type(p).__name__)
            match(name, observe(name, canada, p), wanted(name, canada, values, {}, rate))
    return dict(ops=2 * len(NAMES), outcome=[c['given'], c['back']])


def unset_cases(tier):
    for canada in (False, True):
        for k in range(len(RUN) + 1):
            for given in itertools.combinations(RUN, k):
                for j in range(len(given) + 1):
                    for back in itertools.combinations(given, j):
                        yield dict(canada=canada, given=given, back=back)


# ------------------------------------------------------------------ worlds: people, accounts, debts

def world(kind, y, m=lambda x: x, hp=None, tax=None):
    """People, accounts and debts starting in year y. Every object has a `tag`."""
    kw = dict(high_precision=hp) if hp else {}
    num = lambda x: m(x)
    people, accounts, debts = [], [], []
    if tax is None:
        tax = Tax({2010: {num(0): num(0.1), num(20000): num(0.25)}}, inflation_adjust=lambda t, b=None: num(1), **kw)

    def person(tag, gross, ret, **k):
        p = Person(y, tag, '3 March 1960', retirement_date='1 June %d' % ret, gross_income=num(gross), raise_rate=num(0.02), tax_treatment=tax, **k, **kw)
        p.tag = tag
        people.append(p)
        return p

    def add(tag, a):
        a.tag = tag
        (debts if isinstance(a, Debt) else accounts).append(a)
        return a
    a = person('anna', 50000, y + 2, payment_timing=Timing({num(0.25): num(1), num(0.75): num(2)}, **kw))
    if kind in ('couple', 'linked'):
        b = person('bert', 30000, y + 1)
        a.spouse = b
    if kind in ('single', 'couple'):
        add('acct', Account(a, balance=num(1000), rate=num(0.05), **kw))
        add('loan', Debt(people[-1], balance=num(-3000), rate=num(0.1), minimum_payment=num(100), accelerated_payment=num(500), **kw))
        add('card', Debt(a, balance=num(-9000), rate=num(0.02), minimum_payment=num(50), accelerated_payment=num(700), **kw))
        add('other', Account(people[-1], balance=num(500), rate=num(0), nper=12, **kw))
    if kind in ('linked', 'canada'):
        f = lambda t, b=None: num(1)
        add('rrsp1', RRSP(a, balance=num(20000), rate=num(0.03), contribution_room=num(1500), inflation_adjust=f, **kw))
        add('rrsp2', RRSP(people[-1], balance=num(5000), rate=num(0.01), contributor=a, inflation_adjust=f, **kw))
        add('tfsa', TFSA(people[-1], balance=num(100), rate=num(0.02), contribution_room=num(700), inflation_adjust=f, **kw))
        add('taxable', TaxableAccount(a, balance=num(30000), acb=num(10000), rate=num(0.04), **kw))
        add('acct', Account(a, balance=num(10), rate=num(0.02), **kw))
    if kind == 'rates':
        sc = Scenario(inflation=num(0.02), stock_return=num(0.08), bond_return=num(0.03), other_return=num(0), management_fees=num(0),
                      initial_year=y, num_years=20)
        al = AllocationStrategy('n-age', target=num(100), min_equity=num(0), max_equity=num(1), **kw)
        add('acct', Account(a, balance=num(1000), rate=al.rate_function(a, sc), **kw))
        add('tfsa', TFSA(a, balance=num(100), rate=al.rate_function(a, sc), contribution_room=num(900), inflation_adjust=sc.inflation_adjust, **kw))
        add('loan', Debt(a, balance=num(-3000), rate=num(0.1), minimum_payment=num(100), accelerated_payment=num(200), **kw))
    return people, accounts, debts


WORLDS = ('single', 'couple', 'linked', 'canada', 'rates')


def report(f):
    """All recorded results of a forecast, by object and name."""
    out = {}
    objs = [('forecast', f)] + [('step %d' % i, s) for i, s in enumerate(
        (f.income_forecast, f.living_expenses_forecast, f.saving_forecast, f.withdrawal_forecast, f.tax_forecast))]
    objs += [(p.tag, p) for p in f.income_forecast.people]
    objs += [(a.tag, a) for a in set(f.saving_forecast.retirement_accounts) | set(f.saving_forecast.debt_accounts)]
    for tag, o in objs:
        for prop in type(o)._recorded_properties:
            name = prop.history_prop_name
            h = getattr(o, name)
            out['%s.%s' % (tag, name)] = {y: float(v) for y, v in h.items() if isinstance(v, (int, float, Decimal))}
        out[tag + '.years'] = {0: o.initial_year, 1: o.this_year}
    return out


def same_report(ctx, got, want):
    for k in sorted(set(got) | set(want)):
        check('results', k in got and k in want, '%s: %s only in one' % (ctx, k))
        g, w = got[k], want[k]
        check('years', set(g) == set(w), '%s: years of %s: %s, expected %s' % (ctx, k, sorted(g), sorted(w)))
        for y in w:
            if not close(g[y], w[y], 1e-7, 2e-3):
                raise Fail('results', '%s: %s in %s is %s, expected %s' % (ctx, k, y, g[y], w[y]))


def hand_built(params, people, accounts, debts, hp=None):
    """A forecast put together without a Forecaster."""
    kw = dict(high_precision=hp) if hp else {}
    sc = params['scenario']
    y = sc.initial_year
    return Forecast(
        IncomeForecast(y, set(people), **kw), LivingExpensesForecast(y, set(people), params['living_expenses_strategy'], **kw),
        SavingForecast(y, set(accounts), set(debts), params['saving_strategy'], **kw),
        WithdrawalForecast(y, set(people), set(accounts), params['withdrawal_strategy'], **kw),
        TaxForecast(y, set(people), params['tax_treatment'], **kw), sc, **kw)


def hand_params(canada, values, explicit, hp=None):
    """Parameter objects made directly. explicit: name -> (arguments, settings then, inflation rate then)."""
    kw = dict(high_precision=hp) if hp else {}
    args = {}
    for name in RUN:
        if name in explicit:
            given, vals, rate = explicit[name]
        else:
            given, vals, rate = {}, values, None
        a = arguments(name, canada, vals, given)
        if name == 'scenario':
            args[name] = Scenario(**a)
            now = args[name].inflation[2017]
            continue
        f = inflate(now if rate is None else rate)
        y0 = args['scenario'].initial_year if rate is None else (explicit[name][1].get('_year') or args['scenario'].initial_year)
        g = lambda t, b=None, f=f, y0=y0: f(t, y0 if b is None else b)
        if name == 'living_expenses_strategy':
            if vals['living_expenses_inflation_adjust']:
                a['inflation_adjust'] = g
            args[name] = LivingExpensesStrategy(**a, **kw)
        elif name == 'tax_treatment':
            args[name] = (TaxCanada if canada else Tax)(inflation_adjust=g, **a, **kw)
        else:
            args[name] = TransactionStrategy(**a, **kw)
    return args


# ------------------------------------------------------------------ the caller's objects

CACHES = ('_accum', '_tax_brackets', '_personal_deduction', '_credit_rate', '_listed_years')


def picture(roots, skip=()):
    """Shallow content of every object reachable from roots, by identity."""
    out, todo, keep = {}, list(roots), []
    while todo:
        o = todo.pop()
        if id(o) in out or id(o) in skip or isinstance(o, (int, float, str, bytes, Decimal, type(None), type, type(len), type(picture))):
            continue
        keep.append(o)
        parts = []
        if isinstance(o, dict):
            parts += [('key', k, v) for k, v in o.items()]
        elif isinstance(o, (list, tuple)):
            parts += [('at', i, v) for i, v in enumerate(o)]
        elif isinstance(o, (set, frozenset)):
            parts += [('in', id(v), v) for v in o]
        for k, v in getattr(o, '__dict__', {}).items():
            if not k.endswith('_cache'):
                parts.append(('attr', k, v))
        entry = {}
        for kind, k, v in parts:
            kk = k if isinstance(k, (int, float, str, Decimal, type(None))) else id(k)
            if isinstance(o, Tax) and k in CACHES:
                continue                            # what a tax treatment has worked out, which isn't an input
            entry[(kind, kk)] = v if isinstance(v, (int, float, str, Decimal, type(None))) else id(v)
            todo.append(v)
            if kind == 'key':
                todo.append(k)
        out[id(o)] = (type(o).__name__, isinstance(o, collections.defaultdict), entry, getattr(o, 'tag', ''))
    return out, keep


def unchanged(before, after):
    for i, (name, lazy, entry, tag) in before.items():
        check('input', i in after, 'a %s %s of the caller was detached' % (name, tag))
        now = after[i][2]
        for k in sorted(set(entry) | set(now), key=repr):
            if k not in entry and lazy:
                continue                            # a defaultdict was read
            if k not in now or k not in entry or not (entry[k] == now[k] or entry[k] != entry[k]):
                raise Fail('input', '%s of the caller\'s %s %s was %r, is %r' % (k[1], name, tag, entry.get(k, 'absent'), now.get(k, 'absent')))


def reachable_ledgers(f):
    todo, seen, out = [f], set(), []
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (int, float, str, Decimal, type(None), type, type(len), type(picture))):
            continue
        seen.add(id(o))
        if isinstance(o, (Person, Account)):
            out.append(o)
        if isinstance(o, dict):
            todo += list(o) + list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            todo += list(o)
        todo += list(getattr(o, '__dict__', {}).values())
    return out


def related(f, people, accounts, debts):
    """The copies relate to each other as the originals do."""
    ps = {p.tag: p for p in f.income_forecast.people}
    accts = {a.tag: a for a in set(f.saving_forecast.retirement_accounts) | set(f.saving_forecast.debt_accounts)}
    check('copy', set(ps) == {p.tag for p in people} and set(accts) == {a.tag for a in list(accounts) + list(debts)}, 'people and accounts')
    for p in people:
        q = ps[p.tag]
        check('copy', q is not p, 'people are copied')
        check('copy', (q.spouse is None) if p.spouse is None else (q.spouse is ps[p.spouse.tag]), 'spouses of the copies')
        check('copy', {a.tag for a in q.accounts} == {a.tag for a in p.accounts}, 'accounts of a person')
        check('copy', all(a is accts[a.tag] for a in q.accounts if a.tag in accts), 'accounts of a person are those of the forecast')
        check('copy', q.retirement_date == p.retirement_date and q.birth_date == p.birth_date and q.name == p.name, 'dates')
    for a in list(accounts) + list(debts):
        b = accts[a.tag]
        check('copy', b is not a and b.owner is ps[a.owner.tag], 'owners of the copies')
        if hasattr(a, 'contributor'):
            check('copy', b.contributor is ps[a.contributor.tag], 'contributors of the copies')
            check('copy', {x.tag for x in b.max_inflow_link.group} == {x.tag for x in a.max_inflow_link.group}, 'linked accounts')
            check('copy', all(x is accts[x.tag] for x in b.max_inflow_link.group), 'linked accounts are those of the forecast')
    mine = {id(x) for x in list(people) + list(accounts) + list(debts)}
    # (functions are never copied; what they refer to isn't looked at)
    check('copy', not any(id(x) in mine for x in reachable_ledgers(f)), 'a forecast refers to people or accounts of the caller')


def convert(x, m):
    """Numbers of nested dicts (of years) in another type."""
    if isinstance(x, dict):
        return {k if isinstance(k, int) and k > 1900 and k < 2100 else m(k): convert(v, m) for k, v in x.items()}
    return m(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


def run_isolation(c):
    y, canada = c['year'], c['canada']
    values = dict(defaults(canada), initial_year=y, num_years=c['years'], **{k: ALT[k] for k in c['changed']})
    values.update(c['values'])
    hp = Decimal if c['hp'] else None
    m = (lambda x: Decimal(repr(x))) if hp else (lambda x: x)
    s = (SettingsCanada if canada else Settings)(**(dict(high_precision=hp) if hp else {}))
    for k in ['initial_year', 'num_years'] + list(c['changed']) + list(c['values']):
        v = values[k]
        setattr(s, k, convert(v, m) if k.startswith('tax_') else v)
    kind = ForecasterCanada if canada else Forecaster
    explicit = {}
    tax = None
    if hp:
        for k in values:
            values[k] = getattr(s, k)
    if c['explicit']:
        given = hand_params(canada, values, {}, hp)
        explicit = {n: given[n] for n in c['explicit']}
        tax = explicit.get('tax_treatment')
    if 'scenario' in explicit:          # settings for other years, which don't matter as the scenario is given
        s.initial_year, s.num_years = y + 2, c['years'] + 1
    f = kind(settings=s, **explicit, **(dict(high_precision=hp) if hp else {}))
    people, accounts, debts = world(c['world'], y, m, hp, tax)
    roots = [people, accounts, debts, s] + list(explicit.values())
    before, keep = picture(roots)
    results = []
    for i in range(2):
        fc = f.run_forecast(set(people), set(accounts), set(debts))
        results.append(report(fc))
        related(fc, people, accounts, debts)
        after, keep2 = picture(roots)
        unchanged(before, after)
        check('years', [y for y in fc.income_history] == list(range(y, y + c['years'])), 'years of the forecast: %s' % list(fc.income_history))
        check('years', fc.scenario.initial_year == y, 'first year')
        for part in (fc, fc.income_forecast, fc.living_expenses_forecast, fc.saving_forecast, fc.withdrawal_forecast, fc.tax_forecast):
            check('precision', part.high_precision is hp, 'precision of the %s' % type(part).__name__)
            for name in ('tax_adjustment', 'tax_owing', 'principal', 'income', 'living_expenses', 'total_available'):
                v = getattr(part, name, None)
                check('precision', hp is None or not isinstance(v, float), '%s of the %s is a float' % (name, type(part).__name__))
    same_report('a second run', results[1], results[0])
    p2, a2, d2 = world(c['world'], y, m, hp, None if tax is None else hand_params(canada, values, {}, hp)['tax_treatment'])
    want = report(hand_built(hand_params(canada, values, {}, hp), p2, a2, d2, hp))
    same_report('beside a forecast built by hand', results[0], want)
    years = list(range(y, y + c['years']))
    for k, h in want.items():
        if k.startswith(('forecast.', 'step')) and k.endswith('_history'):
            check('years', not h or sorted(h) == years, 'years of %s' % k)
    return dict(ops=3, outcome=sorted((k, [(a, round(v, 2)) for a, v in sorted(h.items())]) for k, h in results[0].items() if k.startswith('forecast')))


LOW = dict(living_expenses_base_amount=20000)
HIGH = dict(living_expenses_base_amount=90000)
WEIGHTS = dict(saving_weights={'RRSP': 1, 'TFSA': 2, 'TaxableAccount': 3, 'Account': 5, 'Debt': 4},
               withdrawal_weights={'RRSP': 3, 'TFSA': 1, 'TaxableAccount': 2, 'Account': 4})


def isolation_cases(tier):
    q = tier == 'quick'
    subsets = [(), ('scenario',), ('tax_treatment',), ('saving_strategy', 'withdrawal_strategy'), ('living_expenses_strategy',), RUN]
    if not q:
        subsets = [s for k in range(len(RUN) + 1) for s in itertools.combinations(RUN, k)]
    for w in WORLDS:
        for canada in (False, True):
            for years in (1, 3) if q else (1, 2, 3, 5, 8):
                for vals in (LOW, HIGH):
                    for changed in ((), ('tax_brackets', 'tax_payment_timing')) if not canada else ((),):
                        for ex in subsets:
                            for hp in (False, True):
                                for year in (2017,) if q else (2017, 2020):
                                    yield dict(world=w, canada=canada, years=years, values=dict(WEIGHTS, **vals), changed=changed,
                                               explicit=ex, hp=hp, year=year)


# ------------------------------------------------------------------ histories of building and running

BASE = dict(initial_year=Y, num_years=3, living_expenses_base_amount=25000, inflation=0.02,
            tax_brackets={2017: {0: 0.1, 30000: 0.3}}, **WEIGHTS)
CHANGES = [('inflation', 0.07), ('num_years', 2), ('living_expenses_base_amount', 60000), ('living_expenses_inflation_adjust', False),
           ('saving_weights', {'Account': 2, 'TaxableAccount': 1, 'Debt': 3, 'RRSP': 4}), ('debt_payment_strategy', 'Snowball'),
           ('tax_brackets', {2017: {0: 0.5}}), ('tax_payment_timing', 'end'), ('living_expenses_strategy', 'Percentage of gross income')]
SETS = [('scenario', dict(num_years=4)), ('scenario', dict(inflation=0.1)), ('living_expenses_strategy', dict(base_amount=99)),
        ('saving_strategy', dict(weights={'Debt': 1, 'Account': 2, 'TFSA': 3})), ('withdrawal_strategy', dict(weights={'Account': 1})),
        ('tax_treatment', dict())]


class Bench:
    """One or two forecasters, worlds, and the settings, arguments and results expected of them."""
    reports = {}

    def __init__(self, cfg):
        self.cfg = cfg
        self.canada = cfg['canada']
        self.settings, self.values = [], []
        for i in range(cfg['settings']):
            s = (SettingsCanada if self.canada else Settings)()
            v = defaults(self.canada)
            for k, x in BASE.items():
                if k in v:
                    setattr(s, k, plain_value(x))
                    v[k] = x
            self.settings.append(s)
            self.values.append(v)
        self.fs = [(ForecasterCanada if self.canada else Forecaster)(settings=self.settings[i % cfg['settings']]) for i in range(cfg['forecasters'])]
        self.explicit = [{} for _ in self.fs]
        self.worlds = [world(w, Y) for w in cfg['worlds']]
        self.pictures = [picture(list(w)) for w in self.worlds]
        self.log = []

    def events(self):
        out = []
        for i in range(len(self.fs)):
            for j in range(len(self.worlds)):
                out.append(['run', i, j])
            for k, _ in enumerate(SETS):
                out.append(['set', i, k])
            for name in self.explicit[i]:
                out.append(['unset', i, name])
            if i == 0:
                out.append(['build', i])
        for i in range(len(self.settings)):
            for k in range(len(CHANGES)):
                name, v = CHANGES[k]
                if name in self.values[i] and self.values[i][name] != v and not (self.canada and name.startswith('tax_')):
                    out.append(['change', i, k])
        return out

    def vals(self, i):
        return self.values[i % len(self.settings)]

    def rate(self, i):
        ex = self.explicit[i].get('scenario')
        return arguments('scenario', self.canada, *(reversed(ex[:2]) if ex else (self.vals(i), {})))['inflation']

    def apply(self, ev):
        kind, i, x = ev[0], ev[1], ev[2] if len(ev) > 2 else None
        self.log.append(ev)
        if kind == 'change':
            name, v = CHANGES[x]
            self.values[i] = dict(self.values[i], **{name: v})
            setattr(self.settings[i], name, plain_value(v))
        elif kind == 'set':
            name, kw = SETS[x]
            rate = self.rate(i)
            self.fs[i].set_param(name, **kw)
            self.explicit[i] = dict(self.explicit[i], **{name: (kw, self.vals(i), rate)})
        elif kind == 'unset':
            setattr(self.fs[i], x, None)
            self.explicit[i] = {k: v for k, v in self.explicit[i].items() if k != x}
        elif kind == 'build':
            for name in NAMES:
                p = self.fs[i].build_param(name)
                q = self.fs[i].build_param(name)
                check('fresh', p is not q, 'each %s is built anew' % name)
                match(name, observe(name, self.canada, p), wanted(name, self.canada, self.vals(i), {}, self.rate(i)))
        else:
            self.run(i, x)

    def run(self, i, j):
        w = self.worlds[j]
        f = self.fs[i]
        given = {n: getattr(f, n) for n in NAMES}
        fc = f.run_forecast(*map(set, w))
        for n in NAMES:
            check('input', getattr(f, n) is given[n], 'a run sets no parameter')
        got = report(fc)
        key = repr((self.canada, self.cfg['worlds'][j], sorted(self.vals(i).items()), sorted(self.explicit[i].items())))
        if key not in Bench.reports:
            Bench.reports[key] = report(hand_built(
                hand_params(self.canada, self.vals(i), self.explicit[i]), *world(self.cfg['worlds'][j], Y)))
        same_report('after %s' % self.log[:-1], got, Bench.reports[key])
        after, _ = picture(list(w))
        unchanged(self.pictures[j][0], after)

    def final(self):
        self.log.append(['final'])
        for i in range(len(self.fs)):
            self.run(i, 0)

    def canon(self):
        # everything that ran may have left traces, so keep the whole history apart from the order of changes between runs
        out, group = [], []
        for ev in self.log:
            if ev[0] == 'change':
                group.append(ev)
            else:
                out += sorted(group) + [ev]
                group = []
        return [out + sorted(group)]


def bench_configs(tier):
    yield dict(canada=False, forecasters=2, settings=1, worlds=['single', 'couple'])
    yield dict(canada=False, forecasters=2, settings=2, worlds=['single'])
    yield dict(canada=True, forecasters=1, settings=1, worlds=['linked', 'canada'])
    yield dict(canada=True, forecasters=2, settings=2, worlds=['canada'])
    yield dict(canada=False, forecasters=1, settings=1, worlds=['rates', 'linked'])


FAMILIES = [
    Enum('precedence', precedence_cases, run_precedence, about='explicit arguments over settings over defaults, each and in pairs'),
    Enum('positional', positional_cases, run_positional, about='arguments by position'),
    Enum('extras', extras_cases, run_extras, about='precision, inflation adjustment, type and memo given explicitly'),
    Enum('unset', unset_cases, run_unset, about='parameters given at init, and taken back'),
    Enum('isolation', isolation_cases, run_isolation, about='runs repeated, beside a forecast built by hand; inputs unchanged; copies related alike'),
    Hist('bench', bench_configs, Bench, lambda tier, c: 2 if tier == 'quick' else 3,
         about='histories of building, setting, changing settings and running on one or two forecasters'),
]
