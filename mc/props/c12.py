"""C12: timings are normalised schedules; converting and combining flows conserves money."""
import itertools
from decimal import Decimal
from ..engine import Enum, Fail
from ..lib import *
from forecaster.utility.timing import (
    Timing, transactions_from_timing, when_conv, frequency_conv, add_transactions, subtract_transactions)

FREQ = dict(D=365, W=52, BW=26, SM=24, M=12, BM=6, Q=4, SA=2, A=1)
TIMES = [0, 0.25, 0.5, 0.75, 1]
D = lambda x: Decimal(str(x))


# --- available cash flows -> timing ----------------------------------------------------

def flow_cases(tier):
    vals = [0, 1, -1, 2, -3] if tier == 'quick' else [0, 1, -1, 2, -2, 3, -4, 7]
    n = 5
    for k in range(0, n + 1):
        times = TIMES[:k] if k < n else TIMES
        for combo in itertools.product(vals, repeat=k):
            for hp in (0, 1):
                for order in (0, 1, 2) if k > 2 else (0, 1):
                    yield [times, list(combo), hp, order]
    tiny = [0, 1, -1, 0.001, -0.002, 1e6]       # amounts of very different sizes
    for k in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for combo in itertools.product(tiny, repeat=k):
            yield [TIMES[:k], list(combo), 0, 2 if k > 2 else 0]
    times = [0, 0.1, 0.2, 0.4, 0.7, 0.9, 1]     # more times
    for combo in itertools.product([1, -2, 0] if tier == 'quick' else [1, -2, 0, 3], repeat=7):
        yield [times, list(combo), 0, 2]


def expected_timing(flows):
    """Closed form of the documented meaning; flows: {time: value}."""
    if not flows:
        return {}
    vals = list(flows.values())
    if all(v == 0 for v in vals):
        return {t: 1 for t in flows}
    if all(v >= 0 for v in vals):
        return dict(flows)
    if all(v <= 0 for v in vals):
        return {t: -v for t, v in flows.items()}
    total = sum(vals)
    ts = sorted(flows)
    cum = {}
    run = 0
    for t in ts:
        run += flows[t]
        cum[t] = run
    if total == 0:
        return {}
    out, prev = {}, 0
    for i, t in enumerate(ts):
        if total > 0:      # cumulative withdrawals: all that no later time still needs
            now = max(0, min(cum[u] for u in ts[i:]))
        else:              # cumulative top-ups: deepest shortfall so far
            now = max(0, max(-cum[u] for u in ts[:i + 1]))
        out[t] = now - prev
        prev = now
    return out


def flow_run(case):
    times, values, hp, order = case
    cv = D if hp else (lambda x: x)
    pairs = list(zip(times, values))
    if order == 1:
        pairs.reverse()
    elif order == 2:                # neither ascending nor descending
        pairs = pairs[1::2] + pairs[0::2]
    src = {cv(t): cv(v) for t, v in pairs}
    before = dict(src)
    timing = Timing(src, high_precision=Decimal if hp else None)
    expect_eq('input_mutated', src, before, 'mapping passed to Timing')
    check('aliasing', timing is not src, 'Timing aliases its input')
    want = expected_timing(dict(zip(times, values)))
    expect_map('conversion', timing, want, 'Timing(%s)' % dict(zip(times, values)))
    check('negative_weight', all(v >= 0 for v in timing.values()), 'negative weight in %s' % timing)
    check('times', set(float(t) for t in timing) <= set(float(t) for t in src), 'invented a time')
    flows = dict(zip(times, values))
    if any(v > 0 for v in values) and any(v < 0 for v in values) and sum(values) > 0:
        # spending the timing must not make any running balance (more) negative
        run = 0
        for t in sorted(flows):
            a = sum(v for u, v in flows.items() if u <= t)
            spent = sum(float(v) for u, v in timing.items() if float(u) <= t)
            check('overspent', a - spent >= min(a, 0) - 1e-9, 'overspent at %s' % t)
        expect('leftover', sum(timing.values()), sum(values), 'total spendable')
    if timing and sum(timing.values()) > 0:
        tot = cv(1000)
        for series in (timing.time_series(tot), transactions_from_timing(timing, tot)):
            expect('sum', sum(series.values()), 1000, 'sum of parts')
            w = sum(want.values())
            expect_map('proportion', series, {t: 1000 * v / w for t, v in want.items()}, 'parts')
        norm = timing.normalized()
        expect('sum', sum(norm.values()), 1, 'normalised weights')
        snapshot = dict(timing)
        copy = Timing(timing)
        expect_eq('copy', dict(copy), snapshot, 'copy of a timing')
        copy.clear()
        expect_eq('aliasing', dict(timing), snapshot, 'clearing a copy changed the original')
        pos = [k for k in timing if timing[k] > 0]
        for r in range(1, min(3, len(pos)) + 1):
            for keys in itertools.combinations(pos, r):
                part = timing.time_series(tot, keys=keys)
                sub = sum(timing[k] for k in keys)
                expect_map('proportion', part, {float(k): 1000 * float(timing[k] / sub) for k in keys},
                           'parts over %s' % (keys,))
                expect('sum', sum(timing.normalized(keys).values()), 1, 'normalised over keys')
        expect_eq('aliasing', dict(timing), snapshot, 'splitting changed the timing')
    return dict(ops=6, outcome=sorted((r9(k), r9(v)) for k, v in timing.items()))


# --- notations -------------------------------------------------------------------------

def notation_cases(tier):
    freqs = list(FREQ) + [1, 2, 3, 4, 12]
    whens = ['start', 'end', 0, 0.25, 0.5, 1] + ([0.1, 0.3, 0.9] if tier != 'quick' else [])
    for hp in (0, 1):
        yield [None, None, hp]
        for f in freqs:
            if isinstance(f, str):
                yield ['code', f, hp]
            yield [None, f, hp]
        for w in whens:
            yield [w, None, hp]
            for f in freqs:
                yield [w, f, hp]


def notation_run(case):
    w, f, hp = case
    kw = dict(high_precision=Decimal) if hp else {}
    cv = (lambda x: x if isinstance(x, str) else D(x)) if hp else (lambda x: x)
    if w == 'code':
        timing = Timing(f, **kw)
        wv, n = 0.5, FREQ[f]
    else:
        args = {}
        if w is not None:
            args['when'] = cv(w)
        if f is not None:
            args['frequency'] = f
        timing = Timing(**args, **kw)
        wv = {'start': 0, 'end': 1, None: 0.5}.get(w, w)
        n = FREQ.get(f, f) if f is not None else 1
    want = {(i + wv) / n: 1.0 / n for i in range(n)}
    check('count', len(timing) == n, 'got %s times, expected %s' % (len(timing), n))
    expect_map('notation', timing, want, 'Timing(%s, %s)' % (w, f))
    expect('sum', sum(timing.values()), 1, 'weights')
    check('range', all(0 <= t <= 1 for t in timing), 'time outside the year')
    if hp:
        check('precision', all(isinstance(t, Decimal) and isinstance(v, Decimal)
                               for t, v in timing.items()), 'not high-precision: %s' % timing)
    return dict(ops=1, outcome=n)


def conv_cases(tier):
    for w in ['start', 'end', 0, 1, 0.5, 0.999, -0.001, 1.001, 2, -1]:
        for hp in (0, 1):
            yield ['when', w, hp]
    for f in list(FREQ) + ['C', None, 1, 7, 12, 365, 'X', 'm', 0, -1, 1.5, 2.0]:
        yield ['freq', f, 0]


def conv_run(case):
    kind, x, hp = case
    if kind == 'when':
        kw = dict(high_precision=Decimal) if hp else {}
        arg = x if isinstance(x, str) or not hp else D(x)
        ok = isinstance(x, str) or 0 <= x <= 1
        try:
            got = when_conv(arg, **kw)
        except ValueError:
            got = 'refused'
        want = {'start': 0, 'end': 1}.get(x, x) if ok else 'refused'
        if want == 'refused' or got == 'refused':
            expect_eq('when', got, want, 'time %r' % x)
        else:
            expect('when', got, want, 'time %r' % x)
            if hp:
                check('precision', isinstance(got, Decimal), 'time is not high-precision')
        return dict(ops=1, outcome=str(got))
    try:
        got = frequency_conv(x)
    except (ValueError, TypeError):
        got = 'refused'
    if x is None or x == 'C':
        want = None
    elif isinstance(x, str):
        want = FREQ.get(x, 'refused')
    else:
        want = int(x) if x > 0 and x == int(x) else 'refused'
    expect_eq('frequency', got, want, 'frequency %r' % x)
    return dict(ops=1, outcome=str(got))


# --- combining -------------------------------------------------------------------------

def comb_cases(tier):
    vals = [None, 0, 1, -2] if tier == 'quick' else [None, 0, 1, -2, 5]
    times = [0, 0.5, 1]
    for a in itertools.product(vals, repeat=3):
        for b in itertools.product(vals, repeat=3):
            yield [list(a), list(b)]


def comb_run(case):
    times = [0, 0.5, 1]
    a, b = ({t: v for t, v in zip(times, x) if v is not None} for x in case)
    for sign, fn in ((1, add_transactions), (-1, subtract_transactions)):
        x, y = dict(a), dict(b)
        fn(x, y)
        expect_eq('input_mutated', y, b, 'second mapping')
        want = {t: a.get(t, 0) + sign * b.get(t, 0) for t in set(a) | set(b)}
        expect_eq('combine', x, want, 'combined')
        inverse = subtract_transactions if sign == 1 else add_transactions
        inverse(x, y)
        expect_map('combine', x, a, 'undone')
    x, y = dict(a), dict(b)
    add_transactions(x, b)
    add_transactions(y, a)
    expect_eq('combine', x, y, 'sum in either order')
    return dict(ops=6, outcome=sorted(x.items()))


FAMILIES = [
    Enum('flows_to_timing', flow_cases, flow_run,
         about='every mapping of up to 5 times over a value alphabet -> timing vs closed form; splitting, copying'),
    Enum('notations', notation_cases, notation_run, about='all (when, frequency) notations, both precisions'),
    Enum('conversions', conv_cases, conv_run, about='times and frequencies, valid and invalid'),
    Enum('combining', comb_cases, comb_run, about='all pairs of 3-time mappings added and subtracted'),
]
