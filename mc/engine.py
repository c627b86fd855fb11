"""Bounded explicit-state exploration engine.

Two kinds of exploration family, both exhaustive within their stated bounds and
both executing the real library code on every transition:

* Enum  - a finite, ordered set of cases (inputs / configurations); each case is
          run against the real code and a reference model or an invariant.
* Hist  - breadth-first search over operation histories.  A state is the event
          history reaching it; a system (real objects + reference model) is rebuilt
          from scratch and the history replayed for each expansion; states are
          merged on a canonical key which contains everything the future of both
          the implementation's observables and the model depends on.

Nothing here samples.  A violation raises Fail (or any exception escaping the
code under test) and is reported with the shortest history/case found first.
"""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
from .state import real_state
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NOREAL = os.environ.get('VERIF_NOREAL')        # (for comparison only)
CASE_TIMEOUT = 60          # seconds for one case: only a non-terminating call reaches it
BUDGET = float(os.environ.get('VERIF_BUDGET', '780'))
UNIT_FAILS = 400           # stop a work unit after that many failing cases


class Fail(Exception):
    """A property violation. `kind` is a short stable label."""
    def __init__(self, kind, msg=''):
        super().__init__('%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class Hang(Exception):
    pass


def _on_alarm(signum, frame):
    raise Hang('call did not terminate within %ss' % CASE_TIMEOUT)


def h64(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


def jkey(obj):
    return json.dumps(obj, sort_keys=True, separators=(',', ':'))


class Enum:
    """cases(tier) -> ordered iterable of JSON-able cases (simplest first).
    run(case) -> None or dict(ops=int, outcome=any); raises Fail on violation."""
    kind = 'enum'

    def __init__(self, name, cases, run, about='', chunks=32):
        self.name, self.cases, self.run_case = name, cases, run
        self.about, self.chunks = about, chunks


class Hist:
    """configs(tier) -> list of JSON-able configs; build(config) -> system.

    A system offers: events() -> list of JSON-able events enabled here (ordered
    simplest first), apply(ev) -> executes on implementation and model and checks
    the step (raises Fail), canon() -> canonical key of the present state.
    final(), if there is one, is called once at the end of each replayed history: checks made
    only there see the effect of histories without intermediate reads.
    depth(tier, config) -> bound on the number of events."""
    kind = 'hist'

    def __init__(self, name, configs, build, depth, about=''):
        self.name, self.configs, self.build = name, configs, build
        self.depth, self.about = depth, about


def unread(fam, depth=None, configs=None):
    """The same histories, but with `check` (which reads the real objects) put off until the end of each history, so that
    effects which depend on values *not* having been read in between are seen, too. Bounds: those of the quick tier of
    `fam` unless others are given (thorough explores the configurations of the thorough tier to that depth)."""
    base = fam.build

    class Unread(base):
        def check(self):
            pass

        def final(self):
            if hasattr(base, 'final'):
                base.final(self)
            base.check(self)
    Unread.__name__ = base.__name__
    return Hist(fam.name + '_unread', configs or fam.configs, Unread, depth or (lambda tier, c: fam.depth('quick', c)),
                fam.about + '; nothing read before the end of a history')


def _guard(fn):
    """Runs fn under the hang alarm and returns (value, (kind,msg)|None)."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return fn(), None
    except Fail as e:
        return None, (e.kind, e.msg)
    except Hang as e:
        return None, ('hang', str(e))
    except RecursionError as e:
        return None, ('exception', 'RecursionError')
    except Exception as e:                       # escaping exception: violation
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in reversed(tb):
            if '/forecaster/' in fr.filename:
                where = ' at %s:%s' % (fr.filename.split('/forecaster/', 1)[1], fr.name)
                break
        return None, ('exception', '%s: %s%s' % (type(e).__name__, e, where))
    finally:
        signal.alarm(0)


def explore_enum(fam, tier, part, parts, deadline):
    states, outcomes = set(), set()
    n = ops = 0
    fails, samples, capped = [], [], False
    for i, case in enumerate(fam.cases(tier)):
        if i % parts != part:
            continue
        if time.time() > deadline:
            capped = True
            break
        res, err = _guard(lambda: fam.run_case(case))
        n += 1
        states.add(h64(case))
        if err:
            fails.append(dict(family=fam.name, index=i, case=case, kind=err[0], msg=err[1]))
            if len(fails) >= UNIT_FAILS:
                capped = True
                break
            continue
        if res:
            ops += res.get('ops', 1)
            if 'outcome' in res:
                outcomes.add(h64(res['outcome']))
            if len(samples) < 1:
                samples.append(dict(family=fam.name, case=case, outcome=repr(res.get('outcome'))[:300]))
        else:
            ops += 1
    return dict(family=fam.name, states=states, outcomes=outcomes, execs=n, ops=ops,
                fails=fails, samples=samples, capped=capped, depth=None)


def replay_hist(fam, config, history, keyed=False):
    def go():
        system = fam.build(config)
        for ev in history:
            system.apply(ev)
        # (before `canon` and `final`, which may read - and so affect - the real objects)
        key = h64((config, merge_key(system), system.canon())) if keyed else None
        if hasattr(system, 'final'):
            system.final()
        return system, key
    return _guard(go)


def merge_key(system):
    return None if NOREAL or getattr(system, 'unmerged', False) else real_state(system)


def explore_hist(fam, tier, config, deadline, index=0):
    bound = fam.depth(tier, config)
    states, outcomes, fails, samples = set(), set(), [], []
    ntrans = nexec = 0
    capped = False
    deepest = 0

    def fail(history, err):
        fails.append(dict(family=fam.name, index=index, case=dict(config=config, history=history),
                          kind=err[0], msg=err[1]))
    res, err = replay_hist(fam, config, [], True)
    if err:
        fail([], err)
        return dict(family=fam.name, states=states, outcomes=outcomes, execs=1, ops=0, fails=fails,
                    samples=samples, capped=False, depth=0)
    system, key = res
    states.add(key)
    level = [([], list(system.events()))]
    for d in range(1, bound + 1):
        nxt = []
        for history, events in level:
            for ev in events:
                if time.time() > deadline or len(fails) >= UNIT_FAILS:
                    capped = True
                    break
                new = history + [ev]
                res, err = replay_hist(fam, config, new, True)
                ntrans += 1
                nexec += 1
                if err:
                    fail(new, err)
                    continue
                system, key = res
                if key not in states:
                    states.add(key)
                    deepest = d
                    if d < bound:
                        nxt.append((new, list(system.events())))
                    if len(samples) < 1 and d == bound:
                        samples.append(dict(family=fam.name, config=config, history=new))
            if capped:
                break
        if capped:
            break
        level = nxt
    if not samples and level:
        samples.append(dict(family=fam.name, config=config, history=level[-1][0]))
    return dict(family=fam.name, states=states, outcomes=outcomes, execs=nexec, ops=ntrans,
                fails=fails, samples=samples, capped=capped, depth=deepest)


def setup_path():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.append(VERIF)


_MOD = {}


def _families(pid):
    if pid not in _MOD:
        setup_path()
        _MOD[pid] = importlib.import_module('mc.props.%s' % pid.lower()).FAMILIES
    return _MOD[pid]


def _work(job):
    pid, tier, fi, kind, a, b, deadline = job
    fam = _families(pid)[fi]
    if kind == 'enum':
        return explore_enum(fam, tier, a, b, deadline)
    return explore_hist(fam, tier, list(fam.configs(tier))[a], deadline, a)


def run(pid, tier, only=None, jobs=None):
    """Explores every family of `pid`; returns an aggregated result."""
    start = time.time()
    deadline = start + BUDGET
    fams = _families(pid)
    work = []
    for fi, fam in enumerate(fams):
        if only and fam.name not in only:
            continue
        if fam.kind == 'enum':
            total = sum(1 for _ in fam.cases(tier))
            parts = max(1, min(fam.chunks, (total + 19) // 20))
            work += [(pid, tier, fi, 'enum', k, parts, deadline) for k in range(parts)]
        else:
            work += [(pid, tier, fi, 'hist', k, 0, deadline)
                     for k in range(len(list(fam.configs(tier))))]
    agg = {}
    jobs = jobs or min(8, os.cpu_count() or 1)

    def take(res):
        a = agg.setdefault(res['family'], dict(states=set(), outcomes=set(), execs=0, ops=0, fails=[],
                                               samples=[], capped=False, depth=None))
        a['states'] |= res['states']
        a['outcomes'] |= res['outcomes']
        for k in ('execs', 'ops'):
            a[k] += res[k]
        a['fails'] += res['fails']
        a['samples'] += res['samples'][:max(0, 2 - len(a['samples']))]
        a['capped'] |= res['capped']
        if res['depth'] is not None:
            a['depth'] = max(a['depth'] or 0, res['depth'])
    if jobs == 1 or len(work) == 1:
        for job in work:
            take(_work(job))
    else:
        ctx = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(jobs, mp_context=ctx) as pool:
            for fut in as_completed([pool.submit(_work, j) for j in work]):
                take(fut.result())
    for a in agg.values():
        a['fails'].sort(key=lambda f: (len(jkey(f['case'])) if 'history' in (f['case'] if isinstance(
            f['case'], dict) else {}) else f['index'], jkey(f['case'])))
    return agg, time.time() - start
