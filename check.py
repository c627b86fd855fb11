#!/usr/bin/env python3
"""usage: check.py <property id> [quick|thorough] [--family NAME] [--jobs N]
          check.py <property id> --replay FILE

Explores the bounded behaviours of one property (see DESIGN.md) on /repo's
current working tree.  Exit 0: held on everything explored.  Exit 1 with
'VIOLATION property=<id> replay=<path>': broken."""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1')
    exe = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(exe, [exe, '-B'] + [os.path.abspath(__file__)] + sys.argv[1:], env)
import argparse
import json
import warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import engine  # noqa: E402

warnings.simplefilter('ignore')


def load_findings(pid):
    path = os.path.join(engine.VERIF, 'known_findings.jsonl')
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                rec = json.loads(line)
                if rec['property'] == pid:
                    found.append(rec)
    return found


def write_replay(pid, fail, n):
    folder = os.path.join(engine.VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, **fail), f, indent=1)
    return path


def replay(pid, path):
    fail = json.load(open(path))
    for fam in engine._families(pid):
        if fam.name == fail['family']:
            if fam.kind == 'enum':
                res, err = engine._guard(lambda: fam.run_case(fail['case']))
            else:
                res, err = engine.replay_hist(fam, fail['case']['config'], fail['case']['history'])
            print('replay:', 'reproduced %s: %s' % err if err else 'property holds on this case')
            if err:
                print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1 if err else 0
    print('no such family: %s' % fail['family'])
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--family', action='append')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    pid = args.pid
    if args.replay:
        return replay(pid, args.replay)
    agg, wall = engine.run(pid, args.tier, args.family, args.jobs)
    findings = load_findings(pid)
    listed = {(f['family'], engine.jkey(f['case']), f['kind']): f for f in findings}
    hit, new = set(), []
    for a in agg.values():
        for fail in a['fails']:
            key = (fail['family'], engine.jkey(fail['case']), fail['kind'])
            if key in listed:
                hit.add(key)
            else:
                new.append(fail)
    for key in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, listed[key]['what']))
    seen_kind = set()
    n = 0
    for fail in new:
        k = (fail['family'], fail['kind'])
        if k in seen_kind and not args.v:
            continue
        seen_kind.add(k)
        n += 1
        if n > 12:
            break
        path = write_replay(pid, fail, n)
        print('%s/%s: %s\n  case: %s' % (fail['family'], fail['kind'], fail['msg'][:600],
                                       json.dumps(fail['case'])[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    states = sum(len(a['states']) for a in agg.values())
    trans = sum(a['ops'] for a in agg.values())
    execs = sum(a['execs'] for a in agg.values())
    capped = [k for k, a in agg.items() if a['capped']]
    fams = {f.name: f for f in engine._families(pid)}
    cov = dict(
        states=states, transitions=trans, traces_validated_against_impl=execs,
        samples=[s for a in agg.values() for s in a['samples']][:12],
        exhaustive=not capped,
        families={k: dict(about=fams[k].about, states=len(a['states']), transitions=a['ops'],
                          executions=a['execs'], distinct_outcomes=len(a['outcomes']),
                          deepest_new_state=a['depth'], capped=a['capped'], failing=len(a['fails']))
                  for k, a in agg.items()})
    if not args.family:
        os.makedirs(os.path.join(engine.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(engine.VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(dict(
                property=pid, tier=args.tier if args.tier in ('quick', 'thorough') else 'quick',
                seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov,
                assumptions=['every transition runs the code of /repo; values outside the stated finite '
                             'alphabets are not covered', 'reference models in /verif/mc are trusted',
                             'no random choice is made, so VERIF_SEED does not influence the exploration'],
                wall_s=round(wall, 2), violations=len(new)), f, indent=1)
    print('%s %s: states=%d transitions=%d executions=%d exhaustive=%s known=%d violations=%d %.1fs' % (
        pid, args.tier, states, trans, execs, not capped, len(hit), len(new), wall))
    for k, a in agg.items():
        print('  %-28s states=%-7d transitions=%-8d executions=%-7d outcomes=%-6d depth=%s%s failing=%d' % (
            k, len(a['states']), a['ops'], a['execs'], len(a['outcomes']), a['depth'],
            ' CAPPED' if a['capped'] else '', len(a['fails'])))
    sys.stdout.flush()
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main())
