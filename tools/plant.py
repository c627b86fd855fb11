#!/usr/bin/env python3
"""plant.py SPEC.py: plants the bug described by SPEC.py in a scratch copy of /repo, confirms that it applies, keeps the stable
tests passing, and is shown by its demonstration only; then keeps it as /verif/seeded/<ID>/.
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source; exits nonzero when broken)."""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
tmp = tempfile.mkdtemp(prefix='plant-')
try:
    repo = tmp + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', repo])
    for f, old, new in spec['EDITS']:
        p = '%s/forecaster/%s' % (repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
    # every removed or context-changed line must be the original repository's
    for f in {e[0] for e in spec['EDITS']}:
        base = subprocess.check_output(['git', '-C', repo, 'show', '32b0bfe:forecaster/' + f], text=True).splitlines()
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    allbase = set()
    for f in {e[0] for e in spec['EDITS']}:
        allbase |= set(subprocess.check_output(['git', '-C', repo, 'show', '32b0bfe:forecaster/' + f], text=True).splitlines())
    notorig = [l for l in removed if l not in allbase]
    print('removed lines not in the original:', notorig)
    out = '/verif/seeded/' + ID
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(spec['DEMO'])
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                                      'PYTHONPATH="$PWD" exec /opt/venv/bin/python -B -W ignore "$here/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']),
              open(out + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, capture_output=True, text=True)
    print('demo on /repo:', a.returncode, a.stdout[-300:], a.stderr[-300:])
    print('demo patched :', b.returncode, b.stdout[-300:], b.stderr[-300:])
    subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
                    '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/j.xml'], cwd=repo, capture_output=True,
                   env=dict(os.environ, PYTHONHASHSEED='0'))
    subprocess.run(['/opt/venv/bin/python', '/opt/vp/results.py', tmp + '/o.json', 'junit:' + tmp + '/j.xml'], capture_output=True)
    bad = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(tmp + '/o.json'))['passed'])
    print('stable tests failing when patched:', len(bad), sorted(bad)[:4])
    ok = a.returncode == 0 and b.returncode != 0 and not notorig and not bad
    if '--check' in sys.argv:
        env = dict(os.environ, VERIF_REPO=repo)
        c = subprocess.run(['python3', '/verif/check.py', spec['PROPERTY'], 'quick'], env=env, capture_output=True, text=True)
        print('check:', c.returncode, 'CAUGHT' if 'VIOLATION' in c.stdout else 'MISSED', c.stdout[:400])
    print('OK' if ok else 'NOT OK')
finally:
    shutil.rmtree(tmp)
