"""Developer tool: record the violations in replays/CNN-*.json as known findings.  usage: known.py CNN "what fails" """
import glob, json, sys
prop, what = sys.argv[1:3]
with open('/verif/known_findings.jsonl', 'a') as f:
    for p in sorted(glob.glob('/verif/replays/%s-*.json' % prop)):
        r = json.load(open(p))
        f.write(json.dumps(dict(property=prop, family=r['family'], case=r['case'], kind=r['kind'], what='%s: %s' % (what, r['msg'].split('\n')[0][:120]))) + '\n')
