"""Usage: add_finding.py ID PROP STATUS COMMIT KEY WHAT  -- appends to known_findings.json (never called by a check)."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
i, prop, status, commit, key, what = sys.argv[1:7]
pre = f'fixed: property={prop} {commit} ' if status == 'fixed' else ''
d['findings'].append({'id': i, 'property': prop, 'status': status, 'commit': commit, 'key': key, 'what': pre + what})
json.dump(d, open(p, 'w'), indent=1)
