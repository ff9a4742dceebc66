#!/usr/bin/env python3
"""Writes DESIGN.md from design_src.md, the properties, check modules, findings and planted bugs."""
import ast, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
def mod(i):
  out = {}
  for n in ast.parse(open(f'{V}/checks/{i.lower()}.py').read()).body:
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'ASSUMPTIONS', 'SUITES', 'REQUIRED'):
      try: out[n.targets[0].id] = ast.literal_eval(n.value)
      except ValueError: out[n.targets[0].id] = ast.unparse(n.value)
  return out
src = open(f'{V}/tools/design_src.md').read()
notes = {}
head, _, rest = src.partition('<!-- PER PROPERTY -->')
per, _, tail = rest.partition('<!-- END -->')
for blk in per.split('\n### ')[1:]:
  k, _, t = blk.partition('\n'); notes[k.strip()] = t.strip()
out = [head.rstrip(), '', '## Per property', '']
for p in P:
  i = p['id']; m = mod(i); out.append(f"### {i} {p['title']}"); out.append('')
  out.append(notes.get(i, '(no note)')); out.append('')
  out.append('* Workload and what counts as a case: ' + m['RULE'] + '.')
  if isinstance(m.get('SUITES'), dict): out.append('* Suites (cases quick / thorough): ' + ', '.join(f'{k} {v[1]}/{v[2]}' for k, v in m['SUITES'].items()) + '.')
  elif 'SUITES' in m:
    try:
      t = ast.parse(m['SUITES'], mode='eval').body
      out.append('* Suites (cases quick / thorough): ' + ', '.join(f'{k.value} {ast.unparse(v.elts[1])}/{ast.unparse(v.elts[2])}' for k, v in zip(t.keys, t.values)) + '.')
    except Exception: out.append('* Suites: built at import, see `SUITES` in the module.')
  out.append('* Bounds and assumptions: ' + '; '.join(m['ASSUMPTIONS']) + '.'); out.append('')
out.append('## Findings'); out.append('')
out.append('Every entry was shown against the real code before it was repaired or recorded; `known_findings.json` holds the same list, keyed by mechanism.'); out.append('')
for f in json.load(open(f'{V}/known_findings.json'))['findings']:
  out.append(f"* {f['id']} ({f['property']}, " + (f"repaired in {f['commit']}" if f['status'] == 'fixed' else 'recorded, not repaired') + '): ' + f['what'].split(f['commit'] + ' ', 1)[-1] if f['status'] == 'fixed' else f"* {f['id']} ({f['property']}, recorded, not repaired): {f['what']}")
out.append(''); out.append('## Planted bugs and which check catches them'); out.append('')
caught = json.load(open(f'{V}/tools/caught.json')) if os.path.exists(f'{V}/tools/caught.json') else {}
out.append('| planted bug | property | needs | caught by (seed 1, quick) |'); out.append('|---|---|---|---|')
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
  i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); out.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '')} |")
out.append(tail.rstrip())
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
