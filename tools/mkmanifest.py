#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
    checks.append({
        'property': i, 'quick_cmd': f'./run.sh {i} quick', 'thorough_cmd': f'./run.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'runtime monitoring: seeded workloads over the real code, independent numpy oracles '
                     'and trace monitors judge every observed call',
        'level': 'exploration',
        'level_note': 'Held on the executions explored (seeded, random, bounded sizes, float64 unless stated); '
                      'evidence counts what the monitors observed. Not a proof.'})
  else:
    na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import jax, numpy, scipy, xarray"',
     'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks', len(na), 'n/a')
