#!/usr/bin/env python3
"""Writes seeded/<id>/ from the planted changes described in tools/seeds_*.py."""
import difflib, glob, json, os, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys
os.environ.update(JAX_PLATFORMS='cpu', JAX_ENABLE_X64='1', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
sys.path.insert(0, os.getcwd())
import functools
import numpy as np
import jax, jax.numpy as jnp
'''
SH = '''#!/bin/bash
# exit 0 when the property holds on this input, 1 when it is broken
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu JAX_ENABLE_X64=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
want = set(sys.argv[1:])
for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds_*.py'))):
  sp = importlib.util.spec_from_file_location('s', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
  for s in m.SEEDS:
    if want and s['id'] not in want: continue
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    out = ''
    for path, reps in s['edits'].items():
      old = open('/repo/' + path).read(); new = old
      for a, b in reps:
        assert new.count(a) == 1, (s['id'], path, a, new.count(a))
        new = new.replace(a, b)
      out += ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + path, 'b/' + path))
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(s['id'])
