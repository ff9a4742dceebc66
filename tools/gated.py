#!/usr/bin/env python3
"""Conditional mutation campaign: a small edit of one function that acts only when the call meets a condition.

tools/gated.py FILE_REGEX N SEED OUT.jsonl [props] -- scratch copies under /tmp only. A gated mutant that the mapped checks
miss although its ungated form is caught points at a condition the workloads do not reach (FIRED tells whether it acted).
"""
import ast, json, os, random, re, shutil, subprocess, sys, time, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location('mutate', os.path.join(V, 'tools', 'mutate.py')); src_m = open(sp.origin).read().rsplit('\nmain()', 1)[0]
ns = {'__file__': sp.origin}; exec(compile(src_m, sp.origin, 'exec'), ns); sites, MAP = ns['sites'], ns['MAP']
GATE = r'''
import functools, os
def _walk(x, out, d=0):
  if d > 4 or len(out) > 60: return
  if hasattr(x, 'shape') and hasattr(x, 'domain') and hasattr(x, 'step'): out.append(('g', x)); return
  if hasattr(x, 'shape') and hasattr(x, 'dtype') and not hasattr(x, 'grid'): out.append(('a', x)); return
  if isinstance(x, (list, tuple)):
    for q in x: _walk(q, out, d + 1)
  elif isinstance(x, dict):
    for q in x.values(): _walk(q, out, d + 1)
  elif isinstance(x, (int, float)) and not isinstance(x, bool): out.append(('s', x))
  else:
    for n in ('grid', 'data', 'array', 'bc', 'boundary_conditions', 'values', 'types', '_values'):
      try: q = getattr(x, n, None)
      except Exception: continue
      if q is not None and not callable(q) and not isinstance(q, str): _walk(q, out, d + 1)
def cond(name, args, kw, st):
  st['n'] = st.get('n', 0) + 1
  if name == 'later': return st['n'] > 3
  w = []
  for a in list(args) + list(kw.values()): _walk(a, w)
  shp = [tuple(x.shape) for k, x in w if k in 'ga' and len(x.shape)]
  gr = [x for k, x in w if k == 'g']
  if name == 'odd': return any(s[0] % 2 for s in shp)
  if name == 'lastodd': return any(s[-1] % 2 for s in shp)
  if name == 'd3': return any(len(s) == 3 for s in shp)
  if name == 'd1': return bool(shp) and all(len(s) == 1 for s in shp)
  if name == 'long': return any(max(s) >= 14 for s in shp)
  if name == 'thin': return any(min(s) <= 3 for s in shp)
  if name == 'tall': return any(s[0] < s[-1] for s in shp)
  if name == 'wide': return any(s[0] > s[-1] for s in shp)
  if name == 'f32': return any(str(x.dtype) == 'float32' for k, x in w if k == 'a')
  if name == 'low': return any(g.domain[0][0] != 0 for g in gr)
  if name == 'neg': return any(x < 0 for k, x in w if k == 's')
  if name == 'big': return any(x > 2 for k, x in w if k == 's')
  if name == 'aniso': return any(max(g.step) > 1.5 * min(g.step) for g in gr)
  if name == 'odd3': return any(len(s) == 3 and s[1] % 2 for s in shp)
  raise KeyError(name)
def gate(old, new, name, log):
  st = {}
  @functools.wraps(old)
  def f(*a, **k):
    if cond(name, a, k, st):
      if 'f' not in st:
        st['f'] = 1; open(log, 'a').write('x')
      return new(*a, **k)
    return old(*a, **k)
  return f
'''
CONDS = ['odd', 'lastodd', 'd3', 'd1', 'long', 'thin', 'tall', 'wide', 'f32', 'low', 'neg', 'big', 'aniso', 'odd3', 'later']


def enclosing(tree, line):
  """Outermost function (module level or method) that holds the line, and its class."""
  for n in tree.body:
    if isinstance(n, ast.FunctionDef) and n.lineno <= line <= n.end_lineno: return n
    if isinstance(n, ast.ClassDef):
      for q in n.body:
        if isinstance(q, ast.FunctionDef) and q.lineno <= line <= q.end_lineno: return q


def gated(src, mutated, line, c, W):
  t = enclosing(ast.parse(src), line)
  if t is None or t.name.startswith('__') and t.name not in ('__call__',): return None
  deco = [ast.unparse(d) for d in t.decorator_list]
  if any(re.search('property|classmethod|staticmethod|overload|abstract|transparent|register', d) for d in deco): return None
  m = enclosing(ast.parse(mutated), line)
  if m is None or m.name != t.name: return None
  ls, lm = src.splitlines(True), mutated.splitlines(True); first = min([m.lineno] + [d.lineno for d in m.decorator_list])
  body = lm[m.lineno - 1:m.end_lineno]; ind = ' ' * t.col_offset
  body[0] = body[0].replace(f'def {t.name}(', f'def mut_{t.name}(', 1)
  dec = [x for x in lm[first - 1:m.lineno - 1] if 'gin.' not in x]
  add = ['\n'] + dec + body + [f"\n{ind}{t.name} = __import__('gate_rt').gate({t.name}, mut_{t.name}, {c!r}, {W + '/fired'!r})\n"]
  out = ''.join(ls[:t.end_lineno] + add + ls[t.end_lineno:])
  try: ast.parse(out)
  except SyntaxError: return None
  return out


def run(W, props, jobs):
  for p in props:
    env = dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE_DIR=f'{W}/ev', VERIF_FAILFAST='1', VERIF_JOBS=jobs, VERIF_SEED='1', VERIF_TIER='quick', PYTHONPATH=W)
    try: c = subprocess.run([f'{V}/run.sh', p, 'quick'], env=env, capture_output=True, text=True, timeout=600); rc, o = c.returncode, c.stdout
    except subprocess.TimeoutExpired: rc, o = 'timeout', ''
    if rc != 0:
      m = re.search(r'\] (\S+):', o); return p, rc, (m.group(1) if m else o[-200:])
  return None, 0, ''


def main():
  sub, n, seed, outp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]; only = sys.argv[5].split() if len(sys.argv) > 5 else None
  jobs = os.environ.get('MUT_JOBS', '8'); W = f'/tmp/gat_{os.getpid()}'; shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('.git', 'notebooks', '*.ipynb'))
  open(f'{W}/gate_rt.py', 'w').write(GATE)
  files = sorted(os.path.relpath(os.path.join(d, f), '/repo') for d, _, fs in os.walk('/repo/jax_cfd') for f in fs if f.endswith('.py') and not f.endswith('_test.py') and f not in ('__init__.py', 'test_util.py'))
  files = [f for f in files if re.search(sub, f)]; allm = []
  for f in files:
    src = open('/repo/' + f).read(); allm += [(f, src, m) for m in sites(src)]
  rng = random.Random(seed); rng.shuffle(allm); done = 0
  for f, src, (s, e, new, ln, q) in allm:
    if done >= n: break
    props = only or next(v for k, v in MAP.items() if k in f).split(); cs = rng.sample(CONDS, 3)
    if gated(src, q, ln, 'odd', W) is None: continue
    done += 1; r = {'file': f, 'line': ln, 'old': src.encode()[s:e].decode(), 'new': new, 'text': src.splitlines()[ln - 1].strip()}
    try:
      open(f'{W}/{f}', 'w').write(q); p, rc, mon = run(W, props, jobs); r['plain'] = (p, rc, mon)
      if p is not None and rc == 1:
        order = ([p] + [x for x in props if x != p])[:2]
        for c in cs:
          if os.path.exists(f'{W}/fired'): os.remove(f'{W}/fired')
          open(f'{W}/{f}', 'w').write(gated(src, q, ln, c, W)); g = run(W, order, jobs); r[c] = (*g, os.path.exists(f'{W}/fired'))
    finally: open(f'{W}/{f}', 'w').write(src)
    open(outp, 'a').write(json.dumps(r) + '\n')
    print('PLAIN-MISSED' if r['plain'][0] is None else r['plain'][0], [(c, 'MISS' if r[c][0] is None and r[c][3] else r[c][0] or '-') + (() if r[c][1] in (0, 1) else (r[c][1],)) for c in cs if c in r], f.replace('jax_cfd/', ''), ln, repr(r['old'][:50]), '->', repr(new[:50]), '|', r['text'][:80], flush=True)
  shutil.rmtree(W)


main()
