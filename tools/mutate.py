#!/usr/bin/env python3
"""Mutation campaign: small random edits of the sources, judged by the checks (a tool for finding blind spots).

tools/mutate.py FILE_SUBSTRING N SEED OUT.jsonl [props]  -- works on a scratch copy under /tmp, never on /repo.
"""
import ast, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'base/boundaries': 'C01 C02 C25 C09 C10', 'base/grids': 'C04 C03 C19 C01', 'base/array_utils': 'C25 C16 C09', 'base/finite_differences': 'C05',
       'base/interpolation': 'C06 C08', 'base/advection': 'C07 C08', 'base/diffusion': 'C09', 'base/pressure': 'C10', 'base/fast_diagonalization': 'C11',
       'base/equations': 'C12 C20', 'base/time_stepping': 'C13 C12', 'base/funcutils': 'C18', 'base/initial_conditions': 'C17', 'base/filter_utils': 'C17 C15',
       'base/forcings': 'C27', 'base/resize': 'C16', 'base/subgrid_models': 'C20', 'base/validation_problems': 'C12 C27', 'spectral/equations': 'C14', 'spectral/time_stepping': 'C13',
       'spectral/utils': 'C15 C14', 'spectral/forcings': 'C27 C14', 'collocated/': 'C12 C10 C09 C07 C17', 'ml/layers_util': 'C22 C21', 'ml/layers': 'C21 C22', 'ml/tiling': 'C21',
       'ml/towers': 'C21', 'ml/interpolations': 'C22 C23', 'ml/': 'C23 C27', 'data/': 'C24'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['*'], ast.Pow: ['*']}


def sites(src):
  tree = ast.parse(src); lines = src.splitlines(True); start = [0]
  for l in lines: start.append(start[-1] + len(l.encode()))
  b = src.encode()
  pos = lambda ln, col: start[ln - 1] + col
  out = []
  def seg(n): return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
  skip = set()
  for n in ast.walk(tree):
    for f in ('annotation', 'returns'):
      a = getattr(n, f, None)
      if a is not None:
        for q in ast.walk(a): skip.add(id(q))
    if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
      for q in ast.walk(n): skip.add(id(q))
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      for d in n.decorator_list:
        for q in ast.walk(d): skip.add(id(q))
  top = {id(q) for st in tree.body if isinstance(st, (ast.Assign, ast.Import, ast.ImportFrom, ast.Expr)) for q in ast.walk(st)}
  for n in ast.walk(tree):
    if id(n) in skip or id(n) in top: continue
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      l0, l1 = seg(n.left); r0, r1 = seg(n.right); mid = b[l1:r0].decode(); sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**'}[type(n.op)]
      if sym in mid:
        for new in BIN[type(n.op)]:
          k = mid.index(sym); out.append((l1 + k, l1 + k + len(sym), new, n.lineno))
    elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      l0, l1 = seg(n.left); r0, r1 = seg(n.comparators[0]); mid = b[l1:r0].decode(); m = re.search(r'[<>=!]=?', mid)
      if m: out.append((l1 + m.start(), l1 + m.end(), CMP[type(n.ops[0])], n.lineno))
    elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
      s, e = seg(n)
      if isinstance(n.value, bool): out.append((s, e, str(not n.value), n.lineno))
      elif isinstance(n.value, int): out += [(s, e, str(n.value + 1), n.lineno)] + ([(s, e, str(n.value - 1), n.lineno)] if n.value > 0 else [])
      elif isinstance(n.value, float): out.append((s, e, repr(n.value * 1.25 + (1. if n.value == 0 else 0)), n.lineno))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      s, e = seg(n); o0, o1 = seg(n.operand); out.append((s, o0, '', n.lineno))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      s, e = seg(n); o0, o1 = seg(n.operand); out.append((s, o0, '', n.lineno))
    elif isinstance(n, ast.BoolOp):
      l0, l1 = seg(n.values[0]); r0, r1 = seg(n.values[1]); mid = b[l1:r0].decode(); w = 'and' if isinstance(n.op, ast.And) else 'or'
      if w in mid: k = mid.index(w); out.append((l1 + k, l1 + k + len(w), 'or' if w == 'and' else 'and', n.lineno))
    elif isinstance(n, ast.Call):
      a = [q for q in n.args if not isinstance(q, ast.Starred)]
      for x, y in zip(a, a[1:]):
        (s0, e0), (s1, e1) = seg(x), seg(y)
        if b[s0:e0] != b[s1:e1]: out.append((s0, e1, (b[s1:e1] + b[e0:s1] + b[s0:e0]).decode(), n.lineno))
      if isinstance(n.func, (ast.Name, ast.Attribute)):
        nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr; alt = {'min': 'max', 'max': 'min', 'sin': 'cos', 'cos': 'sin', 'floor': 'ceil', 'ceil': 'floor', 'minimum': 'maximum', 'maximum': 'minimum', 'sum': 'mean', 'mean': 'sum', 'fft': 'ifft', 'sqrt': 'abs', 'zeros_like': 'ones_like', 'forward_difference': 'backward_difference', 'backward_difference': 'forward_difference'}.get(nm)
        if alt: s, e = seg(n.func); out.append((e - len(nm), e, alt, n.lineno))
      if n.keywords and len(n.keywords) > 0:
        k = random.Random(n.lineno).choice(n.keywords)
        if k.arg and n.args: 
          s, e = seg(k.value); ks = b[:s].rindex(k.arg.encode()); j = b[:ks].rstrip();
          if j.endswith(b','): out.append((len(j) - 1, e, '', n.lineno))
    elif isinstance(n, ast.AugAssign):
      s, e = seg(n); out.append((s, e, 'pass', n.lineno))
    elif isinstance(n, ast.If) and not n.orelse and n.body and not isinstance(n.body[0], ast.Raise):
      s, e = seg(n.test); out.append((s, e, 'False', n.lineno)); out.append((s, e, 'True', n.lineno))
    elif isinstance(n, ast.IfExp):
      s, e = seg(n.test); out.append((s, e, f'not ({b[s:e].decode()})', n.lineno))
    elif isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
      s, e = seg(n.value); l0, l1 = seg(n.value.left); out.append((s, e, b[l0:l1].decode(), n.lineno))
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name):
      s, e = seg(n.slice); out.append((s, e, '0', n.lineno))
  ok = []
  for s, e, new, ln in out:
    q = b[:s] + new.encode() + b[e:]
    try: ast.parse(q.decode())
    except SyntaxError: continue
    ok.append((s, e, new, ln, q.decode()))
  return ok


def main():
  sub, n, seed, outp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]; only = sys.argv[5].split() if len(sys.argv) > 5 else None
  jobs = os.environ.get('MUT_JOBS', '8'); W = f'/tmp/mut_{os.getpid()}'; shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('.git', 'notebooks', '*.ipynb'))
  files = sorted(os.path.relpath(os.path.join(d, f), '/repo') for d, _, fs in os.walk('/repo/jax_cfd') for f in fs if f.endswith('.py') and not f.endswith('_test.py') and f not in ('__init__.py', 'test_util.py'))
  files = [f for f in files if re.search(sub, f)]; allm = []
  for f in files:
    src = open('/repo/' + f).read(); allm += [(f, src, m) for m in sites(src)]
  random.Random(seed).shuffle(allm); print(len(allm), 'sites', flush=True)
  for f, src, (s, e, new, ln, q) in allm[:n]:
    props = only or next(v for k, v in MAP.items() if k in f).split()
    open(f'{W}/{f}', 'w').write(q); r = {'file': f, 'line': ln, 'old': src.encode()[s:e].decode(), 'new': new, 'text': src.splitlines()[ln - 1].strip(), 'by': None, 'tried': props}
    try:
      for p in props:
        t = time.time()
        env = dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE_DIR=f'{W}/ev', VERIF_FAILFAST='1', VERIF_JOBS=jobs, VERIF_SEED='1', VERIF_TIER='quick')
        try: c = subprocess.run([f'{V}/run.sh', p, 'quick'], env=env, capture_output=True, text=True, timeout=600); rc = c.returncode; o = c.stdout
        except subprocess.TimeoutExpired: rc, o = 'timeout', ''
        r.setdefault('t', []).append(round(time.time() - t, 1)); r.setdefault('rc', []).append(rc)
        if rc != 0:
          r['by'] = p; m = re.search(r'\] (\S+):', o); r['monitor'] = m.group(1) if m else o[-150:]; break
    finally:
      open(f'{W}/{f}', 'w').write(src)
    open(outp, 'a').write(json.dumps(r) + '\n'); print(('MISSED ' if r['by'] is None else f'{r["by"]}:{r["monitor"][:24]} '), f.replace('jax_cfd/', ''), ln, repr(r['old'][:50]), '->', repr(new[:50]), '|', r['text'][:80], flush=True)
  shutil.rmtree(W)


main()
