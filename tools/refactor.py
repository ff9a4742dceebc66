#!/usr/bin/env python3
"""Behaviour-preserving rewrites of every source file (false-alarm test): tools/refactor.py DEST KINDS
copies /repo to DEST and rewrites its sources; the checks must stay quiet on VERIF_REPO=DEST."""
import ast, builtins, os, shutil, sys
dest, kinds = sys.argv[1], set(sys.argv[2].split(','))
shutil.copytree('/repo', dest, ignore=shutil.ignore_patterns('.git', 'notebooks', '*.ipynb'))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def own(fn, types):
  """Nodes of these types within fn but not within nested functions."""
  todo = list(fn.body); out = []
  while todo:
    n = todo.pop()
    if isinstance(n, types): out.append(n)
    if not isinstance(n, FN + (ast.Lambda, ast.ClassDef)): todo += list(ast.iter_child_nodes(n))
  return out


class T(ast.NodeTransformer):
  def __init__(self, mod): self.glob = mod; self.depth = 0

  def visit_FunctionDef(self, n):
    top = self.depth == 0
    self.depth += 1; self.generic_visit(n); self.depth -= 1
    if top and 'rename' in kinds:
      st = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
      args = {a.arg for f in ast.walk(n) if isinstance(f, FN + (ast.Lambda,)) for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs + [q for q in (f.args.vararg, f.args.kwarg) if q]}
      bad = args | self.glob | set(dir(builtins)) | {f.name for f in ast.walk(n) if isinstance(f, FN + (ast.ClassDef,))} | {g for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
      st -= bad
      for x in ast.walk(n):
        if isinstance(x, ast.Name) and x.id in st: x.id += '_renamed'
    if 'return' in kinds:
      class R(ast.NodeTransformer):
        def visit_FunctionDef(s, m): return m
        def visit_Lambda(s, m): return m
        def visit_Return(s, m):
          if m.value is None: return m
          return [ast.Assign([ast.Name('outcome', ast.Store())], m.value), ast.Return(ast.Name('outcome', ast.Load()))]
      n.body = [y for x in n.body for y in (lambda q: q if isinstance(q, list) else [q])(R().visit(x))]
    if 'nothing' in kinds:
      k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
      n.body.insert(k, ast.parse('unused_value = None').body[0])
    if 'helper' in kinds and not own(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) and not any(isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals') for x in ast.walk(n)):
      a = {q.arg for q in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [q for q in (n.args.vararg, n.args.kwarg) if q]}
      if not any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in a for x in ast.walk(n)) and not any(isinstance(m, FN) and m.name in a for m in ast.walk(n)):
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        if n.body[k:]:
          h = ast.FunctionDef('compute', ast.arguments([], [], None, [], [], None, []), n.body[k:], [], None)
          h.type_params = []
          n.body = n.body[:k] + [h, ast.Return(ast.Call(ast.Name('compute', ast.Load()), [], []))]
    return n

  def visit_BinOp(self, n):
    self.generic_visit(n)
    if 'commute' in kinds and isinstance(n.op, ast.Mult): n.left, n.right = n.right, n.left
    if 'recip' in kinds and isinstance(n.op, ast.Div): return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1), ast.Div(), n.right))
    if 'negate' in kinds and isinstance(n.op, ast.Sub): return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
    return n

  def visit_If(self, n):
    self.generic_visit(n)
    if 'invert' in kinds and n.orelse: return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    return n

  def visit_Call(self, n):
    self.generic_visit(n)
    if 'kwargs' in kinds and not any(k.arg is None for k in n.keywords): n.keywords = n.keywords[::-1]
    if 'lists' in kinds and isinstance(n.func, ast.Name) and n.func.id in ('tuple', 'sum', 'all', 'any', 'list') and len(n.args) >= 1 and isinstance(n.args[0], ast.GeneratorExp):
      n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
    return n


for d, _, fs in os.walk(dest + '/jax_cfd'):
  for f in fs:
    if not f.endswith('.py') or f.endswith('_test.py') or f == '__init__.py': continue
    p = os.path.join(d, f); tree = ast.parse(open(p).read())
    glob = {a.asname or a.name.split('.')[0] for x in tree.body if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names} | {x.name for x in tree.body if isinstance(x, FN + (ast.ClassDef,))} | {t.id for x in tree.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
    open(p, 'w').write(ast.unparse(ast.fix_missing_locations(T(glob).visit(tree))) + '\n')
