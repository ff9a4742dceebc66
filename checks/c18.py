"""C18: repeated and trajectory runs equal running the step one at a time."""
import functools
from typing import Any, NamedTuple
import gin
import haiku as hk
import numpy as np
import jax
import jax.numpy as jnp
from jax.experimental import io_callback
from jax_cfd.base import funcutils as fu
from jax_cfd.base import grids as G
from jax_cfd.ml import model_builder as mb, model_utils as mu, time_integrators as ti
from vlib import gen, workloads

RULE = ('random state structures, order-sensitive steps, lengths (0, 1, many), options and transformations; every visit of '
        'the step is logged through an ordered host callback and every saved frame is compared with a by-hand loop; '
        'distinct by (entry point, lengths, options, structure)')
ASSUMPTIONS = ['steps are deterministic functions of the state']

MOD = 2 ** 31 - 1


class Nt(NamedTuple):
  a: Any
  b: Any


def make_state(rng, kind):
  n = int(rng.integers(0, 50)); h = int(rng.integers(0, MOD))
  x = rng.standard_normal((3, 2))
  base = {'n': jnp.asarray(n), 'h': jnp.asarray(h), 'x': jnp.asarray(x)}
  if kind == 'dict': return base
  if kind == 'nested': return (base, [Nt(jnp.asarray(rng.standard_normal(4)), jnp.asarray(2.5)), ()])
  if kind == 'fields':
    g = gen.mild_grid(rng, 2, (4, 5))
    return {**base, 'v': gen.periodic_velocity(rng, g, 'normal'), 'p': gen.arr(rng.standard_normal(g.shape), (.5, .5), g)}
  return jnp.asarray(n)  # a bare array


def make_step(rng, kind, log=None):
  a = float(rng.uniform(.5, 1.2)); m = int(rng.integers(3, 1000))
  def core(s):
    if log is not None:
      io_callback(lambda n: log.append(int(n)), None, s['n'], ordered=True)
    return {**s, 'n': s['n'] + 1, 'h': (s['h'] * 31 + m * s['n'] + 7) % MOD,
            'x': .6 * a * s['x'] + .25 * jnp.sin(s['x'][::-1] + s['n'])}
  def step(s):
    if kind == 'bare':
      if log is not None: io_callback(lambda n: log.append(int(n)), None, s, ordered=True)
      return s + 1
    if kind == 'dict': return core(s)
    if kind == 'nested':
      b, (t, e) = s
      return core(b), [Nt(t.a[::-1] * a * .8 + b['n'], t.b * .7 - 1.5 * t.a[0]), e]
    c = core({k: s[k] for k in 'nhx'})
    u, v = s['v']
    return {**c, 'v': (u.bc.impose_bc(v.array.data * G.GridArray(jnp.ones_like(u.data), u.offset, u.grid)),
                       v.bc.impose_bc(G.GridArray(jnp.cos(u.data + s['n']), v.offset, v.grid))),
            'p': s['p'] * a + 1.}
  return step


def post_fn(rng, kind):
  k = gen.pick(rng, ['identity', 'label', 'reduce', 'reshape'])
  if k == 'identity': return k, lambda s: s
  if k == 'label':
    return k, lambda s: {'state': s, 'hash': sum(jnp.sum(jnp.asarray(l, float)) for l in jax.tree_util.tree_leaves(s))}
  if k == 'reduce':
    return k, lambda s: tuple(jnp.sum(jnp.asarray(l, float) ** 2) for l in jax.tree_util.tree_leaves(s))
  return k, lambda s: jax.tree_util.tree_map(lambda l: jnp.reshape(l, (1, -1)), [l for l in jax.tree_util.tree_leaves(s)])


def by_hand(step, x, outer, inner=1, first=False, post=lambda s: s):
  frames = []
  for _ in range(outer):
    if first: frames.append(post(x))
    for _ in range(inner): x = step(x)
    if not first: frames.append(post(x))
  return x, frames


def same_tree(rec, mon, got, want, det, tol=1e-12):
  gl, gt = jax.tree_util.tree_flatten(got); wl, wt = jax.tree_util.tree_flatten(want)
  rec.ok(mon + ' (structure)', gt == wt, lambda: f'{det}: {gt} expected {wt}')
  for a, b in zip(gl, wl):
    a, b = np.asarray(a), np.asarray(b)
    if np.issubdtype(b.dtype, np.integer):
      rec.ok(mon, a.shape == b.shape and np.array_equal(a, b), lambda: f'{det}: {a} expected {b}')
    else:
      rec.close(mon, a, b, tol=tol, scale=np.abs(b).max() + 1 if b.size else 1, detail=det)


def same_frames(rec, mon, got, frames, outer, det, proto, tol=1e-12):
  """Compares stacked frames with a list."""
  if outer:
    want = jax.tree_util.tree_map(lambda *xs: np.stack([np.asarray(x) for x in xs]), *frames)
    same_tree(rec, mon, got, want, det, tol)
  else:
    gl, gt = jax.tree_util.tree_flatten(got); wl, wt = jax.tree_util.tree_flatten(proto)
    rec.ok(mon + ' (structure)', gt == wt, lambda: f'{det}: {gt} expected {wt}')
    for a, b in zip(gl, wl):
      rec.eq('empty trajectory has no frame', tuple(np.shape(a)), (0,) + tuple(np.shape(b)), det)


LEN = [0, 1, 1, 2, 3, 5, 8]
KINDS = ['bare', 'dict', 'nested', 'fields']


def suite_funcutils(rng, rec, i):
  kind = KINDS[i % 4]
  x = make_state(rng, kind)
  seed = int(rng.integers(1 << 30))
  log = []
  hand = make_step(np.random.default_rng(seed), kind)
  logged = make_step(np.random.default_rng(seed), kind, log)
  n0 = int(jax.tree_util.tree_leaves(x)[0]) if kind == 'bare' else int((x[0] if kind == 'nested' else x)['n'])
  steps = gen.pick(rng, LEN); inner = gen.pick(rng, [1, 1, 2, 3, 0]); first = bool(rng.integers(2))
  pk, post = post_fn(rng, kind)
  jit = jax.jit if rng.random() < .5 else (lambda f: f)
  rec.case('funcutils', kind, steps, inner, first, pk, jit is jax.jit, sample={'steps': steps, 'inner': inner, 'start_with_input': first, 'post': pk})
  det = f'{kind} steps={steps} inner={inner} start_with_input={first} post={pk} jit={jit is jax.jit}'
  got = jit(fu.repeated(logged, steps))(x)
  jax.effects_barrier()
  want, _ = by_hand(hand, x, steps)
  same_tree(rec, 'repeated step equals the by-hand loop', got, want, det)
  rec.eq('repeated step visits every state once, in order', log, list(range(n0, n0 + steps)), det)
  log.clear()
  stepper = logged if inner == 1 else fu.repeated(logged, inner)
  final, frames = jit(fu.trajectory(stepper, steps, post, start_with_input=first))(x)
  jax.effects_barrier()
  wf, wfr = by_hand(hand, x, steps, inner, first, post)
  same_tree(rec, 'final state of a trajectory', final, wf, det)
  same_frames(rec, 'frames of a trajectory', frames, wfr, steps, det, post(x))
  rec.eq('trajectory visits every state once, in order', log, list(range(n0, n0 + steps * inner)), det)
  if steps:  # default options
    _, fr = fu.trajectory(hand, steps)(x)
    same_frames(rec, 'default trajectory excludes the initial state', fr, by_hand(hand, x, steps)[1], steps, det, x)


def suite_compositions(rng, rec, i):
  """vmap / nesting / chaining of runs."""
  kind = gen.pick(rng, ['dict', 'nested', 'fields'])
  seed = int(rng.integers(1 << 30))
  step = make_step(np.random.default_rng(seed), kind)
  n, m = gen.pick(rng, [1, 2, 4]), gen.pick(rng, [1, 2, 3])
  rec.case('compose', kind, n, m)
  det = f'{kind} {n} {m}'
  x = make_state(rng, kind)
  same_tree(rec, 'nested repetition multiplies', fu.repeated(fu.repeated(step, n), m)(x), by_hand(step, x, n * m)[0], det)
  a, f1 = fu.trajectory(step, n)(x); b, f2 = fu.trajectory(step, m)(a)
  same_frames(rec, 'a trajectory continues from its final state',
              jax.tree_util.tree_map(lambda p, q: np.concatenate([p, q]), f1, f2), by_hand(step, x, n + m)[1], n + m, det, x)
  if kind == 'fields': return
  xs = [make_state(np.random.default_rng(seed + k), kind) for k in range(3)]
  X = jax.tree_util.tree_map(lambda *l: jnp.stack(l), *xs)
  fb, frb = jax.vmap(fu.trajectory(step, n, start_with_input=True))(X)
  for k, xk in enumerate(xs):
    w, fr = by_hand(step, xk, n, first=True)
    same_tree(rec, 'batched trajectory', jax.tree_util.tree_map(lambda l: l[k], fb), w, det)
    same_frames(rec, 'batched trajectory', jax.tree_util.tree_map(lambda l: l[k], frb), fr, n, det, xk)


def suite_scan(rng, rec, i):
  """funcutils.scan with inputs equals a loop; init_context() evaluates once and keeps shapes."""
  L = gen.pick(rng, [1, 2, 5]); given = bool(rng.integers(2))
  xs = {'a': jnp.asarray(rng.standard_normal((L, 2))), 'b': (jnp.asarray(rng.integers(0, 9, (L,))),)}
  log = []
  def f(c, x):
    io_callback(lambda v: log.append(int(v)), None, x['b'][0], ordered=True)
    c = c * 3 + x['b'][0]
    return c, {'c': c, 's': x['a'] * c}
  rec.case('scan', L, given)
  c, ys = fu.scan(f, jnp.asarray(2), xs, L if given else None)
  jax.effects_barrier()
  w = 2; cs = []
  for k in range(L):
    w = w * 3 + int(xs['b'][0][k]); cs.append(w)
  rec.eq('scan carry', int(c), w); rec.eq('scan consumes its inputs in order', log, [int(v) for v in xs['b'][0]])
  rec.ok('scan outputs', np.array_equal(ys['c'], cs) and np.allclose(ys['s'], np.asarray(xs['a']) * np.array(cs)[:, None]), f'{L}')
  calls = []
  def step(x):
    calls.append(1); return {'x': x['x'] * 2.}
  x = {'x': jnp.asarray(rng.standard_normal(3))}
  n, m = gen.pick(rng, [1, 2, 7]), gen.pick(rng, [1, 3])
  ref = fu.trajectory(fu.repeated(step, m), n)(x)
  with fu.init_context():
    with fu.init_context():
      pass
    calls.clear()
    t = fu.trajectory(fu.repeated(step, m), n)(x)
    k = len(calls); calls.clear()
    r = fu.repeated(step, n)(x)
    si = fu.scan(lambda c, q: (c + q['b'][0], {'s': q['a'] * 2}), jnp.asarray(2), xs, L if given else None)
  rec.ok('initialisation keeps structure and shapes', jnp.shape(si[0]) == () and jnp.shape(si[1]['s']) == (L, 2), f'scan over {L}')
  rec.eq('initialisation calls the step once', (k, len(calls)), (1, 1), f'{n} {m}')
  rec.ok('initialisation keeps structure and shapes', jax.tree_util.tree_map(jnp.shape, t) == jax.tree_util.tree_map(jnp.shape, ref)
         and jax.tree_util.tree_map(jnp.shape, r) == jax.tree_util.tree_map(jnp.shape, x), f'{n} {m}')
  try:
    with fu.init_context(): raise KeyError('x')
  except KeyError: pass
  same_tree(rec, 'runs are complete again after initialisation', fu.repeated(step, n)(x), {'x': np.asarray(x['x']) * 2. ** n}, f'{n}')


class Cell(hk.Module):
  """A step with parameters and an order-sensitive counter."""

  def __call__(self, s):
    w = hk.get_parameter('w', (3, 3), jnp.float64, init=hk.initializers.RandomNormal(.4))
    return {'n': s['n'] + 1, 'h': (s['h'] * 31 + 17 * s['n'] + 7) % MOD, 'x': jnp.tanh(s['x'] @ w + .1 * s['n'])}


def suite_ml(rng, rec, i):
  outer, inner = gen.pick(rng, [1, 2, 4, 0]), gen.pick(rng, [1, 2, 3, 0, 5])
  first, ck, jit = bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
  pk, post = post_fn(rng, 'dict')
  rec.case('ml', outer, inner, first, ck, pk, jit)
  det = f'outer={outer} inner={inner} start_with_input={first} checkpoint={ck} post={pk} jit={jit}'
  x = {'n': jnp.asarray(int(rng.integers(9))), 'h': jnp.asarray(int(rng.integers(MOD))), 'x': jnp.asarray(rng.standard_normal((2, 3)))}
  def one(x): return Cell()(x)
  def run(x):
    cell = Cell()
    return mb.trajectory_from_step(cell, outer, inner, start_with_input=first, post_process_fn=post, set_checkpoint=ck)(x)
  f = hk.without_apply_rng(hk.transform(run)); s = hk.without_apply_rng(hk.transform(one))
  params = hk.transform(one).init(jax.random.PRNGKey(i), x)
  ini = f.init(jax.random.PRNGKey(i), x)
  rec.ok('trajectory shares the parameters of its step', jax.tree_util.tree_structure(ini) == jax.tree_util.tree_structure(params),
         f'{jax.tree_util.tree_map(jnp.shape, ini)}')
  app = jax.jit(f.apply) if jit else f.apply
  final, frames = app(params, x)
  hand = functools.partial(s.apply, params)
  wf, wfr = by_hand(hand, x, outer, inner, first, post)
  same_tree(rec, 'final state of a model trajectory', final, wf, det, tol=1e-10)
  same_frames(rec, 'frames of a model trajectory', frames, wfr, outer, det, post(x), tol=1e-10)
  # checkpointing must not change gradients either
  if outer and inner and i % 2 == 0:
    lossg = lambda p: jnp.sum(app(p, x)[0]['x'] ** 2)
    lossw = lambda p: jnp.sum(by_hand(functools.partial(s.apply, p), x, outer, inner)[0]['x'] ** 2)
    ga, gb = jax.grad(lossg)(params), jax.grad(lossw)(params)
    same_tree(rec, 'gradient of a model trajectory', ga, gb, det, tol=1e-9)
  rp = hk.without_apply_rng(hk.transform(lambda x: mb.repeated(Cell(), inner)(x)))
  same_tree(rec, 'repeated model step', rp.apply(params, x), by_hand(hand, x, inner)[0], det, tol=1e-10)


class Toy(mb.DynamicalSystem):
  """Encodes (time, ...) data from its last frames; the state carries a counter."""

  def encode(self, x):
    w = hk.get_parameter('e', (), jnp.float64, init=hk.initializers.RandomNormal())
    return {'n': jnp.asarray(0), 'h': jnp.asarray(1), 'x': w * x['u'][-1] - x['u'][0] + x['c'][-1]}

  def decode(self, s):
    return {'u': 2. * s['x'] + s['n'], 'c': s['x'][:, 0] * s['h']}

  def advance(self, s):
    return Cell()(s)


def suite_model(rng, rec, i):
  """DynamicalSystem.trajectory and decoded_trajectory_with_inputs, with gin-bound checkpointing."""
  T = 6; k = int(rng.integers(1, T + 1)); outer, inner = gen.pick(rng, [1, 3, 4]), gen.pick(rng, [1, 2, 3])
  ck = bool(rng.integers(2)); first = bool(rng.integers(2))
  rec.case('model', k, outer, inner, ck, first)
  det = f'init frames {k}, outer={outer} inner={inner} checkpoint={ck} first={first}'
  x = {'u': jnp.asarray(rng.standard_normal((T, 2, 3))), 'c': jnp.asarray(rng.standard_normal((T, 2, 1)))}
  x['c'] = jnp.broadcast_to(x['c'], (T, 2, 1))
  # decoded data must have the structure of the input
  g = gen.mild_grid(rng, 1, (4,))
  class M(Toy):
    def decode(self, s): return {'u': 2. * s['x'] + s['n'], 'c': s['x'][:, :1] * s['h']}
  net = lambda: M(g, .1, None)
  def full(x): return mu.decoded_trajectory_with_inputs(net(), k)(x, outer, inner)
  def parts(which, a):
    m = net()
    return {'encode': m.encode, 'decode': m.decode, 'advance': m.advance}[which](a)
  gin.clear_config()
  try:
    with gin.unlock_config():
      gin.bind_parameter('trajectory_from_step.set_checkpoint', ck)
    F = hk.without_apply_rng(hk.transform(full))
    p = F.init(jax.random.PRNGKey(i), x)
    final, traj = F.apply(p, x)
    Q = hk.without_apply_rng(hk.transform(parts))
    call = lambda w, a: Q.apply(p, w, a)
    s = call('encode', jax.tree_util.tree_map(lambda l: l[:k], x))
    wf, wfr = by_hand(lambda a: call('advance', a), s, outer, inner, False, lambda a: call('decode', a))
    same_tree(rec, 'decoded trajectory: final model state', final, wf, det, tol=1e-10)
    wfr = [jax.tree_util.tree_map(lambda l: l[j], x) for j in range(k)] + wfr
    same_frames(rec, 'decoded trajectory is the inputs followed by the decoded states', traj, wfr, k + outer, det, None, tol=1e-10)
    # model.trajectory
    S = hk.without_apply_rng(hk.transform(lambda s: net().trajectory(s, outer, inner, start_with_input=first)))
    f2, t2 = S.apply(p, s)
    wf, wfr = by_hand(lambda a: call('advance', a), s, outer, inner, first)
    same_tree(rec, 'model trajectory: final state', f2, wf, det, tol=1e-10)
    same_frames(rec, 'model trajectory: frames', t2, wfr, outer, det, s, tol=1e-10)
  finally:
    gin.clear_config()


def suite_utils(rng, rec, i):
  """The decorators on their own, for every time axis."""
  ax = int(rng.integers(0, 3)); shp = [4, 5, 6]
  x = (jnp.asarray(rng.standard_normal(shp)), {'a': jnp.asarray(rng.standard_normal(shp))})
  k = int(rng.integers(1, shp[ax]))
  rec.case('utils', ax, k)
  calls = []
  def traj(y, p, q=3):
    calls.append((y, p, q))
    return 'final', jax.tree_util.tree_map(lambda l: -l, y)
  f, u = mu.with_input_included(traj, ax)(x, 5, q=7)
  rec.eq('arguments are passed through', calls[0][1:], (5, 7))
  rec.eq('final state is passed through', f, 'final')
  same_tree(rec, 'inputs precede outputs', u, jax.tree_util.tree_map(lambda l: np.concatenate([l, -l], ax), x), f'{ax}')
  calls.clear()
  f, u = mu.with_split_input(traj, k, ax)(x, 5, q=7)
  rec.eq('arguments are passed through', calls[0][1:], (5, 7))
  sl = tuple([slice(None)] * ax + [slice(0, k)])
  same_tree(rec, 'only the first frames are used', u, jax.tree_util.tree_map(lambda l: -np.asarray(l)[sl], x), f'{ax} {k}')
  r = mu.with_preprocessing(lambda z, b, c=0: (z, b, c), lambda z: z * 2)(jnp.asarray(3.), 4, c=5)
  rec.eq('preprocessing applies to the first argument only', (float(r[0]), r[1], r[2]), (6., 4, 5))
  r = mu.with_post_processing(lambda a, b: (a, b), lambda a, b: (b, a))(1, b=2)
  rec.eq('post-processing receives all outputs', r, (2, 1))


def suite_euler(rng, rec, i):
  n = gen.pick(rng, [0, 1, 3, 6]); dt = float(rng.uniform(.01, .5)); A = rng.standard_normal((3, 3))
  x = {'a': jnp.asarray(rng.standard_normal(3)), 'b': (jnp.asarray(rng.standard_normal((2, 3))),)}
  rec.case('euler', n)
  F = lambda s: {'a': jnp.asarray(A) @ s['a'] + s['b'][0][0], 'b': (jnp.sin(s['b'][0]) * s['a'],)}
  run = hk.without_apply_rng(hk.transform(lambda x: ti.euler_integrator(F, x, dt, n)))
  final, fr = run.apply({}, x)
  step = lambda s: jax.tree_util.tree_map(lambda u, d: u + dt * d, s, F(s))
  wf, wfr = by_hand(step, x, n)
  same_tree(rec, 'Euler integration: final state', final, wf, f'{n}', tol=1e-11)
  same_frames(rec, 'Euler integration: frames', fr, wfr, n, f'{n}', x, tol=1e-11)


def suite_solver(rng, rec, i):
  """Real solvers: frames of trajectories are the states of single steps."""
  s = workloads.simulation(rng, pool=[(6, 8), (4, 5, 6)])
  outer, inner, first = gen.pick(rng, [2, 3]), gen.pick(rng, [1, 2]), bool(rng.integers(2))
  rec.case('solver', s.kind, s.convect, s.stepper, outer, inner, first, sample={'grid': str(s.grid), 'kind': s.kind})
  det = f'{s.kind} {s.grid.shape} {s.convect} outer={outer} inner={inner} first={first}'
  step = s.step if inner == 1 else fu.repeated(s.step, inner)
  final, frames = jax.jit(fu.trajectory(step, outer, start_with_input=first))(s.v)
  jstep = jax.jit(s.step)
  wf, wfr = by_hand(jstep, s.v, outer, inner, first)
  tol = 1e-7 if s.kind == 'collocated' else 1e-9
  same_tree(rec, 'solver trajectory: final state', final, wf, det, tol=tol)
  same_frames(rec, 'solver trajectory: frames', frames, wfr, outer, det, s.v, tol=tol)


SUITES = {
    'funcutils': (suite_funcutils, 140, 4000),
    'compositions': (suite_compositions, 30, 800),
    'scan': (suite_scan, 20, 400),
    'ml': (suite_ml, 60, 2500),
    'model': (suite_model, 24, 800),
    'utils': (suite_utils, 12, 100),
    'euler': (suite_euler, 12, 200),
    'solver': (suite_solver, 12, 500),
}
REQUIRED = ['repeated step visits every state once, in order', 'trajectory visits every state once, in order',
            'frames of a trajectory', 'frames of a model trajectory',
            'decoded trajectory is the inputs followed by the decoded states', 'solver trajectory: frames']
