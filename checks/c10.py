"""C10: pressure projection yields the divergence-free part of the velocity."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, pressure as pr, finite_differences as fd
from jax_cfd.collocated import pressure as cpr
from vlib import core, gen, ref, monitors, workloads
from vlib.gen import P, Dd, N

RULE = ('random velocity (any content) on random anisotropic 1-3D grids with periodic axes, impermeable or '
        'through-flow walls and free- or no-slip tangential conditions, every solver, both layouts, length units '
        'from 1e-4 to 1e5 in both precisions; distinct by (suite, walls, conditions, shape, solver)')
ASSUMPTIONS = ['wall-normal velocities are prescribed with zero net flux (otherwise no divergence-free field exists)',
               'uniqueness of the result is judged for staggered velocities with zero or constant wall values']

PB = B.periodic_boundary_conditions


def lap1(n, h, per):
  """1-D pressure Laplacian: periodic wrap or zero gradient at both ends."""
  L = np.zeros((n, n))
  for j in range(n):
    for k in (j - 1, j + 1):
      if per: k %= n
      if 0 <= k < n:
        L[j, k] += 1 / h ** 2; L[j, j] -= 1 / h ** 2
  return L


def div_np(v, bcs, g):
  """Divergence of face data (faces at the upper side of each cell)."""
  d = 0
  for ax, (u, b, h) in enumerate(zip(v, bcs, g.step)):
    prev = np.roll(u, 1, ax)
    if b.types[ax][0] != P:
      np.moveaxis(prev, ax, 0)[0] = b.bc_values[ax][0]
    d = d + (u - prev) / h
  return d


def fix_normal(v, bcs, g):
  out = []
  for ax, (u, b) in enumerate(zip(v, bcs)):
    u = np.array(u, float)
    if b.types[ax][1] != P:
      np.moveaxis(u, ax, 0)[-1] = b.bc_values[ax][1]
    out.append(u)
  return out


def project_np(v, bcs, g):
  """Orthogonal projection by eigen-decomposition, independent of the library."""
  per = [b.types[ax][0] == P for ax, b in enumerate(bcs)]
  v = fix_normal(v, bcs, g)
  d = div_np(v, bcs, g)
  W = [np.linalg.eigh(lap1(n, h, p)) for n, h, p in zip(g.shape, g.step, per)]
  lam = 0
  x = d
  for ax, (w, Q) in enumerate(W):
    s = [1] * g.ndim; s[ax] = -1
    lam = lam + w.reshape(s)
    x = np.moveaxis(np.tensordot(Q.T, x, (1, ax)), 0, ax)
  k = np.unravel_index(np.argmin(np.abs(lam)), lam.shape)
  lam[k] = 1; x[k] = 0
  x = x / lam
  for ax, (w, Q) in enumerate(W):
    x = np.moveaxis(np.tensordot(Q, x, (1, ax)), 0, ax)
  out = []
  for ax, u in enumerate(v):
    q = (np.roll(x, -1, ax) - x) / g.step[ax]
    if not per[ax]:
      np.moveaxis(q, ax, 0)[-1] = 0
    out.append(u - q)
  return out, x


def meta(rec, name, v, w, det=''):
  rec.eq(name, len(w), len(v), 'components')
  for a, b in zip(v, w):
    rec.field(name, b, None, offset=a.offset, grid=a.grid, bc=a.bc, detail=det)
    rec.eq(name, str(b.dtype), str(a.dtype), 'dtype ' + det)


def speed(v):
  return max(float(np.abs(np.asarray(u.data)).max()) for u in v) + 1e-300


SHP = [(7,), (12,), (6, 9), (8, 5), (12, 8), (7, 7), (4, 6, 5), (5, 3, 8), (1, 8), (2, 6), (6, 2, 5), (4, 1)]

SOLVERS = {
    'default': None,
    'fast_diag': pr.solve_fast_diag,
    'matmul': functools.partial(pr.solve_fast_diag, implementation='matmul'),
    'fft': functools.partial(pr.solve_fast_diag, implementation='fft'),
    'rfft': functools.partial(pr.solve_fast_diag, implementation='rfft'),
    'channel': pr.solve_fast_diag_channel_flow,
    'cg': functools.partial(pr.solve_cg, rtol=1e-13, atol=1e-13),
}


def project(v, name):
  s = SOLVERS[name]
  return pr.projection(v) if s is None else pr.projection(v, s)


def s_periodic(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP))
  nd = g.ndim
  v = gen.periodic_velocity(rng, g)
  bcs = [u.bc for u in v]
  U = speed(v); S = U * sum(2 / h for h in g.step)
  name = gen.pick(rng, [s for s in SOLVERS if not (s == 'rfft' and g.shape[-1] % 2)])
  rec.case('periodic', g.shape, name)
  det = f'{name} {g}'
  tol = 1e-8 if name == 'cg' else 1e-9
  w = project(v, name)
  wd = [np.asarray(u.data) for u in w]; vd = [np.asarray(u.data) for u in v]
  meta(rec, 'meta', v, w, det)
  rec.small('divergence', div_np(wd, bcs, g), S, tol, detail=det)
  want, q = project_np(vd, bcs, g)
  for a, b in zip(wd, want):
    rec.close('projection', a, b, tol=tol * 10, scale=U * nd, detail=det)
  ke = lambda x: sum((a ** 2).sum() for a in x)
  rec.leq('energy', ke(wd), ke(vd), 1e-9 * U ** 2 * vd[0].size * (1 if name != 'cg' else 10), det)
  w2 = project(w, name)
  for a, b in zip(w2, w):
    rec.close('idempotent', a, b, tol=tol * 10, scale=U, detail=det)
  if min(g.shape) > 2:
    s = tuple(gen.var(u, o, g, PB(nd)) for u, o in zip(gen.stream_velocity(rng, g), g.cell_faces))
    Us = speed(s)
    for a, b in zip(project(s, name), s):
      rec.close('divergence-free unchanged', a, b, tol=tol * 10, scale=Us + 1e-9, detail=det)
    p = rng.standard_normal(g.shape)
    gr = tuple(gen.var(u, o, g, PB(nd)) for u, o in zip(ref.pgrad(p, g.step), g.cell_faces))
    mean = [rng.normal() for _ in range(nd)]
    gm = tuple(gen.var(np.asarray(u.data) + m, u.offset, g, PB(nd)) for u, m in zip(gr, mean))
    for a, m in zip(project(gm, name), mean):
      rec.close('gradient removed', a, np.full(g.shape, m), tol=tol * 100, scale=speed(gm), detail=det)
    al = float(rng.normal())
    comb = tuple(gen.var(np.asarray(a.data) + al * np.asarray(b.data), a.offset, g, PB(nd)) for a, b in zip(v, s))
    for a, b, c in zip(project(comb, name), wd, s):
      rec.close('linear', a, b + al * np.asarray(c.data), tol=tol * 100, scale=U + abs(al) * Us, detail=det)


def wall_problem(rng, g):
  """Velocity with walls on some axes; returns variables and their conditions."""
  nd = g.ndim
  walls = rng.random(nd) < .6
  if not walls.any(): walls[int(rng.integers(nd))] = True
  through = [float(np.round(rng.normal(), 2)) if rng.random() < .3 else 0. for _ in range(nd)]
  slip = rng.random() < .3
  bcs = []
  for c in range(nd):
    t, val = [], []
    for a in range(nd):
      if not walls[a]:
        t.append((P, P)); val.append((None, None))
      elif a == c:
        t.append((Dd, Dd)); val.append((through[a], through[a]))
      elif slip:
        t.append((N, N)); val.append((0., 0.))
      else:
        t.append((Dd, Dd)); val.append((float(np.round(rng.normal(), 2)), float(np.round(rng.normal(), 2))))
    if all(x in ((None, None), (0., 0.)) for x in val) and rng.random() < .5:
      bcs.append(B.HomogeneousBoundaryConditions(tuple(t)))
    else:
      bcs.append(B.ConstantBoundaryConditions(tuple(t), tuple(val)))
  return tuple(bool(w) for w in walls), through, slip, bcs


def s_walls(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, [s for s in SHP if min(s) > 1]))
  nd = g.ndim
  walls, through, slip, bcs = wall_problem(rng, g)
  fix = rng.random() < .7
  v = tuple(gen.variable(rng, g, o, b, fix=fix) for o, b in zip(g.cell_faces, bcs))
  name = gen.pick(rng, ['default', 'fast_diag', 'channel', 'matmul', 'cg'])
  U = speed(v) + max(map(abs, through)) + 1e-3; S = U * sum(2 / h for h in g.step)
  det = f'{name} walls {walls} through {through} slip {slip} {g}'
  rec.case('walls', walls, slip, [bool(t) for t in through], name, g.shape)
  tol = 1e-8 if name == 'cg' else 1e-9
  if name == 'cg' and nd == 1:
    name = 'default'
  w = project(v, name)
  meta(rec, 'walls:meta', v, w, det)
  wd = [np.asarray(u.data) for u in w]; vd = [np.asarray(u.data) for u in v]
  rec.small('walls:divergence', div_np(wd, bcs, g), S, tol * 10, detail=det)
  lib = fd.divergence(w)
  rec.small('walls:divergence', lib, S, tol * 10, detail='fd.divergence ' + det)
  want, q = project_np(vd, bcs, g)
  for ax, (a, b) in enumerate(zip(wd, want)):
    rec.close('walls:projection', a, b, tol=tol * 100, scale=U * nd, detail=det)
    if walls[ax]:
      rec.close('walls:wall velocity', np.moveaxis(a, ax, 0)[-1], np.full(np.moveaxis(a, ax, 0)[-1].shape, through[ax]),
                tol=1e-12, scale=U, detail=det)
  if not any(through):
    f = fix_normal(vd, bcs, g)
    rec.leq('walls:energy', sum((a ** 2).sum() for a in wd), sum((a ** 2).sum() for a in f), 1e-8 * U ** 2 * wd[0].size, det)
  w2 = project(w, name)
  for a, b in zip(w2, w):
    rec.close('walls:idempotent', a, b, tol=tol * 10, scale=U, detail=det)


def s_solvers(rng, rec, i):
  """All solvers, and the pressure itself up to a constant."""
  per = rng.random() < .5
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8,), (6, 8), (8, 5), (7, 7), (4, 6, 5), (5, 4, 6)]))
  nd = g.ndim
  if per:
    v = gen.periodic_velocity(rng, g, 'normal'); bcs = [u.bc for u in v]
  else:
    _, _, _, bcs = wall_problem(rng, g)
    v = tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(g.cell_faces, bcs))
  vd = [np.asarray(u.data) for u in v]
  _, q = project_np(vd, bcs, g)
  q = q - q.mean()
  S = np.abs(q).max() + 1e-9
  pbc = B.get_pressure_bc_from_velocity(v)
  q0 = gen.var(rng.standard_normal(g.shape), g.cell_center, g, pbc)
  rec.case('solvers', per, g.shape, [b.types for b in bcs])
  for name, s in SOLVERS.items():
    if s is None or (name == 'rfft' and per and g.shape[-1] % 2): continue
    for arg in (None, pbc):
      r = s(v, q0, arg)
      r_ = np.asarray(r.data); r_ = r_ - r_.mean()
      rec.ok('pressure:meta', r.offset == g.cell_center and core.grid_key(r.grid) == core.grid_key(g), f'{name} offset {r.offset}')
      rec.close('pressure', r_, q, tol=1e-7 if name == 'cg' else 1e-9, scale=S, detail=f'{name} bc={arg is not None} {g}')
  for z in (gen.var(np.zeros(g.shape), g.cell_center, g, pbc),):
    r = pr.solve_cg(v, z)
    lap = np.asarray(ref.Field(gen.var(r.data, g.cell_center, g, pbc)).lap())
    d = div_np(fix_normal(vd, bcs, g), bcs, g)
    rec.leq('cg default tolerance', np.sqrt(((lap - d) ** 2).sum()), max(1.05e-6, 1.05e-6 * np.sqrt((d ** 2).sum())), 1e-10 * np.abs(d).max() * d.size)


def s_pressure_bc(rng, rec, i):
  """An explicitly requested pressure condition is the one the pressure satisfies."""
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8,), (6, 8), (8, 5), (4, 6, 5)]))
  nd = g.ndim
  walls, through, slip, bcs = wall_problem(rng, g)
  v = tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(g.cell_faces, bcs))
  t = []
  for a in range(nd):
    t.append((P, P) if not walls[a] else (gen.pick(rng, [Dd, N]), gen.pick(rng, [Dd, N])))
  if not any(Dd in x for x in t):
    a = walls.index(True); t[a] = (gen.pick(rng, [Dd, N]), Dd)
  # a pressure prescribed somewhere admits a net flux through the walls
  for a in range(nd):
    if walls[a] and rng.random() < .7:
      vals = list(bcs[a].bc_values); vals[a] = (float(np.round(rng.normal(), 2)), float(np.round(rng.normal(), 2)))
      bcs[a] = B.ConstantBoundaryConditions(bcs[a].types, tuple(vals))
  v = tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(g.cell_faces, bcs))
  pbc = B.HomogeneousBoundaryConditions(tuple(t))
  rec.case('pressure-bc', tuple(t), g.shape)
  d = div_np(fix_normal([np.asarray(u.data) for u in v], bcs, g), bcs, g)
  for name in ('fast_diag', 'channel', 'cg'):
    q = SOLVERS[name](v, gen.var(np.zeros(g.shape), g.cell_center, g, pbc), pbc)
    lap = ref.Field(gen.var(q.data, g.cell_center, g, pbc)).lap()
    rec.close('requested pressure bc', lap, d, tol=1e-8, scale=np.abs(d).max() + 1e-9, detail=f'{name} {t} {g}')


def s_units(rng, rec, i):
  """The constraint does not depend on the unit of length or on the precision."""
  f32 = rng.random() < .5
  g0 = gen.mild_grid(rng, shp=gen.pick(rng, [(6, 8), (16, 12), (8, 5), (4, 6, 5)]), lower=False)
  unit = float(10. ** rng.integers(-4, 6))
  g = G.Grid(g0.shape, domain=tuple((0., hi * unit) for _, hi in g0.domain))
  dt = np.float32 if f32 else np.float64
  walls = rng.random() < .4
  if walls:
    _, _, _, bcs = wall_problem(rng, g)
  else:
    bcs = [PB(g.ndim)] * g.ndim
  amp = float(10. ** rng.integers(-3, 4))
  v = []
  for o, b in zip(g.cell_faces, bcs):
    d = gen.wall_fix(amp * rng.standard_normal(g.shape), g, o, b)
    v.append(gen.var(d.astype(dt), o, g, b))
  rec.case('units', f32, unit, walls, g.shape)
  name = gen.pick(rng, ['default', 'matmul'] + ([] if walls else ['fft']))
  w = project(tuple(v), name)
  meta(rec, 'units:meta', v, w)
  U = max(speed(v), speed(w))
  wd = [np.asarray(u.data, float) for u in w]
  tol = 1e-4 if f32 else 1e-9
  det = f'{name} f32={f32} unit {unit:g} {g}'
  rec.small('units:divergence', div_np(wd, bcs, g), U * sum(2 / h for h in g.step), tol, detail=det)
  want, _ = project_np([np.asarray(u.data, float) for u in v], bcs, g)
  for a, b in zip(wd, want):
    rec.close('units:projection', a, b, tol=tol * 10, scale=U, detail=det)


def cdiv(v, steps):
  return sum((np.roll(u, -1, a) - np.roll(u, 1, a)) / (2 * h) for a, (u, h) in enumerate(zip(v, steps)))


def cproject(v, steps):
  """Projection for central differences by FFT."""
  sh = v[0].shape
  K = []
  for a, (n, h) in enumerate(zip(sh, steps)):
    s = [1] * len(sh); s[a] = n
    k = np.sin(2 * np.pi * np.fft.fftfreq(n)) / h
    K.append(np.where(np.abs(k) < 1e-12 / h, 0, k).reshape(s) * np.ones(sh))
  V = [np.fft.fftn(u) for u in v]
  kk = sum(k * k for k in K)
  kv = sum(k * u for k, u in zip(K, V)) / np.where(kk == 0, 1, kk)
  return [np.real(np.fft.ifftn(u - k * kv)) for u, k in zip(V, K)]


def s_collocated(rng, rec, i):
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8,), (6, 8), (8, 5), (7, 7), (4, 6, 5)]))
  nd = g.ndim
  v = gen.periodic_velocity(rng, g, gen.pick(rng, ['normal', 'steps', 'spikes']), collocated=True)
  U = speed(v)
  tight = functools.partial(cpr.solve_cg, rtol=1e-13, atol=1e-13 * U)
  rec.case('collocated', g.shape)
  vd = [np.asarray(u.data) for u in v]
  w = cpr.projection(v, tight)
  meta(rec, 'collocated:meta', v, w)
  wd = [np.asarray(u.data) for u in w]
  rec.small('collocated:divergence', cdiv(wd, g.step), U * sum(1 / h for h in g.step), 1e-9, detail=str(g))
  for a, b in zip(wd, cproject(vd, g.step)):
    rec.close('collocated:projection', a, b, tol=1e-8, scale=U + 1e-9, detail=str(g))
  rec.leq('collocated:energy', sum((a ** 2).sum() for a in wd), sum((a ** 2).sum() for a in vd), 1e-9 * U ** 2 * vd[0].size)
  for a, b in zip(cpr.projection(w, tight), wd):
    rec.close('collocated:idempotent', a, b, tol=1e-9, scale=U + 1e-9)
  w = cpr.projection(v)
  d0 = cdiv(vd, g.step); d1 = cdiv([np.asarray(u.data) for u in w], g.step)
  rec.leq('collocated:default', np.sqrt((d1 ** 2).sum()), max(1.05e-6, 1.05e-6 * np.sqrt((d0 ** 2).sum())), 1e-12 * U / min(g.step) * d0.size)


def s_tolerance(rng, rec, i):
  """Iterative solves meet the tolerances they are given, whatever the scale of the flow, and start from the given guess."""
  kind = ['periodic', 'walls', 'collocated'][i % 3]
  U = float(10. ** rng.integers(-9, 7)); r = float(10. ** rng.integers(-10, -2))
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8, 6), (6, 9), (4, 6, 5)]))
  if kind == 'walls':
    bcs = gen.wall_velocity_bc(rng, g.ndim, (True,) * g.ndim, tangential=False)
    v = tuple(b.impose_bc(gen.arr(U * rng.standard_normal(g.shape), o, g)) for o, b in zip(g.cell_faces, bcs))
    v = tuple(gen.var(np.asarray(u.data), u.offset, g, B.HomogeneousBoundaryConditions(u.bc.types)).impose_bc() for u in v)
  else:
    v = gen.periodic_velocity(rng, g, 'normal', collocated=kind == 'collocated')
    v = tuple(gen.var(U * np.asarray(u.data), u.offset, g, u.bc) for u in v)
  mod = cpr if kind == 'collocated' else pr
  div = (lambda w: cdiv([np.asarray(u.data) for u in w], g.step)) if kind == 'collocated' else (
      lambda w: div_np([np.asarray(u.data) for u in w], [u.bc for u in w], g))
  n0 = np.sqrt((div(v) ** 2).sum())
  rec.case('tolerance', kind, g.shape, int(np.log10(U)), int(np.log10(r)))
  noise = 1e-13 * U / min(g.step) * np.sqrt(v[0].data.size)
  for nm, kw in [('relative', dict(rtol=r, atol=0.)), ('absolute', dict(rtol=0., atol=r * n0)), ('both', dict(rtol=r, atol=1e-3 * r * n0)), ('both', dict(rtol=1e-3 * r, atol=r * n0))]:
    w = mod.projection(v, functools.partial(mod.solve_cg, **kw))
    rec.leq('tolerance', np.sqrt((div(w) ** 2).sum()), 1.05 * r * n0, 1e3 * noise, detail=f'{kind} {nm} {kw} divergence before {n0:.3g} {g}')
  pb = B.get_pressure_bc_from_velocity(v)
  q0 = pb.impose_bc(gen.arr(U * rng.standard_normal(g.shape), v[0].offset if kind == 'collocated' else g.cell_center, g))
  rec.close('initial guess', mod.solve_cg(v, q0, maxiter=0), np.asarray(q0.data), tol=1e-14, detail=f'{kind} no iterations')
  # a guess that already solves the equation is left alone
  q = pb.impose_bc(mod.solve_cg(v, q0, rtol=1e-13, atol=0.))
  rec.close('initial guess', mod.solve_cg(v, q, rtol=1e-6, atol=0.), np.asarray(q.data), tol=1e-13, detail=f'{kind} exact guess')


def s_sim(rng, rec, i):
  kind = gen.pick(rng, ['explicit', 'implicit', 'walls', 'walls', 'les', 'collocated'])
  s = workloads.simulation(rng, kind, pool=[(8, 5), (6, 9), (4, 6, 5)])
  rec.case(s.kind, s.walls, s.grid.shape, s.convect)
  def seen(rec, a, out):
    v = a['v']; g = v[0].grid
    if kind == 'collocated':
      d = cdiv([np.asarray(u.data) for u in out], g.step)
    else:
      d = div_np([np.asarray(u.data) for u in out], [u.bc for u in out], g)
      want, _ = project_np([np.asarray(u.data) for u in v], [u.bc for u in v], g)
      for x, y in zip(out, want):
        rec.close('sim:projection', x, y, tol=1e-8, scale=speed(v) * g.ndim, detail=kind)
    rec.small('sim:divergence', d, speed(v) * sum(2 / h for h in g.step), 1e-8, detail=kind)
    meta(rec, 'sim:meta', v, out)
  from jax_cfd.base import equations as eq
  from jax_cfd.collocated import equations as ceq
  v = s.v
  for _ in range(2):
    v0, v = v, s.step(v)
    g = s.grid
    d = cdiv([np.asarray(u.data) for u in v], g.step) if kind == 'collocated' else div_np(
        [np.asarray(u.data) for u in v], [u.bc for u in v], g)
    rec.small('sim:divergence', d, max(speed(v), speed(v0)) * sum(2 / h for h in g.step), 1e-8, detail=kind)
    meta(rec, 'sim:meta', v0, v)
  mod = cpr if kind == 'collocated' else pr
  with monitors.hook([(mod, 'projection', seen)], rec):
    w = mod.projection(v, functools.partial(cpr.solve_cg, rtol=1e-12, atol=1e-13)) if kind == 'collocated' else mod.projection(
        tuple(gen.var(np.asarray(u.data) + .1 * rng.standard_normal(g.shape), u.offset, g, u.bc) for u in v))


SUITES = {
    'periodic': (s_periodic, 45, 1200),
    'walls': (s_walls, 45, 1200),
    'solvers': (s_solvers, 12, 300),
    'pressure_bc': (s_pressure_bc, 16, 300),
    'units': (s_units, 32, 600),
    'collocated': (s_collocated, 12, 300),
    'tolerance': (s_tolerance, 9, 300),
    'sim': (s_sim, 14, 300),
}
REQUIRED = ['divergence', 'projection', 'idempotent', 'divergence-free unchanged', 'gradient removed', 'linear', 'energy',
            'walls:divergence', 'walls:projection', 'walls:wall velocity', 'pressure', 'requested pressure bc',
            'units:divergence', 'collocated:projection', 'tolerance', 'initial guess']
