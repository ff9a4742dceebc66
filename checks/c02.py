"""C02: imposing boundary conditions fixes wall values and only wall values."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G
from vlib import gen, ref, monitors, workloads
from vlib.gen import P, Dd, N

RULE = ('random grid (1-3D), boundary types/values, offset and raw (inconsistent) field content, ghost '
        'padding; derived pressure/flux conditions for random velocity and scalar conditions; distinct '
        'by (ndim, types, offset, padding, shape)')
ASSUMPTIONS = ['float64; samples lying on two Dirichlet walls at once may carry either wall value']


def impose_np(data, g, off, bc):
  """(expected data, mask of samples lying on more than one wall)."""
  cnt = np.zeros(g.shape, int)
  for ax in range(g.ndim):
    for side in (0, 1):
      if bc.types[ax][side] == Dd:
        j = (0 if side == 0 else g.shape[ax]) - off[ax]
        if abs(j - round(j)) < 1e-9 and 0 <= round(j) < g.shape[ax]:
          np.moveaxis(cnt, ax, 0)[int(round(j))] += 1
  return gen.wall_fix(data, g, off, bc), cnt > 1


def judge(rec, name, got, data, g, off, bc, detail):
  want, amb = impose_np(data, g, off, bc)
  rec.field(name, got, None, offset=off, grid=g, bc=bc, detail=detail)
  a = np.asarray(got.data)
  if not rec.ok(name, a.shape == want.shape, f'{detail}: shape {a.shape} vs {want.shape}'):
    return
  rec.close(name, a[~amb], want[~amb], tol=1e-13, scale=np.abs(want).max() + 1e-300, detail=detail)
  if amb.any():
    walls = [x for p in bc.bc_values for x in p if x is not None]
    rec.ok(name, np.all(np.min(np.abs(a[amb][:, None] - np.array(walls)[None]), axis=1) < 1e-12),
           f'{detail}: corner sample is no wall value')


def s_impose(rng, rec, i):
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc, fix=False)
  det = f'types {bc.types} values {bc.bc_values} offset {off} shape {g.shape}'
  rec.case(g.ndim, bc.types, off, g.shape)
  once = v.impose_bc()
  judge(rec, 'impose', once, np.asarray(v.data), g, off, bc, det)
  rec.ok('impose', isinstance(once, G.GridVariable))
  twice = once.impose_bc()
  rec.close('idempotent', twice, once, tol=1e-14, scale=10 + np.abs(once.data).max(), detail=det)
  rec.field('idempotent', twice, None, offset=off, grid=g, bc=bc, detail=det)
  via = bc.impose_bc(v.array)
  rec.close('impose', via, once, tol=1e-15, scale=1 + np.abs(once.data).max(), detail=det)


def interior_coords(g, off, bc, ax):
  """Coordinates (cells) of the samples strictly inside, or one period."""
  if bc.types[ax][0] == P:
    return None
  n = g.shape[ax]
  fr = off[ax] - np.floor(off[ax] + 1e-9)
  return np.arange(1, n) * 1.0 if abs(fr) < 1e-9 else np.arange(n) + 0.5


def s_trim(rng, rec, i):
  """Trimming returns exactly the interior samples, also for padded arrays."""
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc, fix=True)
  u = v.array
  pads = []
  for ax in range(g.ndim):
    w = (int(rng.integers(0, 3)), int(rng.integers(0, 3))) if i % 2 else (0, 0)
    if g.shape[ax] < 4:
      w = (0, 0)
    pads.append(w)
    if w != (0, 0):
      u = bc.pad(u, w, ax, mode=gen.pick(rng, [B.Padding.EXTEND, B.Padding.MIRROR]))
  det = f'types {bc.types} offset {off} pads {pads} shape {g.shape}'
  rec.case('trim', g.ndim, bc.types, off, pads)
  t = bc.trim_boundary(u)
  want = np.asarray(v.data)
  for ax in range(g.ndim):
    L = ref.line(want, off, g, bc, ax)
    c = interior_coords(g, off, bc, ax)
    m = t.data.shape[ax]
    got_c = t.offset[ax] + np.arange(m)
    if c is None:
      rec.eq('trim', m, g.shape[ax], det + f' axis {ax} size')
      idx = [int(round(x - L.frac)) for x in got_c]
    else:
      if not rec.ok('trim', len(got_c) == len(c) and np.allclose(got_c, c),
                    lambda: f'{det} axis {ax}: sample locations {got_c}, expected {c}'):
        return
      idx = [int(round(x - L.frac)) for x in c]
    want = np.stack([L.at(j) for j in idx], axis=ax)
  rec.close('trim', t, want, tol=1e-13, scale=np.abs(want).max() + 1e-300, detail=det)
  rec.ok('trim', t.grid == g, det)
  if all(p == (0, 0) for p in pads):
    t2 = v.trim_boundary()
    rec.close('trim', t2, t, tol=1e-15)
    rec.ok('trim', t2.offset == t.offset, det)
    # rebuild both alignments from the interior
    o2 = tuple(float(gen.pick(rng, [0.0, 1.0])) if (bc.types[a][0] == Dd and off[a] != .5)
               else t.offset[a] for a in range(g.ndim))
    r = bc.pad_and_impose_bc(t, o2)
    full = np.asarray(v.data)
    for ax in range(g.ndim):
      if o2[ax] == off[ax]: continue
      L = ref.line(full, tuple(off), g, bc, ax)
      full = np.stack([L.at(j) for j in range(int(o2[ax]), int(o2[ax]) + g.shape[ax])], axis=ax)
    judge(rec, 'rebuild', r, full, g, o2, bc, det + f' to {o2}')


def s_values(rng, rec, i):
  """Boundary values reported on each wall; padding to the field's own location by default."""
  nd = int(rng.integers(1, 4)); g = gen.grid(rng, nd); b = gen.bc(rng, nd)
  rec.case('values', nd, b.types)
  for ax in range(nd):
    lo, hi = b.values(ax, g)
    if b.types[ax][0] == P and b.bc_values[ax][0] is None: rec.eq('wall-values', (lo, hi), (None, None), f'periodic axis {ax}'); continue
    face = tuple(n for a, n in enumerate(g.shape) if a != ax)
    for x, w in zip((lo, hi), b.bc_values[ax]): rec.close('wall-values', x, np.full(face, w), tol=0., detail=f'axis {ax} {b.types} {b.bc_values}')
  off = gen.admissible_offset(rng, b.types); u = gen.variable(rng, g, off, b, 'normal')
  if all(o != 0. or t[0] != Dd for o, t in zip(off, b.types)):  # the interior of a field on lower walls starts at offset 1
    v = b.pad_and_impose_bc(b.trim_boundary(u.array))
    judge(rec, 'pad-default', v, np.asarray(u.data), g, off, b, f'{off} {b.types} {b.bc_values}')


def s_padded_impose(rng, rec, i):
  """Ghost samples never survive impose_bc."""
  g = gen.grid(rng, shp=gen.pick(rng, [(6, 9), (8, 5), (12,), (5, 6, 7)]))
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc, fix=True)
  ax = int(rng.integers(g.ndim))
  w = int(gen.pick(rng, [1, 2]))
  edge = off[ax] != .5
  u = bc.pad(v.array, (0, w) if edge else (int(rng.integers(0, 2)), w), ax)
  noise = np.asarray(u.data).copy()
  sl = [slice(None)] * g.ndim
  if bc.types[ax][0] != P:
    sl[ax] = slice(-w, None)
    noise[tuple(sl)] = 1e6  # garbage in the ghost cells
  r = bc.impose_bc(gen.arr(noise, u.offset, g))
  rec.case('padded', bc.types, off, ax, w)
  det = f'types {bc.types} values {bc.bc_values} offset {off} axis {ax} width {w}'
  a = np.asarray(r.data)
  rec.ok('padded', np.abs(a).max() < 1e5, det + ': ghost value survived')
  if bc.types[ax][0] == P:
    rec.eq('padded', a.shape, g.shape, det)
    return
  judge(rec, 'padded', r, np.asarray(v.data), g, off, bc, det)


def s_derived(rng, rec, i):
  nd = int(rng.integers(1, 4))
  g = gen.grid(rng, nd)
  # velocity: same periodicity in every component
  per = rng.random(nd) < .5
  vs = []
  for c in range(nd):
    t = tuple((P, P) if per[a] else gen.pick(rng, [(Dd, Dd), (Dd, N), (N, N)]) for a in range(nd))
    vals = tuple((None, None) if per[a] else (float(rng.normal()), float(rng.normal())) for a in range(nd))
    vs.append(gen.var(np.zeros(g.shape), g.cell_faces[c], g, B.ConstantBoundaryConditions(t, vals)))
  p = B.get_pressure_bc_from_velocity(tuple(vs))
  rec.case('pressure', nd, tuple(per))
  for a in range(nd):
    rec.eq('pressure-bc', tuple(p.types[a]), (P, P) if per[a] else (N, N), f'axis {a}')
    rec.ok('pressure-bc', all(x in (0.0, None) for x in p.bc_values[a]), f'{p.bc_values}')
  want = tuple('periodic' if x else 'nonperiodic' for x in per)
  rec.eq('periodicity', tuple(B.consistent_boundary_conditions(*vs)), want)
  rec.eq('periodicity', bool(B.has_all_periodic_boundary_conditions(*vs)), bool(all(per)))
  if nd >= 2:  # inconsistent periodicity is rejected
    a = int(rng.integers(nd))
    t = list(vs[0].bc.types); t[a] = (N, N) if per[a] else (P, P)
    for q in range(nd):  # whichever component disagrees
      bad = gen.var(np.zeros(g.shape), vs[q].offset, g, B.HomogeneousBoundaryConditions(t))
      mixed = tuple(vs[:q]) + (bad,) + tuple(vs[q + 1:])
      rec.raises('reject', lambda: B.get_pressure_bc_from_velocity(mixed), G.InconsistentBoundaryConditionsError, f'component {q} axis {a}')
      rec.raises('reject', lambda: B.consistent_boundary_conditions(*mixed), G.InconsistentBoundaryConditionsError, f'component {q} axis {a}')
    more = [vs[int(rng.integers(nd))] for _ in range(int(rng.integers(1, 5)))]
    at = int(rng.integers(len(more) + 1))
    rec.raises('reject', lambda: B.consistent_boundary_conditions(*(more[:at] + [bad] + more[at:])), G.InconsistentBoundaryConditionsError)
    rec.eq('periodicity', bool(B.has_all_periodic_boundary_conditions(*(more[:at] + [bad] + more[at:]))), False)
  # flux conditions
  ax = int(rng.integers(nd))
  combos = [('P', 'P'), ('D', 'D'), ('D', 'N'), ('N', 'N'), ('N', 'D'), ('D1', 'D')]
  uk, ck = gen.pick(rng, combos)
  def mk(k, homog):
    per_t = (P, P)
    t = {'P': (P, P), 'D': (Dd, Dd), 'D1': (Dd, Dd), 'N': (N, N)}[k]
    ty = tuple(t if a == ax else ((P, P) if per[a] else (Dd, Dd)) for a in range(nd))
    return ty
  ut, ct = mk(uk, True), mk(ck, True)
  ubc = B.HomogeneousBoundaryConditions(ut)
  if uk == 'D1':
    ubc = B.ConstantBoundaryConditions(ut, tuple((1.0, 1.0) if a == ax else (0.0, 0.0) for a in range(nd)))
  cvals = tuple((None, None) if x[0] == P else ((float(rng.normal()), float(rng.normal())) if x[0] == Dd else (0.0, 0.0)) for x in ct)
  cbc = B.ConstantBoundaryConditions(ct, cvals)
  u = gen.var(np.zeros(g.shape), g.cell_faces[ax], g, ubc)
  c = gen.var(np.zeros(g.shape), g.cell_center, g, cbc)
  f = lambda: B.get_advection_flux_bc_from_velocity_and_scalar(u, c, ax)
  rec.case('flux', nd, ax, uk, ck, tuple(per))
  if uk == 'D1' or (uk, ck) == ('N', 'D'):
    rec.raises('reject', f, NotImplementedError, f'flux bc {uk} {ck}')
    return
  fb = f()
  for a in range(nd):
    if ut[a][0] == P:
      rec.eq('flux-bc', tuple(fb.types[a]), (P, P))
    elif a != ax:
      pass  # tangential ghost values never enter a divergence
    else:
      rec.eq('flux-bc', tuple(fb.types[a]), (Dd, Dd) if uk == 'D' else (N, N), f'{uk} {ck}')
      rec.eq('flux-bc', tuple(fb.bc_values[a]), (0.0, 0.0))
  if uk == 'N' and ck == 'N':
    cb = B.ConstantBoundaryConditions(ct, tuple((0.0, 1.0) if a == ax else cvals[a] for a in range(nd)))
    rec.raises('reject', lambda: B.get_advection_flux_bc_from_velocity_and_scalar(
        u, gen.var(np.zeros(g.shape), g.cell_center, g, cb), ax), NotImplementedError)


def s_reject(rng, rec, i):
  nd = int(rng.integers(1, 4))
  g = gen.grid(rng, nd)
  rec.case('reject', nd)
  b = B.periodic_boundary_conditions(nd + 1)
  rec.raises('reject', lambda: G.GridVariable(gen.arr(np.zeros(g.shape), g.cell_center, g), b), ValueError)
  rec.raises('reject', lambda: G.GridVariable(np.zeros(g.shape), B.periodic_boundary_conditions(nd)), ValueError)
  ax = int(rng.integers(nd))
  nb = B.HomogeneousBoundaryConditions(tuple((N, N) if a == ax else (P, P) for a in range(nd)))
  off = tuple(float(rng.integers(0, 2)) if a == ax else .5 for a in range(nd))
  v = gen.var(np.zeros(g.shape), off, g, nb)
  rec.raises('reject', lambda: nb.impose_bc(v.array), NotImplementedError, 'edge-aligned neumann')
  u = gen.arr(np.ones(g.shape), g.cell_center, g)
  for b in (B.dirichlet_boundary_conditions(nd), B.neumann_boundary_conditions(nd)):
    rec.raises('reject', lambda: b.pad(u, 2, ax, mode='reflected'), NotImplementedError, 'unknown padding rule')
  # too few samples
  db = B.dirichlet_boundary_conditions(nd)
  shp = tuple(n - (2 if a == ax else 0) for a, n in enumerate(g.shape))
  rec.raises('reject', lambda: db.impose_bc(gen.arr(np.ones(shp), g.cell_center, g)), ValueError, 'missing interior')


def s_simulation(rng, rec, i):
  """Every impose_bc made while real solver steps run, and their results."""
  C = B.ConstantBoundaryConditions
  def on_impose(rec, a, out):
    u, bc = a['u'], a['self']
    if tuple(u.data.shape) != tuple(u.grid.shape):
      rec.skip('shape'); return
    judge(rec, 'sim.impose', out, np.asarray(u.data), u.grid, u.offset, bc, 'during a step')
  s = workloads.simulation(rng, kind=gen.pick(rng, ['walls', 'walls_implicit', 'explicit']), pool=[(6, 8), (8, 5)], ndim=2)
  v = s.v
  rec.case('sim', s.kind, s.walls, s.fkind)
  with monitors.hook([(C, 'impose_bc', on_impose)], rec):
    with jax.disable_jit():
      v = s.step(v)
  for u, u0 in zip(v, s.v):
    judge(rec, 'sim.state', u, np.asarray(u.data), u0.grid, u0.offset, u0.bc, f'{s.kind} state after step')


SUITES = {
    'impose': (s_impose, 120, 1500),
    'trim': (s_trim, 120, 1500),
    'values': (s_values, 40, 500),
    'padded_impose': (s_padded_impose, 60, 800),
    'derived': (s_derived, 60, 500),
    'reject': (s_reject, 12, 100),
    'simulation': (s_simulation, 8, 60),
}
REQUIRED = ['impose', 'wall-values', 'pad-default', 'idempotent', 'trim', 'rebuild', 'padded', 'pressure-bc', 'flux-bc', 'reject',
            'sim.state']
