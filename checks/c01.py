"""C01: ghost cells realise the field's boundary conditions."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G
from vlib import gen, ref, monitors, workloads

RULE = ('random grid (1-3D, anisotropic, shifted domain), offset, per-side boundary types and '
        'values, field content, shift/pad width, side and extension mode; plus every shift/pad '
        'call made by real solver steps; distinct by (ndim, types, offset, width, mode, shape)')
ASSUMPTIONS = ['float64 evaluation', 'edge-aligned samples are only tested on periodic/Dirichlet axes '
               '(the library rejects them for Neumann walls)']
MODES = [B.Padding.EXTEND, B.Padding.MIRROR]


def expect_shift(u, bc, k, ax, mode):
  """Samples of u (GridArray) re-read at indices +k; the unpadded side is kept as is."""
  L = ref.line(u.data, u.offset, u.grid, bc, ax)
  n = u.data.shape[ax]
  out = []
  lo_pad = k < 0
  for j in range(L.j0 + k, L.j0 + k + n):
    mid = L.interior()
    # only the padded side is recomputed from the boundary condition
    if L.t[0] == ref.PER:
      out.append(L.at(j, mode)); continue
    below, above = j < mid[0], j > mid[-1]
    rec = (below and lo_pad) or (above and not lo_pad)
    out.append(L.at(j, mode, recompute=rec))
  return np.stack(out, axis=ax)


def judge_shift(rec, u, bc, k, ax, mode, got, monitor):
  L = ref.line(u.data, u.offset, u.grid, bc, ax)
  if k == 0:
    return
  if not L.complete():
    rec.skip('incomplete'); return
  if L.t[0] == ref.PER and u.data.shape[ax] != u.grid.shape[ax]:
    rec.skip('periodic-odd-size'); return
  if ref.NEU in L.t and abs(L.frac) < 1e-9:
    rec.skip('edge-neumann'); return
  t = L.t[0] if k < 0 else L.t[1]
  if t not in (ref.PER,) and L.m > u.grid.shape[ax] + 1:
    rec.skip('padded'); return
  side = 0 if k < 0 else 1
  if abs(k) >= u.grid.shape[ax] - 1:
    rec.skip('wide'); return
  want = expect_shift(u, bc, k, ax, mode)
  off = tuple(o + (k if a == ax else 0) for a, o in enumerate(u.offset))
  rec.field(monitor, got, want, offset=off, grid=u.grid, tol=1e-10,
            scale=np.abs(want).max() + np.abs(np.asarray(u.data)).max() + 1e-300,
            detail=f'shift {k} axis {ax} mode {mode} types {bc.types} values {bc.bc_values} '
            f'offset {u.offset} shape {u.data.shape} step {u.grid.step}')


def s_shift(rng, rec, i):
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc)
  for ax in range(g.ndim):
    ks = [-1, 1, int(gen.pick(rng, [-3, -2, 2, 3]))]
    for k in ks:
      mode = gen.pick(rng, MODES)
      if B.BCType.PERIODIC in bc.types[ax] and rng.random() < .3:
        mode = None
      if abs(k) >= g.shape[ax] - 1:
        continue
      got = v.shift(k, ax, mode) if rng.random() < .5 else bc.shift(v.array, k, ax, mode)
      rec.case(g.ndim, bc.types[ax], off[ax], k, mode, g.shape)
      judge_shift(rec, v.array, bc, k, ax, mode, got, 'shift')
  # default mode of shift
  ax = int(rng.integers(g.ndim))
  got = v.shift(-2 if rng.random() < .5 else 2, ax) if g.shape[ax] > 4 else None
  # zero shift is the identity
  z = v.shift(0, ax)
  m = ~gen.wall_mask(g, off, bc)
  rec.field('shift0', z, None, offset=off, grid=g)
  rec.close('shift0', np.asarray(z.data)[m], np.asarray(v.data)[m], tol=1e-15)


def s_shift_default(rng, rec, i):
  """Default extension rule and composition of unit shifts inside the domain."""
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc)
  for ax in range(g.ndim):
    for k in (-2, 2):
      if abs(k) >= g.shape[ax] - 1: continue
      rec.case('default', g.ndim, bc.types[ax], off[ax], k, g.shape)
      judge_shift(rec, v.array, bc, k, ax, 'extend', v.shift(k, ax), 'shift.default')
      judge_shift(rec, v.array, bc, k, ax, 'extend', bc.shift(v.array, k, ax), 'shift.default')


def ref_pad(data, offset, grid, bc, lo, hi, ax, mode):
  L = ref.line(data, offset, grid, bc, ax)
  mid = L.interior()
  out = []
  for j in range(L.j0 - lo, L.j0 + L.m + hi):
    if L.t[0] == ref.PER:
      out.append(L.at(j, mode)); continue
    rec = (j < mid[0] and lo > 0) or (j > mid[-1] and hi > 0)
    out.append(L.at(j, mode, recompute=rec))
  return np.stack(out, axis=ax), tuple(o - (lo if a == ax else 0) for a, o in enumerate(offset))


def s_pad(rng, rec, i):
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc)
  ax = int(rng.integers(g.ndim))
  mode = gen.pick(rng, MODES)
  m = min(3, g.shape[ax] - 2)
  for w in [int(rng.integers(1, m + 1)), -int(rng.integers(1, m + 1)),
            (int(rng.integers(1, m + 1)), int(rng.integers(1, m + 1)))]:
    lo, hi = (w if isinstance(w, tuple) else ((-w, 0) if w < 0 else (0, w)))
    want, woff = ref_pad(v.data, off, g, bc, lo, hi, ax, mode)
    rec.case('pad', g.ndim, bc.types[ax], off[ax], w, mode, g.shape)
    got = bc.pad(v.array, w, ax, mode=mode)
    rec.field('pad', got, want, offset=woff, grid=g, tol=1e-10,
              scale=np.abs(want).max() + 1e-300,
              detail=f'pad {w} axis {ax} mode {mode} types {bc.types} values {bc.bc_values} '
              f'offset {off} shape {g.shape} step {g.step}')


def s_pad_all(rng, rec, i):
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc)
  mode = gen.pick(rng, MODES)
  width = tuple((int(rng.integers(1, 3)), int(rng.integers(1, 3))) for _ in range(g.ndim))
  want, woff = np.asarray(v.data), off
  for ax in range(g.ndim):
    want, woff = ref_pad(want, woff, g, bc, *width[ax], ax, mode)
  rec.case('pad_all', g.ndim, bc.types, off, width, mode)
  got = bc.pad_all(v.array, width, mode=mode)
  rec.field('pad_all', got, want, offset=woff, grid=g, tol=1e-10, scale=np.abs(want).max() + 1e-300,
            detail=f'pad_all {width} mode {mode} types {bc.types} values {bc.bc_values} offset {off}')


def s_semantics(rng, rec, i):
  """The boundary condition itself, read back from one ghost layer."""
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim, zero=False)
  off = gen.admissible_offset(rng, bc.types)
  v = gen.variable(rng, g, off, bc)
  d = np.asarray(v.data); sc = np.abs(d).max() + 5
  for ax in range(g.ndim):
    n = g.shape[ax]; h = g.step[ax]
    up = np.asarray(v.shift(+1, ax).data); dn = np.asarray(v.shift(-1, ax).data)
    t = bc.types[ax]; b = bc.bc_values[ax]
    rec.case('sem', t, off[ax], n)
    last, first = ref.take(up, n - 1, ax), ref.take(dn, 0, ax)
    # interior is a pure re-reading of samples
    w = 1 if (off[ax] == 1.0 and t[1] == 'dirichlet') else 0  # the wall sample is derived
    rec.close('interior', np.moveaxis(up, ax, 0)[:n - 1 - w], np.moveaxis(d, ax, 0)[1:n - w], tol=1e-13, scale=sc)
    inner = np.moveaxis(d, ax, 0)[:-1]
    w = 1 if (off[ax] == 0.0 and t[0] == 'dirichlet') else 0  # the wall sample is derived
    rec.close('interior', np.moveaxis(dn, ax, 0)[1 + w:], inner[w:], tol=1e-13, scale=sc)
    d0, d1 = ref.take(d, 0, ax), ref.take(d, n - 1, ax)
    if t[0] == 'periodic':
      rec.close('wrap', last, d0, tol=1e-14, scale=sc)
      rec.close('wrap', first, d1, tol=1e-14, scale=sc)
      continue
    if off[ax] == 0.5:
      for s, gh, inn in ((0, first, d0), (1, last, d1)):
        if t[s] == 'dirichlet':
          rec.close('wall-mean', (gh + inn) / 2, np.full_like(gh, b[s]), tol=1e-12, scale=sc,
                    detail=f'{t} {b} side {s}')
        else:
          sl = (inn - gh) / h if s == 0 else (gh - inn) / h
          rec.close('wall-gradient', sl, np.full_like(gh, b[s]), tol=1e-11, scale=sc / h,
                    detail=f'{t} {b} side {s} h {h}')
    elif off[ax] == 0.0:
      rec.close('wall-exact', last, np.full_like(last, b[1]), tol=1e-14, scale=sc, detail=f'{t} {b}')
    else:
      rec.close('wall-exact', first, np.full_like(first, b[0]), tol=1e-14, scale=sc, detail=f'{t} {b}')


def s_factories(rng, rec, i):
  """The named constructors describe the boundary conditions they are named after."""
  nd = int(rng.integers(1, 4))
  vals = tuple((float(rng.normal()), float(rng.normal())) for _ in range(nd))
  P, D, N = 'periodic', 'dirichlet', 'neumann'
  rec.case('fac', nd, i % 4)
  def chk(b, types, values):
    rec.eq('factory', tuple(tuple(t) for t in b.types), types, 'types')
    got = tuple(tuple(0.0 if x is None else float(x) for x in p) for p in b.bc_values)
    want = tuple(tuple(0.0 if x is None else float(x) for x in p) for p in values)
    rec.eq('factory', got, want, 'values')
  z = ((0.0, 0.0),)
  chk(B.periodic_boundary_conditions(nd), ((P, P),) * nd, z * nd)
  chk(B.dirichlet_boundary_conditions(nd), ((D, D),) * nd, z * nd)
  chk(B.dirichlet_boundary_conditions(nd, vals), ((D, D),) * nd, vals)
  chk(B.neumann_boundary_conditions(nd), ((N, N),) * nd, z * nd)
  chk(B.neumann_boundary_conditions(nd, vals), ((N, N),) * nd, vals)
  if nd >= 2:
    ct = ((P, P), (D, D)) + ((P, P),) * (nd - 2)
    cv = ((None, None), vals[1]) + ((None, None),) * (nd - 2)
    chk(B.channel_flow_boundary_conditions(nd), ct, z * nd)
    chk(B.channel_flow_boundary_conditions(nd, cv), ct, cv)
  v = vals[0]
  chk(B.periodic_and_neumann_boundary_conditions(), ((P, P), (N, N)), z * 2)
  chk(B.periodic_and_neumann_boundary_conditions(v), ((P, P), (N, N)), ((None, None), v))
  chk(B.periodic_and_dirichlet_boundary_conditions(), ((P, P), (D, D)), z * 2)
  chk(B.periodic_and_dirichlet_boundary_conditions(v), ((P, P), (D, D)), ((None, None), v))
  chk(B.periodic_and_dirichlet_boundary_conditions(v, periodic_axis=1), ((D, D), (P, P)), (v, (None, None)))
  chk(B.periodic_and_dirichlet_boundary_conditions(periodic_axis=1), ((D, D), (P, P)), z * 2)
  # values() evaluates the walls on the grid
  g = gen.grid(rng, nd)
  b = B.dirichlet_boundary_conditions(nd, vals)
  for ax in range(nd):
    lo, hi = b.values(ax, g)
    shp = g.shape[:ax] + g.shape[ax + 1:]
    rec.close('values', lo, np.full(shp, vals[ax][0]), tol=1e-12)
    rec.close('values', hi, np.full(shp, vals[ax][1]), tol=1e-12)


def s_simulation(rng, rec, i):
  """Every shift / pad made while real solver steps run."""
  def on_shift(rec, a, out):
    judge_shift(rec, a['u'], a['self'], int(a['offset']), a['axis'], a['mode'] or 'extend', out, 'sim.shift')
  def on_pad(rec, a, out):
    u, w, ax = a['u'], a['width'], a['axis']
    bc = a['self']
    lo, hi = (tuple(w) if not isinstance(w, (int, np.integer)) else ((-w, 0) if w < 0 else (0, w)))
    L = ref.line(u.data, u.offset, u.grid, bc, ax)
    if not L.complete() or u.data.shape[ax] != u.grid.shape[ax]:
      rec.skip('pad'); return
    want, woff = ref_pad(u.data, u.offset, u.grid, bc, lo, hi, ax, a['mode'] or 'extend')
    rec.field('sim.pad', out, want, offset=woff, tol=1e-10, scale=np.abs(want).max() + 1e-300)
  pool = [(6, 8), (8, 5)] if i % 3 else [(5, 4, 6)]
  s = workloads.simulation(rng, pool=pool, ndim=len(pool[0]))
  C = B.ConstantBoundaryConditions
  v = s.v
  with monitors.hook([(C, 'shift', on_shift), (C, 'pad', on_pad)], rec):
    with jax.disable_jit():
      for _ in range(1):
        v = s.step(v)
  rec.case('sim', s.kind, s.grid.shape, s.convect, s.stepper, s.fkind, s.walls)


SUITES = {
    'shift': (s_shift, 120, 1500),
    'shift_default': (s_shift_default, 40, 500),
    'pad': (s_pad, 100, 1500),
    'pad_all': (s_pad_all, 50, 700),
    'semantics': (s_semantics, 80, 800),
    'factories': (s_factories, 12, 60),
    'simulation': (s_simulation, 16, 160),
}
REQUIRED = ['shift', 'shift.default', 'pad', 'pad_all', 'wrap', 'wall-mean', 'wall-gradient',
            'wall-exact', 'factory', 'values']
