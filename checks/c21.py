"""C21: periodic learned layers and towers: explicit-sum oracles, equivariance, receptive field, layouts."""
import itertools
import haiku as hk
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G
from jax_cfd.ml import layers, layers_util as lu, nonlinearities as nl, tiling, towers
from vlib import gen

RULE = ('random dimensions, sizes, kernels (square and not, odd and even), dilations, strides, channel counts and tile layouts; '
        'weights are drawn at random; every output is compared with the defining sum written in numpy with modular indices, '
        'shifted inputs must give shifted outputs, and perturbing one cell may only change its receptive field; distinct by '
        'dimension, shape, kernel, dilation, layout')
ASSUMPTIONS = ['float64 unless the layout helper is dtype independent', 'a tile is at least as large as the padding it exchanges '
               '(smaller ones must be refused)', 'layouts divide the array', 'mirror convolutions: constant Dirichlet and '
               'periodic conditions, padding below the grid size', 'rescaling to a range is defined for inputs that are not constant']

TOL = 1e-11
ACT = {'relu': (nl.relu, lambda x: np.maximum(x, 0)), 'tanh': (nl.tanh, np.tanh), 'swish': (nl.swish, lambda x: x / (1 + np.exp(-x))),
       'softplus': (nl.softplus, lambda x: np.logaddexp(x, 0)), 'elu': (nl.elu, lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))))}


def build(fn, rng, *a):
  """(params, apply): haiku function with random float64 weights; parameters in creation order."""
  f = hk.without_apply_rng(hk.transform(fn)); p = f.init(jax.random.PRNGKey(int(rng.integers(1e6))), *a)
  p = jax.tree.map(lambda x: jnp.asarray(rng.standard_normal(x.shape)), p)
  return p, jax.jit(f.apply)


def wb(p):
  """[(w, b)] by module, in creation order (haiku keeps insertion order of modules)."""
  return [(np.asarray(m['w']), np.asarray(m['b']) if 'b' in m else 0.) for m in p.values() if 'w' in m]


def conv_np(x, w, b, rate, lead=None):
  """out[i] = b + sum_k w[k] x[i + rate k - effective//2], indices modulo the size."""
  nd = w.ndim - 2; x = np.asarray(x); out = 0.
  eff = [k + (rate - 1) * (k - 1) for k in w.shape[:nd]]
  lead = [e // 2 for e in eff] if lead is None else lead
  for k in np.ndindex(*w.shape[:nd]):
    out = out + np.roll(x, [l - rate * kk for kk, l in zip(k, lead)], tuple(range(nd))) @ w[k]
  return out + b


def shapes(rng, nd, mult=None, lo=4):
  top = {1: 24, 2: 12, 3: 8}[nd]
  return tuple(int(rng.integers(lo, top + 1)) for _ in range(nd))


def layout(rng, nd, pads):
  """(layout or None, shape) with tiles at least as large as the padding."""
  lay = None if rng.random() < .3 else tuple(int(gen.pick(rng, [1, 2, 2, 3, 4])) for _ in range(nd))
  need = [max(3, *p) for p in pads]
  tile = [n + int(rng.integers(0, 3)) for n in need]
  return lay, tuple(t * l for t, l in zip(tile, lay or (1,) * nd))


# ---------------------------------------------------------------- convolutions
def conv(rng, rec, i):
  nd = 1 + i % 3; K = tuple(int(rng.integers(1, {1: 6, 2: 5, 3: 4}[nd])) for _ in range(nd)); rate = int(gen.pick(rng, [1, 1, 2, 3] if nd < 3 else [1, 2]))
  eff = [k + (rate - 1) * (k - 1) for k in K]; pads = [(e // 2, e - e // 2 - 1) for e in eff]
  lay, shp = layout(rng, nd, pads); ci, co = int(rng.integers(1, 4)), int(rng.integers(1, 4))
  bias = bool(rng.random() < .7); cls = towers.PERIODIC_CONV_MODULES[nd]
  rec.case(nd, K, rate, lay, shp, ci, co, bias)
  x = rng.standard_normal(shp + (ci,)); det = f'kernel {K}, rate {rate}, layout {lay}, shape {shp}'
  via = bool(rng.random() < .5)
  mk = lambda l: (lambda a: (towers.periodic_convolution(co, K, nd, rate=rate, tile_layout=l, with_bias=bias) if via else
                             cls(co, K, rate=rate, tile_layout=l, with_bias=bias))(a))
  p, f = build(mk(lay), rng, x); (w, b), = wb(p)
  y = f(p, x); want = conv_np(x, w, b, rate)
  rec.close('conv', y, want, tol=TOL, detail=det)
  _, g = build(mk(None), rng, x); rec.close('conv-layout', g(p, x), y, tol=TOL, scale=np.abs(want).max() + 1e-30, detail=det)
  sh = tuple(int(rng.integers(1, n)) for n in shp); ax = tuple(range(nd))
  rec.close('equivariance', f(p, np.roll(x, sh, ax)), np.roll(np.asarray(y), sh, ax), tol=TOL, detail=f'{det}, shift {sh}')
  # receptive field: one perturbed cell reaches exactly the taps
  c = tuple(int(rng.integers(n)) for n in shp); x2 = x.copy(); x2[c] += 1 + rng.random(ci)
  ch = np.abs(np.asarray(f(p, x2)) - np.asarray(y)).max(-1) > 1e-12
  allow = np.zeros(shp, bool)
  for k in np.ndindex(*K): allow[tuple((c[a] - rate * k[a] + eff[a] // 2) % shp[a] for a in range(nd))] = True
  rec.ok('receptive-field', np.array_equal(ch, allow), lambda: f'{det}: perturbing {c} changed {np.argwhere(ch ^ allow).tolist()[:5]} wrongly')
  # strided convolution samples the dense one
  s = int(gen.pick(rng, [2, 3])); tile = [n // l for n, l in zip(shp, lay or (1,) * nd)]
  if all(t % s == 0 for t in tile):
    _, st = build(lambda a: cls(co, K, rate=rate, tile_layout=lay, with_bias=bias, stride=s)(a), rng, x) if rate == 1 else (None, None)
    if st is not None: rec.close('conv-stride', st(p, x), want[(slice(None, None, s),) * nd], tol=TOL, detail=f'{det}, stride {s}')
  # functional form used for stencils: centred the other way for even kernels
  q = lu.periodic_convolution(x, jnp.asarray(w), tile_layout=lay if all(k <= t for k, t in zip(K, tile)) else None)
  rec.close('conv-stencil', q, conv_np(x, w, 0., 1, [(k - 1) - k // 2 for k in K]), tol=TOL, detail=det)
  if nd == 1:
    n = int(rng.integers(max(eff[0], 2), 14)) + 3; z = rng.standard_normal((n, ci))
    p2, h = build(lambda a: layers.NonPeriodicConv1D(co, K, rate=rate, with_bias=bias)(a), rng, z); (w2, b2), = wb(p2)
    ref = np.stack([sum(z[j + rate * k] @ w2[k] for k in range(K[0])) + b2 for j in range(n - eff[0] + 1)])
    rec.close('conv-valid', h(p2, z), ref, tol=TOL, detail=f'kernel {K}, rate {rate}, size {n}')


def transpose(rng, rec, i):
  nd = 1 + i % 3; K = tuple(int(rng.integers(1, {1: 6, 2: 5, 3: 4}[nd])) for _ in range(nd)); s = int(rng.integers(1, 4))
  shp = tuple(int(rng.integers(max(3, k // s + 1), {1: 14, 2: 9, 3: 7}[nd])) for k in K); ci, co = int(rng.integers(1, 3)), int(rng.integers(1, 4))
  rec.case(nd, K, s, shp, ci, co)
  x = rng.standard_normal(shp + (ci,)); det = f'kernel {K}, stride {s}, shape {shp}'
  via = bool(rng.random() < .5)
  def mk(a):
    return (towers.periodic_transpose_convolution(co, K, nd, stride=s, rate=gen_rate) if via else
            towers.PERIODIC_CONV_TRANSPOSE_MODULES[nd](co, K, stride=s))(a)
  gen_rate = gen.pick(rng, [None, 1])
  p, f = build(mk, rng, x); (w, b), = wb(p)      # w: kernel, out, in
  out = np.zeros(tuple(s * n for n in shp) + (co,))
  for j in np.ndindex(*shp):
    for k in np.ndindex(*K):
      t = tuple((s * j[a] + (K[a] - 1 - k[a]) - (K[a] - 1) // 2) % (s * shp[a]) for a in range(nd))
      out[t] += w[k] @ x[j]
  y = f(p, x); rec.close('transpose', y, out + b, tol=TOL, detail=det)
  sh = tuple(int(rng.integers(1, n)) for n in shp); ax = tuple(range(nd))
  rec.close('transpose-equivariance', f(p, np.roll(x, sh, ax)), np.roll(np.asarray(y), [s * q for q in sh], ax), tol=TOL, detail=f'{det}, shift {sh}')
  rec.raises('transpose-rate', lambda: towers.periodic_transpose_convolution(co, K, nd, rate=2), ValueError, 'dilated transpose convolution')
  rec.raises('transpose-tiles', lambda: build(lambda a: towers.PERIODIC_CONV_TRANSPOSE_MODULES[nd](co, K, stride=s, tile_layout=(1,) * nd)(a), rng, x),
             NotImplementedError, 'tiled transpose convolution')


# ---------------------------------------------------------------- layouts
def tiles(rng, rec, i):
  nd = 1 + i % 3; lay = tuple(int(gen.pick(rng, [1, 2, 3, 4] if nd < 3 else [1, 2, 3])) for _ in range(nd))
  tile = tuple(int(rng.integers(2, 6 if nd < 3 else 4)) for _ in range(nd)); shp = tuple(a * b for a, b in zip(lay, tile)); c = int(rng.integers(1, 4))
  rec.case(nd, lay, tile, c)
  dt = gen.pick(rng, [np.float64, np.float32, np.int32]); x = (rng.standard_normal(shp + (c,)) * 100).astype(dt)
  t = np.asarray(tiling.space_to_batch(x, lay))
  want = np.stack([x[tuple(slice(b * n, (b + 1) * n) for b, n in zip(bi, tile))] for bi in np.ndindex(*lay)])
  rec.ok('space-to-batch', t.dtype == x.dtype and np.array_equal(t, want), lambda: f'layout {lay}, tile {tile}')
  rec.ok('batch-to-space', np.array_equal(np.asarray(tiling.batch_to_space(t, lay)), x), lambda: f'round trip of layout {lay}, tile {tile}')
  pad = tuple((int(rng.integers(0, n + 1)), int(rng.integers(0, n + 1))) for n in tile)
  h = np.asarray(tiling.halo_exchange_pad(jnp.asarray(t), lay, [list(q) for q in pad]))
  def cut(bi):
    idx = np.ix_(*[np.arange(b * n - l, (b + 1) * n + r) % s for b, n, (l, r), s in zip(bi, tile, pad, shp)])
    return x[idx]
  want = np.stack([cut(bi) for bi in np.ndindex(*lay)])
  rec.ok('halo', h.shape == want.shape and np.array_equal(h, want), lambda: f'layout {lay}, tile {tile}, padding {pad}: {h.shape} vs {want.shape}')
  a = int(rng.integers(nd)); big = list(pad); big[a] = gen.pick(rng, [(tile[a] + 1, 0), (0, tile[a] + 1)])
  rec.raises('halo-too-wide', lambda: tiling.halo_exchange_pad(jnp.asarray(t), lay, big), (TypeError, ValueError), f'padding {big} over tiles {tile}')
  bad = list(lay); bad[a] += 1
  rec.raises('layout-mismatch', lambda: tiling.halo_exchange_pad(jnp.asarray(t), tuple(bad), pad), ValueError, f'{t.shape} with layout {bad}')
  rec.raises('padding-mismatch', lambda: tiling.halo_exchange_pad(jnp.asarray(t), lay, list(pad) + [(1, 1)]), ValueError, 'one padding too many')
  # arbitrary window function: mean of the window, applied tile by tile
  L = [l + r + 1 for l, r in pad]
  def win(z):
    out = 0.
    for o in np.ndindex(*L): out = out + z[(slice(None),) + tuple(slice(k, z.shape[1 + j] - L[j] + 1 + k) for j, k in enumerate(o))] * (1 + sum(o))
    return out
  if np.prod(L) <= 120:
    y = tiling.apply_convolution(win, jnp.asarray(x, float), lay, pad); ref = 0.
    for o in np.ndindex(*L): ref = ref + np.roll(x.astype(float), [l - k for (l, _), k in zip(pad, o)], tuple(range(nd))) * (1 + sum(o))
    rec.close('apply-tiled', y, ref, tol=TOL, detail=f'layout {lay}, tile {tile}, padding {pad}')


def patches(rng, rec, i):
  nd = 1 + i % 3; K = tuple(int(rng.integers(1, {1: 6, 2: 5, 3: 4}[nd])) for _ in range(nd))
  pads = [((k - 1) - k // 2, k // 2) for k in K]; lay, shp = layout(rng, nd, pads)
  rec.case(nd, K, lay, shp); x = rng.standard_normal(shp + (1,)); det = f'patch {K}, shape {shp}, layout {lay}'
  offs = itertools.product(*[range(-((k - 1) // 2), k // 2 + 1) for k in K])
  want = np.stack([np.roll(x[..., 0], [-o for o in off], tuple(range(nd))) for off in offs], -1)
  rec.close('patches-roll', lu.extract_patches(x, K, 'roll'), want, tol=0., detail=det)
  rec.close('patches-conv', lu.extract_patches(x, K, 'conv', lay), want, tol=1e-14, detail=det)
  rec.close('patches-default', lu.extract_patches(jnp.asarray(x, jnp.float32), K), want.astype(np.float32), tol=0., detail=det)
  m = int(rng.integers(1, 4)); rec.close('patches-fused', lu.fused_extract_patches(x, [K] * m, lay), np.concatenate([want] * m, -1), tol=1e-14, detail=det)
  rec.raises('patches-method', lambda: lu.extract_patches(x, K, 'gather'), ValueError, 'unknown method')
  w = rng.standard_normal(want.shape); rec.close('apply-coefficients', lu.apply_coefficients(w, want), (w * want).sum(-1, keepdims=True), tol=TOL, detail=det)


# ---------------------------------------------------------------- towers
def tower(rng, rec, i):
  nd = 1 + i % 3; n = int(rng.integers(0, 4)); act = gen.pick(rng, list(ACT)); A, a_np = ACT[act]
  ch = tuple(int(rng.integers(1, 5)) for _ in range(n)); Ks = tuple(tuple(int(rng.integers(1, 4)) for _ in range(nd)) for _ in range(n))
  rates = tuple(int(rng.integers(1, 3)) for _ in range(n)); Ko = tuple(int(rng.integers(1, 4)) for _ in range(nd)); ro = int(rng.integers(1, 3))
  out, ci = int(rng.integers(1, 4)), int(rng.integers(1, 4)); scale = bool(rng.random() < .5); flex = bool(i % 2)
  if not flex:
    k = int(rng.integers(1, 5)); ko = int(rng.integers(1, 5)); r = int(rng.integers(1, 3)); hid = int(rng.integers(1, 5))
    ch = (hid,) * n; Ks = ((k,) * nd,) * n; rates = (r,) * n; Ko = (ko,) * nd
  effs = [[kk + (rr - 1) * (kk - 1) for kk in K] for K, rr in zip(Ks + (Ko,), rates + (ro,))]
  shp = tuple(max([3] + [e[a] for e in effs]) + int(rng.integers(0, 5)) for a in range(nd))
  x = rng.standard_normal(shp + (ci,)); rec.case(nd, flex, ch, Ks, rates, Ko, ro, act, scale, shp)
  si, so = (float(rng.uniform(.3, 2)), float(rng.uniform(.3, 2))) if scale else (1., 1.)
  kw = dict(nonlinearity=A)
  if scale:
    kw['inputs_scale_fn'] = lambda v, axes: towers.fixed_scale(v, axes, si); kw['output_scale_fn'] = lambda v, axes: towers.fixed_scale(v, axes, rescaled_one=so)
  mk = (lambda v: towers.forward_flex_tower_factory(out, nd, channels=ch, kernel_shapes=Ks, rates=rates, strides=(1,) * n, output_kernel_shape=Ko,
                                                    output_rate=ro, conv_module=conv_module, **kw)(v)) if flex else \
       (lambda v: towers.forward_tower_factory(out, nd, num_hidden_channels=hid, kernel_size=k, num_hidden_layers=n, rates=r, strides=1,
                                               output_kernel_size=ko, output_dilation_rate=ro, conv_module=conv_module, **kw)(v))
  conv_module = towers.periodic_convolution
  det = f'channels {ch}, kernels {Ks}+{Ko}, rates {rates}+{ro}, {act}, shape {shp}'
  p, f = build(mk, rng, x); ws = wb(p); y = f(p, x)
  if rec.eq('tower-layers', [w.shape for w, _ in ws], [K + (a, b) for K, a, b in zip(Ks + (Ko,), (ci,) + ch, ch + (out,))], det):
    z = x * si
    for (w, b), rr in zip(ws[:-1], rates): z = a_np(conv_np(z, w, b, rr))
    want = so * conv_np(z, *ws[-1], ro)
    rec.close('tower', y, want, tol=1e-10, detail=det)
  rec.eq('tower-shape', y.shape, shp + (out,), det)
  sh = tuple(int(rng.integers(1, q)) for q in shp); ax = tuple(range(nd))
  rec.close('tower-equivariance', f(p, np.roll(x, sh, ax)), np.roll(np.asarray(y), sh, ax), tol=1e-10, detail=f'{det}, shift {sh}')
  lo = [sum(e[a] // 2 for e in effs) for a in range(nd)]; hi = [sum(e[a] - 1 - e[a] // 2 for e in effs) for a in range(nd)]
  c = tuple(int(rng.integers(q)) for q in shp); x2 = x.copy(); x2[c] += 1.
  chg = np.abs(np.asarray(f(p, x2)) - np.asarray(y)).max(-1) > 1e-11; allow = np.ones(shp, bool)
  for a in range(nd):
    line = np.zeros(shp[a], bool)
    for o in range(-hi[a], lo[a] + 1): line[(c[a] + o) % shp[a]] = True
    allow &= line.reshape([-1 if q == a else 1 for q in range(nd)])
  rec.ok('tower-receptive-field', not np.any(chg & ~allow), lambda: f'{det}: perturbing {c} reached {np.argwhere(chg & ~allow).tolist()[:4]}')
  if n:
    rec.raises('tower-lengths', lambda: towers.forward_flex_tower_factory(out, nd, channels=ch, kernel_shapes=Ks + (Ko,), rates=rates, strides=(1,) * n,
                                                                          output_kernel_shape=Ko), ValueError, 'one kernel too many')


def other_towers(rng, rec, i):
  nd = 1 + i % 3; shp = shapes(rng, nd); ci, out = int(rng.integers(1, 4)), int(rng.integers(1, 4)); x = rng.standard_normal(shp + (ci,))
  act = gen.pick(rng, list(ACT)); A, a_np = ACT[act]; hid, n = int(rng.integers(1, 6)), int(rng.integers(0, 3)); s1 = float(rng.uniform(.3, 2))
  rec.case(nd, shp, ci, out, act, hid, n)
  p, f = build(lambda v: towers.MlpTowerFactory(out, nd, hid, n, A, inputs_scale_fn=lambda q, axes: q * s1, output_scale_fn=lambda q, axes: q - 1)(v), rng, x)
  z = x * s1; ws = wb(p)
  for w, b in ws[:-1]: z = a_np(z @ w + b)
  rec.eq('mlp-layers', [w.shape for w, _ in ws], list(zip([ci] + [hid] * n, [hid] * n + [out])), 'layer sizes')
  rec.close('mlp', f(p, x), z @ ws[-1][0] + ws[-1][1] - 1, tol=1e-10, detail=f'{act}, hidden {hid} x {n}')
  # residual blocks: every block but the last adds to the (transformed) running value
  blocks = int(rng.integers(1, 4)); k = int(rng.integers(1, 4)); g = float(rng.uniform(.5, 1.5))
  seen = []
  def fac(c, d): seen.append((c, d)); return towers.forward_tower_factory(c, d, num_hidden_channels=2, num_hidden_layers=1, kernel_size=k, output_kernel_size=k, nonlinearity=A)
  p, f = build(lambda v: towers.residual_block_tower_factory(out, nd, blocks, fac, skip_connection_fn=lambda q, b: q * (g + b),
                                                             inputs_scale_fn=lambda q, axes: q * s1, output_scale_fn=lambda q, axes: q + 2.)(v), rng, x)
  ws = wb(p); z = x * s1
  ok = rec.eq('residual-layers', len(ws), 2 * blocks, 'two convolutions per block')
  rec.eq('residual-channels', set(seen), {(ci, nd)} | {(out, nd)} if blocks > 1 else {(out, nd)}, 'channels requested')
  if ok:
    for b in range(blocks):
      blk = lambda q: conv_np(a_np(conv_np(q, *ws[2 * b], 1)), *ws[2 * b + 1], 1)
      if b < blocks - 1: s = z * (g + b); z = s + blk(z)
      else: z = blk(z)
    rec.close('residual', f(p, x), z + 2., tol=1e-9, detail=f'{blocks} blocks, kernel {k}, {act}')
  K = (k,) * nd
  p, f = build(lambda v: towers.residual_connection(ci, K, nd, module_factory=towers.periodic_convolution)(v), rng, x)
  (w, b), = wb(p); rec.close('residual-connection', f(p, x), x + conv_np(x, w, b, 1), tol=1e-10, detail=f'kernel {K}')
  # rescaling
  axes = tuple(range(nd)); lo = float(rng.normal()); hi = lo + float(rng.uniform(.1, 3)); y = np.asarray(towers.scale_to_range(x, axes, lo, hi))
  rec.close('rescale-min', y.min(axes), np.full(ci, lo), tol=TOL, scale=1 + abs(lo), detail='smallest value'); rec.close('rescale-max', y.max(axes), np.full(ci, hi), tol=TOL, scale=1 + abs(hi), detail='largest value')
  mn, mx = x.min(axes), x.max(axes); rec.close('rescale', y, lo + (x - mn) * (hi - lo) / (mx - mn), tol=TOL, scale=1 + abs(lo) + abs(hi), detail='affine map')
  fs = float(rng.normal()); rec.close('fixed-scale', towers.fixed_scale(x, axes, fs), x * fs, tol=TOL, detail='linear scaling')


def mirror(rng, rec, i):
  K = tuple(int(rng.integers(1, 5)) for _ in range(2)); rate = int(gen.pick(rng, [1, 1, 2])); eff = [k + (rate - 1) * (k - 1) for k in K]
  shp = tuple(max(4, 2 * e) + int(rng.integers(0, 5)) for e in eff); grid = G.Grid(shp, domain=((0., 1.3), (-.5, 2.)))
  nv = int(rng.integers(1, 4)); offs = [gen.pick(rng, [(.5, .5), (1., .5), (.5, 1.), (1., 1.)]) for _ in range(nv)]
  # one boundary type per axis, shared by the variables; values differ
  types = [gen.pick(rng, ['periodic', 'dirichlet']) for _ in range(2)]
  def bc():
    v = tuple((None, None) if t == 'periodic' else tuple(float(q) for q in rng.normal(size=2)) for t in types)
    return B.ConstantBoundaryConditions(tuple((t, t) for t in types), v)
  bcs = [bc() for _ in offs]
  us = tuple(b.impose_bc(G.GridArray(jnp.asarray(rng.standard_normal(shp)), o, grid)) for b, o in zip(bcs, offs))
  rec.case(K, rate, shp, offs, types)
  via = bool(rng.random() < .5)
  p, f = build(lambda v: (towers.mirror_convolution(nv, K, 2, rate=rate) if via else layers.MirrorConv2D(nv, K, rate=rate))(v), rng, us); (w, b), = wb(p)
  det = f'kernel {K}, rate {rate}, offsets {offs}, {types}'
  pads = [(e // 2, e - e // 2 - 1) for e in eff]
  def pad1(a, ax, o, t, vals, l, r):
    n = a.shape[ax]; a = np.moveaxis(a, ax, 0)
    if t == 'periodic': q = a[np.arange(-l, n + r) % n]
    elif o == .5:   # ghost = 2 v - mirror
      q = np.concatenate([2 * vals[0] - a[:l][::-1], a, 2 * vals[1] - a[n - r:][::-1]] if l + r else [a])
    else:           # interior faces 1..n-1, wall faces 0 and n hold the value
      full = np.concatenate([np.full((1,) + a.shape[1:], vals[0]), a[:-1], np.full((1,) + a.shape[1:], vals[1])])
      # faces -k.. : value - mirror beyond the wall; data index 0 is face 1
      left = [vals[0] - full[k] for k in range(l - 1, 0, -1)]; lead = ([vals[0]] if l else [])
      right = [vals[1] - full[n - k] for k in range(1, r + 1)]
      q = np.stack([*left, *[np.full(a.shape[1:], v) for v in lead], *full[1:], *right])
    return np.moveaxis(q, 0, ax)
  cols = []
  for u, o, c in zip(us, offs, bcs):
    a = np.asarray(u.data)
    for ax in range(2): a = pad1(a, ax, o[ax], types[ax], c.bc_values[ax], *pads[ax])
    cols.append(a)
  X = np.stack(cols, -1); Y = b + sum(X[rate * k0:rate * k0 + shp[0], rate * k1:rate * k1 + shp[1]] @ w[k0, k1] for k0 in range(K[0]) for k1 in range(K[1]))
  got = f(p, us); rec.eq('mirror-count', len(got), nv, det)
  for k, (g, u, o, c) in enumerate(zip(got, us, offs, bcs)):
    want = Y[..., k].copy(); mask = np.ones(shp, bool)
    for ax in range(2):
      if types[ax] == 'dirichlet' and o[ax] == 1.:
        s = [slice(None)] * 2; s[ax] = -1; want[tuple(s)] = c.bc_values[ax][1]
        if all(t == 'dirichlet' for t in types) and o == (1., 1.): mask[-1, -1] = False
    # corners between two walls may be filled in either order: keep the cells whose window avoids them
    if types == ['dirichlet', 'dirichlet']:
      m0 = np.zeros(shp[0], bool); m0[pads[0][0] + 1:shp[0] - pads[0][1] - 1] = True; m1 = np.zeros(shp[1], bool); m1[pads[1][0] + 1:shp[1] - pads[1][1] - 1] = True
      mask &= m0[:, None] | m1[None, :]
    rec.field('mirror', g, None, o, grid, c, detail=det)
    if rec.eq('mirror-shape', g.shape, shp, det):
      rec.close('mirror-values', np.where(mask, np.asarray(g.data), 0), np.where(mask, want, 0), tol=1e-10, scale=np.abs(Y).max() + 1, detail=f'{det}, variable {k}')
  sc = towers.fixed_scale_gridvar(us, (0, 1), 2.5)
  for u, v, o, c in zip(us, sc, offs, bcs):
    want = 2.5 * np.asarray(u.data); mask = np.ones(shp, bool)
    for ax in range(2):
      if types[ax] == 'dirichlet' and o[ax] == 1.:
        s = [slice(None)] * 2; s[ax] = -1; want[tuple(s)] = c.bc_values[ax][1]
        if o == (1., 1.) and types[1 - ax] == 'dirichlet': mask[-1, -1] = False
    rec.field('scale-gridvar', v, None, o, grid, c, detail=det); rec.close('scale-gridvar-values', np.where(mask, np.asarray(v.data), 0), np.where(mask, want, 0), tol=TOL, scale=5., detail=det)


SUITES = {'conv': (conv, 30, 300), 'transpose': (transpose, 18, 160), 'tiles': (tiles, 24, 240), 'patches': (patches, 18, 160),
          'tower': (tower, 18, 200), 'other_towers': (other_towers, 12, 100), 'mirror': (mirror, 18, 200)}
REQUIRED = ['conv', 'conv-layout', 'equivariance', 'receptive-field', 'conv-stride', 'conv-stencil', 'conv-valid', 'transpose', 'transpose-equivariance',
            'space-to-batch', 'batch-to-space', 'halo', 'halo-too-wide', 'apply-tiled', 'patches-roll', 'patches-conv', 'patches-fused', 'tower', 'tower-equivariance',
            'tower-receptive-field', 'mlp', 'residual', 'residual-connection', 'rescale', 'mirror-values', 'scale-gridvar-values']
