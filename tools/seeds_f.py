SEEDS = [
dict(id='C01-neumann-extend', prop='C01', edits={'jax_cfd/base/boundaries.py': [(
"""        elif mode == Padding.EXTEND:
          np_mode = 'edge'
        else:
          raise NotImplementedError(f'Mode {mode} is not implemented yet.')
        # ensures""", """        elif mode == Padding.EXTEND:
          np_mode = 'symmetric'
        else:
          raise NotImplementedError(f'Mode {mode} is not implemented yet.')
        # ensures""")]},
 needs='two or more ghost layers of a field with gradient boundary conditions, padded by the extend rule (the default)', breaks='deeper ghosts are mirrored instead of extended',
 demo='''
from jax_cfd.base import boundaries as B, grids as G
g = G.Grid((6,), step=1.)
u = B.neumann_boundary_conditions(1).pad(G.GridArray(jnp.arange(6.), (.5,), g), -2, 0, mode=B.Padding.EXTEND)
if not np.allclose(u.data[:2], 0): sys.exit(f'ghosts {u.data}')
'''),
dict(id='C01-values-upper', prop='C01', edits={'jax_cfd/base/boundaries.py': [(
"""          data = (2 * jnp.pad(
              data,
              full_padding,
              mode='constant',
              constant_values=self.constant_values) -
                  jnp.pad(data, full_padding, mode='edge'))""",
"""          data = (2 * jnp.pad(
              data,
              full_padding,
              mode='constant',
              constant_values=self.constant_values) -
                  jnp.pad(data, full_padding,
                          mode='edge' if width < 0 else 'symmetric'))""")]},
 needs='two or more ghost layers past the upper wall of a centred field with wall values, padded by the extend rule', breaks='deeper upper ghosts are mirrored instead of extended',
 demo='''
from jax_cfd.base import boundaries as B, grids as G
g = G.Grid((6,), step=1.)
u = B.dirichlet_boundary_conditions(1, ((1., 3.),)).pad(G.GridArray(jnp.arange(6.), (.5,), g), 2, 0, mode=B.Padding.EXTEND)
if not np.allclose(u.data[-2:], 1): sys.exit(f'ghosts {u.data}')
'''),
dict(id='C06-lax-wendroff-step', prop='C06', edits={'jax_cfd/base/interpolation.py': [(
"courant_numbers = (dt / grid.step[axis]) * u.data", "courant_numbers = (dt / min(grid.step)) * u.data")]},
 needs='a grid with different steps per axis and interpolation along the coarser axis', breaks='the correction of the second-order scheme uses another axis\' step',
 demo='''
from jax_cfd.base import boundaries as B, grids as G, interpolation as I
g = G.Grid((8, 8), step=(2., 1.)); bc = B.periodic_boundary_conditions(2); r = np.random.default_rng(0); d = jnp.asarray(r.standard_normal(g.shape))
c = G.GridVariable(G.GridArray(d, g.cell_center, g), bc)
v = tuple(G.GridVariable(G.GridArray(jnp.ones(g.shape), o, g), bc) for o in g.cell_faces)
x = I.lax_wendroff(c, g.cell_faces[0], v, .4).data
w = d + .5 * (1 - .2) * (jnp.roll(d, -1, 0) - d)
if not np.allclose(x, w, atol=1e-5): sys.exit(str(abs(x - w).max()))
'''),
dict(id='C06-linear-quarter', prop='C06', edits={'jax_cfd/base/interpolation.py': [(
"  ceil_weight = 1. - floor_weight\n  data = (floor_weight * c.shift(floor, axis).data +\n          ceil_weight * c.shift(ceil, axis).data)",
"  ceil_weight = 1. - floor_weight\n  if offset_delta < 0:\n    floor_weight, ceil_weight = ceil_weight, floor_weight\n  data = (floor_weight * c.shift(floor, axis).data +\n          ceil_weight * c.shift(ceil, axis).data)")]},
 needs='interpolation backwards by an offset other than a half', breaks='the weights of the two neighbours are exchanged',
 demo='''
from jax_cfd.base import boundaries as B, grids as G, interpolation as I
g = G.Grid((8,), step=1.); bc = B.periodic_boundary_conditions(1)
c = G.GridVariable(G.GridArray(jnp.arange(8.), (.5,), g), bc)
x = I.linear(c, (.25,)).data[1:]
if not np.allclose(x, np.arange(1, 8) - .25): sys.exit(str(x))
'''),
dict(id='C15-circular-nonsquare', prop='C15', edits={'jax_cfd/spectral/utils.py': [(
"  max_k = ky[-1, -1]\n", "  max_k = kx.max()\n")]},
 needs='a grid with different numbers of cells (or lengths) per axis', breaks='the circular filter\'s radius follows the wrong axis',
 demo='''
from jax_cfd.base import grids as G
from jax_cfd.spectral import utils
g = G.Grid((32, 16), domain=((0, 2 * np.pi),) * 2)
f = np.asarray(utils.circular_filter_2d(g)); kx, ky = g.rfft_mesh(); k = np.hypot(kx, ky); c = .65 * ky[-1, -1]
if not np.array_equal(f == 1, k <= c): sys.exit(f'{(f == 1).sum()} kept, {(k <= c).sum()} in the band')
'''),
dict(id='C20-strain-symmetry', prop='C20', edits={'jax_cfd/base/subgrid_models.py': [(
"      2 * np.trace(centered_s_ij.dot(centered_s_ij)))", "      2 * sum(s * s for s in centered_s_ij[np.triu_indices(grid.ndim)]))")]},
 needs='a flow with shear, as opposed to pure strain along the axes', breaks='shear strain is counted once instead of twice',
 demo='''
from jax_cfd.base import boundaries as B, grids as G, subgrid_models as sg
g = G.Grid((8, 8), step=1.); bc = B.periodic_boundary_conditions(2)
s = G.GridArrayTensor([[G.GridArray(jnp.full(g.shape, float(i != j)), g.cell_center, g) for j in (0, 1)] for i in (0, 1)])
v = tuple(G.GridVariable(G.GridArray(jnp.ones(g.shape), o, g), bc) for o in g.cell_faces)
nu = sg.smagorinsky_viscosity(s, v, cs=.2)[0, 0].data
if not np.allclose(nu, .04 * 2, atol=1e-6): sys.exit(str(nu[0]))
'''),
dict(id='C27-swap-depth', prop='C27', edits={'jax_cfd/base/forcings.py': [(
"      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)\n      f = (u, v, w)\n    else:\n      raise NotImplementedError\n  else:", "      w = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)\n      f = (u, v, w)\n    else:\n      raise NotImplementedError\n  else:")]},
 needs='the transposed Kolmogorov forcing in three dimensions', breaks='the third component is reported at the second component\'s location',
 demo='''
from jax_cfd.base import forcings, grids as G
g = G.Grid((4, 4, 4), step=1.)
f = forcings.kolmogorov_forcing(g, swap_xy=True)(None)
if f[2].offset != g.cell_faces[2]: sys.exit(str(f[2].offset))
'''),
dict(id='C27-taylor-green-rectangle', prop='C27', edits={'jax_cfd/base/forcings.py': [(
"      shape=grid.shape[:2], kx=k, ky=k).velocity()", "      shape=(min(grid.shape[:2]),) * 2, kx=k, ky=k).velocity()"), (
"    u = grids.GridArray(u.data * scale, u.offset, grid)\n    v = grids.GridArray(v.data * scale, v.offset, grid)\n    f = (u, v)", "    stretch = lambda x: jnp.tile(x, [n // m for n, m in zip(grid.shape, x.shape)])\n    u = grids.GridArray(stretch(u.data) * scale, u.offset, grid)\n    v = grids.GridArray(stretch(v.data) * scale, v.offset, grid)\n    f = (u, v)")]},
 needs='a two-dimensional grid with twice as many cells along one axis', breaks='the force has more periods than requested along the longer axis',
 demo='''
from jax_cfd.base import forcings, grids as G
g = G.Grid((8, 16), step=1.)
f = forcings.taylor_green_forcing(g, 1., 1)(None)[0].data
if np.abs(np.fft.fft(f, axis=1))[:, 2].max() > 1e-3: sys.exit('two periods along the longer axis')
'''),
dict(id='C16-filter-window', prop='C16', edits={'jax_cfd/base/resize.py': [(
"          filter_size[axis])) / filter_size[axis]", "          filter_size[axis])) / max(filter_size)")]},
 needs='a filter with different sizes along the axes', breaks='constants are scaled',
 demo='''
from jax_cfd.base import boundaries as B, grids as G, resize
g, h = (G.Grid((n, n), domain=((0., 8.),) * 2) for n in (8, 4))
u = G.GridVariable(G.GridArray(jnp.ones(g.shape), g.cell_center, g), B.periodic_boundary_conditions(2))
w, = resize.top_hat_downsample(g, h, (u,), (2, 4))
if not np.allclose(w.data, 1): sys.exit(str(w.data))
'''),
dict(id='C02-impose-order', prop='C02', edits={'jax_cfd/base/boundaries.py': [(
"        if np.isclose(offset_to_pad_to[axis], 1.0):\n          u = self._pad(u, 1, axis, mode=mode)\n        elif np.isclose(offset_to_pad_to[axis], 0.0):\n          u = self._pad(u, -1, axis, mode=mode)",
 "        if np.isclose(offset_to_pad_to[axis], u.offset[0]):\n          u = self._pad(u, 1, axis, mode=mode)\n        elif np.isclose(offset_to_pad_to[axis], 0.0):\n          u = self._pad(u, -1, axis, mode=mode)")]},
 needs='a field on the walls of an axis other than the first and centred along the first (or on its lower face)', breaks='the upper wall value is missing',
 demo='''
from jax_cfd.base import boundaries as B, grids as G
g = G.Grid((4, 4), step=1.); bc = B.dirichlet_boundary_conditions(2)
u = bc.impose_bc(G.GridArray(jnp.ones(g.shape), (.5, 1.), g))
if u.shape != g.shape or not np.allclose(u.data[:, -1], 0): sys.exit(f'{u.shape} {u.data}')
'''),
]
