SEEDS = [
dict(id='C04-rfft-axes-spacing', prop='C04', edits={'jax_cfd/base/grids.py': [(
"jnp.fft.rfftfreq(self.shape[-1], d=self.step[-1])", "jnp.fft.rfftfreq(self.shape[-1], d=self.step[0])")]},
 needs='a grid with different spacings on its first and last axes',
 breaks='the wavenumbers of the real transform along the last axis use the wrong spacing',
 demo='''
from jax_cfd.base import grids as G
g = G.Grid((6, 8), domain=((0, 3.), (0, 2.)))
ok = np.allclose(g.rfft_axes()[-1], np.fft.rfftfreq(8, .25))
sys.exit(0 if ok else 'wrong frequencies on the last axis')
'''),
dict(id='C05-gradient-tensor-transpose', prop='C05', edits={'jax_cfd/base/finite_differences.py': [(
"    return GridArrayTensor(np.stack([gradient_tensor(u) for u in v], axis=-1))  # pytype: disable=wrong-arg-types  # always-use-return-annotations",
"    return GridArrayTensor([gradient_tensor(u) for u in v])")]},
 needs='the gradient tensor of a velocity whose gradient is not symmetric', breaks='component [i, j] of the tensor is not the derivative along axis i of component j',
 demo='''
from jax_cfd.base import boundaries as B, finite_differences as F, grids as G
g = G.Grid((6, 5), step=(1., .5)); pb = B.periodic_boundary_conditions(2)
r = np.random.default_rng(0)
v = tuple(G.GridVariable(G.GridArray(jnp.asarray(r.normal(size=g.shape)), (.5, .5), g), pb) for _ in range(2))
t = F.gradient_tensor(v)
for i in range(2):
  for j in range(2):
    if not np.allclose(t[i, j].data, F.central_difference(v[j], i).data): sys.exit(f'component {i}{j}')
'''),
dict(id='C05-curl-component', prop='C05', edits={'jax_cfd/base/finite_differences.py': [(
"  curl_y = (forward_difference(v[0], axis=2) - forward_difference(v[2], axis=0))", "  curl_y = (forward_difference(v[2], axis=0) - forward_difference(v[0], axis=2))")]},
 needs='a three-dimensional field', breaks='the y component of the 3-D curl has the wrong sign, the divergence of the curl is not zero',
 demo='''
from jax_cfd.base import boundaries as B, finite_differences as F, grids as G
g = G.Grid((4, 5, 6), step=(1., .5, .7)); pb = B.periodic_boundary_conditions(3)
r = np.random.default_rng(0)
phi = G.GridVariable(G.GridArray(jnp.asarray(r.normal(size=g.shape)), (.5,) * 3, g), pb)
c = F.curl_3d([G.GridVariable(a, pb) for a in F.forward_difference(phi)])
v = tuple(G.GridVariable(G.GridArray(jnp.asarray(r.normal(size=g.shape)), o, g), pb) for o in g.cell_faces)
k = F.curl_3d(v)
want = np.asarray(F.forward_difference(v[0], 2).data - F.forward_difference(v[2], 0).data)
sys.exit(0 if np.allclose(k[1].data, want) else 'curl y component')
'''),
dict(id='C10-neumann-wall-step', prop='C10', edits={'jax_cfd/base/array_utils.py': [(
"    laplacians[axis][-1, -1] = laplacians[axis][-1, -1] + 1 / grid.step[axis]**2", "    laplacians[axis][-1, -1] = laplacians[axis][-1, -1] + 1 / grid.step[0]**2")]},
 needs='a wall on the second or a later axis of a grid with different spacings', breaks='the pressure solve does not invert the Laplacian next to the upper wall',
 demo='''
from jax_cfd.base import boundaries as B, finite_differences as F, grids as G, pressure as P
g = G.Grid((6, 8), domain=((0, 6.), (0, 4.)))
r = np.random.default_rng(0); bc = B.channel_flow_boundary_conditions(2)
v = []
for i, o in enumerate(g.cell_faces):
  d = r.normal(size=g.shape)
  if i == 1: d[:, -1] = 0
  v.append(G.GridVariable(G.GridArray(jnp.asarray(d), o, g), bc))
w = P.projection(tuple(v), P.solve_fast_diag)
m = abs(np.asarray(F.divergence(w).data)).max()
sys.exit(0 if m < 1e-8 else f'divergence {m} after the projection')
'''),
dict(id='C12-dynamic-max-component', prop='C12', edits={'jax_cfd/base/equations.py': [(
"  v_max = jnp.sqrt(jnp.max(sum(u.data ** 2 for u in v)))", "  v_max = jnp.max(jnp.stack([jnp.max(u.data) for u in v]))")]},
 needs='a flow whose strongest component is negative', breaks='the dynamic time step ignores negative velocities and exceeds the Courant limit',
 demo='''
from jax_cfd.base import boundaries as B, equations as E, grids as G
g = G.Grid((8, 8), step=.1); pb = B.periodic_boundary_conditions(2)
v = tuple(G.GridVariable(G.GridArray(jnp.full(g.shape, c), o, g), pb) for c, o in zip((-5., .1), g.cell_faces))
dt = float(E.dynamic_time_step(v, .5, 1e-6, g))
sys.exit(0 if dt * 5 / .1 <= .5 + 1e-6 else f'Courant number {dt * 50}')
'''),
dict(id='C13-imex-stage-skip', prop='C13', edits={'jax_cfd/spectral/time_stepping.py': [(
"if any(a_ex[j][i] for j in range(i, num_steps - 1))", "if any(a_ex[j][i] for j in range(i + 1, num_steps - 1))")]},
 needs='an IMEX scheme one of whose explicit stages is used by the next stage only', breaks='a stage of the IMEX scheme is dropped',
 demo='''
from jax_cfd.spectral import time_stepping as T
class Eq(T.ImplicitExplicitODE):
  def explicit_terms(self, x): return -.7 * x + .2 * x ** 2
  def implicit_terms(self, x): return -2. * x
  def implicit_solve(self, x, h): return x / (1 + 2. * h)
tab = T.ImExButcherTableau(a_ex=[[.5], [0, .5], [0, 0, 1.]], a_im=[[.25, .25], [.2, 0, .3], [.5, 0, 0, .5]], b_ex=[.5, 0, 0, .5], b_im=[.5, 0, 0, .5])
h, y0 = .1, np.array([1., -.5]); eq = Eq()
F, G = eq.explicit_terms, eq.implicit_terms
Y = [y0]
for i in range(1, 4):
  rhs = y0 + h * sum(tab.a_ex[i - 1][j] * F(Y[j]) + tab.a_im[i - 1][j] * G(Y[j]) for j in range(i))
  Y.append(rhs / (1 + 2 * h * tab.a_im[i - 1][i]))
want = y0 + h * sum(tab.b_ex[j] * F(Y[j]) + tab.b_im[j] * G(Y[j]) for j in range(4))
got = T.imex_runge_kutta(tab, eq, h)(jnp.asarray(y0))
sys.exit(0 if np.allclose(got, want) else f'step {got} expected {want}')
'''),
dict(id='C14-forcing-velocity-order', prop='C14', edits={'jax_cfd/spectral/equations.py': [(
"_get_grid_variable(vx, self.grid),\n                                           _get_grid_variable(vy, self.grid)", "_get_grid_variable(vy, self.grid),\n                                           _get_grid_variable(vx, self.grid)")]},
 needs='a forcing which depends on the velocity', breaks='the forcing of the spectral solver is evaluated on swapped velocity components',
 demo='''
from jax_cfd.base import grids as G
from jax_cfd.spectral import equations as E, utils as U
g = G.Grid((8, 8), domain=((0, 2 * np.pi), (0, 2 * np.pi)))
def lin(grid):
  return lambda v: (v[0].array * -1., v[1].array * 0.)
eq = E.NavierStokes2D(.1, g, smooth=False, forcing_fn=lin); no = E.NavierStokes2D(.1, g, smooth=False)
x, y = g.mesh(g.cell_center)
w = jnp.fft.rfftn(jnp.sin(y) + .5 * jnp.cos(2 * x))
got = np.asarray(eq.explicit_terms(w) - no.explicit_terms(w))
u, v = (jnp.fft.irfftn(a) for a in U.vorticity_to_velocity(g)(w))
want = np.asarray(2j * np.pi * no.ky * jnp.fft.rfftn(u))
sys.exit(0 if np.allclose(got, want, atol=1e-9) else 'linear damping of u acts on another component')
'''),
dict(id='C16-filter-weights', prop='C16', edits={'jax_cfd/base/resize.py': [(
"          filter_size[axis])) / filter_size[axis]", "          filter_size[axis])) / filter_size[0]")]},
 needs='a filter of different sizes per axis', breaks='the filter does not preserve constants',
 demo='''
from jax_cfd.base import boundaries as B, grids as G, resize as R
s = G.Grid((16, 16), domain=((0, 1.), (0, 1.))); d = G.Grid((8, 8), domain=((0, 1.), (0, 1.))); pb = B.periodic_boundary_conditions(2)
v = tuple(G.GridVariable(G.GridArray(jnp.ones(s.shape), o, s), pb) for o in s.cell_faces)
w = R.top_hat_downsample(s, d, v, (2, 4))
sys.exit(0 if all(np.allclose(x.data, 1) for x in w) else 'a constant is not preserved')
'''),
dict(id='C22-mixed-derivative-degree', prop='C22', edits={'jax_cfd/ml/layers_util.py': [(
"  max_degree = accuracy_order + sum(derivative_orders) - 1", "  max_degree = accuracy_order + max(derivative_orders) - 1")]},
 needs='a mixed derivative (both orders non-zero)', breaks='stencils for mixed derivatives are not accurate to the requested order',
 demo='''
from jax_cfd.ml import layers_util as L
st = [np.array([-1., 0., 1.]), np.array([-1., 0., 1.])]
A, rhs = L.polynomial_accuracy_constraints(st, L.Method.FINITE_DIFFERENCE, (1, 1), 1)
c = np.linalg.lstsq(A, rhs, rcond=None)[0].reshape(-1)
X, Y = np.meshgrid(*st, indexing='ij')
got = c @ (X * Y).ravel()
sys.exit(0 if abs(got - 1) < 1e-8 else f'd2(xy)/dxdy = {got}')
'''),
dict(id='C24-spectrum-spacing', prop='C24', edits={'jax_cfd/data/xarray_utils.py': [(
"    step = float(array.coords[d][1] - array.coords[d][0])", "    step = float(array.coords[dims[0]][1] - array.coords[dims[0]][0])")]},
 needs='a data set with different spacings per axis', breaks='wavenumbers are labelled with the spacing of another axis',
 demo='''
import xarray
from jax_cfd.data import xarray_utils as X
x, y = np.arange(6) * .5, np.arange(8) * .25
a = xarray.DataArray(np.random.default_rng(0).normal(size=(6, 8)), dims=('x', 'y'), coords=dict(x=x, y=y))
k = X.fourier_transform(a).ky.values
sys.exit(0 if np.allclose(np.sort(k), np.sort(2 * np.pi * np.fft.fftfreq(8, .25))) else 'wrong wavenumbers along y')
'''),
dict(id='C27-band-edge', prop='C27', edits={'jax_cfd/base/forcings.py': [(
"                      (k <= 2 * jnp.pi * upper_wavenumber)),", "                      (k < 2 * jnp.pi * upper_wavenumber)),")]},
 needs='a mode whose wavenumber is exactly the upper limit', breaks='the mode at the upper wavenumber is not forced',
 demo='''
from jax_cfd.base import boundaries as B, forcings as FO, grids as G
g = G.Grid((8, 8), domain=((0, 1.), (0, 1.))); pb = B.periodic_boundary_conditions(2)
x, y = g.mesh(g.cell_center)
v = tuple(G.GridVariable(G.GridArray(jnp.sin(2 * np.pi * 2 * y), o, g), pb) for o in g.cell_faces)
f = FO.filtered_linear_forcing(1, 2, 3., g)(v)
sys.exit(0 if np.allclose(f[0].data, 3 * v[0].data, atol=1e-8) else 'the mode at the upper wavenumber is not forced')
'''),
dict(id='C25-interp-unsorted-axis', prop='C25', edits={'jax_cfd/base/array_utils.py': [(
"    y = jnp.take(y, ind, axis=axis)", "    y = jnp.take(y, ind, axis=-1)")]},
 needs='interpolation of unsorted samples along an axis which is not the last', breaks='the samples are reordered along the wrong axis',
 demo='''
from jax_cfd.base import array_utils as U
r = np.random.default_rng(0)
x = np.array([2., 0., 3., 1.]); y = r.normal(size=(4, 4))
got = np.asarray(U.interp1d(jnp.asarray(x), jnp.asarray(y), axis=0, assume_sorted=False)(jnp.asarray(1.5)))
o = np.argsort(x)
want = .5 * (y[o][1] + y[o][2])
sys.exit(0 if np.allclose(got, want) else 'interpolation of unsorted samples')
'''),
dict(id='C11-circulant-row', prop='C11', edits={'jax_cfd/base/fast_diagonalization.py': [(
"[np.fft.fft(op[:, 0]) for op in operators]", "[np.fft.fft(op[0, :]) for op in operators]")]},
 needs='a circulant operator that is not symmetric, such as a one-sided difference', breaks='functions of a non-symmetric circulant operator are those of its transpose',
 demo='''
from jax_cfd.base import fast_diagonalization as D
n, m = 5, 4
op = lambda n: np.roll(np.eye(n), 1, axis=1) - np.eye(n)
x = np.random.default_rng(0).normal(size=(n, m))
got = D.transform(lambda v: v, (op(n), op(m)), np.dtype('float64'), circulant=True, implementation='fft')(jnp.asarray(x))
sys.exit(0 if np.allclose(got, op(n) @ x + x @ op(m).T) else 'the identity function of the operator is not the operator')
'''),
dict(id='C19-tensor-order', prop='C19', edits={'jax_cfd/base/grids.py': [(
"    lambda tensor: (tensor.ravel().tolist(), tensor.shape),", "    lambda tensor: (tensor.ravel(order='F').tolist(), tensor.shape),")]},
 needs='a tensor that is not symmetric passing through a jax transformation', breaks='tensors are transposed by every jax transformation',
 demo='''
from jax_cfd.base import grids as G
g = G.Grid((3, 3), step=1.)
t = G.GridArrayTensor([[G.GridArray(jnp.full(g.shape, 10. * i + j), (.5, .5), g) for j in range(2)] for i in range(2)])
u = jax.jit(lambda t: t[0, 1])(t)
sys.exit(0 if float(u.data[0, 0]) == 1 else 'jit transposes tensors')
'''),
dict(id='C15-filter-max-wavenumber', prop='C15', edits={'jax_cfd/spectral/utils.py': [(
"  max_k = ky[-1, -1]\n", "  max_k = kx[-1, -1]\n")]},
 needs='the circular filter', breaks='cut-off from the wrong entry', demo='''
from jax_cfd.base import grids as G
from jax_cfd.spectral import utils as U
g = G.Grid((16, 16), domain=((0, 2 * np.pi), (0, 2 * np.pi)))
f = np.asarray(U.circular_filter_2d(g)); sys.exit(0 if f[0, 0] == 1 else 'mean is filtered')
'''),
dict(id='C18-time-axis-split', prop='C18', edits={'jax_cfd/ml/model_utils.py': [(
"    init, _ = array_utils.split_along_axis(x, split_index, axis=time_axis)", "    init, _ = array_utils.split_along_axis(x, split_index, axis=0)")]},
 needs='a trajectory whose time axis is not the first', breaks='the function receives a slice of another axis', demo='''
from jax_cfd.ml import model_utils as M
x = jnp.arange(12.).reshape(3, 4)
got = M.with_split_input(lambda y: y, 2, time_axis=1)(x)
sys.exit(0 if np.shape(got) == (3, 2) and np.allclose(got, x[:, :2]) else f'received shape {np.shape(got)}')
'''),
dict(id='C21-tile-roll-3d', prop='C21', edits={'jax_cfd/ml/tiling.py': [(
'    array = einops.rearrange(array, "bx by bz ... -> (bx by bz) ...", **sizes)', '    array = einops.rearrange(array, "bx by bz ... -> (bx bz by) ...", **sizes)')]},
 needs='a three-dimensional layout with different tilings of the last two axes', breaks='halos of 3-D tiles come from the wrong tile', demo='''
from jax_cfd.ml import tiling as T
x = np.random.default_rng(0).normal(size=(4, 6, 8, 1))
conv = lambda p: sum(p[:, a:p.shape[1] - 2 + a, b:p.shape[2] - 2 + b, c:p.shape[3] - 2 + c] * (1 + a + 3 * b + 9 * c) for a in range(3) for b in range(3) for c in range(3))
pad = ((1, 1),) * 3
a = T.apply_convolution(conv, jnp.asarray(x), (1, 1, 1), pad); b = T.apply_convolution(conv, jnp.asarray(x), (2, 3, 2), pad)
sys.exit(0 if np.allclose(a, b) else 'the tiled convolution differs')
'''),
dict(id='C23-noise-shared', prop='C23', edits={'jax_cfd/ml/train_utils.py': [(
"  rngs = jax.random.split(rng, len(jax.tree.leaves(time_zero_slice)))", "  rngs = [rng] * len(jax.tree.leaves(time_zero_slice))")]},
 needs='noise added to a velocity of several components', breaks='every component receives the same noise', demo='''
from jax_cfd.ml import train_utils as T
b = tuple(jnp.zeros((2, 4, 5, 5)) for _ in range(2))
u, v = T.add_noise_to_input_frame(b, jax.random.PRNGKey(0), scale=.1)
sys.exit('components share their noise' if np.allclose(u, v) else 0)
'''),
dict(id='C24-vorticity-spacing', prop='C24', edits={'jax_cfd/data/xarray_utils.py': [(
"  dy = ds.y[1] - ds.y[0]\n", "  dy = ds.x[1] - ds.x[0]\n")]},
 needs='a data set with different spacings', breaks='the vorticity uses the wrong spacing along y', demo='''
import xarray
from jax_cfd.data import xarray_utils as X
r = np.random.default_rng(0); x, y = np.arange(4) * .5, np.arange(6) * .25
u, v = r.normal(size=(2, 4, 6))
ds = xarray.Dataset({'u': (('x', 'y'), u), 'v': (('x', 'y'), v)}, coords=dict(x=x, y=y))
want = (np.roll(v, -1, 0) - v) / .5 - (np.roll(u, -1, 1) - u) / .25
sys.exit(0 if np.allclose(X.vorticity_2d(ds), want) else 'vorticity')
'''),
dict(id='C23-stack-time-axis', prop='C23', edits={'jax_cfd/ml/encoders.py': [(
"    inputs = array_utils.slice_along_axis(inputs, time_axis, slice(-n, None))\n    inputs = jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), inputs)\n    return array_utils.concat_along_axis(jax.tree.leaves(inputs), axis=-1)\n\n  return encode_fn\n\n\n@gin.register\ndef latent_encoder(", "    inputs = array_utils.slice_along_axis(inputs, time_axis, slice(-n, None))\n    inputs = jax.tree.map(lambda x: jnp.swapaxes(x, time_axis, -1), inputs)\n    return array_utils.concat_along_axis(jax.tree.leaves(inputs), axis=-1)\n\n  return encode_fn\n\n\n@gin.register\ndef latent_encoder(")]},
 needs='inputs with two or more spatial dimensions', breaks='the spatial axes of the encoded state are permuted', demo='''
from jax_cfd.base import grids as G
from jax_cfd.ml import encoders as E, physics_specifications as P
g = G.Grid((3, 4), step=1.)
x = tuple(jnp.asarray(np.random.default_rng(i).normal(size=(5, 3, 4))) for i in range(2))
e = E.stack_last_n_state_encoder(g, .1, None, n=2)(x)
sys.exit(0 if e.shape == (3, 4, 4) and np.allclose(e[..., 0], x[0][-2]) else f'shape {e.shape}')
'''),
]
