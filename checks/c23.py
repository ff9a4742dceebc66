"""C23: models assembled from configuration compose exactly the named physics."""
import functools
import itertools
import gin
import haiku as hk
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import advection, boundaries as B, diffusion, equations as beq, forcings as bf
from jax_cfd.base import grids as G, interpolation as ip, pressure, subgrid_models as sg, time_stepping as bts
from jax_cfd.ml import advections as ma, decoders as de, diffusions as md, encoders as en, equations as meq, forcings as mf
from jax_cfd.ml import interpolations as mi, metrics, model_builder as mb, model_utils as mu, networks as nw
from jax_cfd.ml import physics_specifications as mp, pressures as mpr, time_integrators as ti, train_utils as tu
from jax_cfd.ml import viscosities as mv
from jax_cfd.spectral import equations as seq, time_stepping as sts, utils as su
from vlib import gen, workloads

RULE = ('random component choices and parameters, assembled through python partials and through gin configuration text, are '
        'run on random states and compared with the library routines called directly; encoders, decoders, networks, '
        'viscosities, losses, metrics and training helpers are compared with numpy definitions, with random affine+tanh maps '
        'standing in for trained networks; distinct by configuration')
ASSUMPTIONS = ['float64', 'networks are deterministic functions of their inputs', 'periodic domains unless the component takes '
               'boundary conditions', 'Nyquist modes excluded from vorticity round trips']

TOL = 1e-11
POOL = [(6, 9), (8, 5), (7, 7), (4, 6, 5), (12, 8)]


def run(fn, *a):
  """init/apply a haiku-using function eagerly."""
  f = hk.without_apply_rng(hk.transform(fn))
  return f.apply({}, *a)  # the stand-in networks carry their own weights


def tower(rng, log=None, scale=1.):
  """Random pointwise map standing in for a trained network; depends on every input channel."""
  s = int(rng.integers(2 ** 31))
  def W(cin, out):
    r = np.random.default_rng([s, cin, out])
    return scale * r.standard_normal((cin, out)), scale * r.standard_normal(out)
  def factory(num_output_channels, ndim, name=None, **kw):
    def net(x):
      if log is not None: log.append((num_output_channels, ndim, x.shape, name))
      w, b = W(x.shape[-1], num_output_channels)
      return jnp.tanh(x @ w) + b
    return net
  def by_hand(x, out):
    w, b = W(x.shape[-1], out)
    return np.tanh(np.asarray(x) @ w) + b
  return factory, by_hand


def cmp_fields(rec, mon, got, want, detail='', tol=TOL):
  if not rec.eq(mon + ':count', len(got), len(want), detail): return
  sc = max(float(np.max(np.abs(np.asarray(w.data)))) for w in want) + 1e-30
  for a, b in zip(got, want):
    rec.field(mon, a, np.asarray(b.data), b.offset, b.grid, getattr(b, 'bc', None), tol=tol, scale=sc, detail=detail)


def specs(rng, forcing, nu, rho):
  return mp.NavierStokesPhysicsSpecs(forcing_module=forcing, density=rho, viscosity=nu)


INTERP = {'linear': (mi.linear, ip.linear, '@interpolations.linear'),
          'upwind': (mi.upwind, ip.upwind, '@interpolations.upwind'),
          'lax_wendroff': (mi.lax_wendroff, ip.lax_wendroff, '@interpolations.lax_wendroff'),
          'tvd': (None, ip.apply_tvd_limiter(ip.lax_wendroff, ip.van_leer_limiter), '@interpolations.transformed')}


def choose(rng, nd):
  c = {}
  c['solver'] = gen.pick(rng, ['semi', 'semi', 'fast', 'cg', 'evm'])
  c['c'] = gen.pick(rng, list(INTERP)); c['u'] = gen.pick(rng, ['linear', 'linear', 'upwind'])
  c['pressure'] = gen.pick(rng, ['fast', 'cg'])
  c['forcing'] = gen.pick(rng, ['none', 'kolmogorov', 'kolmogorov+', 'taylor_green', 'linear', 'filtered'] if nd == 2 else
                          ['none', 'kolmogorov', 'kolmogorov+', 'taylor_green', 'linear'])
  c['accel'] = gen.pick(rng, ['', '', 'e', 'ee', 'eee'])  # acceleration modules besides the forcing
  c['stepper'] = gen.pick(rng, list(workloads.STEPPERS)) if c['solver'] == 'semi' else None
  c['nu'] = float(gen.pick(rng, [1e-3, .02, .1])); c['rho'] = float(gen.pick(rng, [1., .5, 2.]))
  c['cs'] = float(np.round(rng.uniform(.1, .4), 3)); c['scale'] = float(np.round(rng.uniform(.2, 2), 3))
  c['k'] = int(rng.integers(1, 4)); c['lin'] = float(np.round(rng.normal() * .3, 3)); c['swap'] = bool(rng.random() < .5)
  c['atol'] = float(gen.pick(rng, [1e-3, 1e-8])); c['maxiter'] = int(gen.pick(rng, [2, 5, 40]))
  c['lo'], c['hi'] = 0., float(gen.pick(rng, [1.5, 3.]))
  c['impl'] = gen.pick(rng, [None, 'matmul', 'fft'])
  return c


def forcing_pair(c):
  """(module taking the grid, gin reference, gin lines, directly called library routine)."""
  k, s, l, w = c['forcing'], c['scale'], c['lin'], c['k']
  if k == 'none': return mf.no_forcing, '@forcings.no_forcing', [], bf.no_forcing
  if k == 'linear':
    return (functools.partial(mf.linear_forcing, scale=s), '@forcings.linear_forcing', [f'forcings.linear_forcing.scale={s}'],
            lambda g: bf.linear_forcing(g, s))
  if k == 'filtered':
    return (functools.partial(mf.filtered_linear_forcing, scale=s, lower_wavenumber=c['lo'], upper_wavenumber=c['hi']),
            '@forcings.filtered_linear_forcing', [f'forcings.filtered_linear_forcing.scale={s}', f'forcings.filtered_linear_forcing.lower_wavenumber={c["lo"]}',
             f'forcings.filtered_linear_forcing.upper_wavenumber={c["hi"]}'],
            lambda g: bf.filtered_linear_forcing(c['lo'], c['hi'], coefficient=s, grid=g))
  if k.startswith('kolmogorov'):
    lin = l if k.endswith('+') else 0
    def direct(g):
      f = bf.kolmogorov_forcing(g, scale=s, k=w, swap_xy=c['swap'])
      return bf.sum_forcings(f, bf.linear_forcing(g, lin)) if lin else f
    return (functools.partial(mf.kolmogorov_forcing, scale=s, wavenumber=w, linear_coefficient=lin, swap_xy=c['swap']),
            '@forcings.kolmogorov_forcing', [f'forcings.kolmogorov_forcing.{a}={b}' for a, b in
             [('scale', s), ('wavenumber', w), ('linear_coefficient', lin), ('swap_xy', c['swap'])]], direct)
  def direct(g):
    return bf.sum_forcings(bf.taylor_green_forcing(g, scale=s, k=w), bf.linear_forcing(g, l))
  return (functools.partial(mf.taylor_green_forcing, scale=s, wavenumber=w, linear_coefficient=l), '@forcings.taylor_green_forcing',
          [f'forcings.taylor_green_forcing.{a}={b}' for a, b in [('scale', s), ('wavenumber', w), ('linear_coefficient', l)]], direct)


def by_partials(c):
  def interp(n):
    return INTERP[n][0] or functools.partial(mi.transformed, v=None)
  adv = functools.partial(ma.modular_advection, c_interpolation_module=interp(c['c']), u_interpolation_module=interp(c['u']))
  vis = functools.partial(mv.smagorinsky_viscosity, cs=c['cs'])
  evm = functools.partial(mv.eddy_viscosity_model, viscosity_model=vis)
  sol = {'semi': functools.partial(meq.semi_implicit_navier_stokes, diffusion_module=md.diffuse, time_stepper=workloads.STEPPERS.get(c['stepper'])),
         'fast': functools.partial(meq.implicit_diffusion_navier_stokes, diffusion_module=functools.partial(md.solve_fast_diag, implementation=c['impl'])),
         'cg': functools.partial(meq.implicit_diffusion_navier_stokes, diffusion_module=functools.partial(
             md.solve_cg, atol=c['atol'], rtol=c['atol'] / 2, maxiter=c['maxiter'])),
         'evm': functools.partial(meq.implicit_diffusion_navier_stokes, diffusion_module=functools.partial(
             md.implicit_evm_solve_with_diffusion, viscosity_module=evm, atol=c['atol'], maxiter=c['maxiter']))}[c['solver']]
  pre = {'fast': mpr.fast_diagonalization, 'cg': functools.partial(mpr.conjugate_gradient, atol=c['atol'], maxiter=c['maxiter'])}[c['pressure']]
  return functools.partial(meq.modular_navier_stokes_model, equation_solver=sol,
                           convection_module=functools.partial(ma.self_advection, advection_module=adv),
                           pressure_module=pre, acceleration_modules=tuple(evm for _ in c['accel']))


def gin_text(c, flines, fref):
  t = ['modular_navier_stokes_model.convection_module=@advections.self_advection',
       'advections.self_advection.advection_module=@advections.modular_advection']
  for w in 'cu':
    t.append(f'advections.modular_advection.{w}_interpolation_module={INTERP[c[w]][2]}')
    if c[w] == 'tvd': t.append('interpolations.transformed.v=None')
  t.append(f'viscosities.smagorinsky_viscosity.cs={c["cs"]}')
  t.append('viscosities.eddy_viscosity_model.viscosity_model=@viscosities.smagorinsky_viscosity')
  if c['solver'] == 'semi':
    t += ['modular_navier_stokes_model.equation_solver=@equations.semi_implicit_navier_stokes',
          'equations.semi_implicit_navier_stokes.diffusion_module=@diffusions.diffuse']
  else:
    m = {'fast': 'solve_fast_diag', 'cg': 'solve_cg', 'evm': 'implicit_evm_solve_with_diffusion'}[c['solver']]
    t += ['modular_navier_stokes_model.equation_solver=@equations.implicit_diffusion_navier_stokes',
          f'equations.implicit_diffusion_navier_stokes.diffusion_module=@diffusions.{m}']
    if c['solver'] == 'fast': t.append(f'diffusions.solve_fast_diag.implementation={c["impl"]!r}')
    if c['solver'] == 'cg':
      t += [f'diffusions.solve_cg.atol={c["atol"]}', f'diffusions.solve_cg.rtol={c["atol"] / 2}', f'diffusions.solve_cg.maxiter={c["maxiter"]}']
    if c['solver'] == 'evm':
      t += ['diffusions.implicit_evm_solve_with_diffusion.viscosity_module=@viscosities.eddy_viscosity_model',
            f'diffusions.implicit_evm_solve_with_diffusion.atol={c["atol"]}', f'diffusions.implicit_evm_solve_with_diffusion.maxiter={c["maxiter"]}']
  if c['pressure'] == 'cg':
    t += ['modular_navier_stokes_model.pressure_module=@pressures.conjugate_gradient',
          f'pressures.conjugate_gradient.atol={c["atol"]}', f'pressures.conjugate_gradient.maxiter={c["maxiter"]}']
  else:
    t.append('modular_navier_stokes_model.pressure_module=@pressures.fast_diagonalization')
  if c['accel']: t.append('modular_navier_stokes_model.acceleration_modules=(' + '@viscosities.eddy_viscosity_model,' * len(c['accel']) + ')')
  t += flines
  t += ['get_physics_specs.physics_specs_cls=@NavierStokesPhysicsSpecs', f'NavierStokesPhysicsSpecs.forcing_module={fref}',
        f'NavierStokesPhysicsSpecs.density={c["rho"]}', f'NavierStokesPhysicsSpecs.viscosity={c["nu"]}']
  return t


def direct(c, g, dt, fdirect):
  evm = functools.partial(sg.evm_model, viscosity_fn=functools.partial(sg.smagorinsky_viscosity, dt=dt, cs=c['cs']))
  f0 = fdirect(g)
  def forcing(v):
    out = f0(v)
    if c['accel']:
      out = tuple(G.GridArray(a.data + len(c['accel']) * b.data, a.offset, a.grid) for a, b in zip(out, evm(v)))
    return out
  cint, uint = INTERP[c['c']][1], INTERP[c['u']][1]
  convect = lambda v: tuple(advection.advect_general(u, v, uint, cint, dt) for u in v)
  ps = pressure.solve_fast_diag if c['pressure'] == 'fast' else functools.partial(pressure.solve_cg, atol=c['atol'], maxiter=c['maxiter'])
  kw = dict(density=c['rho'], viscosity=c['nu'], dt=dt, grid=g, convect=convect, pressure_solve=ps, forcing=forcing)
  if c['solver'] == 'semi':
    return beq.semi_implicit_navier_stokes(diffuse=diffusion.diffuse, time_stepper=workloads.STEPPERS[c['stepper']], **kw)
  ds = {'fast': functools.partial(diffusion.solve_fast_diag, implementation=c['impl']),
        'cg': functools.partial(diffusion.solve_cg, atol=c['atol'], rtol=c['atol'] / 2, maxiter=c['maxiter']),
        'evm': functools.partial(sg.implicit_evm_solve_with_diffusion, configured_evm_model=evm,
                                 cg_kwargs=dict(atol=c['atol'], maxiter=c['maxiter']))}[c['solver']]
  return beq.implicit_diffusion_navier_stokes(diffusion_solve=ds, **kw)


def navier_stokes(rng, rec, i):
  nd = int(gen.pick(rng, [2, 2, 3]))
  g = gen.mild_grid(rng, nd, pool=[p for p in POOL if len(p) == nd])
  c = choose(rng, nd); style = ['partial', 'gin'][i % 2]
  if style == 'gin' and c['solver'] == 'semi': c['stepper'] = 'euler'
  if c['solver'] == 'semi': c['impl'] = None
  fm, fref, flines, fdirect = forcing_pair(c)
  v = pressure.projection(gen.periodic_velocity(rng, g, 'normal'))
  dt = workloads.safe_dt(v, g, c['nu'] / c['rho'], .2)
  if c['solver'] == 'evm' and c['maxiter'] > 5: c['maxiter'] = 5
  rec.case(style, tuple(sorted((k, str(x)) for k, x in c.items() if k not in ('scale', 'cs', 'lin'))), nd, sample=(style, c, g.shape))
  if style == 'partial':
    build = by_partials(c); ps = specs(rng, fm, c['nu'], c['rho'])
    step = lambda s: build(g, dt, ps)(s)
  else:
    gin.clear_config()
    gin.parse_config(gin_text(c, flines, fref))
    ps = mp.get_physics_specs()
    rec.close('specs', np.array([ps.density, ps.viscosity]), np.array([c['rho'], c['nu']]), detail='configured physics')
    step = lambda s: meq.modular_navier_stokes_model(g, dt, ps)(s)
  try:
    got = run(step, v)
    want = direct(c, g, dt, fdirect)(v)
    cmp_fields(rec, 'ns-step', got, want, f'{style} {c}')
    if c['solver'] != 'evm':
      two = lambda s: step(step(s))
      cmp_fields(rec, 'ns-two-steps', run(two, v), direct(c, g, dt, fdirect)(want), f'{style} {c} two steps', tol=1e-9)
    rec.raises('ns-type', lambda: run(step, tuple(u.array for u in v)), ValueError, detail='raw arrays as state')
  finally:
    gin.clear_config()


def forcing_modules(rng, rec, i):
  nd = 2 if rng.random() < .6 else 3
  g = gen.mild_grid(rng, nd, pool=[p for p in POOL if len(p) == nd])
  c = choose(rng, nd); v = gen.periodic_velocity(rng, g, 'normal')
  rec.case(c['forcing'], c['k'], c['swap'], nd, g.shape)
  fm, _, _, fd = forcing_pair(c)
  want = fd(g)(v); got = fm(g)(v)
  cmp_fields(rec, 'forcing-module', got, want, str(c))
  # independent formulas
  X = lambda o: np.meshgrid(*[lo + (np.arange(n) + oo) * h for (lo, _), n, oo, h in zip(g.domain, g.shape, o, g.step)], indexing='ij')
  k, s, w = c['forcing'], c['scale'], c['k']
  if k == 'linear':
    for a, u in zip(got, v): rec.close('linear-forcing', a, s * np.asarray(u.data), detail='scale*u')
  if k.startswith('kolmogorov'):
    lin = c['lin'] if k.endswith('+') else 0
    ax = 1 if c['swap'] else 0
    for j, (a, u) in enumerate(zip(got, v)):
      w_ = s * np.sin(w * X(u.offset)[1 - ax]) if j == ax else 0.
      rec.close('kolmogorov-forcing', a, w_ + lin * np.asarray(u.data), scale=s + 1, detail=f'{c} component {j}')
  offs = tuple(tuple(float(x) for x in rng.choice([0., .5, 1.], nd)) for _ in range(nd))
  f = mf.kolmogorov_forcing(g, scale=s, wavenumber=w, swap_xy=c['swap'], offsets=offs)(v)
  ax = 1 if c['swap'] else 0
  want = s * np.sin(w * X(offs[ax])[1 - ax])
  rec.field('kolmogorov-offsets', f[ax], want, offs[ax], g, scale=s, detail=f'offsets {offs}')
  for j in range(nd):
    if j != ax: rec.small('kolmogorov-offsets', f[j], s, detail='other components')
  # sums of forcings of any number
  n = int(rng.integers(1, 4))
  fs = [[rng.standard_normal(g.shape) for _ in range(nd)] for _ in range(n)]
  mk = lambda F: (lambda v: tuple(gen.arr(a, u.offset, g) for a, u in zip(F, v)))
  tot = mf.sum_forcings(*[mk(F) for F in fs])(v)
  for j in range(nd): rec.close('sum-forcings', tot[j], sum(F[j] for F in fs), detail=f'{n} forcings')
  # vorticity-space forcing: the curl of the velocity forcing, seen by the velocity recovered from the vorticity
  if nd == 2:
    gg = gen.mild_grid(rng, 2, pool=[(8, 6), (12, 8), (7, 9)])
    w_ = rng.standard_normal(gg.shape); w_ -= w_.mean()
    KX, KY = np.meshgrid(np.fft.fftfreq(gg.shape[0], gg.step[0]), np.fft.fftfreq(gg.shape[1], gg.step[1]), indexing='ij')
    nyq = ((gg.shape[0] % 2 == 0) & (np.abs(KX) >= .5 / gg.step[0] - 1e-9)) | ((gg.shape[1] % 2 == 0) & (np.abs(KY) >= .5 / gg.step[1] - 1e-9))
    wh = np.fft.fft2(w_); wh[nyq] = 0; wh[0, 0] = 0; w_ = np.fft.ifft2(wh).real
    lap = -4 * np.pi ** 2 * (KX ** 2 + KY ** 2); lap[0, 0] = 1
    psi = -wh / lap
    u_ = np.fft.ifft2(2j * np.pi * KY * psi).real; v_ = np.fft.ifft2(-2j * np.pi * KX * psi).real
    a = float(rng.normal())
    seen = []
    def fmod(grid, offsets):
      def f(v):
        seen.append(v)
        return tuple(gen.arr(a * jnp.asarray(p.data) + jnp.asarray(q), o, grid) for p, q, o in zip(v, ext, offsets))
      return f
    ext = [gen.smooth(rng, gg, (0., 0.), kmax=2), gen.smooth(rng, gg, (0., 0.), kmax=2)]
    out = mf.vorticity_space_forcing(gg, fmod)(jnp.asarray(w_)[..., None])
    eh = [np.fft.fft2(e) for e in ext]
    want = np.fft.ifft2(2j * np.pi * (KX * eh[1] - KY * eh[0])).real + a * w_
    rec.close('vorticity-forcing', out, want, tol=1e-9, detail='curl of the velocity forcing')
    sc = np.abs(u_).max() + np.abs(v_).max()
    rec.close('vorticity-forcing-velocity', seen[0][0], u_, tol=1e-9, scale=sc, detail='u passed to the forcing')
    rec.close('vorticity-forcing-velocity', seen[0][1], v_, tol=1e-9, scale=sc, detail='v passed to the forcing')
  sk = mf.spectral_kolmogorov_forcing(g)(v) if nd == 2 else None
  if sk is not None:
    rec.field('spectral-kolmogorov', sk[0], np.sin(4 * X((0., 0.))[1]), (0., 0.), g, scale=1., detail='sin(4y)')
    rec.small('spectral-kolmogorov', sk[1], 1., detail='y component')


SPEC_STEPPERS = {'cn_rk2': sts.crank_nicolson_rk2, 'cn_rk3': sts.crank_nicolson_rk3, 'cn_rk4': sts.crank_nicolson_rk4,
                 'bfe': sts.backward_forward_euler, 'sil3': sts.imex_rk_sil3}


def spectral(rng, rec, i):
  g = gen.mild_grid(rng, 2, pool=[(8, 8), (12, 8), (7, 9), (8, 12)])
  nm = gen.pick(rng, list(SPEC_STEPPERS)); filt = bool(rng.random() < .5); use_f = bool(rng.random() < .6)
  nu = float(gen.pick(rng, [1e-3, .05])); drag = float(gen.pick(rng, [0., .1, .5])); smooth = bool(rng.random() < .5)
  k = int(rng.integers(1, 4)); s = float(rng.uniform(.3, 2))
  style = ['partial', 'gin'][i % 2]
  if i % 4 == 0: nm, filt = ['cn_rk4', 'bfe'][i // 4 % 2], False
  rec.case(nm, filt, use_f, nu, drag, smooth, style, g.shape)
  fm = (lambda gr: bf.kolmogorov_forcing(gr, scale=s, k=k, offsets=((0, 0), (0, 0)))) if use_f else None
  w = rng.standard_normal(g.shape); w -= w.mean(); wh = jnp.fft.rfft2(jnp.asarray(w))
  dt = .1 * min(g.step)
  try:
    if style == 'partial':
      ps = mp.SpectralNavierStokesPhysicsSpecs(forcing_module=fm, viscosity=nu, drag=drag, smooth=smooth)
      build = functools.partial(meq.modular_spectral_step_fn, do_filter_step=filt, time_stepper=SPEC_STEPPERS[nm])
      step = lambda x: build(g, dt, ps)(x)
    else:
      nm = 'cn_rk4'; fm = mf.spectral_kolmogorov_forcing if use_f else None
      gin.clear_config()
      gin.parse_config(['get_physics_specs.physics_specs_cls=@SpectralNavierStokesPhysicsSpecs',
                        f'SpectralNavierStokesPhysicsSpecs.viscosity={nu}', f'SpectralNavierStokesPhysicsSpecs.drag={drag}',
                        f'SpectralNavierStokesPhysicsSpecs.smooth={smooth}',
                        'SpectralNavierStokesPhysicsSpecs.forcing_module=' + ('@forcings.spectral_kolmogorov_forcing' if use_f else 'None'),
                        f'equations.modular_spectral_step_fn.do_filter_step={filt}',
                        'get_model_cls.model_cls=@ModularStepModel',
                        'ModularStepModel.advance_module=@equations.modular_spectral_step_fn',
                        'ModularStepModel.encoder_module=@encoders.spectral_vorticity_encoder',
                        'ModularStepModel.decoder_module=@decoders.spectral_vorticity_decoder'])
      ps = mp.get_physics_specs()
      step = lambda x: mb.get_model_cls(g, dt, ps)().advance(x)
    eq = seq.NavierStokes2D(nu, g, drag=drag, forcing_fn=fm, smooth=smooth)
    base = SPEC_STEPPERS[nm](eq, dt)
    want = base(wh)
    if filt:
      want = jnp.fft.rfft2(su.exponential_filter(jnp.fft.irfft2(want, s=g.shape)))
    rec.close('spectral-step', run(step, wh), want, detail=f'{style} {nm} filter={filt} nu={nu} drag={drag} smooth={smooth}')
    # linear part by hand: with only the mean mode present drag is the whole dynamics
    if nm in ('bfe', 'cn_rk4') and not filt and style == 'partial':
      one = jnp.zeros_like(wh).at[0, 0].set(1.)
      d0 = want_drag(nm, drag, dt)
      rec.close('spectral-drag', np.asarray(run(step, one))[0, 0], np.asarray(d0 + 0j), tol=1e-10, detail=f'mean-mode decay {nm}')
  finally:
    gin.clear_config()


def want_drag(nm, drag, dt):
  if nm == 'bfe': return 1 / (1 + dt * drag)
  a = [0, 0.1496590219993, 0.3704009573644, 0.6222557631345, 0.9582821306748, 1.]  # Carpenter-Kennedy stages
  r = 1.
  for lo, hi in zip(a[:-1], a[1:]):
    m = .5 * dt * (hi - lo)
    r *= (1 - m * drag) / (1 + m * drag)
  return r


def codecs(rng, rec, i):
  nd = int(gen.pick(rng, [1, 2, 2, 3]))
  g = gen.mild_grid(rng, nd, pool=[p for p in POOL + [(9,), (6,)] if len(p) == nd])
  T = int(rng.integers(1, 5)); n = int(rng.integers(1, T + 1)); ps = specs(rng, mf.no_forcing, .1, 1.)
  traj = tuple(rng.standard_normal((T,) + g.shape) for _ in range(nd)); jt = tuple(map(jnp.asarray, traj))
  rec.case(nd, g.shape, T, n)
  per = B.periodic_boundary_conditions(nd)
  enc = en.aligned_array_encoder(g, .1, ps)(jt)
  for a, x, o in zip(enc, traj, g.cell_faces):
    rec.field('aligned-encode', a, x[-1], o, g, per, tol=1e-15, detail='last frame on cell faces')
  dec = de.aligned_array_decoder(g, .1, ps)(enc)
  for a, x in zip(dec, traj): rec.close('aligned-round-trip', a, x[-1], tol=1e-15, detail='decode(encode)')
  offs = tuple(tuple(float(q) for q in rng.choice([0., .5, 1.], nd)) for _ in range(nd))
  for a, x, o in zip(en.aligned_array_encoder(g, .1, ps, data_offsets=offs)(jt), traj, offs):
    rec.field('aligned-encode-offsets', a, x[-1], o, g, per, tol=1e-15, detail=f'{offs}')
  # physics specifications may fix the locations and boundaries
  class Combo(mp.NavierStokesPhysicsSpecs):
    def combo_offsets(self): return coff
    def combo_boundaries(self): return cbc
  cbc = tuple(gen.bc(rng, nd) for _ in range(nd))
  coff = tuple(gen.admissible_offset(rng, b.types) for b in cbc)
  cs = Combo(mf.no_forcing, 1., .1)
  for a, x, o, b in zip(en.aligned_array_encoder(g, .1, cs, data_offsets=offs)(jt), traj, coff, cbc):
    d = np.array(x[-1]); m = gen.wall_mask(g, o, b)
    want = gen.wall_fix(d, g, o, b)
    rec.field('combo-encode', a, offset=o, grid=g, bc=b, detail='stated location and boundary')
    got = np.asarray(a.data)
    rec.close('combo-encode', got[~m], d[~m], tol=1e-15, detail='samples inside')
    amb = sum(gen_mask_axis(g, o, b, ax) for ax in range(nd)) > 1
    rec.close('combo-encode-wall', got[m & ~amb], want[m & ~amb], tol=1e-12, scale=10., detail='samples on Dirichlet walls')
  # collocated <-> staggered
  st = en.collocated_to_staggered_encoder(g, .1, ps)(jt)
  for j, (a, x) in enumerate(zip(st, traj)):
    rec.field('col-to-stag', a, .5 * (x[-1] + np.roll(x[-1], -1, j)), g.cell_faces[j], g, per, tol=1e-13, detail='two-point mean')
  fields = tuple(gen.var(x[-1], o, g, per) for x, o in zip(traj, g.cell_faces))
  for j, (a, x) in enumerate(zip(de.staggered_to_collocated_decoder(g, .1, ps)(fields), traj)):
    rec.close('stag-to-col', a, .5 * (x[-1] + np.roll(x[-1], 1, j)), tol=1e-13, detail='two-point mean')
  rec.ok('identity-decoder', de.identity_decoder(g, .1, ps)(fields) is fields, 'returns the state')
  # slices along any time axis
  ax = int(rng.integers(0, nd + 1)); mv_ = lambda x: np.moveaxis(x, 0, ax)
  inp = tuple(jnp.asarray(mv_(x)) for x in traj)
  for a, x in zip(en.slice_last_state_encoder(g, .1, ps, time_axis=ax)(inp), traj):
    rec.close('slice-last', a, x[-1], tol=1e-15, detail=f'axis {ax}')
  for a, x in zip(en.slice_last_n_state_encoder(g, .1, ps, n=n, time_axis=ax)(inp), traj):
    rec.close('slice-last-n', a, np.moveaxis(x[-n:], 0, -1), tol=1e-15, detail=f'n={n} axis {ax}')
  want = np.concatenate([np.moveaxis(x[-n:], 0, -1) for x in traj], -1)
  rec.close('stack-last-n', en.stack_last_n_state_encoder(g, .1, ps, n=n, time_axis=ax)(inp), want, tol=1e-15, detail=f'n={n} axis {ax}')
  x = rng.standard_normal(g.shape + (nd + 1,))
  for j, a in enumerate(de.channels_split_decoder(g, .1, ps)(jnp.asarray(x))):
    rec.close('channels-split', a, x[..., j], tol=1e-15, detail=f'channel {j}')
  # learned
  tf, byh = tower(rng); L = int(rng.integers(1, 4))
  rec.close('latent-encode', run(lambda q: en.latent_encoder(g, .1, ps, tf, L, n, ax)(q), inp), byh(want, L), tol=1e-12, detail='net(stack)')
  out = run(lambda q: en.aligned_latent_encoder(g, .1, ps, tf, nd, n, ax)(q), inp)
  for j, a in enumerate(out):
    rec.field('aligned-latent-encode', a, byh(want, nd)[..., j], g.cell_faces[j], g, per, tol=1e-12, detail='channels on faces')
  z = rng.standard_normal(g.shape + (L,)); nc = gen.pick(rng, [None, 1, 3])
  for j, a in enumerate(_len(rec, 'latent-decode', run(lambda q: de.latent_decoder(g, .1, ps, tf, nc)(q), jnp.asarray(z)), nc or nd)):
    rec.close('latent-decode', a, byh(z, nc or nd)[..., j], tol=1e-12, detail=f'component {j}')
  st_ = np.stack([np.asarray(f.data) for f in fields], -1)
  for j, a in enumerate(_len(rec, 'latent-decode', run(lambda q: de.aligned_latent_decoder(g, .1, ps, tf, nc)(q), fields), nc or nd)):
    rec.close('aligned-latent-decode', a, byh(st_, nc or nd)[..., j], tol=1e-12, detail=f'component {j}')


def _len(rec, mon, x, n):
  rec.eq(mon + ':components', len(x), n, 'number of components')
  return x


def gen_mask_axis(g, offset, b, ax):
  m = np.zeros(g.shape, int)
  for side in (0, 1):
    if b.types[ax][side] == gen.Dd:
      j = (0 if side == 0 else g.shape[ax]) - offset[ax]
      if abs(j - round(j)) < 1e-9 and 0 <= round(j) < g.shape[ax]:
        np.moveaxis(m, ax, 0)[int(round(j))] = 1
  return m


def vorticity_codecs(rng, rec, i):
  g = gen.mild_grid(rng, 2, pool=[(8, 6), (12, 8), (7, 9), (5, 12), (9, 9)])
  T = int(rng.integers(1, 4)); ps = specs(rng, mf.no_forcing, .1, 1.)
  rec.case(g.shape, T)
  N, M = g.shape
  KX, KY = np.meshgrid(np.fft.fftfreq(N, g.step[0]), np.fft.fftfreq(M, g.step[1]), indexing='ij')
  keep = (np.abs(KX) < .5 / g.step[0] - 1e-9) & (np.abs(KY) < .5 / g.step[1] - 1e-9)
  def band(x): return np.fft.ifft2(np.fft.fft2(x, axes=(-2, -1)) * keep, axes=(-2, -1)).real
  psi = band(rng.standard_normal((T, N, M))); psi -= psi.mean((-1, -2), keepdims=True)
  D = lambda a, K: np.fft.ifft2(2j * np.pi * K * np.fft.fft2(a, axes=(-2, -1)), axes=(-2, -1)).real
  u, v = D(psi, KY), -D(psi, KX)
  w = D(v, KX) - D(u, KY)
  inp = (jnp.asarray(u), jnp.asarray(v)); sc = np.abs(w).max() + 1e-30; vs = max(np.abs(u).max(), np.abs(v).max())
  e1 = en.vorticity_encoder(g, .1, ps)(inp); e2 = en.vorticity_velocity_encoder(g, .1, ps)(inp); e3 = en.spectral_vorticity_encoder(g, .1, ps)(inp)
  rec.close('vorticity-encode', e1, w[-1][..., None], tol=1e-11, scale=sc, detail='curl of the last frame')
  rec.close('vorticity-velocity-encode', e2, np.stack([u[-1], v[-1], w[-1]], -1), tol=1e-11, scale=sc + vs, detail='[u, v, w]')
  rec.close('spectral-encode', jnp.fft.irfft2(e3, s=g.shape), w[-1], tol=1e-11, scale=sc, detail='transform of the curl')
  for nm, d in [('vorticity', de.vorticity_decoder(g, .1, ps)(e1)), ('spectral', de.spectral_vorticity_decoder(g, .1, ps)(e3))]:
    rec.close(nm + '-round-trip', d[0], u[-1], tol=1e-10, scale=vs, detail='u'); rec.close(nm + '-round-trip', d[1], v[-1], tol=1e-10, scale=vs, detail='v')
  # and the other way round: any zero-mean vorticity
  w0 = band(rng.standard_normal(g.shape)); w0 -= w0.mean()
  d = de.vorticity_decoder(g, .1, ps)(jnp.asarray(w0)[..., None])
  back = en.vorticity_encoder(g, .1, ps)(tuple(x[None] for x in d))
  rec.close('vorticity-decode-encode', back[..., 0], w0, tol=1e-10, scale=np.abs(w0).max(), detail='encode(decode(w))')
  div = D(np.asarray(d[0]), KX) + D(np.asarray(d[1]), KY)
  rec.small('decoded-divergence', div, np.abs(w0).max(), tol=1e-10, detail='decoded velocity is solenoidal')


def loss_metrics(rng, rec, i):
  nc = int(rng.integers(1, 4)); nd = int(rng.integers(1, 4)); T = int(rng.integers(2, 6)); Bn = int(rng.integers(1, 4))
  sp = tuple(int(x) for x in rng.integers(2, 6, nd))
  ta, ba = gen.pick(rng, [(0, 1), (1, 0)])
  shp = [0, 0]; shp[ta] = T; shp[ba] = Bn; shp = tuple(shp) + sp
  x = tuple(rng.standard_normal(shp) for _ in range(nc)); y = tuple(rng.standard_normal(shp) for _ in range(nc))
  jx = tuple(map(jnp.asarray, x)); jy = tuple(map(jnp.asarray, y))
  n = gen.pick(rng, [None, int(rng.integers(1, T + 1))]); s = float(rng.uniform(.1, 5)); k = int(rng.integers(-T, T))
  rec.case(nc, nd, T, Bn, ta, n, k)
  tk = lambda a, q: np.take(a, q, axis=ta)
  want = s * sum(((tk(a, np.arange(n or T)) - tk(b, np.arange(n or T))) ** 2).sum() for a, b in zip(x, y))
  rec.close('l2-cumulative', metrics.l2_loss_cumulative(jx, jy, n, s, ta), want, detail=f'n={n} axis {ta}')
  want = s * sum(((tk(a, k) - tk(b, k)) ** 2).sum() for a, b in zip(x, y))
  rec.close('l2-single', metrics.l2_loss_single_step(jx, jy, k, s, ta), want, detail=f'step {k} axis {ta}')
  rec.small('l2-zero', metrics.l2_loss_cumulative(jx, jx, n, s, ta), 1., tol=1e-14, detail='identical trajectories')
  def corr(x, y):
    r = []
    for a, b in zip(x, y):
      for q in range(Bn):
        p, o = np.take(np.moveaxis(a, (ta, ba), (0, 1))[k], q, 0), np.take(np.moveaxis(b, (ta, ba), (0, 1))[k], q, 0)
        r.append((p * o).sum() / np.sqrt((p * p).sum() * (o * o).sum()))
    return np.mean(r)
  got = metrics.correlation_single_step(jx, jy, k, ta, ba)
  rec.close('correlation', got, corr(x, y), scale=1., detail=f'step {k}')
  rec.close('correlation-self', metrics.correlation_single_step(jx, tuple(3.7 * a for a in jx), k, ta, ba), np.float64(1), detail='scale invariance')
  rec.leq('correlation-bound', np.abs(np.asarray(got)), 1 + 1e-12)
  # reductions over the batch
  b = int(rng.integers(0, nd + 1))
  z = rng.standard_normal((Bn + 1,) + sp); zz = jnp.asarray(np.moveaxis(z, 0, b)); q = rng.standard_normal(z.shape); qq = jnp.asarray(np.moveaxis(q, 0, b))
  m = lambda p, o: jnp.sum((p - o) ** 2 * jnp.arange(p.size).reshape(p.shape))
  vals = np.array([((a - c) ** 2 * np.arange(a.size).reshape(a.shape)).sum() for a, c in zip(z, q)])
  rec.close('local-mean', metrics.local_mean(m, batch_axis=b)(zz, qq), vals.mean(), detail=f'batch axis {b}')
  rec.close('local-sum', metrics.local_sum(m, batch_axis=b)(zz, qq), vals.sum(), detail=f'batch axis {b}')
  z0, q0 = jnp.asarray(z), jnp.asarray(q)
  for nm, f, wv in [('mean', metrics.distributed_mean, vals.mean()), ('sum', metrics.distributed_sum, vals.sum())]:
    out = jax.vmap(f(m), axis_name='batch')(z0, q0)
    rec.close('distributed-' + nm, out, np.full(len(vals), wv), detail='every member holds the reduced value')
  out = jax.vmap(metrics.distributed_reduce(m, jax.lax.pmax, 'dev'), axis_name='dev')(z0, q0)
  rec.close('distributed-max', out, np.full(len(vals), vals.max()), detail='named axis')


def training(rng, rec, i):
  nd = int(rng.integers(1, 3)); T, Bn = int(rng.integers(1, 5)), int(rng.integers(1, 4)); nc = int(rng.integers(1, 3))
  sp = tuple(int(x) for x in rng.integers(3, 7, nd))
  rec.case(nd, T, Bn, nc, sp)
  tgt = tuple(jnp.asarray(rng.standard_normal((Bn, T) + sp)) for _ in range(nc))
  calls = []
  def traj(params, x):  # predicted = p0*x^2 + p1
    calls.append(1)
    return 'final', tuple(params['a'] * q ** 2 + params['b'] for q in x)
  loss = lambda p, t: sum(jnp.sum((a - b) ** 2) for a, b in zip(p, t))
  par = {'a': jnp.asarray(rng.normal()), 'b': jnp.asarray(rng.normal())}
  lg = tu.loss_and_gradient(traj, loss)
  def oracle(par):
    a, b = float(par['a']), float(par['b']); x = np.stack([np.asarray(t) for t in tgt]); r = a * x ** 2 + b - x
    return (r ** 2).sum(), {'a': (2 * r * x ** 2).sum(), 'b': (2 * r).sum()}
  L, gr = lg(par, tgt); wl, wg = oracle(par)
  rec.close('loss', L, wl, detail='loss value'); 
  for k in 'ab': rec.close('gradient', gr[k], wg[k], scale=abs(wl) + abs(wg[k]), detail=k)
  # training step: parameters, step counter and reported loss
  lr = 1e-3; log = []
  def update(step, grad, state):
    log.append(int(step))
    return {'par': jax.tree.map(lambda p, g_: p - lr / (1 + step) * g_, state['par'], grad), 'm': state['m'] + 1}
  ts = tu.train_step(lg, update, lambda s: s['par'])
  s0 = int(rng.integers(0, 5)); st = (s0, {'par': par, 'm': 0}); p = {k: float(v) for k, v in par.items()}
  for q in range(3):
    st, lv = ts(st, tgt)
    wl, wg = oracle(p)
    rec.close('train-loss', lv, wl, tol=1e-8, detail=f'step {q}')
    p = {k: p[k] - lr / (1 + s0 + q) * wg[k] for k in p}
    for k in 'ab': rec.close('train-params', st[1]['par'][k], np.float64(p[k]), tol=1e-7, scale=1 + abs(p[k]) + lr * abs(wg[k]), detail=f'step {q} {k}')
    rec.eq('train-step-number', int(st[0]), s0 + q + 1, 'step counter'); rec.eq('train-updates', st[1]['m'], q + 1, 'updates applied')
  rec.eq('train-steps-seen', log, [s0, s0 + 1, s0 + 2], 'update saw steps')
  ev = tu.eval_batch(traj, {'l': loss, 'max': lambda p, t: max(jnp.max(jnp.abs(a)) for a in p)})(par, tgt)
  rec.close('eval', ev['l'], oracle(par)[0], detail='metric on the prediction')
  rec.eq('eval-keys', sorted(ev), ['l', 'max'], 'metric names')
  n = int(rng.integers(1, 6)); vals = rng.standard_normal((n, 2))
  sm = tu.streaming_mean(iter(vals), lambda b: {'p': b[0], 'q': b[1] ** 2})
  rec.close('streaming-mean', np.array([sm['p'], sm['q']]), np.array([vals[:, 0].mean(), (vals[:, 1] ** 2).mean()]), scale=1., detail=f'{n} batches')
  rec.raises('streaming-empty', lambda: tu.streaming_mean(iter([]), lambda b: {'p': b}), RuntimeError, detail='no batches')
  # input noise: frame 0 only, truncated, independent per component, reproducible
  sc = float(10.0 ** rng.integers(-3, 1)); key = jax.random.PRNGKey(int(rng.integers(1000)))
  big = tuple(jnp.asarray(rng.standard_normal((8, T, 16, 8))) for _ in range(2))
  out = tu.add_noise_to_input_frame(big, key, scale=sc)
  d = [np.asarray(a) - np.asarray(b) for a, b in zip(out, big)]
  for x in d:
    rec.small('noise-later-frames', x[:, 1:], 1., tol=0., detail='frames after the first')
    rec.leq('noise-bound', np.abs(x[:, 0]), 2 * sc, slack=1e-12 * (1 + sc))
    rec.leq('noise-spread', np.array([.75 * sc, -1.02 * sc]), np.array([x[:, 0].std(), -x[:, 0].std()]), detail='standard deviation of truncated noise')
    rec.leq('noise-mean', abs(x[:, 0].mean()), .2 * sc)
  rec.ok('noise-independent', np.abs(np.corrcoef(d[0][:, 0].ravel(), d[1][:, 0].ravel())[0, 1]) < .25, 'components share noise')
  rec.ok('noise-reproducible', all(np.array_equal(a, b) for a, b in zip(out, tu.add_noise_to_input_frame(big, key, scale=sc))), 'same key, same noise')
  rec.ok('noise-keys', not np.array_equal(out[0], tu.add_noise_to_input_frame(big, jax.random.PRNGKey(99999), scale=sc)[0]), 'another key, other noise')
  rec.ok('identity', tu.identity(big, key) is big, 'identity preprocessing')
  # preprocessing stream: one fresh key per batch, order kept
  m = int(rng.integers(1, 5)); data = [(jnp.full((2,), float(q)),) for q in range(m)]
  pre = tu.preprocess(iter(data), itertools.count(100), lambda b, r: (b[0] * 10, r))
  for q in range(m):
    b, r = next(pre)
    rec.close('preprocess', b, np.full(2, 10. * q), scale=10., detail=f'batch {q}'); rec.eq('preprocess-key', int(r), 100 + q, f'key of batch {q}')
  try: left = list(pre)
  except RuntimeError as e: left = f'RuntimeError: {e}'
  rec.eq('preprocess-end', left, [], 'the stream ends with the data')


def stub_advance(rng):
  a = float(rng.uniform(.5, 1.)); b = float(rng.normal())
  return lambda s: jax.tree.map(lambda x: a * jnp.sin(x) + b * jnp.roll(x, 1, 0), s)


def models(rng, rec, i):
  g = gen.mild_grid(rng, 2, pool=[(6, 5), (8, 6)]); ps = specs(rng, mf.no_forcing, .05, 1.)
  T, ni, outer, inner = int(rng.integers(1, 5)), 0, int(rng.integers(1, 4)), int(rng.integers(1, 4))
  ni = int(rng.integers(1, T + 1)); ck = bool(rng.random() < .5); start = bool(rng.random() < .5); style = ['direct', 'gin'][i % 2]
  rec.case(T, ni, outer, inner, ck, start, style)
  traj = tuple(jnp.asarray(rng.standard_normal((T,) + g.shape)) for _ in range(2)); dt = .02 * min(g.step)
  adv = functools.partial(meq.modular_navier_stokes_model)
  step = beq.implicit_diffusion_navier_stokes(density=1., viscosity=.05, dt=dt, grid=g, forcing=bf.no_forcing(g),
      convect=lambda v: tuple(advection.advect_general(u, v, ip.linear, ip.upwind, dt) for u in v))
  encs = {'aligned': (en.aligned_array_encoder, de.aligned_array_decoder), 'colloc': (en.collocated_to_staggered_encoder, de.staggered_to_collocated_decoder)}
  ek = gen.pick(rng, list(encs)); E, D = encs[ek]
  try:
    gin.clear_config()
    gin.parse_config([f'trajectory_from_step.set_checkpoint={ck}'])
    if style == 'gin':
      gin.parse_config(['get_model_cls.model_cls=@ModularStepModel', 'ModularStepModel.advance_module=@equations.modular_navier_stokes_model',
                        f'ModularStepModel.encoder_module=@encoders.{E.__name__}', f'ModularStepModel.decoder_module=@decoders.{D.__name__}'])
      make = mb.get_model_cls(g, dt, ps)
    else:
      make = functools.partial(mb.ModularStepModel, g, dt, ps, adv, E, D)
    # by hand
    s = E(g, dt, ps)(tuple(x[:ni] for x in traj)); frames = []
    for _ in range(outer):
      if start: frames.append(s)
      for _ in range(inner): s = step(s)
      if not start: frames.append(s)
    got_f, got_t = run(lambda x: make().trajectory(make().encode(x), outer, inner, start_with_input=start), tuple(x[:ni] for x in traj))
    cmp_fields(rec, 'model-final', got_f, s, 'final state')
    for c in range(2):
      rec.close('model-trajectory', got_t[c].data, np.stack([np.asarray(f[c].data) for f in frames]), detail=f'component {c}')
    # decoded trajectories include the input frames
    s = E(g, dt, ps)(tuple(x[:ni] for x in traj)); dec = D(g, dt, ps); out = [[np.asarray(q) for q in x[:ni]] for x in traj]
    for _ in range(outer):
      for _ in range(inner): s = step(s)
      for c, q in enumerate(dec(s)): out[c].append(np.asarray(q))
    fin, dd = run(lambda x: mu.decoded_trajectory_with_inputs(make(), ni)(x, outer, inner), traj)
    for c in range(2): rec.close('decoded-trajectory', dd[c], np.stack(out[c]), detail=f'component {c}, {ni} input frames')
    cmp_fields(rec, 'decoded-final', fin, s, 'final state')
    m = run(lambda x: (lambda q: q.decode(q.advance(q.encode(x))))(make()), traj)
    want = dec(step(E(g, dt, ps)(traj)))
    for a, b in zip(m, want): rec.close('model-advance', a, np.asarray(b), detail='decode(advance(encode))')
  finally:
    gin.clear_config()


def correctors(rng, rec, i):
  nd = 2 if rng.random() < .7 else 3
  g = gen.mild_grid(rng, nd, pool=[p for p in POOL if len(p) == nd]); s = float(rng.uniform(.3, 1)); k = int(rng.integers(1, 3))
  f = functools.partial(mf.kolmogorov_forcing, scale=s, wavenumber=k); ps = specs(rng, f, .05, 1.)
  v = pressure.projection(gen.periodic_velocity(rng, g, 'normal')); dt = workloads.safe_dt(v, g, .05, .2)
  kind = ['v1', 'v2', 'v3', 'deriv', 'identity'][i % 5]
  tf, byh = tower(rng, scale=.3)
  rec.case(kind, nd, g.shape)
  def bstep(x):
    return beq.implicit_diffusion_navier_stokes(density=1., viscosity=.05, dt=dt, grid=g, forcing=bf.kolmogorov_forcing(g, scale=s, k=k),
        convect=lambda w: tuple(advection.advect_general(u, w, ip.linear, ip.upwind, dt) for u in w))(x)
  stack = lambda *x: np.stack([np.asarray(u.data) for u in x], -1)
  if kind == 'identity':
    m = meq.identity_model(g, dt, ps)
    rec.ok('identity-model', m(v) is v, 'state returned as is'); return
  if kind in ('v1', 'v2'):
    fn = {'v1': meq.learned_corrector, 'v2': meq.learned_corrector_v2}[kind]
    model = lambda x: fn(g, dt, ps, meq.modular_navier_stokes_model, functools.partial(nw.velocity_corrector_network, tower_factory=tf))(x)
    n = bstep(v); net = byh(stack(*(n if kind == 'v1' else v)), nd)
    want = [np.asarray(u.data) + (1. if kind == 'v1' else dt) * net[..., j] for j, u in enumerate(n)]
  elif kind == 'v3':
    net3 = functools.partial(nw.tower_module, tower_factory=tf, pre_process_module=nw.stack_aligned_field,
                             post_process_module=nw.split_to_aligned_field, num_output_channels=nd)
    model = lambda x: meq.learned_corrector_v3(g, dt, ps, meq.modular_navier_stokes_model, net3)(x)
    n = bstep(v); net = byh(stack(*v, *n), nd)
    want = [np.asarray(u.data) + dt * net[..., j] for j, u in enumerate(n)]
  else:
    x = stack(*v)
    mods = tuple(functools.partial(nw.tower_module, tower_factory=t) for t in (tf, tf))
    n = int(rng.integers(1, 3)); mods = mods[:n]
    got = run(lambda q: meq.time_derivative_network_model(g, dt, ps, mods)(q), jnp.asarray(x))
    d = x
    for _ in range(n): d = byh(d, nd)
    F = np.stack([np.asarray(a.data) for a in bf.kolmogorov_forcing(g, scale=s, k=k)(v)], -1)
    rec.close('derivative-model', got, x + dt * (d + F), tol=1e-11, detail=f'{n} modules + forcing')
    N = int(rng.integers(1, 4))
    fin, tr = run(lambda q: ti.euler_integrator(lambda y: jnp.sin(y), q, dt, N), jnp.asarray(x))
    w, fr = x, []
    for _ in range(N): w = w + dt * np.sin(w); fr.append(w)
    rec.close('euler-integrator', tr, np.stack(fr), tol=1e-12, detail=f'{N} steps'); rec.close('euler-integrator', fin, w, tol=1e-12)
    return
  got = run(model, v)
  for j, (a, w) in enumerate(zip(got, want)):
    rec.field('corrector-' + kind, a, w, g.cell_faces[j], g, B.periodic_boundary_conditions(nd), tol=1e-10, detail=f'component {j}')


def networks(rng, rec, i):
  nd = int(gen.pick(rng, [1, 2, 2, 3]))
  g = gen.mild_grid(rng, nd, pool=[p for p in POOL + [(9,), (6,)] if len(p) == nd]); ps = specs(rng, mf.no_forcing, .1, 1.)
  per = B.periodic_boundary_conditions(nd); tf, byh = tower(rng); h = g.step
  offs = tuple(tuple(float(q) for q in rng.choice([0., .5, 1.], nd)) for _ in range(nd)); no = gen.pick(rng, [None, offs])
  rec.case(nd, g.shape, no)
  def shift(x, a, b):  # linear interpolation between multiples of one half
    for ax in range(nd):
      d = b[ax] - a[ax]; lo = int(np.floor(d + 1e-9)); fr = d - lo
      x = (1 - fr) * np.roll(x, -lo, ax) + (fr * np.roll(x, -lo - 1, ax) if fr > 1e-9 else 0)
    return x
  x = rng.standard_normal(g.shape + (nd,))
  out = run(lambda q: nw.split_to_aligned_field(g, .1, ps, no)(q), jnp.asarray(x))
  for j, a in enumerate(out):
    rec.field('split-aligned', a, shift(x[..., j], (no or g.cell_faces)[j], g.cell_faces[j]), g.cell_faces[j], g, per, tol=1e-12, detail=f'{no}')
  class Combo(mp.NavierStokesPhysicsSpecs):
    def combo_offsets(self): return coff
    def combo_boundaries(self): return (per,) * nd
  coff = tuple(tuple(float(q) for q in rng.choice([0., .5, 1.], nd)) for _ in range(nd)); cs = Combo(mf.no_forcing, 1., .1)
  for j, a in enumerate(run(lambda q: nw.split_to_aligned_field(g, .1, cs, no)(q), jnp.asarray(x))):
    rec.field('split-combo', a, shift(x[..., j], (no or coff)[j], coff[j]), coff[j], g, per, tol=1e-12, detail=f'{no} {coff}')
  v = tuple(gen.var(x[..., j], o, g, per) for j, o in enumerate(g.cell_faces))
  for fo in (None, offs):
    for j, a in enumerate(run(lambda q: nw.interpolate_gridvar(g, .1, cs, fo)(q), v)):
      w = (fo or coff)[j]; rec.field('split-combo', a, shift(x[..., j], g.cell_faces[j], w), w, g, per, tol=1e-12, detail=f'{fo} {coff}')
  rec.close('stack-aligned', run(lambda q: nw.stack_aligned_field(g, .1, ps)(q), v), x, tol=1e-15, detail='channels')
  nn = int(rng.integers(1, 3))
  out = np.asarray(run(lambda q: nw.stack_aligned_field_with_neighbors(g, .1, ps, nn)(q), v))
  if rec.eq('neighbours-shape', out.shape, g.shape + (nd * (2 * nn * nd + 1),), 'channels'):
    want = [np.roll(x, s, ax) for s in range(-nn, nn + 1) if s for ax in range(nd)] + [x]
    rec.close('neighbours', out, np.concatenate(want, -1), tol=1e-15, detail='shifted copies then the centre')
  out = run(lambda q: nw.interpolate_gridvar(g, .1, ps, offs, process_fn=lambda y: y)(q), v)
  for j, a in enumerate(out): rec.field('interpolate-gridvar', a, shift(x[..., j], g.cell_faces[j], offs[j]), offs[j], g, per, tol=1e-12, detail=f'{offs}')
  # flux form: minus the divergence of the fluxes, so every component conserves momentum
  f = rng.standard_normal(g.shape + (nd * nd,))
  out = run(lambda q: nw.aligned_field_from_split_divergence(g, .1, ps)(q), jnp.asarray(f))
  F = f.reshape(g.shape + (nd, nd))
  # channel order: derivative axis major, component minor
  for c, a in enumerate(out):
    rec.small('flux-conserves', np.asarray(a.data).sum(), np.abs(f).sum() / min(h), tol=1e-12, detail=f'component {c}')
    rec.field('flux-meta', a, offset=g.cell_faces[c], grid=g, bc=per, detail=f'component {c}')
  rec.close('flux-total', sum(np.asarray(a.data) ** 2 for a in out), sum(flux_div(F, c, h) ** 2 for c in range(nd)), tol=1e-10, detail='-div flux')
  fc = run(lambda q: nw.flux_corrector_network(g, .1, ps, tf)(q), v)
  FF = byh(x, nd * nd).reshape(g.shape + (nd, nd))
  for c, a in enumerate(fc):
    rec.close('flux-corrector', a, flux_div(FF, c, h), tol=1e-10, scale=np.abs(FF).max() / min(h), detail=f'component {c}')
  vc = run(lambda q: nw.velocity_corrector_network(g, .1, ps, tf)(q), v)
  for c, a in enumerate(vc): rec.field('velocity-corrector', a, byh(x, nd)[..., c], g.cell_faces[c], g, per, tol=1e-12, detail=f'component {c}')
  nout = gen.pick(rng, [None, 1, 4])
  t = run(lambda q: nw.tower_module(g, .1, ps, tf, num_output_channels=nout)(q), jnp.asarray(x))
  rec.close('tower-module', t, byh(x, nout or nd), tol=1e-12, detail=f'{nout} channels')
  # corrector over fields that carry their own boundaries
  def ftower(n, ndim, name=None):
    rec.eq('corrector-bc-channels', (n, ndim), (nd, nd), 'tower sizes')
    return lambda fs: tuple(u.bc.impose_bc(2. * u.array) for u in fs)
  kw = {} if rng.random() < .5 else {'process_fn': lambda fs: tuple(u.bc.impose_bc(3. * u.array) for u in fs)}
  out = run(lambda q: nw.velocity_corrector_network_w_boundaries(g, .1, ps, ftower, offs, nd, **kw)(q), v)
  for j, a in enumerate(out):
    w = (6. if kw else 2.) * shift(shift(x[..., j], g.cell_faces[j], offs[j]), offs[j], g.cell_faces[j])
    rec.field('corrector-bc', a, w, g.cell_faces[j], g, per, tol=1e-12, detail=f'through {offs}')


def flux_div(F, c, h):
  """-sum_a d(F[a, c])/dx_a backward in a, fluxes at cell_face + half along a."""
  nd = F.shape[-1]
  return -sum((F[..., c, a] - np.roll(F[..., c, a], 1, a)) / h[a] for a in range(nd))


def viscosity(rng, rec, i):
  nd = 2 if rng.random() < .7 else 3
  g = gen.mild_grid(rng, nd, pool=[p for p in POOL if len(p) == nd]); rho, nu = 1., float(rng.uniform(.01, .3)); ps = specs(rng, mf.no_forcing, nu, rho)
  per = B.periodic_boundary_conditions(nd); v = gen.periodic_velocity(rng, g, 'normal'); tf, byh = tower(rng)
  kind = ['scalar', 'gradients', 'tensor', 'smagorinsky'][i % 4]; vs = gen.pick(rng, [None, float(rng.uniform(.1, 2))]); cs = float(rng.uniform(.1, .4))
  rec.case(kind, nd, g.shape, vs is None)
  from checks import c20
  x = [np.asarray(u.data) for u in v]; h = g.step
  log = []
  s = c20.strain(x, h)
  scale = (nu if vs is None else vs) + 1e-6
  if kind == 'smagorinsky':
    vm = functools.partial(mv.smagorinsky_viscosity, cs=cs)
    nus = c20.visc(x, h, cs)
  else:
    vm = functools.partial({'scalar': mv.learned_scalar_viscosity, 'gradients': mv.learned_scalar_viscosity_from_gradients,
                            'tensor': mv.learned_tensor_viscosity}[kind], tower_factory=tf)
    if kind == 'scalar': c = scale * byh(np.stack(x, -1), 1)[..., 0]
    if kind == 'gradients':
      c = scale * byh(np.stack([c20.to_center(s[a][b], a, b) for a in range(nd) for b in range(nd)], -1), 1)[..., 0]
    if kind != 'tensor': nus = [[c20.from_center(c, a, b) for b in range(nd)] for a in range(nd)]
  got = run(lambda q: mv.eddy_viscosity_model(g, .1, ps, viscosity_scale=vs, viscosity_model=vm)(q), v)
  if kind != 'tensor':
    want = c20.accel(x, h, nus)
    for j, a in enumerate(got):
      rec.field('evm-' + kind, a, want[j], g.cell_faces[j], g, tol=1e-9, scale=np.abs(want).max() + 1e-30, detail=f'component {j}')
  else:
    # each entry uses one of the predicted channels, the same for symmetric partners and different otherwise
    t = byh(np.stack(x, -1), len({o for r in c20.offsets(g) for o in r})) * scale
    from jax_cfd.base import finite_differences as fd
    gr = [[fd.forward_difference(v[a], b) for b in range(nd)] for a in range(nd)]
    sij = np.empty((nd, nd), dtype=object)
    for a, b in itertools.product(range(nd), repeat=2): sij[a, b] = .5 * (gr[a][b] + gr[b][a])
    sij = G.GridArrayTensor(sij)
    nus = run(lambda q: mv.learned_tensor_viscosity(g, .1, ps, vs or nu, tf)(sij, q), v)
    used = {}
    for a in range(nd):
      for b in range(nd):
        arr = np.asarray(nus[a, b].data); off = sij[a, b].offset
        m = [k for k in range(t.shape[-1]) if np.allclose(arr, t[..., k], rtol=1e-10, atol=1e-12)]
        rec.ok('tensor-channel', len(m) == 1, lambda: f'entry {a, b} is not one predicted channel')
        if m: used.setdefault(m[0], set()).add(off)
        rec.eq('tensor-offset', nus[a, b].offset, off, 'location of the viscosity')
    rec.ok('tensor-distinct', all(len(o) == 1 for o in used.values()) and len(used) == len({sij[a, b].offset for a in range(nd) for b in range(nd)}),
           'one channel per location')
    want = c20.accel(x, h, [[np.asarray(nus[a, b].data) for b in range(nd)] for a in range(nd)])
    for j, a in enumerate(got): rec.field('evm-tensor', a, want[j], g.cell_faces[j], g, tol=1e-9, scale=np.abs(want).max() + 1e-30, detail=f'component {j}')


SUITES = {'navier_stokes': (navier_stokes, 18, 160), 'forcing_modules': (forcing_modules, 12, 80), 'spectral': (spectral, 12, 80),
          'codecs': (codecs, 16, 100), 'vorticity_codecs': (vorticity_codecs, 10, 60), 'loss_metrics': (loss_metrics, 16, 100),
          'training': (training, 8, 40), 'models': (models, 8, 50), 'correctors': (correctors, 15, 80), 'networks': (networks, 12, 80),
          'viscosity': (viscosity, 8, 60)}
REQUIRED = ['ns-step', 'ns-two-steps', 'specs', 'forcing-module', 'vorticity-forcing', 'sum-forcings', 'spectral-step', 'spectral-drag',
            'aligned-round-trip', 'combo-encode', 'col-to-stag', 'stag-to-col', 'stack-last-n', 'latent-encode', 'vorticity-round-trip',
            'spectral-round-trip', 'l2-cumulative', 'correlation', 'local-mean', 'distributed-sum', 'gradient', 'train-params', 'noise-bound',
            'preprocess', 'model-trajectory', 'decoded-trajectory', 'corrector-v1', 'corrector-v2', 'corrector-v3', 'derivative-model',
            'split-aligned', 'flux-corrector', 'flux-conserves', 'corrector-bc', 'evm-scalar', 'evm-gradients', 'evm-tensor', 'evm-smagorinsky']
