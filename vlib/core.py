"""Recorder and oracle helpers shared by every check.

A *case* is one seeded execution of real jax-cfd code.  While it runs, monitors
(functions of this module, or wrappers installed by vlib.monitors) look at the
concrete values that the code produced and compare them with an independent
oracle.  Everything observed is counted, so that evidence reports what the
monitors saw and a run that observed nothing is inconclusive, never "held".
"""
import collections
import hashlib
import json
import os
import traceback
import zlib

import numpy as np


class Stop(Exception):
  """Raised to abandon a case after too many violations."""


def digest(*parts):
  return hashlib.sha1(repr(parts).encode()).hexdigest()[:16]


def tonp(x):
  """Concrete numpy value of an array-like / field."""
  if hasattr(x, 'bc') and hasattr(x, 'array'):
    x = x.array
  if hasattr(x, 'grid') and hasattr(x, 'data') and hasattr(x, 'offset'):
    x = x.data
  return np.asarray(x)


class Rec:
  """Records what one case observed."""
  MAX_VIOL = 12

  def __init__(self, prop, suite, index, seed, tier):
    self.prop, self.suite, self.index, self.seed, self.tier = (
        prop, suite, index, seed, tier)
    self.events = collections.Counter()
    self.sigs = set()
    self.samples = []
    self.violations = []
    self.maxerr = {}
    self.notes = collections.Counter()

  # -- bookkeeping ---------------------------------------------------------
  def case(self, *sig, sample=None):
    """Declares the (non-trivial) configuration this case is exercising."""
    self.sigs.add(digest(self.suite, sig))
    if len(self.samples) < 2:
      self.samples.append({'suite': self.suite, 'index': self.index,
                           'case': repr(sample if sample is not None else sig)[:600]})

  def skip(self, why):
    self.notes['skip:' + why] += 1

  def violation(self, monitor, message, key=None, data=None):
    self.violations.append({
        'monitor': monitor, 'key': key or monitor, 'message': str(message)[:1500],
        'suite': self.suite, 'index': self.index, 'data': data})
    if len(self.violations) >= self.MAX_VIOL:
      raise Stop()

  # -- oracles --------------------------------------------------------------
  def ok(self, monitor, cond, detail='', key=None):
    self.events[monitor] += 1
    if not bool(cond):
      self.violation(monitor, detail() if callable(detail) else detail, key)
      return False
    return True

  def eq(self, monitor, got, want, detail='', key=None):
    return self.ok(monitor, got == want,
                   lambda: f'{detail}: got {got!r}, expected {want!r}', key)

  def close(self, monitor, got, want, tol=1e-9, scale=None, detail='', key=None):
    """max|got-want| <= tol * scale; scale defaults to max(1e-300, |want|)."""
    self.events[monitor] += 1
    got = tonp(got); want = tonp(want)
    if got.shape != want.shape:
      self.violation(monitor, f'{detail}: shape {got.shape}, expected {want.shape}', key)
      return False
    if got.size == 0:
      return True
    if got.dtype == bool: got = got.astype(float)
    if want.dtype == bool: want = want.astype(float)
    if not np.all(np.isfinite(got)):
      if not np.array_equal(np.isnan(got), np.isnan(want)) or np.isinf(got).any():
        self.violation(monitor, f'{detail}: non-finite values where finite expected', key)
        return False
      m = ~np.isnan(want); got = got[m]; want = want[m]
      if got.size == 0: return True
    if scale is None:
      scale = max(float(np.max(np.abs(want))), 1e-30)
    scale = max(float(scale), 1e-300)
    d = np.abs(got - want)
    err = float(np.max(d)) / scale
    self.maxerr[monitor] = max(self.maxerr.get(monitor, 0.0), err / tol if tol else err)
    if not err <= tol:
      i = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim else ()
      self.violation(
          monitor, f'{detail}: rel.err {err:.3e} > {tol:.1e} (scale {scale:.3e}) at '
          f'{tuple(int(k) for k in i)}: got {got[i]!r}, expected {want[i]!r}', key)
      return False
    return True

  def small(self, monitor, value, scale, tol=1e-9, detail='', key=None):
    """max|value| <= tol*scale."""
    v = tonp(value)
    return self.close(monitor, v, np.zeros_like(v), tol=tol, scale=scale,
                      detail=detail, key=key)

  def leq(self, monitor, a, b, slack=0.0, detail='', key=None):
    """a <= b + slack elementwise."""
    self.events[monitor] += 1
    a = tonp(a); b = tonp(b)
    ex = a - b - slack
    bad = ~(ex <= 0)
    if np.any(bad):
      worst = float(np.max(np.where(np.isnan(ex), np.inf, ex)))
      self.violation(monitor, f'{detail}: bound exceeded by {worst:.3e}', key)
      return False
    return True

  def raises(self, monitor, fn, exc=Exception, detail='', key=None):
    self.events[monitor] += 1
    try:
      r = fn()
    except exc:
      return True
    except Exception as e:  # wrong exception class
      self.violation(monitor, f'{detail}: raised {type(e).__name__} instead of '
                     f'{exc!r}: {e}', key)
      return False
    self.violation(monitor, f'{detail}: accepted (returned {type(r).__name__})', key)
    return False

  def field(self, monitor, got, data=None, offset=None, grid=None, bc=None,
            tol=1e-9, scale=None, detail='', key=None):
    """Checks values and metadata of a GridArray / GridVariable."""
    good = True
    if offset is not None:
      good &= self.ok(monitor, len(got.offset) == len(offset) and
                      np.allclose(got.offset, offset, atol=1e-9),
                      lambda: f'{detail}: offset {got.offset}, expected {offset}', key)
    if grid is not None:
      good &= self.ok(monitor, grid_key(got.grid) == grid_key(grid),
                      lambda: f'{detail}: grid {got.grid}, expected {grid}', key)
    if bc is not None:
      good &= self.ok(monitor, same_bc(got.bc, bc),
                      lambda: f'{detail}: bc {got.bc}, expected {bc}', key)
    if data is not None:
      good &= self.close(monitor, got, data, tol=tol, scale=scale, detail=detail, key=key)
    return good

  def dump(self):
    return {'suite': self.suite, 'index': self.index, 'events': dict(self.events),
            'sigs': sorted(self.sigs), 'samples': self.samples,
            'violations': self.violations, 'maxerr': self.maxerr,
            'notes': dict(self.notes)}


def grid_key(g):
  """Everything a grid is made of (not trusting the library's own comparison)."""
  return tuple(g.shape), tuple(g.step), tuple(tuple(x) for x in g.domain)


def same_bc(a, b):
  """Boundary conditions equal up to container type / None-vs-nan spelling."""
  def norm(bc):
    t = tuple(tuple(x) for x in bc.types)
    v = getattr(bc, 'bc_values', None)
    if v is not None:
      v = tuple(tuple(None if (t[i][k] == 'periodic') else float(y)
                      for k, y in enumerate(x)) for i, x in enumerate(v))
    return t, v
  return norm(a) == norm(b)


def case_rng(seed, suite, index):
  return np.random.default_rng([int(seed) & 0x7fffffff, zlib.crc32(suite.encode()), int(index)])


HISTORY = 8  # one case in eight is a history
LARGE = 8  # one case in eight has several times as many cells as the others


def history(fn, rng, rec, suite, index, seed):
  """Inputs that share a grid, or only its size, one after the other in one process, then the first again.

  Every execution is judged by the same oracle: results may depend on nothing that was computed before.
  """
  from vlib import gen
  pins = gen.PINS
  try:
    for k, mode in enumerate(['store', 'grid', 'shape', None]):
      pins['mode'] = mode
      if mode == 'store': pins['grids'] = {}
      r = rng if k == 0 else case_rng(seed, suite, index if mode is None else 100003 * k + index)
      fn(r, rec, index)
  finally:
    pins['mode'] = None; pins['grids'] = {}
  rec.notes['histories'] += 1


def run_case(module, prop, suite, index, seed, tier):
  """Runs one case, mapping any escape of an exception to a violation."""
  rec = Rec(prop, suite, index, seed, tier)
  fn = module.SUITES[suite][0]
  rng = case_rng(seed, suite, index)
  from vlib import gen
  try:
    gen.PINS['iso'] = index // LARGE if (index + index // LARGE) % LARGE == 3 or os.environ.get('DBG_ISO') else None
    gen.PINS['large'] = index // LARGE if (index + index // LARGE) % LARGE == 5 or os.environ.get('DBG_LARGE') else None
    if index % HISTORY == 2:
      history(fn, rng, rec, suite, index, seed)
    else:
      fn(rng, rec, index)
  except Stop:
    pass
  except (KeyboardInterrupt, MemoryError, SystemExit):
    raise
  except Exception as e:  # the code under test failed on a valid workload
    tb = traceback.format_exc()
    rec.violations.append({
        'monitor': 'exception', 'key': 'exception:' + type(e).__name__,
        'message': f'unexpected {type(e).__name__}: {e}'[:700] + '\n' + tb[-1800:],
        'suite': suite, 'index': index, 'data': None})
  finally:
    gen.PINS['large'] = gen.PINS['iso'] = None
  if not rec.sigs and not rec.violations:
    rec.notes['empty'] += 1
  return rec.dump()
