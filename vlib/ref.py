"""Independent numpy reference models (no jax-cfd code is called from here)."""
import numpy as np

PER, DIR, NEU = 'periodic', 'dirichlet', 'neumann'


def take(a, j, ax):
  idx = [slice(None)] * a.ndim
  idx[ax] = j
  return a[tuple(idx)]


class Line:
  """Value of a field at any absolute sample index j along one axis.

  A sample with index j sits at lower + (j + frac) * step, frac in {0, .5}.
  `data` holds the samples j = j0 .. j0+len-1.  Ghost samples follow from the
  boundary condition, independently of how jax-cfd pads arrays.
  """

  def __init__(self, data, offset, n, h, types, values, ax):
    self.a = np.asarray(data); self.ax = ax; self.n = n; self.h = h
    self.j0 = int(np.floor(offset + 1e-9))
    self.frac = offset - self.j0
    self.t, self.v = types, values
    self.m = self.a.shape[ax]

  def has(self, j):
    return self.j0 <= j < self.j0 + self.m

  def raw(self, j):
    return take(self.a, j - self.j0, self.ax)

  def const(self, x):
    return np.full(np.delete(self.a.shape, self.ax), float(x))

  def interior(self):
    if self.t[0] == PER:
      return range(0, self.n)
    if abs(self.frac) < 1e-9:
      return range(1, self.n)
    return range(0, self.n)

  def complete(self):
    """True if all independent samples are present in the data."""
    if self.t[0] == PER:
      return self.m >= self.n
    return all(self.has(j) for j in self.interior())

  def at(self, j, mode='extend', recompute=True):
    """Value at index j; recompute=True derives ghost/wall samples from the bc
    even if the array carries some."""
    n = self.n
    if self.t[0] == PER:
      if not recompute and self.has(j):
        return self.raw(j)
      k = self.j0 + (j - self.j0) % n
      return self.raw(k)
    edge = abs(self.frac) < 1e-9
    lo, hi = (1, n - 1) if edge else (0, n - 1)
    if lo <= j <= hi or (not recompute and self.has(j)):
      return self.raw(j)
    side = 0 if j < lo else 1
    t, b = self.t[side], self.v[side]
    if t == DIR:
      if edge:
        wall = 0 if side == 0 else n
        if j == wall or mode == 'extend':
          return self.const(b)
        # convention of the library (and of its tests): wall value minus mirror
        return b - self.raw(2 * wall - j)
      mirror = (-1 - j) if side == 0 else (2 * n - 1 - j)
      first = 0 if side == 0 else n - 1
      depth = -j if side == 0 else j - n + 1
      if depth == 1 or mode == 'mirror':
        return 2 * b - self.raw(mirror)
      return 2 * b - self.raw(first)
    if t == NEU:
      assert not edge
      mirror = (-1 - j) if side == 0 else (2 * n - 1 - j)
      first = 0 if side == 0 else n - 1
      depth = -j if side == 0 else j - n + 1
      base = self.raw(mirror) if (depth == 1 or mode == 'mirror') else self.raw(first)
      return base + (-1 if side == 0 else 1) * self.h * b
    raise ValueError(t)

  def window(self, j_from, count, mode='extend', recompute=True):
    return np.stack([self.at(j, mode, recompute) for j in range(j_from, j_from + count)],
                    axis=self.ax)


def line(data, offset, grid, bc, ax):
  v = bc.bc_values[ax]
  v = tuple(0.0 if x is None else x for x in v)
  return Line(data, offset[ax], grid.shape[ax], grid.step[ax], bc.types[ax], v, ax)


class Field:
  """Reference field: data + offset + grid + bc; shift along any axis."""

  def __init__(self, var):
    self.data = np.asarray(var.data); self.offset = tuple(var.offset)
    self.grid = var.grid; self.bc = var.bc

  def shift(self, k, ax, mode='extend'):
    L = line(self.data, self.offset, self.grid, self.bc, ax)
    return L.window(L.j0 + k, self.data.shape[ax], mode)

  def diff(self, ax, kind):
    h = self.grid.step[ax]
    if kind == 'f':
      return (self.shift(1, ax) - self.data) / h
    if kind == 'b':
      return (self.data - self.shift(-1, ax)) / h
    return (self.shift(1, ax) - self.shift(-1, ax)) / (2 * h)

  def lap(self):
    r = 0
    for ax in range(self.grid.ndim):
      r = r + (self.shift(1, ax) - 2 * self.data + self.shift(-1, ax)) / self.grid.step[ax] ** 2
    return r


def pdiv(v, steps):
  """Periodic staggered divergence (backward differences), numpy."""
  return sum((u - np.roll(u, 1, a)) / h for a, (u, h) in enumerate(zip(v, steps)))


def pgrad(p, steps):
  return tuple((np.roll(p, -1, a) - p) / h for a, h in enumerate(steps))


def plap(p, steps):
  return sum((np.roll(p, -1, a) - 2 * p + np.roll(p, 1, a)) / h ** 2 for a, h in enumerate(steps))


def pproject(v, steps):
  """Exact projection of a periodic staggered velocity by FFT (numpy)."""
  d = pdiv(v, steps)
  lam = 0
  for a, (n, h) in enumerate(zip(d.shape, steps)):
    k = np.fft.fftfreq(n) * 2 * np.pi
    s = [1] * d.ndim; s[a] = n
    lam = lam + ((2 * np.cos(k) - 2) / h ** 2).reshape(s)
  dh = np.fft.fftn(d)
  lam.flat[0] = 1.0
  qh = dh / lam
  qh.flat[0] = 0
  q = np.real(np.fft.ifftn(qh))
  return tuple(u - g for u, g in zip(v, pgrad(q, steps))), q
