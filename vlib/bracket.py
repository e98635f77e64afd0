"""Independent two-sided bracket of the delta curve of a composed history.

A leaf is a pair (P, Q) with monotone privacy loss given by the tails tP(l) = P(L > l), tQ(l) = Q(L > l).  Losses are
rounded down to a grid of width g, so that the true total loss of N leaves lies in [S, S + N g] for the computed S:
   delta_floor(eps) - tiny <= true delta(eps) <= delta_floor(eps - N g) + tiny.
Nothing here imports the code under test.
"""
import math
import numpy as np
from scipy import special

sf = lambda x: special.ndtr(-np.asarray(x, dtype=float))


class Leaf:
  lo, hi = -1.0, 1.0        # range outside of which the P-mass is negligible (below 1e-22) or zero
  inf = 0.0                 # mass of P where Q vanishes

  def tP(self, l):
    raise NotImplementedError

  def tQ(self, l):
    raise NotImplementedError


class Gauss(Leaf):

  def __init__(self, mu):
    self.mu = float(mu)
    z = 10.0
    self.lo, self.hi = mu * mu / 2 - z * mu, mu * mu / 2 + z * mu

  def tP(self, l):
    return sf((np.asarray(l) - self.mu ** 2 / 2) / self.mu)

  def tQ(self, l):
    return sf((np.asarray(l) + self.mu ** 2 / 2) / self.mu)


class Lap(Leaf):

  def __init__(self, t):
    self.t = float(t)
    self.lo, self.hi = -t, t

  def tP(self, l):
    l, t = np.asarray(l, dtype=float), self.t
    return np.where(l >= t, 0.0, np.where(l < -t, 1.0, 1 - .5 * np.exp(-(t - np.clip(l, -t, t)) / 2)))

  def tQ(self, l):
    l, t = np.asarray(l, dtype=float), self.t
    return np.where(l >= t, 0.0, np.where(l < -t, 1.0, .5 * np.exp(-(t + np.clip(l, -t, t)) / 2)))


class Remove(Leaf):
  """(1-q)Q + qP versus Q."""

  def __init__(self, base, q):
    self.b, self.q = base, float(q)
    lo_b = -base.hi if isinstance(base, Gauss) else base.lo
    self.lo = math.log1p(q * math.expm1(max(lo_b, -700))) if q < 1 else base.lo
    self.hi = math.log1p(q * math.expm1(base.hi))

  def _inner(self, l):
    l = np.asarray(l, dtype=float)
    v = (np.exp(l) - (1 - self.q)) / self.q
    with np.errstate(divide='ignore', invalid='ignore'):
      return np.where(v > 0, np.log(np.maximum(v, 1e-320)), -np.inf)

  def tP(self, l):
    m = self._inner(l)
    return (1 - self.q) * self.b.tQ(m) + self.q * self.b.tP(m)

  def tQ(self, l):
    return self.b.tQ(self._inner(l))


class Rev(Leaf):
  """(Q, P) for a leaf (P, Q): the loss is -L."""

  def __init__(self, leaf):
    self.l = leaf
    self.lo, self.hi = -leaf.hi, -leaf.lo

  # P'(L' > l) = Q(L < -l) = 1 - Q(L >= -l); atoms at -l are assigned to the other side, which moves them by one cell
  # at most because cells are rounded down after an infinitesimal shift.
  def tP(self, l):
    return 1 - self.l.tQ(np.nextafter(-np.asarray(l, dtype=float), -np.inf))

  def tQ(self, l):
    return 1 - self.l.tP(np.nextafter(-np.asarray(l, dtype=float), -np.inf))


class Mog(Leaf):

  def __init__(self, sigma, sens, probs):
    self.s = np.asarray(sens, float) / sigma
    self.w = np.asarray(probs, float)
    k = self.w > 0
    self.s, self.w = self.s[k], self.w[k] / self.w[k].sum()
    m = self.s.max()
    self.lo, self.hi = float(self.loss(np.array([-10.0]))[0]), float(self.loss(np.array([m + 10.0]))[0])

  def loss(self, x):
    a = np.log(self.w)[:, None] + self.s[:, None] * x[None, :] - self.s[:, None] ** 2 / 2
    return special.logsumexp(a, axis=0)

  def _x(self, l):
    l = np.atleast_1d(np.asarray(l, float))
    lo, hi = np.full(l.shape, -60.0), np.full(l.shape, self.s.max() + 60.0)
    for _ in range(70):
      m = (lo + hi) / 2
      b = self.loss(m) > l
      hi = np.where(b, m, hi)
      lo = np.where(b, lo, m)
    return hi

  def tP(self, l):
    x = self._x(l)
    return sum(w * sf(x - s) for w, s in zip(self.w, self.s))

  def tQ(self, l):
    return sf(self._x(l))


class Fin(Leaf):

  def __init__(self, p, q):
    p, q = np.asarray(p, float), np.asarray(q, float)
    k = (p > 0) & (q > 0)
    self.inf = float(p[q == 0].sum())
    L = np.log(p[k] / q[k])
    o = np.argsort(L)
    self.L = L[o]
    self.cp = np.append(np.cumsum(p[k][o][::-1])[::-1], 0.0)
    self.cq = np.append(np.cumsum(q[k][o][::-1])[::-1], 0.0)
    self.lo, self.hi = float(L.min()), float(L.max())

  def tP(self, l):
    return self.cp[np.searchsorted(self.L, np.atleast_1d(l), side='right')] + self.inf

  def tQ(self, l):
    return self.cq[np.searchsorted(self.L, np.atleast_1d(l), side='right')]


def cells(leaf, g):
  """(k0, masses): P-mass of losses in [k g, (k+1) g) (up to the atom convention), lower tail dropped."""
  k0 = int(math.floor(leaf.lo / g + 1e-9)) - 1
  k1 = int(math.ceil(leaf.hi / g + 1e-9)) + 1
  # Shift the edges below the grid points so that atoms on a grid point belong to the cell above it.
  edges = (np.arange(k0, k1 + 1) - 1e-7) * g
  t = leaf.tP(edges) - leaf.inf
  m = t[:-1] - t[1:]
  m[-1] += t[-1]            # upper tail rounded down to the last cell
  return k0, np.maximum(m, 0.0)


def conv(a, b, trim=1e-13):
  """Distribution of the sum; negligible masses and FFT noise are dropped (callers account for the missing mass)."""
  ka, ma = a
  kb, mb = b
  n = len(ma) + len(mb) - 1
  if min(len(ma), len(mb)) < 64:
    m = np.convolve(ma, mb)
  else:
    s = 1 << (n - 1).bit_length()
    m = np.fft.irfft(np.fft.rfft(ma, s) * np.fft.rfft(mb, s), s)[:n]
    m[m < 2e-15 * math.sqrt(float(np.dot(ma, ma)) * float(np.dot(mb, mb)))] = 0.0
  c = np.cumsum(m)
  i = int(np.searchsorted(c, trim))
  j = len(m) - int(np.searchsorted(np.cumsum(m[::-1]), trim))
  if j <= i:
    return ka + kb, m
  return ka + kb + i, m[i:j].copy()


def power(a, n):
  r = None
  while n:
    if n & 1:
      r = a if r is None else conv(r, a)
    n >>= 1
    if n:
      a = conv(a, a)
  return r


class Curve:
  """Composition of leaves [(leaf, count)]."""

  def __init__(self, leaves, g):
    self.g, self.n = g, sum(c for _, c in leaves)
    noinf = 1.0
    tot = (0, np.array([1.0]))
    for leaf, c in leaves:
      noinf *= (1 - leaf.inf) ** c
      tot = conv(tot, power(cells(leaf, g), c))
    self.inf = 1 - noinf
    self.k, self.m = tot
    self.lost = max(0.0, noinf - float(self.m.sum()))    # includes real mass lost in negligible tails
    self.slack = 1e-12 + 1e-13 * self.n
    # Shift of 1e-7 cells per leaf from the atom convention.
    self.low = (self.k - 1e-7 * self.n) * g

  def floor(self, eps):
    L = self.low + np.arange(len(self.m)) * self.g
    k = L > eps
    return self.inf + float(np.sum(self.m[k] * -np.expm1(eps - L[k])))

  def below(self, eps):
    """Certainly at most the true delta ."""
    return max(0.0, self.floor(eps) - self.slack)

  def above(self, eps):
    """Certainly at least the true delta ."""
    return min(1.0, self.floor(eps - self.n * self.g * (1 + 2e-7)) + self.lost + self.slack)

  def eps_below(self, delta):
    """Certainly at most the true epsilon."""
    return self._solve(self.below, delta)

  def eps_above(self, delta):
    return self._solve(self.above, delta)

  def _solve(self, fn, delta):
    if fn(0.0) <= delta:
      return 0.0
    lo, hi = 0.0, max(1.0, self.low + len(self.m) * self.g + self.n * self.g + 1)
    if fn(hi) > delta:
      return math.inf
    for _ in range(45):
      m = (lo + hi) / 2
      if fn(m) > delta:
        lo = m
      else:
        hi = m
    return lo if fn == self.below else hi
