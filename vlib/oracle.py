"""Independent ground truth for privacy loss: closed forms and direct summation.

Nothing here imports the code under test.  All hockey-stick divergences are
delta(eps) = sup_S P(S) - e^eps Q(S).
"""
import math
import mpmath as mp
import numpy as np

mp.mp.dps = 40


class Pair:
  """A dominating pair (P, Q): remove = H(P||Q), add = H(Q||P)."""

  def H(self, logc):  # divergence of P from Q with threshold c = e^logc
    raise NotImplementedError

  def H_rev(self, logc):
    raise NotImplementedError

  def remove(self, eps):
    return self.H(mp.mpf(eps))

  def add(self, eps):
    return self.H_rev(mp.mpf(eps))

  def delta(self, eps):
    return max(self.remove(eps), self.add(eps))


class Gaussian(Pair):

  def __init__(self, sigma, sens=1):
    self.mu = abs(mp.mpf(sens)) / mp.mpf(sigma)

  def H(self, lc):
    mu = self.mu
    if mu == 0:
      return max(mp.mpf(0), -mp.expm1(lc))
    return mp.ncdf(mu / 2 - lc / mu) - mp.exp(lc) * mp.ncdf(-mu / 2 - lc / mu)

  H_rev = H


class Laplace(Pair):

  def __init__(self, b, sens=1):
    self.t = abs(mp.mpf(sens)) / mp.mpf(b)

  def H(self, lc):
    t = self.t
    if lc >= t:
      return mp.mpf(0)
    if lc <= -t:
      return -mp.expm1(lc)
    return -mp.expm1((lc - t) / 2)

  H_rev = H


class Finite(Pair):
  """Pair of finite distributions given as arrays of probabilities (longdouble)."""

  def __init__(self, p, q):
    self.p = np.asarray(p, dtype=np.longdouble)
    self.q = np.asarray(q, dtype=np.longdouble)

  @staticmethod
  def _h(p, q, lc):
    lc = float(lc)
    if lc > 11000:
      return mp.mpf(str(np.sum(p[q == 0])))
    c = np.exp(np.longdouble(lc))
    d = p - c * q
    return mp.mpf(str(np.sum(d[d > 0])))

  def H(self, lc):
    return self._h(self.p, self.q, lc)

  def H_rev(self, lc):
    return self._h(self.q, self.p, lc)


def discrete_laplace_pair(a, s, tail=1e-40):
  """P = noise shifted by -s? Orientation is irrelevant: noise is symmetric."""
  n = int(math.ceil(-math.log(tail) / a)) + abs(int(s)) + 2
  x = np.arange(-n, n + 1, dtype=np.longdouble)
  a = np.longdouble(a)
  norm = np.tanh(a / 2)
  return Finite(norm * np.exp(-a * np.abs(x - s)), norm * np.exp(-a * np.abs(x)))


def discrete_gaussian_pair(sigma, s, bound=None, tail=1e-40):
  """bound: noise supported on [-bound, bound] (as documented), None = unbounded."""
  s = int(s)
  if bound is None:
    n = int(math.ceil(sigma * math.sqrt(-2 * math.log(tail)))) + 2
  else:
    n = int(bound)
  x = np.arange(-n - s, n + s + 1, dtype=np.longdouble)
  sg = np.longdouble(sigma)

  def pm(c):
    v = np.exp(-(x - c) ** 2 / (2 * sg * sg))
    v[np.abs(x - c) > n] = 0
    return v / v.sum()
  return Finite(pm(s), pm(0))


class Sampled(Pair):
  """Poisson subsampling of a base pair: P' = (1-q)Q + qP versus Q."""

  def __init__(self, base, q):
    self.base, self.q = base, mp.mpf(q)

  def H(self, lc):
    q = self.q
    if q == 0:
      return max(mp.mpf(0), -mp.expm1(lc))
    c = 1 + mp.expm1(lc) / q   # e^lc - (1-q), over q
    if c <= 0:
      return -mp.expm1(lc)
    return q * self.base.H(mp.log(c))

  def H_rev(self, lc):
    q = self.q
    ec = mp.exp(lc)
    a = 1 - ec * (1 - q)
    if a <= 0:
      return mp.mpf(0)
    if q == 0:
      return max(mp.mpf(0), -mp.expm1(lc))
    return a * self.base.H_rev(mp.log(ec * q / a))


class Mixture(Pair):
  """P = sum_i w_i N(s_i, sigma^2) versus Q = N(0, sigma^2), s_i >= 0."""

  def __init__(self, sigma, sens, probs):
    self.sg = mp.mpf(sigma)
    self.s = [mp.mpf(v) for v in sens]
    self.w = [mp.mpf(v) for v in probs]
    tot = sum(self.w)
    self.w = [w / tot for w in self.w]

  def _logratio(self, x):
    v = [w * mp.exp((2 * s * x - s * s) / (2 * self.sg ** 2)) for s, w in zip(self.s, self.w)]
    return mp.log(sum(v))

  def _root(self, lc):
    """x with log P/Q = lc (increasing in x); None if never reached below."""
    lo_lim = sum(w for s, w in zip(self.s, self.w) if s == 0)
    if lo_lim > 0 and lc <= mp.log(lo_lim):
      return -mp.inf
    if all(s == 0 for s in self.s):
      return mp.inf if lc >= 0 else -mp.inf
    lo, hi = mp.mpf(-1), mp.mpf(1)
    while self._logratio(lo) > lc:
      lo *= 2
      if lo < -mp.mpf(10) ** 12:
        return -mp.inf
    while self._logratio(hi) < lc:
      hi *= 2
    for _ in range(110):
      m = (lo + hi) / 2
      if self._logratio(m) < lc:
        lo = m
      else:
        hi = m
    return hi

  def H(self, lc):
    lc = mp.mpf(lc)
    x = self._root(lc)
    up = sum(w * mp.ncdf((s - x) / self.sg) for s, w in zip(self.s, self.w)) if x != -mp.inf else mp.mpf(1)
    lq = mp.ncdf(-x / self.sg) if x != -mp.inf else mp.mpf(1)
    if x == mp.inf:
      return mp.mpf(0)
    return max(mp.mpf(0), up - mp.exp(lc) * lq)

  def H_rev(self, lc):
    # Q - e^lc P positive where P/Q < e^-lc, i.e. x < root(-lc).
    lc = mp.mpf(lc)
    x = self._root(-lc)
    if x == -mp.inf:
      return mp.mpf(0)
    if x == mp.inf:
      return max(mp.mpf(0), -mp.expm1(lc))
    q = mp.ncdf(x / self.sg)
    p = sum(w * mp.ncdf((x - s) / self.sg) for s, w in zip(self.s, self.w))
    return max(mp.mpf(0), q - mp.exp(lc) * p)


def randomized_response_pair(p, k, relation):
  """relation: 'one' (replace one) or 'special' (replace by uniform output)."""
  P = np.full(k, np.longdouble(p) / k)
  P[0] += 1 - np.longdouble(p)
  if relation == 'one':
    Q = np.full(k, np.longdouble(p) / k)
    Q[1] += 1 - np.longdouble(p)
  else:
    Q = np.full(k, np.longdouble(1) / k)
  return Finite(P, Q)


def smallest_eps(delta_fn, delta, hi=1.0, iters=60):
  """inf{eps >= 0: delta_fn(eps) <= delta} for a non-increasing delta_fn."""
  if delta_fn(0) <= delta:
    return 0.0
  lo = 0.0
  while delta_fn(hi) > delta:
    lo, hi = hi, hi * 2
    if hi > 1e6:
      return math.inf
  for _ in range(iters):
    m = (lo + hi) / 2
    if delta_fn(m) > delta:
      lo = m
    else:
      hi = m
  return hi
