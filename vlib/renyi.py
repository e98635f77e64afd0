"""Independent Renyi divergence oracles (nothing imported from the code under test)."""
import math
import mpmath as mp
import numpy as np

LD = np.longdouble


def gaussian(sigma, a, sens=1):
  if math.isinf(a):
    return math.inf
  return float(mp.mpf(a) * mp.mpf(sens) ** 2 / (2 * mp.mpf(sigma) ** 2))


def laplace(b, a):
  """D_a(Lap(0,b) || Lap(1,b)), exact."""
  t = 1 / mp.mpf(b)
  if math.isinf(a):
    return float(t)
  a = mp.mpf(a)
  if a == 1:
    return float(t + mp.expm1(-t))
  with mp.workdps(60):
    # E_P[(p/q)^(a-1)] = a/(2a-1) e^{(a-1)t} + (a-1)/(2a-1) e^{-a t}
    v = a / (2 * a - 1) * mp.exp((a - 1) * t) + (a - 1) / (2 * a - 1) * mp.exp(-a * t)
    return float(mp.log(v) / (a - 1))


def finite(P, Q, a):
  """D_a(P||Q) for finite distributions given as mpf-able sequences."""
  with mp.workdps(50):
    P = [mp.mpf(v) for v in P]
    Q = [mp.mpf(v) for v in Q]
    if any(p > 0 and q == 0 for p, q in zip(P, Q)):
      return math.inf
    if math.isinf(a):
      return float(max(mp.log(p / q) for p, q in zip(P, Q) if p > 0))
    a = mp.mpf(a)
    if a == 1:
      return float(mp.fsum(p * mp.log(p / q) for p, q in zip(P, Q) if p > 0))
    return float(mp.log(mp.fsum(mp.exp(a * mp.log(p) + (1 - a) * mp.log(q)) for p, q in zip(P, Q) if p > 0)) / (a - 1))


def randomized_response(p, k, a, one):
  """True worst case over neighbouring inputs, both directions."""
  p = mp.mpf(p)
  P = [1 - p + p / k] + [p / k] * (k - 1)
  if k == 1:
    return 0.0
  if one:
    Q = [p / k, 1 - p + p / k] + [p / k] * (k - 2)
  else:
    Q = [mp.mpf(1) / k] * k
  if k > 40:  # lump equal outcomes
    if one:
      P, Q = P[:2] + [p / k * (k - 2)], Q[:2] + [p / k * (k - 2)]
    else:
      P, Q = [P[0], p / k * (k - 1)], [mp.mpf(1) / k, mp.mpf(k - 1) / k]
  return max(finite(P, Q, a), finite(Q, P, a))


def _lse_trap(logf, h):
  m = np.max(logf)
  if not np.isfinite(m):
    return -math.inf
  return float(m + np.log(np.sum(np.exp(logf - m))) + np.log(LD(h)))


def sampled_gaussian(q, sigma, a, reverse=False):
  """log E-moment based D_a of ((1-q)N(0,s^2)+qN(1,s^2)) from N(0,s^2); trapezoid rule,
  which converges geometrically for this analytic integrand."""
  if q == 0 or math.isinf(sigma):
    return 0.0
  if sigma == 0 or math.isinf(a):
    return math.inf
  if q == 1:
    return gaussian(sigma, a)
  s = float(sigma)
  h = min(s, s * s) / 25
  lo, hi = -13.0 * s, 1 + 13.0 * s
  if not reverse:
    hi = max(hi, a + 13.0 * s)
  else:
    lo = min(lo, -(a - 1) - 13.0 * s)
  n = int((hi - lo) / h) + 2
  if n > 4000000:
    h = (hi - lo) / 4000000
    n = 4000000
  x = LD(lo) + LD(h) * np.arange(n + 1, dtype=LD)
  v = LD(s) ** 2
  base = -x * x / (2 * v) - LD(0.5) * np.log(2 * LD(np.pi) * v)
  lr = np.logaddexp(np.log1p(-LD(q)), np.log(LD(q)) + (2 * x - 1) / (2 * v))
  w = LD(a) * lr if not reverse else (1 - LD(a)) * lr
  # sum f*(e^w - 1) is accurate when the moment is close to one.
  e = base + w
  m = np.max(e)
  if m < 30 and np.max(np.abs(np.where(base > -60, w, 0))) < 1e-2:
    d = np.sum(np.exp(base) * np.expm1(w)) * LD(h)
    return float(np.log1p(d) / (LD(a) - 1))
  return float((m + np.log(np.sum(np.exp(e - m))) + np.log(LD(h))) / (LD(a) - 1))


# --- sampling without replacement ------------------------------------------

def swor_witness(q, sigma, a):
  """Largest divergence among concrete one-dimensional neighbouring pairs (a lower bound)."""
  best = 0.0
  # Sampled element moves from position u to position v, others sit at c;
  # all pairwise distances at most one (sensitivity one under replacement).
  for u, v, c in ((0.0, 1.0, 0.0), (0.0, 1.0, 1.0), (0.0, 1.0, 0.5)):
    best = max(best, two_mixtures(q, sigma, a, u, v, c), two_mixtures(q, sigma, a, v, u, c))
  return best


def two_mixtures(q, sigma, a, u, v, c):
  """D_a of (1-q)N(c)+qN(u) from (1-q)N(c)+qN(v)."""
  s = float(sigma)
  h = min(s, s * s) / 25
  lo, hi = -14.0 * s - a, 14.0 * s + a + 1
  n = int((hi - lo) / h) + 2
  if n > 1500000:
    return 0.0
  x = LD(lo) + LD(h) * np.arange(n + 1, dtype=LD)
  w = LD(s) ** 2
  nrm = LD(0.5) * np.log(2 * LD(np.pi) * w)

  def lg(mu):
    return -(x - LD(mu)) ** 2 / (2 * w) - nrm
  l1, lq = np.log1p(-LD(q)), np.log(LD(q))
  P = np.logaddexp(l1 + lg(c), lq + lg(u))
  Q = np.logaddexp(l1 + lg(c), lq + lg(v))
  return max(0.0, _lse_trap(LD(a) * P + (1 - LD(a)) * Q, h) / (a - 1))


def swor_bound(q, sigma, a, fine=True):
  """Theorem 27 (Wang, Balle, Kasiviswanathan) with its Gaussian strengthening; high precision."""
  if q == 0 or math.isinf(sigma):
    return 0.0
  if sigma == 0 or math.isinf(a):
    return math.inf
  if q == 1:
    return gaussian(sigma, a)
  if a != int(a):
    f, c = math.floor(a), math.ceil(a)
    t = a - f
    x = swor_bound(q, sigma, f, fine) * (f - 1) if f > 1 else 0.0
    y = swor_bound(q, sigma, c, fine) * (c - 1)
    return ((1 - t) * x + t * y) / (a - 1)
  a = int(a)
  with mp.workdps(120):
    s2 = mp.mpf(sigma) ** 2
    q = mp.mpf(q)
    cgf = lambda x: mp.mpf(x) * (x + 1) / (2 * s2)
    e2 = 2 / (2 * s2)
    tot = mp.mpf(1) + q ** 2 * mp.binomial(a, 2) * min(4 * mp.expm1(e2), 2 * mp.exp(e2))
    B = None
    if fine and a <= 256:
      row = [mp.exp(cgf(i - 1)) if i else mp.mpf(1) for i in range(a + 3)]
      B = {0: row[0]}
      cur = row
      for l in range(1, a + 2):
        cur = [cur[i + 1] - cur[i] for i in range(len(cur) - 1)]
        B[l] = abs(cur[0])
    for j in range(3, a + 1):
      t = 2 * mp.exp(cgf(j - 1))
      if B is not None:
        t = min(t, 4 * mp.sqrt(B[2 * (j // 2)] * B[2 * ((j + 1) // 2)]))
      tot += q ** j * mp.binomial(a, j) * t
    return float(mp.log(tot) / (a - 1))


# --- repeat and select --------------------------------------------------------

class Repetitions:
  """Number-of-repetitions law with given mean and shape: pgf and its derivative."""

  def __init__(self, mean, shape):
    self.mean, self.shape = mp.mpf(mean), shape
    if math.isinf(shape):
      self.gamma = None
      return
    eta = mp.mpf(shape)

    def m(g):
      if g == 1:
        return mp.mpf(1)
      if eta == 0:
        return (1 / g - 1) / mp.log(1 / g)
      return eta * (1 - g) / (g * (1 - g ** eta))
    if self.mean == 1:
      self.gamma = mp.mpf(1)
      return
    lo, hi = mp.mpf(10) ** -30, mp.mpf(1) - mp.mpf(10) ** -25
    for _ in range(250):
      mid = mp.sqrt(lo * hi)
      if m(mid) > self.mean:
        lo = mid
      else:
        hi = mid
    self.gamma = hi

  def pgf(self, x):
    x = mp.mpf(x)
    if self.gamma is None:
      return mp.exp(self.mean * (x - 1))
    g = self.gamma
    if g == 1:
      return x
    if self.shape == 0:
      return mp.log(1 - (1 - g) * x) / mp.log(g)
    eta = mp.mpf(self.shape)
    return ((1 - (1 - g) * x) ** -eta - 1) / (g ** -eta - 1)

  def dpgf(self, x):
    """Derivative of the pgf, vectorised over long doubles."""
    if self.gamma is None:
      m = LD(float(self.mean))
      return m * np.exp(m * (x - 1))
    g = LD(mp.nstr(self.gamma, 25))
    if self.gamma == 1:
      return np.ones_like(x)
    if self.shape == 0:
      return (1 - g) / (1 - (1 - g) * x) / -np.log(g)
    eta = LD(self.shape)
    return eta * (1 - g) * (1 - (1 - g) * x) ** (-eta - 1) / (g ** -eta - 1)

  def select_finite(self, P):
    """Output law (best of K outcomes, outcomes ordered by index) plus the no-run atom."""
    acc, out, prev = mp.mpf(0), [], self.pgf(0)
    out.append(prev)  # K = 0 (only possible for Poisson)
    for i, p in enumerate(P):
      acc += mp.mpf(p)
      if i == len(P) - 1:
        acc = mp.mpf(1)
      cur = self.pgf(acc)
      out.append(cur - prev)
      prev = cur
    return out


def select_gaussian(rep, sigma, a, up):
  """D_a of best-of-K outputs, base N(1,s) versus N(0,s), best = largest value."""
  from scipy import special
  s = float(sigma)
  n = 40001
  lo, hi = -14 * s - a - 1, 14 * s + a + 2
  h = (hi - lo) / (n - 1)
  h = min(h, s / 40)
  n = int((hi - lo) / h) + 1
  if n > 600000:
    return None
  x = np.linspace(lo, hi, n)
  h = x[1] - x[0]

  def lg(mu):
    lp = -(x - mu) ** 2 / (2 * s * s) - 0.5 * math.log(2 * math.pi * s * s)
    F = special.ndtr((x - mu) / s)
    return LD(1) * lp + np.log(rep.dpgf(F.astype(LD)))
  A, B = (lg(1.0), lg(0.0)) if up else (lg(0.0), lg(1.0))
  v = _lse_trap(LD(a) * A + (1 - LD(a)) * B, h)
  if rep.gamma is None:  # the no-run atom has equal probability on both sides
    v = float(np.logaddexp(v, -float(rep.mean)))
  return v / (a - 1)


def repeat_bound(orders, rdp, mean, shape):
  """Theorem 2 / Theorem 6 of Papernot & Steinke (2110.03620), per order, best over tracked orders."""
  out = [math.inf] * len(orders)
  if math.isinf(shape):
    for i, a in enumerate(orders):
      if a <= 1:
        continue
      eh = math.log1p(1 / (a - 1))
      dh = delta_of(orders, rdp, eh)
      out[i] = rdp[i] + mean * dh + math.log(mean) / (a - 1)
    return out
  g = Repetitions(mean, shape).gamma
  c = min((1 + shape) * ((1 - 1 / b) * r - float(mp.log(g)) / b) for b, r in zip(orders, rdp))
  tmp = [(r + math.log(mean) / (a - 1) + c) if a > 1 else math.inf for a, r in zip(orders, rdp)]
  for i, a in enumerate(orders):
    out[i] = min(t for b, t in zip(orders, tmp) if b >= a)
  return out


# --- conversion -----------------------------------------------------------------

def log_delta_at(a, r, eps):
  """Documented conversion at one order (KL bound, and CKS Prop. 12 for orders above 1.01)."""
  if r < 0:
    return -mp.inf
  best = mp.log(-mp.expm1(-mp.mpf(r))) / 2 if 0 < r < mp.inf else (-mp.inf if r == 0 else mp.mpf(0))
  if a > 1.01 and r < mp.inf and not math.isinf(a):
    a = mp.mpf(a)
    best = min(best, (a - 1) * (mp.mpf(r) - eps + mp.log1p(-1 / a)) - mp.log(a))
  return best


def delta_of(orders, rdp, eps):
  v = min(log_delta_at(float(a), float(r), eps) for a, r in zip(orders, rdp))
  return float(min(mp.exp(v), 1))


def eps_at(a, r, delta):
  if r < 0:
    return mp.mpf(0)
  if r < mp.inf and mp.mpf(delta) ** 2 > -mp.expm1(-mp.mpf(r)):
    return mp.mpf(0)
  if a > 1.01 and r < mp.inf and not math.isinf(a):
    a = mp.mpf(a)
    return mp.mpf(r) + mp.log1p(-1 / a) - mp.log(mp.mpf(delta) * a) / (a - 1)
  return mp.inf


def eps_of(orders, rdp, delta):
  return float(max(0, min(eps_at(float(a), float(r), delta) for a, r in zip(orders, rdp))))


# --- tree aggregation -------------------------------------------------------------

def tree_nodes(steps):
  """Largest number of complete dyadic nodes of the first `steps` leaves containing one leaf."""
  if steps <= 0:
    return 0
  if steps <= 4096:
    best = 0
    cnt = [0] * steps
    size = 1
    while size <= steps:
      for start in range(0, steps - size + 1, size):
        for i in range(start, start + size):
          cnt[i] += 1
      size *= 2
    return max(cnt)
  d = 0
  size = 1
  while size <= steps:  # leaf 0 lies in every complete node [0, size)
    d += 1
    size *= 2
  return d


def fractional_series(q, sigma, a, terms=4000):
  """Series of absolute terms for fractional orders: (rdp upper estimate, log of largest late term).

  The exact moment is the alternating version of this series, so its absolute
  version is a legitimate over-estimate."""
  from scipy import special
  i = np.arange(terms, dtype=float)
  j = a - i
  z0 = sigma ** 2 * math.log(1 / q - 1) + 0.5
  lc = special.gammaln(a + 1) - special.gammaln(i + 1) - special.gammaln(a - i + 1)
  s0 = lc + i * math.log(q) + j * math.log1p(-q) + (i * i - i) / (2 * sigma ** 2) + special.log_ndtr((z0 - i) / sigma)
  s1 = lc + j * math.log(q) + i * math.log1p(-q) + (j * j - j) / (2 * sigma ** 2) + special.log_ndtr((j - z0) / sigma)
  tot = special.logsumexp(np.concatenate([s0, s1]))
  late = float(np.max(np.maximum(s0, s1)[min(940, terms - 1):1000]) - tot) if terms > 941 else 0.0
  return float(tot) / (a - 1), late
