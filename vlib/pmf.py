"""Random discrete privacy loss distributions and a long-double reference."""
import math
import numpy as np
from vlib import mech

LD = np.longdouble


class Ref:
  """Reference privacy loss distribution: list of (offset, probs, infinity mass)."""

  def __init__(self, h, dirs, tail=0.0, ops=0):
    self.h, self.dirs, self.tail, self.ops = LD(h), dirs, tail, ops

  @staticmethod
  def of(h, dicts):
    out = []
    for d, inf in dicts:
      if d:
        lo, hi = min(d), max(d)
        a = np.zeros(hi - lo + 1, dtype=LD)
        for k, v in d.items():
          a[k - lo] = LD(v)
      else:
        lo, a = 0, np.zeros(1, dtype=LD)
      out.append((lo, a, LD(inf)))
    return Ref(h, out)

  def _pairs(self, o):
    if len(self.dirs) == len(o.dirs):
      return list(zip(self.dirs, o.dirs))
    a = self.dirs * 2 if len(self.dirs) == 1 else self.dirs
    b = o.dirs * 2 if len(o.dirs) == 1 else o.dirs
    return list(zip(a, b))

  def compose(self, o, tail=0.0):
    out = []
    for (l1, a, i1), (l2, b, i2) in self._pairs(o):
      out.append((l1 + l2, conv(a, b), i1 + i2 - i1 * i2))
    return Ref(self.h, out, self.tail + o.tail + tail, self.ops + o.ops + 1)

  def power(self, n, tail=0.0):
    out = []
    for l, a, i in self.dirs:
      res, base, m = None, a, n
      while m:
        if m & 1:
          res = base if res is None else conv(res, base)
        m >>= 1
        if m:
          base = conv(base, base)
      inf = -np.expm1(n * np.log1p(-i)) if i < 1 else LD(1)
      out.append((l * n, res, inf))
    return Ref(self.h, out, self.tail * n + 2 * tail, self.ops * n + n)

  def span(self):
    lo = min(float(l * self.h) for l, a, i in self.dirs)
    hi = max(float((l + len(a) - 1) * self.h) for l, a, i in self.dirs)
    return lo, hi

  def delta_dir(self, k, eps):
    l, a, inf = self.dirs[k]
    e = LD(eps)
    losses = (l + np.arange(len(a))) * self.h
    m = losses > e
    return float(inf + np.sum(-np.expm1(e - losses[m]) * a[m]))

  def delta(self, eps):
    if eps == math.inf:
      return float(max(i for _, _, i in self.dirs))
    return max(self.delta_dir(k, eps) for k in range(len(self.dirs)))

  def slack(self, d):
    return 1e-9 * abs(d) + 2e-14 * (self.ops + 5)

  def max_len(self):
    return max(len(a) for _, a, _ in self.dirs)

  def eps_points(self, r, n):
    lo, hi = self.span()
    h = float(self.h)
    pts = [0.0, lo - 40, hi, hi + h, lo]
    for _ in range(n):
      v = float(r.uniform(lo - h, hi + h))
      m = r.random()
      if m < .4:
        v = round(v / h) * h
      elif m < .5:
        v = round(v / h) * h * (1 + 1e-12)
      elif m < .6:
        v = float(r.uniform(0, max(hi, h)))
      pts.append(v)
    return pts


def conv(a, b):
  if len(a) > len(b):
    a, b = b, a
  if np.count_nonzero(a) * 8 < len(a):
    out = np.zeros(len(a) + len(b) - 1, dtype=LD)
    for i in np.nonzero(a)[0]:
      out[i:i + len(b)] += a[i] * b
    return out
  return np.convolve(a, b)


INFS = [0.0, 0.0, 0.0, 1e-20, 1e-9, 1e-3, 0.3, 0.9, 1 - 1e-12, 1.0]


def weights(r, n, total):
  m = r.random()
  if m < .35:
    w = r.dirichlet(np.ones(n))
  elif m < .6:
    w = r.dirichlet(np.full(n, .05))
    w = np.maximum(w, 0)
  elif m < .85:
    x = np.arange(n) - r.uniform(0, n)
    w = np.exp(-x ** 2 / (2 * (mech.logu(r, .5, max(1.0, n / 4))) ** 2))
  else:
    w = np.exp(r.uniform(-60, 0, n))
  s = w.sum()
  if not s > 0:
    w = np.ones(n)
    s = n
  return w / s * total


def random_dict(r, size=None, big=False, inf=None, total=None):
  size = size or mech.pick(r, ['one', 'tiny', 'tiny', 'gap', 'mid', 'mid', 'edge', 'dense'])
  if size == 'one':
    n, span = 1, 1
  elif size == 'tiny':
    n = int(r.integers(1, 9))
    span = n if r.random() < .5 else n + int(r.integers(0, 40))
  elif size == 'gap':
    n = int(r.integers(2, 12))
    span = int(r.integers(200, 2500))
  elif size == 'mid':
    n = int(r.integers(20, 70))
    span = n + int(r.integers(0, 100))
  elif size == 'edge':
    n = int(mech.pick(r, [999, 1000, 1001]))
    span = n + int(r.integers(0, 3))
  else:
    n = int(r.integers(1001, 2600))
    span = n + int(r.integers(0, 300))
  off = int(mech.pick(r, [0, -span // 2, -span, 1, int(r.integers(-2000, 2000)), -(span - 1)]))
  keys = np.sort(r.choice(span, size=n, replace=False)) + off if n > 1 else np.array([off])
  inf = mech.pick(r, INFS) if inf is None else inf
  w = weights(r, len(keys), (1 - inf) * (1 if total is None else total))
  d = {int(k): float(v) for k, v in zip(keys, w)}
  if r.random() < .2:
    d = dict(sorted(d.items(), key=lambda z: r.random()))
  return d, float(inf)


def random_pld(r, h, pess=True, size=None, sym=None, inf=None):
  """Returns (real PLD, Ref)."""
  from dp_accounting.pld import privacy_loss_distribution as P
  sym = bool(r.random() < .6) if sym is None else sym
  total = None if pess or r.random() < .5 else float(r.uniform(.5, 1))
  d1 = random_dict(r, size, inf=inf, total=total)
  if sym:
    pl = P.PrivacyLossDistribution.create_from_rounded_probability(dict(d1[0]), d1[1], h, pessimistic_estimate=pess)
    return pl, Ref.of(h, [d1])
  d2 = random_dict(r, size, inf=inf, total=total)
  pl = P.PrivacyLossDistribution.create_from_rounded_probability(
      dict(d1[0]), d1[1], h, pess, dict(d2[0]), d2[1], symmetric=False)
  return pl, Ref.of(h, [d1, d2])
