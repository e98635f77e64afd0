"""P08: privacy-loss models are coherent with the densities they describe."""
import math
import mpmath as mp
import numpy as np
from vlib import mech, oracle as O, pldcheck

PROPERTY = 'P08'
RULE = ('an observation is non-trivial when the loss is finite and non-zero (loss monitors) or the true delta is in '
        '(1e-13, 1) (delta monitors); distinct by mechanism parameters, direction, monitor and evaluation point')
ASSUMPTIONS = ['log-density ratios evaluated with 40-digit arithmetic',
               'outcomes where both densities vanish are outside the domain',
               'calibrated noise: 1e-3 relative plus 2e-7 absolute allowance for the binary search']
INT_KNOWN = 'mog-integer-epsilon'


def REQUIRED(tier):
  return {'loss_points': 8000, 'inverse_points': 6000, 'delta_points': 6000, 'cdf_points': 4000,
          'monotone_pairs': 4000, 'calibrations': 250, 'tightness': 200, 'rejections': 60}


def cases(seed, tier):
  n = 1500 if tier == 'quick' else 20000
  out = []
  for i in range(n):
    r = mech.rng_of(seed, 'p08', i)
    kind = mech.KINDS[i % 5]
    if kind == 'mog' and i % 3:
      kind = 'dgaussian'
    spec = mech.random_spec(r, kind)
    if r.random() < .1 and kind != 'mog':
      spec['scale'] = float(spec['scale']) * mech.logu(r, 0.05, 30)
      spec.pop('trunc', None)
    out.append(dict(family=kind, spec=spec, add=bool(r.random() < .5), s=seed * 100003 + i))
  for i in range(n // 3):
    r = mech.rng_of(seed, 'p08c', i)
    out.append(dict(family='calibrate', kind=mech.KINDS[i % 4], s=seed * 100003 + i))
  for i in range(60):
    out.append(dict(family='reject', s=seed * 100003 + i))
  for i in range(20 if tier == 'quick' else 200):
    out.append(dict(family='mog-integers', s=seed * 100003 + i))
  return out


def make(spec, add, pess=True, **kw):
  from dp_accounting.pld import privacy_loss_mechanism as m
  adj = m.AdjacencyType.ADD if add else m.AdjacencyType.REMOVE
  k = spec['kind']
  if k == 'gaussian':
    return m.GaussianPrivacyLoss(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'], adjacency_type=adj, **kw)
  if k == 'laplace':
    return m.LaplacePrivacyLoss(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'], adjacency_type=adj)
  if k == 'dlaplace':
    return m.DiscreteLaplacePrivacyLoss(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'], adjacency_type=adj)
  if k == 'dgaussian':
    return m.DiscreteGaussianPrivacyLoss(spec['scale'], sensitivity=spec['sens'], truncation_bound=spec.get('trunc'),
                                         sampling_prob=spec['q'], adjacency_type=adj)
  return m.MixtureGaussianPrivacyLoss(spec['scale'], spec['sens'], spec['probs'], adjacency_type=adj, **kw)


def dg_bound(spec):
  """Support bound of the discrete Gaussian noise (documented default: tail mass 1e-30)."""
  return spec.get('trunc')


class Density:
  """mu_upper, mu_lower of a spec in one direction, and their log ratio."""

  def __init__(self, spec, add, bound=None):
    self.k, self.add = spec['kind'], add
    self.spec = spec
    self.bound = bound
    self.sc = mp.mpf(spec['scale'])
    if self.k == 'mog':
      tot = mp.fsum(spec['probs'])
      self.parts = [(mp.mpf(p) / tot, mp.mpf(s)) for p, s in zip(spec['probs'], spec['sens'])]
    else:
      q, s = mp.mpf(spec['q']), mp.mpf(spec['sens'])
      self.parts = [(q, s)] + ([(1 - q, mp.mpf(0))] if q < 1 else [])
    self.discrete = self.k in ('dlaplace', 'dgaussian')

  def logmu(self, x):  # up to the common normalisation
    if self.k in ('gaussian', 'mog', 'dgaussian'):
      if self.bound is not None and abs(x) > self.bound:
        return -mp.inf
      return -x * x / (2 * self.sc ** 2)
    if self.k == 'laplace':
      return -abs(x) / self.sc
    return -abs(x) * self.sc

  def _mix(self, x, sign):
    v = [(w, self.logmu(x + sign * s)) for w, s in self.parts]
    m = max(l for _, l in v)
    if m == -mp.inf:
      return -mp.inf
    return m + mp.log(mp.fsum(w * mp.exp(l - m) for w, l in v if l != -mp.inf))

  def loss(self, x):
    """None when undefined."""
    x = mp.mpf(x)
    if self.add:
      u, l = self.logmu(x), self._mix(x, -1)
    else:
      u, l = self._mix(x, 1), self.logmu(x)
    if u == -mp.inf and l == -mp.inf:
      return None
    if l == -mp.inf:
      return mp.inf
    if u == -mp.inf:
      return -mp.inf
    return u - l

  def sup_inf(self):
    """Limits of the loss at -inf and +inf outcomes."""
    k = self.k
    if k in ('laplace', 'dlaplace'):
      big = mp.mpf(10) ** 7 * (self.sc if k == 'laplace' else 1 / self.sc)
      if k == 'dlaplace':
        big = mp.floor(big)
      big = max(big, 10 ** 4)
      return self.loss(-big), self.loss(big)
    zero = mp.fsum(w for w, s in self.parts if s == 0)
    if self.add:
      return (-mp.log(zero) if zero else mp.inf), -mp.inf
    return mp.inf, (mp.log(zero) if zero else -mp.inf)

  def noise_cdf_fn(self):
    k = self.k
    if k in ('gaussian', 'mog'):
      return lambda x: mp.ncdf(x / self.sc)
    if k == 'laplace':
      return lambda x: mp.exp(x / self.sc) / 2 if x < 0 else 1 - mp.exp(-x / self.sc) / 2
    if k == 'dlaplace':
      a = self.sc
      def f(x):
        x = mp.floor(x)
        return mp.exp(a * (x + 1)) / (1 + mp.exp(a)) if x < 0 else 1 - mp.exp(-a * x) / (1 + mp.exp(a))
      return f
    n = self.bound if self.bound is not None else int(math.ceil(self.sc * 14)) + 1
    xs = range(-n, n + 1)
    w = [mp.exp(-mp.mpf(v) ** 2 / (2 * self.sc ** 2)) for v in xs]
    tot = mp.fsum(w)
    cum = [mp.mpf(0)]
    for v in w:
      cum.append(cum[-1] + v)
    def g(x):
      x = int(mp.floor(x))
      if x < -n:
        return mp.mpf(0)
      if x >= n:
        return mp.mpf(1)
      return cum[x + n + 1] / tot
    return g


def scale_of(spec):
  return float(spec['scale']) if spec['kind'] != 'dlaplace' else 1 / float(spec['scale'])


def smax(spec):
  return float(max(spec['sens']) if spec['kind'] == 'mog' else spec['sens'])


def close(a, b, rel=1e-9, ab=1e-9):
  if a is None or b is None:
    return a is b
  if mp.isinf(b) or math.isinf(a):
    return float(a) == float(b)
  return abs(mp.mpf(a) - b) <= ab + rel * abs(b)


def run(case, obs):
  f = case['family']
  if f == 'calibrate':
    return calibrate(case, obs)
  if f == 'reject':
    return reject(case, obs)
  if f == 'mog-integers':
    return integers(case, obs)
  spec, add = case['spec'], case['add']
  r = mech.rng_of(case['s'], 'run')
  pl = make(spec, add)
  bound = spec.get('trunc') if spec['kind'] == 'dgaussian' else None
  D = Density(spec, add, bound)
  T = mech.truth(spec)
  # Without an explicit bound discrete Gaussian noise is truncated where its tail mass is below 1e-30.
  cut = 11.0 * spec['scale'] if spec['kind'] == 'dgaussian' and bound is None else math.inf
  name = '%s:%s' % (spec['kind'], 'add' if add else 'remove')
  tag = (str(spec), add)
  sc, sm = scale_of(spec), smax(spec)
  # losses --------------------------------------------------------------
  xs = [float(r.normal() * sc * 2 - (0 if add else sm) + r.uniform(0, sm)) for _ in range(6)]
  xs += [0.0, sm, -sm, sm / 2, -sm / 2, float(r.normal() * 6 * sc)]
  if D.discrete:
    xs = sorted({int(round(x)) for x in xs if abs(x) + sm <= cut})
    if bound is not None:
      s = int(sm)
      xs += [bound, -bound, bound + 1, -bound - 1, bound - s, s - bound, s - bound - 1, bound + s, -bound - s]
      xs = sorted(set(xs))
  else:
    xs = sorted(xs)
  prev = None
  for x in xs:
    want = D.loss(x)
    if want is None:
      try:
        v = pl.privacy_loss(x)
        obs.check(False, 'loss-undefined-accepted:' + name, 'a loss was returned where both densities vanish', x=x, got=v, spec=spec)
      except ValueError:
        obs.count('undefined_rejected')
      continue
    got = float(pl.privacy_loss(x))
    obs.count('loss_points')
    if want != 0 and not mp.isinf(want):
      obs.key(tag, 'loss', x)
    obs.check(close(got, want, 1e-9, 1e-11 * (1 + (sm / sc) ** 2) + 1e-12), 'loss:' + name,
              'privacy loss differs from the log density ratio', x=x, got=got, want=float(want), spec=spec)
    if prev is not None:
      obs.count('monotone_pairs')
      obs.check(got <= prev + 1e-11 * (1 + abs(prev) if math.isfinite(prev) else 1), 'loss-monotone:' + name,
                'privacy loss increases with the outcome', x=x, got=got, prev=prev, spec=spec)
    prev = got
  # inverse -------------------------------------------------------------
  hi, lo = D.sup_inf()
  ls = []
  for x in xs[:8]:
    v = D.loss(x)
    if v is not None and not mp.isinf(v):
      ls.append(float(v))
      if D.discrete:
        ls.append(float(v) + 1e-5)
        ls.append(float(v) - 1e-5)
  e = mech.eps_scale(spec)
  ls += [float(r.uniform(-e, e)) for _ in range(3)] + [e / 3, 0.0]
  if spec['kind'] in ('laplace', 'dlaplace') and spec['q'] == 1:
    ls += [float(hi) + 0.3, float(lo) - 0.3]
  invs = []
  for l in sorted(ls):
    q = spec['q'] if spec['kind'] != 'mog' else float(mp.fsum(w for w, s in D.parts if s > 0))
    if q < 1:
      b = -math.log1p(-q)
      if add and l >= b - 1e-7 * max(1, b) or not add and l <= -b + 1e-7 * max(1, b):
        continue
    if spec['kind'] == 'mog':
      prec = 1e-6
      x = float(pl.inverse_privacy_loss(l))
      obs.count('inverse_points')
      obs.key(tag, 'inv', l)
      if not obs.check(math.isfinite(x), 'inverse:' + name, 'no finite inverse', l=l, got=x, spec=spec):
        continue
      tol = mp.mpf(1e-10) * (1 + abs(l)) + mp.mpf(1e-9) * max(sm, sm * sm) / sc ** 2 * 1e-2
      up, dn = D.loss(x + prec), D.loss(x - prec)
      obs.check(up <= l + tol and dn >= l - tol, 'inverse:' + name,
                'inverse is not within its precision of the boundary outcome',
                l=l, got=x, loss_after=float(up), loss_before=float(dn), spec=spec)
      obs.check(abs(x / prec - round(x / prec)) < 1e-3, 'inverse-precision:' + name, 'not a multiple of the precision', l=l, got=x, spec=spec)
      invs.append((l, x))
      continue
    x = pl.inverse_privacy_loss(l)
    invs.append((l, float(x)))
    obs.count('inverse_points')
    obs.key(tag, 'inv', l)
    tol = mp.mpf(1e-9) * (1 + abs(l))
    if math.isinf(x):
      ok = (x < 0 and hi <= l + tol) or (x > 0 and lo >= l - tol)
      obs.check(ok, 'inverse-infinite:' + name, 'inverse is infinite for a loss inside the range', l=l, got=x, sup=float(hi), inf=float(lo), spec=spec)
      continue
    if D.discrete:
      if not obs.check(float(x) == int(x), 'inverse-integer:' + name, 'inverse is not an integer outcome', l=l, got=float(x), spec=spec):
        continue
      x = int(x)
      if abs(x) + 1 + sm > cut:
        obs.count('inverse_at_default_truncation')
        continue
      at, nxt = D.loss(x), D.loss(x + 1)
      # Outcomes with vanishing densities do not constrain the boundary.
      ok = (at is None or at >= l - tol) and (nxt is None or nxt < l + tol)
      obs.check(ok, 'inverse:' + name, 'not the largest outcome whose loss is at least the given value', l=l, got=x,
                loss_at=None if at is None else float(at), loss_next=None if nxt is None else float(nxt), spec=spec)
    else:
      at = D.loss(x)
      eta = mp.mpf(1e-6) * sc
      obs.check(abs(at - l) <= tol and D.loss(x + eta) < l + tol / 10 + (0 if spec['q'] < 1 else 0), 'inverse:' + name,
                'not the largest outcome whose loss is at least the given value', l=l, got=float(x), loss_at=float(at), spec=spec)
  for (l1, x1), (l2, x2) in zip(invs, invs[1:]):
    obs.count('monotone_pairs')
    obs.check(x2 <= x1 + 1e-9 * (sc + abs(x1)) or x2 == x1, 'inverse-monotone:' + name, 'inverse loss increases', l=[l1, l2], x=[x1, x2], spec=spec)
  # distributions ---------------------------------------------------------
  F = D.noise_cdf_fn()
  px = [x for x in xs] + ([x + 0.5 for x in xs[:2]] if D.discrete and spec['kind'] == 'dlaplace' else [])
  arr_u = np.asarray(pl.mu_upper_cdf(np.array(px, dtype=float) if not D.discrete else np.array(px)), dtype=float)
  arr_l = np.asarray(pl.mu_lower_log_cdf(np.array(px, dtype=float) if not D.discrete else np.array(px)), dtype=float)
  for i, x in enumerate(px):
    mix = mp.fsum(w * F(mp.mpf(x) + (-s if add else s)) for w, s in D.parts)
    base = F(mp.mpf(x))
    up, low = (base, mix) if add else (mix, base)
    gu = float(pl.mu_upper_cdf(x))
    gl = float(pl.mu_lower_log_cdf(x))
    obs.count('cdf_points', 2)
    obs.key(tag, 'cdf', x)
    obs.check(abs(gu - up) <= 1e-9 * up + 1e-13, 'upper-cdf:' + name, 'CDF of the upper distribution is wrong', x=x, got=gu, want=float(up), spec=spec)
    lw = mp.log(low) if low > 0 else -mp.inf
    if low > 1e-100 or low == 0:
      obs.check((gl == -math.inf and lw == -mp.inf) or abs(gl - lw) <= 1e-7 * max(1, abs(lw)) if low > 1e-12 else
                (lw == -mp.inf and gl < -60) or abs(gl - lw) <= 1e-5 * max(1, abs(lw)), 'lower-log-cdf:' + name,
                'log CDF of the lower distribution is wrong', x=x, got=gl, want=float(lw), spec=spec)
    obs.check(abs(arr_u[i] - gu) <= 1e-12 and (arr_l[i] == gl or abs(arr_l[i] - gl) <= 1e-9 * max(1, abs(gl))), 'cdf-array:' + name,
              'array and scalar CDFs differ', x=x, spec=spec)
  # deltas ----------------------------------------------------------------
  pts = sorted(mech.eps_points(spec, max(e / 37, 1e-3), r, 6))
  if spec['kind'] == 'mog':
    pts = pts[::2] + [float(-r.uniform(0, 2)), float(r.uniform(0, 2))]
    pts = sorted(pts)
  if r.random() < .2:
    pts = sorted(pts + [40.0, 300.0, -40.0])
  want = [(T.add if add else T.remove)(p) for p in pts]
  one = [float(pl.get_delta_for_epsilon(p)) for p in pts]
  many = [float(v) for v in pl.get_delta_for_epsilon(list(pts) if r.random() < .5 else np.array(pts))]
  # mog: outcomes are rounded to multiples of 1e-6 (conservatively, second-order in delta).
  extra = (1e-6 * sm / sc ** 2) * 1e-5 + 1e-11 if spec['kind'] == 'mog' else 0
  for p, w, a, b in zip(pts, want, one, many):
    obs.count('delta_points', 2)
    if 1e-13 < w < 1:
      obs.key(tag, 'delta', p)
    sl = pldcheck.slack(spec, w) + extra
    if math.isfinite(cut):
      sl += 2e-30 * math.exp(min(p, 600))
    for v, which in ((a, 'scalar'), (b, 'array')):
      obs.check(0 <= v <= 1 and abs(v - float(w)) <= sl, 'delta-%s:%s' % (which, name),
                'delta of the mechanism differs from the exact hockey-stick divergence', eps=p, got=v, want=float(w), spec=spec)
  if spec['kind'] == 'gaussian':
    obs.check(float(pl.standard_deviation) == float(spec['scale']), 'parameter:' + name, 'noise parameter changed', spec=spec)
  elif spec['kind'] in ('laplace', 'dlaplace'):
    obs.check(float(pl.parameter) == float(spec['scale']), 'parameter:' + name, 'noise parameter changed', spec=spec)
  elif spec['kind'] == 'dgaussian':
    w = moment(spec, bound)
    obs.check(abs(float(pl.standard_deviation()) - w) <= 1e-9 * w, 'parameter:' + name, 'standard deviation of the noise is wrong',
              got=float(pl.standard_deviation()), want=w, spec=spec)


def moment(spec, bound):
  n = bound if bound is not None else int(math.ceil(spec['scale'] * 14)) + 1
  x = np.arange(-n, n + 1, dtype=np.longdouble)
  w = np.exp(-x * x / (2 * np.longdouble(spec['scale']) ** 2))
  return float(np.sqrt((w * x * x).sum() / w.sum()))


def integers(case, obs):
  """Integer-typed epsilon / loss arguments (same value as the float)."""
  r = mech.rng_of(case['s'], 'int')
  spec = mech.random_spec(r, 'mog')
  spec['scale'] = max(spec['sens']) * mech.logu(r, 0.15, 0.5)
  add = bool(r.random() < .5)
  pl = make(spec, add)
  T = mech.truth(spec)
  for e in (0, 1, 2, 3):
    f = float(pl.get_delta_for_epsilon(float(e)))
    w = float((T.add if add else T.remove)(e))
    obs.count('integer_points')
    if not obs.check(abs(f - w) <= 1e-9 * w + 1e-10, 'delta-scalar:mog', 'delta differs from the exact divergence', eps=e, got=f, want=w, spec=spec):
      continue
    g = float(pl.get_delta_for_epsilon(e))
    obs.check(abs(g - w) <= 1e-9 * w + 1e-10, INT_KNOWN, 'delta for an integer-typed epsilon differs from that for the same float',
              eps=e, got=g, want=w, spec=spec)


def calibrate(case, obs):
  from dp_accounting.pld import privacy_loss_mechanism as m, common
  r = mech.rng_of(case['s'], 'cal')
  kind = case['kind']
  eps = mech.pick(r, [mech.logu(r, 0.01, 12), 1.0, 1, 0.1, mech.logu(r, 0.5, 5)])
  delta = mech.pick(r, [mech.logu(r, 1e-9, 0.4), 1e-5, 1e-6, 0.1])
  q = mech.pick(r, [1.0, 1.0, mech.logu(r, 1e-3, 1), 0.5])
  add = bool(r.random() < .5)
  adj = m.AdjacencyType.ADD if add else m.AdjacencyType.REMOVE
  name = kind + ':calibrated'
  if kind in ('laplace', 'dlaplace'):
    delta = mech.pick(r, [0, delta])
  params = common.DifferentialPrivacyParameters(eps, delta)
  if kind in ('gaussian', 'laplace'):
    s = mech.pick(r, [1, 1.0, mech.logu(r, 0.1, 20), 3])
    cls = m.GaussianPrivacyLoss if kind == 'gaussian' else m.LaplacePrivacyLoss
    pl = cls.from_privacy_guarantee(params, sensitivity=s, sampling_prob=q, adjacency_type=adj)
    noise = float(pl.standard_deviation if kind == 'gaussian' else pl.parameter)
  else:
    s = int(mech.pick(r, [1, 1, 2, 3, 7]))
    cls = m.DiscreteGaussianPrivacyLoss if kind == 'dgaussian' else m.DiscreteLaplacePrivacyLoss
    pl = cls.from_privacy_guarantee(params, sensitivity=s, sampling_prob=q, adjacency_type=adj)
  obs.count('calibrations')
  obs.key('cal', kind, eps, delta, q, s)
  obs.check(pl.adjacency_type == adj and float(pl.sampling_prob) == q and pl.sensitivity == s, name + ':settings',
            'returned mechanism does not carry the requested sensitivity, sampling rate or direction', eps=eps, delta=delta, q=q, sens=s)
  D = delta if kind in ('gaussian', 'dgaussian') else 0.0
  ctx = dict(eps=eps, delta=delta, q=q, sens=s)

  def truth(n):
    t = mech.truth(dict(kind=kind, scale=n, sens=s, q=q))
    return max(float(t.remove(eps)), float(t.add(eps)))
  if kind == 'dgaussian':
    # sigma is only visible through the mechanism: recover it from the loss slope.
    plain = cls.from_privacy_guarantee(params, sensitivity=s, sampling_prob=q, adjacency_type=adj)
    d = plain.standard_deviation()
    noise = sigma_from_std(float(d))
    got = truth(noise)
    small = noise * (1 - 2e-2) - 1e-6
  elif kind == 'dlaplace':
    noise = float(pl.parameter)
    got = truth(noise)
    small = noise * (1 + 1e-3)
  else:
    got = truth(noise)
    small = noise * (1 - 1e-3) - 2e-7
  sl = 1e-9 * D + 1e-12 + (1e-9 if kind == 'dgaussian' else 0) * D
  if kind in ('laplace', 'dlaplace'):
    sl = 1e-12  # exact parameter up to rounding of exp/log
  ctx['noise'] = noise
  obs.check(got <= D + sl, name, 'calibrated noise does not satisfy the guarantee', got=got, **ctx)
  if small > 0:
    obs.count('tightness')
    if kind == 'dgaussian':
      # The discrete mechanism's delta is a rippled function of sigma: compare over a window.
      worse = max(truth(noise * f - 1e-6) for f in (0.98, 0.97, 0.95, 0.93, 0.9))
    else:
      worse = truth(small)
    # Same for the direction actually configured: the guarantee is for REMOVE.
    obs.check(worse > D, name + ':tight', 'noticeably smaller noise also satisfies the guarantee', smaller=worse, **ctx)


def sigma_from_std(std):
  lo, hi = std * 0.5, std * 4 + 2
  for _ in range(80):
    mid = (lo + hi) / 2
    if moment(dict(scale=mid), None) < std:
      lo = mid
    else:
      hi = mid
  return hi


def reject(case, obs):
  from dp_accounting.pld import privacy_loss_mechanism as m, common
  r = mech.rng_of(case['s'], 'rej')
  P = common.DifferentialPrivacyParameters
  bad = [
      lambda: m.GaussianPrivacyLoss(mech.pick(r, [0, -1.0])),
      lambda: m.LaplacePrivacyLoss(mech.pick(r, [0, -1.0])),
      lambda: m.DiscreteLaplacePrivacyLoss(mech.pick(r, [0, -0.5])),
      lambda: m.DiscreteGaussianPrivacyLoss(mech.pick(r, [0, -0.5])),
      lambda: m.GaussianPrivacyLoss(1.0, sensitivity=mech.pick(r, [0, -1.0])),
      lambda: m.LaplacePrivacyLoss(1.0, sensitivity=mech.pick(r, [0, -1.0])),
      lambda: m.DiscreteLaplacePrivacyLoss(1.0, sensitivity=mech.pick(r, [0, -1, 1.5])),
      lambda: m.DiscreteGaussianPrivacyLoss(1.0, sensitivity=mech.pick(r, [0, -1, 1.5])),
      lambda: m.GaussianPrivacyLoss(1.0, sampling_prob=mech.pick(r, [0.0, -.1, 1.1])),
      lambda: m.LaplacePrivacyLoss(1.0, sampling_prob=mech.pick(r, [0.0, -.1, 1.1])),
      lambda: m.DiscreteGaussianPrivacyLoss(1.0, sensitivity=5, truncation_bound=2),
      lambda: m.GaussianPrivacyLoss(1.0, log_mass_truncation_bound=0.1),
      lambda: m.MixtureGaussianPrivacyLoss(1.0, [1.0, 2.0], [0.5, 0.6]),
      lambda: m.MixtureGaussianPrivacyLoss(1.0, [1.0, 2.0], [1.0]),
      lambda: m.MixtureGaussianPrivacyLoss(1.0, [0.0], [1.0]),
      lambda: m.MixtureGaussianPrivacyLoss(1.0, [-1.0, 1.0], [.5, .5]),
      lambda: m.MixtureGaussianPrivacyLoss(0.0, [0.0, 1.0], [.5, .5]),
      lambda: P(-0.1, 0.1), lambda: P(1.0, -0.1), lambda: P(1.0, 1.1),
      lambda: m.GaussianPrivacyLoss.from_privacy_guarantee(P(1.0, 0)),
      lambda: m.DiscreteGaussianPrivacyLoss.from_privacy_guarantee(P(1.0, 0)),
      lambda: m.DiscreteGaussianPrivacyLoss(1.0).privacy_loss(0.5),
      lambda: m.DiscreteLaplacePrivacyLoss(1.0).privacy_loss(0.5),
  ]
  for i, f in enumerate(bad):
    obs.count('rejections')
    try:
      v = f()
    except (ValueError, TypeError):
      continue
    obs.check(False, 'invalid-accepted:%d' % i, 'an invalid mechanism parameter was accepted', index=i, got=repr(v)[:100])
