"""Random mechanism specifications shared by several checks (spec -> real PLD, truth)."""
import math
import zlib
import numpy as np
from vlib import oracle as O


def rng_of(seed, *parts):
  ints = [int(seed) & 0xffffffff]
  for p in parts:
    if isinstance(p, str):
      ints.append(int.from_bytes(p.encode()[:8].ljust(8, b'\0'), 'little') & 0xffffffff)
      ints.append(len(p))
    else:
      ints.append(int(p) & 0xffffffff)
  return SiblingRng(ints) if SIBLING is not None else np.random.default_rng(ints)


# While set, the random choices of a case are recorded in SIBLING['seen'] and the one
# named by SIBLING['at'] (generator, position) is nudged, in every generator that is
# created with the same key: the case runs with exactly one input changed.
SIBLING = None


class SiblingRng(np.random.Generator):

  def __init__(self, ints):
    super().__init__(np.random.PCG64(np.random.SeedSequence(ints)))
    self._key, self._n = tuple(ints), 0

  def _mine(self):
    self._n += 1
    if SIBLING is None:
      return False
    SIBLING['seen'].setdefault((self._key, self._n))
    return SIBLING['at'] == (self._key, self._n)

  def uniform(self, low=0.0, high=1.0, size=None):
    v = super().uniform(low, high, size)
    if size is None and np.ndim(v) == 0 and self._mine():
      w = float(high) - float(low)
      v = min(max(v + w * SIBLING['step'], min(low, high)), max(low, high))
    return v

  def integers(self, low, high=None, size=None, **kw):
    v = super().integers(low, high, size, **kw)
    if size is None and np.ndim(v) == 0 and not kw and self._mine():
      lo, hi = (0, low) if high is None else (low, high)
      w = v + (1 if SIBLING['step'] > 0 else -1)
      if lo <= w < hi:
        v = type(v)(w)
    return v


def logu(r, lo, hi):
  return float(math.exp(r.uniform(math.log(lo), math.log(hi))))


def pick(r, xs):
  return xs[int(r.integers(len(xs)))]


KINDS = ['gaussian', 'laplace', 'dlaplace', 'dgaussian', 'mog']


def random_spec(r, kind=None, sampled=None):
  """A mechanism spec with hostile parameter choices."""
  kind = kind or pick(r, KINDS)
  q = 1.0
  if sampled is None:
    sampled = r.random() < 0.5
  if sampled:
    q = pick(r, [logu(r, 1e-4, 1), float(r.uniform(0.01, 1)), 0.5, 1e-3, 0.999, 0.25])
  if kind == 'gaussian':
    s = pick(r, [1.0, 1, logu(r, 0.1, 10), 2, 0.5])
    return dict(kind=kind, scale=float(s) * logu(r, 0.4, 20) if r.random() < .85 else pick(r, [1, 2, 1.0, 4.0, 0.5]), sens=s, q=q)
  if kind == 'laplace':
    s = pick(r, [1.0, 1, logu(r, 0.1, 10), 2, 0.5])
    return dict(kind=kind, scale=float(s) * logu(r, 0.25, 30) if r.random() < .85 else pick(r, [1, 2, 1.0, 4.0, 0.5]), sens=s, q=q)
  if kind == 'dlaplace':
    s = pick(r, [1, 1, 2, 3, 5, 8])
    return dict(kind=kind, scale=logu(r, 0.05, 5) / s if r.random() < .8 else pick(r, [1.0, 0.5, 0.1, 0.3]), sens=s, q=q)
  if kind == 'dgaussian':
    s = pick(r, [1, 1, 2, 3, 5])
    tb = None
    scale = s * logu(r, 0.5, 12)
    if r.random() < 0.3:
      tb = int(s + r.integers(0, int(6 * scale) + 2))
    return dict(kind=kind, scale=scale, sens=s, q=q, trunc=tb)
  n = int(r.integers(1, 6))
  sens = sorted({round(float(v), 6) for v in r.uniform(0, 4, n)})
  if r.random() < 0.5:
    sens = sorted(set([0.0] + sens))
  if r.random() < 0.4:
    sens = [float(v) for v in range(int(r.integers(1, 6)) + 1)]
  if max(sens) == 0:
    sens = [0.0, 1.0]
  w = r.dirichlet(np.full(len(sens), pick(r, [0.3, 1, 5])))
  w = np.maximum(w, 1e-6)
  w = w / w.sum()
  if r.random() < 0.3:
    perm = r.permutation(len(sens))
    sens = [sens[i] for i in perm]
    w = w[perm]
  w = [float(v) for v in w]
  w[-1] = 1.0 - math.fsum(w[:-1])
  return dict(kind='mog', scale=max(sens) * logu(r, 0.4, 8), sens=sens, probs=w, q=1.0)


def build(spec, h, pess=True, dots=None, lmt=None):
  """Builds the real privacy loss distribution for a spec."""
  from dp_accounting.pld import privacy_loss_distribution as pld
  k = spec['kind']
  if k != 'mog' and dots in (None, k in ('gaussian', 'laplace')) and zlib.crc32(repr((sorted(spec.items(), key=str), h, pess)).encode()) % 4 == 0:
    # The (deprecated) class methods are public entry points as well.
    c = pld.PrivacyLossDistribution
    if k == 'gaussian':
      return c.from_gaussian_mechanism(spec['scale'], spec['sens'], pess, h, -50 if lmt is None else lmt, spec['q'])
    if k == 'laplace':
      return c.from_laplace_mechanism(spec['scale'], spec['sens'], pess, h, spec['q'])
    if k == 'dlaplace':
      return c.from_discrete_laplace_mechanism(spec['scale'], spec['sens'], pess, h, spec['q'])
    return c.from_discrete_gaussian_mechanism(spec['scale'], spec['sens'], spec.get('trunc'), pess, h, spec['q'])
  kw = dict(pessimistic_estimate=pess, value_discretization_interval=h)
  if dots is not None:
    kw['use_connect_dots'] = dots
  if k == 'gaussian':
    if lmt is not None:
      kw['log_mass_truncation_bound'] = lmt
    return pld.from_gaussian_mechanism(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'], **kw)
  if k == 'laplace':
    return pld.from_laplace_mechanism(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'], **kw)
  if k == 'dlaplace':
    return pld.from_discrete_laplace_mechanism(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'], **kw)
  if k == 'dgaussian':
    return pld.from_discrete_gaussian_mechanism(spec['scale'], sensitivity=spec['sens'], truncation_bound=spec.get('trunc'), sampling_prob=spec['q'], **kw)
  if lmt is not None:
    kw['log_mass_truncation_bound'] = lmt
  return pld.from_mixture_gaussian_mechanism(spec['scale'], spec['sens'], spec['probs'], **kw)


def truth(spec):
  k = spec['kind']
  if k == 'gaussian':
    b = O.Gaussian(spec['scale'], spec['sens'])
  elif k == 'laplace':
    b = O.Laplace(spec['scale'], spec['sens'])
  elif k == 'dlaplace':
    b = O.discrete_laplace_pair(spec['scale'], spec['sens'])
  elif k == 'dgaussian':
    b = O.discrete_gaussian_pair(spec['scale'], spec['sens'], spec.get('trunc'))
  else:
    return O.Mixture(spec['scale'], spec['sens'], spec['probs'])
  return O.Sampled(b, spec['q']) if spec['q'] != 1.0 else b


def trunc_slack(spec, lmt=None):
  """Mass a construction may legitimately move because of tail truncation."""
  if spec['kind'] in ('gaussian', 'mog'):
    return math.exp(lmt if lmt is not None else -50)
  if spec['kind'] == 'dgaussian' and spec.get('trunc') is None:
    return 1e-30
  return 0.0


def eps_scale(spec):
  """Rough largest interesting privacy loss."""
  k = spec['kind']
  if k == 'gaussian':
    t = spec['sens'] / spec['scale']
    return t * t / 2 + 6 * t
  if k == 'laplace':
    return spec['sens'] / spec['scale']
  if k == 'dlaplace':
    return spec['sens'] * spec['scale']
  if k == 'dgaussian':
    t = spec['sens'] / spec['scale']
    return t * t / 2 + 6 * t
  t = max(spec['sens']) / spec['scale']
  return t * t / 2 + 6 * t


def choose_h(spec, r, budget=20000):
  """Discretization interval: hostile choices, capped in size."""
  e = max(eps_scale(spec), 1e-3)
  if spec['kind'] in ('laplace', 'dlaplace') and spec['q'] == 1.0 and r.random() < 0.3:
    # The largest loss is an exact multiple of the interval (up to rounding).
    h = eps_scale(spec) / int(r.integers(1, 40))
    if r.random() < .4:
      h = pick(r, [0.1, 0.01, 0.05, 0.2, 1e-3])
      k = int(r.integers(1, 60))
      if spec['kind'] == 'laplace':
        spec['scale'] = spec['sens'] / (k * h)
      else:
        spec['scale'] = k * h / spec['sens']
    return max(h, eps_scale(spec) / budget)
  if spec['kind'] in ('laplace', 'dlaplace', 'dgaussian') and r.random() < .25:
    # The loss of some outcome lies a hair above or below a multiple of the interval.
    if spec['kind'] == 'dgaussian':
      t = spec['sens'] * (spec['sens'] + 2.0 * int(r.integers(0, 4))) / (2.0 * spec['scale'] ** 2)
    else:
      t = eps_scale(spec)
    if r.random() < .5:
      t = math.log1p(spec['q'] * math.expm1(min(t, 500)))
    elif spec['q'] < 1:
      t = -math.log1p(spec['q'] * math.expm1(-t))
    h = t / (int(r.integers(1, 30)) + pick(r, [-1, 1]) * logu(r, 1e-9, .02))
    if h > 2e-7 and e / h < budget / 3:
      return h
  h = pick(r, [1e-4, 1e-3, 1e-2, 0.1, logu(r, 1e-4, 0.3), e / 7.0, e / 100.0, e / 3])
  return max(h, 3 * e / budget)


def eps_points(spec, h, r, n=12):
  e = max(eps_scale(spec), h)
  pts = [0.0, h, 3 * h, e, float(r.uniform(0, e)), -float(r.uniform(0, e))]
  for _ in range(n):
    v = float(r.uniform(-0.3 * e, 1.2 * e))
    m = r.random()
    if m < 0.35:
      v = round(v / h) * h
    elif m < 0.5:
      v = (math.floor(v / h) + pick(r, [1e-6, 1 - 1e-6, 0.5])) * h
    pts.append(v)
  k = spec['kind']
  if k in ('laplace', 'dlaplace'):
    q = spec['q']
    t = spec['sens'] / spec['scale'] if k == 'laplace' else spec['sens'] * spec['scale']
    up = math.log1p(q * math.expm1(t))
    dn = -math.log1p(q * math.expm1(-t)) if q < 1 else t
    pts += [up, dn, up - h / 2, up + h / 2, -dn, -up]
  if spec.get('q', 1) < 1:
    b = -math.log1p(-spec['q'])
    pts += [b, b - h / 3, b + h / 3, -b]
  return pts


def sibling(r, spec):
  """The same mechanism with exactly one parameter changed (all others keep their exact values)."""
  s = dict(spec)
  k = s['kind']
  f = pick(r, [1 + 1e-7, 1 - 3e-7, 1.001, 0.99, 1.7, 0.6])
  what = pick(r, ['scale', 'sens', 'q'])
  if k == 'mog':
    if what == 'scale':
      s['scale'] *= f
    elif what == 'sens':
      s['sens'] = [x * f for x in s['sens']]
    else:
      s['probs'] = list(s['probs'])[::-1]
    return s
  if what == 'scale':
    s['scale'] = float(s['scale']) * f
  elif what == 'sens':
    s['sens'] = (s['sens'] % 4) + 1 if k in ('dlaplace', 'dgaussian') else float(s['sens']) * f
    if s.get('trunc') is not None:
      s['trunc'] = max(s['trunc'], s['sens'])
  else:
    s['q'] = min(1.0, s['q'] * min(f, 1 / f)) if r.random() < .7 else (1.0 if s['q'] < 1 else 0.5)
  return s
