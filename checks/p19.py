"""P19: smallest-noise helpers return private, near-minimal parameters."""
import math
import numpy as np
from vlib import bracket as B
from vlib import mech
from vlib import oracle as O

PROPERTY = 'P19'
RULE = ('an observation is one helper call (or monotone-inverse search with every evaluation of the function recorded) judged with an '
        'independent delta curve of the composed mechanism at, and just below, the returned parameter; distinct by target, count, sensitivity and rate')
ASSUMPTIONS = ['near-minimal allows the documented 10% of epsilon for the discretization of Laplace and subsampled Gaussian helpers, and the '
               'absolute search tolerance of 1e-7 in the parameter (in its inverse for discrete Laplace)',
               'the initial guess of a monotone-inverse search lies inside the search range']


def REQUIRED(tier):
  return {'inverse_searches': 1200, 'inverse_none': 150, 'inverse_evaluations': 15000, 'inverse_discrete': 250, 'laplace': 40, 'dlaplace': 40,
          'gaussian': 150, 'subsampled': 12, 'near_minimal': 200, 'generic': 20, 'noiseless': 3, 'subsampled_rate_one': 2}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 12
  out = []
  for fam, k in (('subsampled', 24), ('edge-rate', 3), ('laplace', 64), ('dlaplace', 64), ('generic', 30), ('gaussian', 200), ('noiseless', 4), ('inverse', 1600)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i, j=i))
  return out


# ---------------------------------------------------------------- monotone inverse

def do_inverse(case, obs, r):
  from dp_accounting.pld import common
  inc = r.random() < .5
  disc = r.random() < .35
  if disc:
    lo = int(r.integers(-50, 50))
    w = int(mech.pick(r, [1, 2, 3, 7, 100, 1000, 10 ** 6, int(r.integers(1, 5000))]))
    hi = lo + w
  else:
    lo = float(mech.pick(r, [0.0, -1.0, 1.0, float(r.normal()) * 10]))
    w = mech.pick(r, [1.0, mech.logu(r, 1e-9, 1e9), float(r.uniform(0, 5)), 1e-8])
    hi = lo + w
  if not hi > lo:
    return
  # Boundary location inside, at the ends, or outside of the range.
  where = mech.pick(r, ['in'] * 6 + ['lo', 'hi', 'before', 'after'])
  t = {'in': lo + (hi - lo) * float(r.uniform()), 'lo': lo, 'hi': hi, 'before': lo - .3 * (hi - lo) - .1, 'after': hi + .3 * (hi - lo) + .1}[where]
  if disc and where == 'in' and r.random() < .5:
    t = round(t)
  shape = mech.pick(r, ['linear', 'step', 'cubic', 'exp', 'stairs', 'step-closed'])
  scale = hi - lo
  def up(x):  # increasing, crosses 0 at t
    u = (x - t) / scale
    if shape == 'linear':
      return u
    if shape == 'step':
      return -1.0 if x <= t else 1.0
    if shape == 'step-closed':
      return -1.0 if x < t else 1.0
    if shape == 'cubic':
      return u ** 3
    if shape == 'exp':
      return math.expm1(min(u * 20, 700))
    return math.floor(u * 10) + .5
  value = float(mech.pick(r, [0.0, 1.0, -2.5, 1e6]))
  log = []
  def f(x):
    log.append(x)
    return value + (up(x) if inc else -up(x)) * (1 if abs(value) < 1e3 else 1e3)
  tol = mech.pick(r, [1e-7, 1e-3, .1, 1e-12, 1e-20])
  kw = dict(tolerance=tol, discrete=disc)
  guess = None
  open_end = False
  if r.random() < .4:
    g = mech.pick(r, [mech.logu(r, 1e-3, 1e3), 1.0, hi, max(lo, 1e-3)])
    if disc:
      g = max(1, int(g))
    if g > 0 and lo <= g <= hi:
      guess = g
  if guess is not None and r.random() < .4 and where not in ('after', 'hi') and t < hi:
    open_end = True   # the search must grow its own upper end
  params = common.BinarySearchParameters(lower_bound=lo, upper_bound=hi if not open_end else math.inf, initial_guess=guess, **kw)
  got = common.inverse_monotone_function(f, value, params, increasing=inc)
  obs.count('inverse_searches')
  obs.count('inverse_evaluations', len(log))
  if disc:
    obs.count('inverse_discrete')
  obs.key('inv', inc, disc, lo, hi, t, shape, value, tol, guess)
  ctx = dict(increasing=inc, discrete=disc, lower=lo, upper=hi, crossing=t, shape=shape, value=value, tolerance=tol, guess=guess, open_end=open_end, got=got)
  ok = lambda x: f(x) <= value
  end = lo if inc else hi
  if not open_end or inc:
    if not ok(end):
      obs.count('inverse_none')
      obs.check(got is None, 'inverse:none', 'a search without any solution in its range returned a value', **ctx)
      return
  if got is None:
    obs.check(False, 'inverse:lost', 'a search reported absence although the extreme of the range is a solution', **ctx)
    return
  obs.check(ok(got), 'inverse:unsafe', 'the returned point violates the required inequality', **ctx)
  obs.check(lo <= got <= (math.inf if open_end else hi), 'inverse:range', 'the returned point lies outside of the search range', **ctx)
  if disc:
    obs.check(got == int(got), 'inverse:integer', 'a discrete search returned a fractional point', **ctx)
  step = 1 if disc else max(tol, 4 * np.spacing(abs(got)), 4 * np.spacing(abs(lo)), 4e-16 * abs(hi) if not open_end else 0) * (1 + 1e-9)
  # One step further (towards the boundary) there must be no other solution, unless the range ends there.
  far = got + step if inc else got - step
  if (far < hi or open_end) if inc else far > lo:
    obs.check(not ok(far), 'inverse:tight', 'a point more than the tolerance closer to the boundary is also a solution', far=far, **ctx)


# ---------------------------------------------------------------- oracles

def lap_curve(p, sens, n, eps, k=None):
  k = k or (1500 if n <= 30 else 400)
  g = eps / (n * k)
  t = sens / p
  if 2 * t / g > 400000:
    g = 2 * t / 400000
  return [B.Curve([(B.Lap(t), n)], g)]


def sub_curve(sigma, sens, q, n, eps):
  base = B.Gauss(sens / sigma)
  out = []
  lf = B.Remove(base, q) if q < 1 else base
  # Resolution relative to epsilon, but bounded in size.
  g = eps / (n * 60)
  width = lf.hi - lf.lo
  g = max(g, width / 300000)
  out.append(B.Curve([(lf, n)], g))
  if q < 1:
    out.append(B.Curve([(B.Rev(lf), n)], g))
  return out


def below(cs, e):
  return max(c.below(e) for c in cs)


def above(cs, e):
  return max(c.above(e) for c in cs)


def dlap_delta(a, s, n, eps):
  """Exact delta of n discrete Laplace mechanisms with parameter a and sensitivity s; losses are a times integers."""
  import mpmath as mp
  e = math.exp(-a)
  c = -math.expm1(-a) / (1 + e)       # pmf c e^{-a|x|}
  # loss at x is a (|x - s| - |x|)  in {-s a .. s a}; x<=0 -> +s, x>=s -> -s
  m = {}
  half = 1 / (1 + e)                  # P(X <= 0)
  m[s] = m.get(s, 0) + half
  for x in range(1, s):
    m[s - 2 * x] = m.get(s - 2 * x, 0) + c * math.exp(-a * x)
  m[-s] = m.get(-s, 0) + math.exp(-a * s) * half
  w = np.zeros(2 * s + 1)
  for k, v in m.items():
    w[k + s] += v
  tot = np.array([1.0])
  base, cnt = w, n
  while cnt:
    if cnt & 1:
      tot = np.convolve(tot, base)
    cnt >>= 1
    if cnt:
      base = np.convolve(base, base)
  L = (np.arange(len(tot)) - n * s) * a
  k = L > eps
  return float(np.sum(tot[k] * -np.expm1(eps - L[k])))


# ---------------------------------------------------------------- helpers

def target(r):
  eps = mech.pick(r, [mech.logu(r, .05, 8), 1.0, .1, 3.0, float(r.uniform(.2, 4))])
  delta = mech.pick(r, [0.0, 1e-5, mech.logu(r, 1e-9, .1), 1e-3, .05, .3])
  return float(eps), float(delta)


def judge(obs, name, got, tol, curve, eps, delta, frac, ctx):
  """got: noise scale (larger = more private); curve(p) -> independent bracket."""
  if not obs.check(isinstance(got, (int, float, np.floating)) and math.isfinite(got) and got > 0, name + ':value', 'the helper returned no usable parameter', **ctx):
    return
  lowv = below(curve(got), eps)
  obs.check(lowv <= delta * (1 + 1e-9) + 1e-11, name + ':unsafe', 'the composed mechanism at the returned parameter misses the target', true_at_least=lowv, **ctx)
  p = got - 2 * tol - 4e-16 * got
  p = min(p, got * (1 - 1e-6))
  if p <= 0:
    return
  hi = above(curve(p), frac * eps)
  obs.count('near_minimal')
  obs.check(hi >= delta * (1 - 1e-6) - 1e-12, name + ':wasteful', 'a noticeably smaller noise also satisfies the target by a margin', smaller=p, delta_at_most=hi, **ctx)


def do_laplace(case, obs, r):
  from dp_accounting.pld import accountant, common
  eps, delta = target(r)
  n = int(mech.pick(r, [1, 1, 2, 3, 5, 10, int(r.integers(1, 40))]))
  sens = mech.pick(r, [1, 1.0, 2, mech.logu(r, .1, 20), 1e9, 3])
  if delta == 0 and r.random() < .6:
    delta = 1e-6
  P = common.DifferentialPrivacyParameters(eps, delta)
  kw = dict(num_queries=n, sensitivity=sens)
  if n == 1 and r.random() < .3:
    del kw['num_queries']
  if sens == 1 and r.random() < .3:
    del kw['sensitivity']
  got = accountant.get_smallest_laplace_noise(P, **kw)
  obs.count('laplace')
  obs.key('lap', eps, delta, n, sens)
  ctx = dict(eps=eps, delta=delta, n=n, sensitivity=sens, got=got)
  obs.check(got <= n * sens / eps * (1 + 1e-12), 'laplace:upper', 'more noise than basic composition needs', **ctx)
  judge(obs, 'laplace', got, 1e-7, lambda p: lap_curve(p, sens, n, eps), eps, delta, .9 * (1 - 2e-3), ctx)


def do_dlaplace(case, obs, r):
  from dp_accounting.pld import accountant, common
  eps, delta = target(r)
  n = int(mech.pick(r, [1, 1, 2, 3, 5, 10, int(r.integers(1, 40))]))
  sens = int(mech.pick(r, [1, 1, 2, 3, 5, 10]))
  if delta == 0 and r.random() < .6:
    delta = 1e-6
  got = accountant.get_smallest_discrete_laplace_noise(common.DifferentialPrivacyParameters(eps, delta), num_queries=n, sensitivity=sens)
  obs.count('dlaplace')
  obs.key('dlap', eps, delta, n, sens)
  ctx = dict(eps=eps, delta=delta, n=n, sensitivity=sens, got=got)
  if not obs.check(math.isfinite(got) and got > 0, 'dlaplace:value', 'the helper returned no usable parameter', **ctx):
    return
  obs.check(got >= eps / (n * sens) * (1 - 1e-12), 'dlaplace:lower', 'more noise than basic composition needs', **ctx)
  d = dlap_delta(got * (1 - 1e-12), sens, n, eps)
  obs.check(d <= delta * (1 + 1e-9) + 1e-13 * n, 'dlaplace:unsafe', 'the composed mechanism at the returned parameter misses the target', true=d, **ctx)
  inv = 1 / got - 2e-7
  inv = min(inv, (1 - 1e-6) / got)
  if inv > 0:
    d = dlap_delta(1 / inv, sens, n, eps)
    obs.count('near_minimal')
    obs.check(d >= delta * (1 - 1e-6) - 1e-12 * n - 1e-13, 'dlaplace:wasteful', 'a noticeably larger parameter also satisfies the target', larger=1 / inv, true=d, **ctx)


def do_gaussian(case, obs, r):
  from dp_accounting.pld import accountant, common
  eps, delta = target(r)
  if delta == 0:
    delta = 1e-12
  if r.random() < .2:
    eps = mech.pick(r, [0.0, 50.0, 1e-3])
  n = int(mech.pick(r, [1, 2, 3, 10, 100, 1000, 10 ** 5, int(r.integers(1, 300))]))
  sens = mech.pick(r, [1, 1.0, 2, mech.logu(r, .1, 20), 1e3, 3])
  got = accountant.get_smallest_gaussian_noise(common.DifferentialPrivacyParameters(eps, delta), num_queries=n, sensitivity=sens)
  obs.count('gaussian')
  obs.key('gauss', eps, delta, n, sens)
  ctx = dict(eps=eps, delta=delta, n=n, sensitivity=sens, got=got)
  if not obs.check(math.isfinite(got) and got > 0, 'gaussian:value', 'the helper returned no usable parameter', **ctx):
    return
  true = lambda s: O.Gaussian(s / math.sqrt(n), sens).delta(eps)
  obs.check(true(got) <= delta * (1 + 1e-6) + 1e-14, 'gaussian:unsafe', 'the composed mechanism at the returned parameter misses the target', true=true(got), **ctx)
  p = min(got - 1e-5 * got, got - 3e-6)
  if p > 0:
    obs.count('near_minimal')
    obs.check(true(p) > delta * (1 - 1e-9) - 4e-16, 'gaussian:wasteful', 'a noticeably smaller noise also satisfies the target', smaller=p, true=true(p), **ctx)


def do_subsampled(case, obs, r):
  from dp_accounting.pld import accountant, common
  eps = float(mech.pick(r, [mech.logu(r, .3, 6), 1.0, 3.0]))
  delta = float(mech.pick(r, [1e-5, mech.logu(r, 1e-8, .01), 1e-3]))
  n = int(mech.pick(r, [1, 2, 5, 10, 30]))
  sens = mech.pick(r, [1, 1, 2, 1.0, mech.logu(r, .3, 5), 1e9])
  q = float(mech.pick(r, [1.0, .5, .1, mech.logu(r, .02, 1), .9, .03]))
  if case['j'] % 8 == 0:
    q = 1.0
  if q < 1 and -math.expm1(n * math.log1p(-q)) <= delta * 3:
    q = min(.9, q * 30)
  got = accountant.get_smallest_subsampled_gaussian_noise(common.DifferentialPrivacyParameters(eps, delta), num_queries=n, sensitivity=sens, sampling_prob=q)
  obs.count('subsampled')
  if q == 1:
    obs.count('subsampled_rate_one')
  obs.key('sub', eps, delta, n, sens, q)
  ctx = dict(eps=eps, delta=delta, n=n, sensitivity=sens, q=q, got=got)
  # The interval is at most a tenth of epsilon over n: losses are inflated by at most 10% of epsilon in total.
  judge(obs, 'subsampled', got, 1e-7, lambda p: sub_curve(p, sens, q, n, eps), eps, delta, .9 * (1 - 2e-2), ctx)


def do_edge_rate(case, obs, r):
  """The chance of being sampled at all is only slightly above delta: next to no noise is needed, but some is."""
  from dp_accounting.pld import accountant, common
  q = mech.logu(r, .05, .4)
  n = int(r.integers(1, 4))
  d0 = -math.expm1(n * math.log1p(-q))
  delta = d0 * float(r.uniform(.3, .8))
  eps, sens = 1.0, 1
  got = accountant.get_smallest_subsampled_gaussian_noise(common.DifferentialPrivacyParameters(eps, delta), num_queries=n, sensitivity=sens, sampling_prob=q)
  obs.count('edge_rate')
  obs.key('edge', q, n, delta)
  ctx = dict(eps=eps, delta=delta, n=n, sensitivity=sens, q=q, got=got)
  judge(obs, 'subsampled-edge', got, 1e-7, lambda p: sub_curve(p, sens, q, n, eps), eps, delta, .9 * (1 - 2e-2), ctx)


def do_noiseless(case, obs, r):
  """delta covers the probability of being sampled at all: any noise satisfies the target."""
  from dp_accounting.pld import accountant, common
  n = int(mech.pick(r, [1, 2, 7]))
  q = mech.logu(r, 1e-4, 1e-2)
  delta = -math.expm1(n * math.log1p(-q)) * (1 + float(r.uniform(.01, 2)))
  got = accountant.get_smallest_subsampled_gaussian_noise(common.DifferentialPrivacyParameters(1.0, delta), num_queries=n, sensitivity=1, sampling_prob=q)
  obs.count('noiseless')
  obs.key('noiseless', q, n, delta)
  obs.check(0 <= got < .5, 'subsampled:noiseless', 'noise was requested although delta covers the probability of being sampled', q=q, n=n, delta=delta, got=got)


def do_generic(case, obs, r):
  """get_smallest_parameter with a family and bounds of the caller's choosing."""
  from dp_accounting.pld import accountant, common, privacy_loss_distribution as pld
  kind = mech.pick(r, ['gaussian', 'rr', 'laplace', 'dgaussian', 'params'])
  eps = float(mech.pick(r, [.5, 1.0, 2.0, mech.logu(r, .1, 4)]))
  n = int(mech.pick(r, [1, 2, 3, 7]))
  delta = mech.logu(r, 1e-6, .1)
  h = eps / (n * 200)
  calls = []
  if kind == 'gaussian':
    mk = lambda p: pld.from_gaussian_mechanism(p, value_discretization_interval=h)
    cv = lambda p: [B.Curve([(B.Gauss(1 / p), n)], h)]
    b = mech.logu(r, .05, 2), mech.logu(r, 1, 20)
  elif kind == 'laplace':
    mk = lambda p: pld.from_laplace_mechanism(p, value_discretization_interval=h)
    cv = lambda p: [B.Curve([(B.Lap(1 / p), n)], h)]
    b = mech.logu(r, .05, 2), mech.logu(r, 1, 20)
  elif kind == 'rr':
    # The parameter is the noise probability.
    k = int(r.integers(2, 6))
    mk = lambda p: pld.from_randomized_response(p, k, value_discretization_interval=h)
    def cv(p):
      a, o = 1 - p + p / k, p / k
      return [B.Curve([(B.Fin([a, o] + [o] * (k - 2), [o, a] + [o] * (k - 2)), n)], h)]
    b = float(r.uniform(.02, .3)), float(r.uniform(.4, .99))
  elif kind == 'dgaussian':
    mk = lambda p: pld.from_discrete_gaussian_mechanism(p, 1, value_discretization_interval=h)
    def cv(p):
      t = int(12 * p + 3)
      x = np.arange(-t, t + 2)
      P = np.exp(-x ** 2 / (2 * p * p)); P /= P.sum()
      Q = np.exp(-(x - 1) ** 2 / (2 * p * p)); Q /= Q.sum()
      k = (x > -t + 1) & (x < t)
      return [B.Curve([(B.Fin(P[k], Q[k]), n)], h)]
    b = mech.logu(r, .3, 2), mech.logu(r, 2, 20)
  else:
    # Guarantee (1/p, 0): loss is +-1/p.
    mk = lambda p: pld.from_privacy_parameters(common.DifferentialPrivacyParameters(1 / p, 0), value_discretization_interval=h)
    def cv(p):
      a = math.exp(1 / p) / (1 + math.exp(1 / p))
      return [B.Curve([(B.Fin([a, 1 - a], [1 - a, a]), n)], h)]
    b = mech.logu(r, .05, 2), mech.logu(r, 1, 20)
  lo, hi = min(b), max(b)
  def cons(p):
    calls.append(p)
    return mk(p)
  tol = mech.pick(r, [1e-3, 1e-5, 1e-7])
  got = accountant.get_smallest_parameter(common.DifferentialPrivacyParameters(eps, delta), n, cons, common.BinarySearchParameters(lower_bound=lo, upper_bound=hi, tolerance=tol))
  obs.count('generic')
  obs.key('generic', kind, eps, n, delta, lo, hi)
  ctx = dict(kind=kind, eps=eps, delta=delta, n=n, lower=lo, upper=hi, got=got)
  obs.check(all(lo <= c <= hi for c in calls), 'generic:range', 'the constructor was called outside of the search range', calls=calls[:20], **ctx)
  slack = 2 * n * h + 1e-9
  if got is None:
    v = above(cv(hi), eps - slack)
    obs.check(v > delta * (1 - 1e-9), 'generic:lost', 'no parameter was returned although the largest one satisfies the target', delta_at_most=v, **ctx)
    return
  obs.check(lo <= got <= hi, 'generic:value', 'the returned parameter lies outside of the search range', **ctx)
  v = below(cv(got), eps)
  obs.check(v <= delta * (1 + 1e-9) + 1e-11, 'generic:unsafe', 'the composed mechanism at the returned parameter misses the target', true_at_least=v, **ctx)
  p = got - 2 * tol
  if p > lo:
    v = above(cv(p), eps - slack)
    obs.count('near_minimal')
    obs.check(v >= delta * (1 - 1e-6) - 1e-12, 'generic:wasteful', 'a noticeably smaller parameter also satisfies the target', smaller=p, delta_at_most=v, **ctx)


def run(case, obs):
  r = mech.rng_of(case['s'], 'p19', case['family'])
  globals()['do_' + case['family'].replace('-', '_')](case, obs, r)
