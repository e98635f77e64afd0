"""P18: calibration returns a parameter that meets the privacy target."""
import functools
import math
import numpy as np
from vlib import mech

PROPERTY = 'P18'
RULE = ('an observation is one calibration with every parameter evaluation recorded by instrumented accountants and mechanism families; '
        'distinct by (family of curves, target, bracket, tolerance)')
ASSUMPTIONS = ['epsilon is a deterministic monotone function of the parameter (the documented requirement)',
               'discrete calibration is held to a tolerance of max(tol, 0.5), i.e. to the exact optimum unless a tolerance of 1 or more is asked for',
               'when every parameter of an explicit bracket is acceptable, raising is as good as returning one']


def REQUIRED(tier):
  return {'calibrations': 1500, 'evaluations': 15000, 'boundary_checked': 1200, 'discrete': 300, 'real_calibrations': 40,
          'no_solution_raised': 150, 'infinite_regions': 150, 'reversed_brackets': 100, 'fresh_accountants': 15000, 'edge_of_domain': 100, 'bad_arguments': 50, 'tiny_parameters': 100}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 20
  out = []
  for fam, k in (('smooth', 700), ('steps', 300), ('discrete', 400), ('infinite', 200), ('plateau', 200), ('domain', 150), ('large', 150), ('tiny', 150), ('none', 200), ('real', 48), ('args', 10)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i, j=i))
  return out


class Log:
  def __init__(self):
    self.params, self.made, self.deltas, self.composed = [], 0, [], []


def harness(log, eps_of, discrete, lo=-math.inf, hi=math.inf, preloaded=False):
  """Instrumented accountant factory and mechanism family."""
  from dp_accounting import dp_event as de, privacy_accountant as pa

  class Acc(pa.PrivacyAccountant):
    def __init__(self):
      super().__init__(pa.NeighboringRelation.ADD_OR_REMOVE_ONE)
      self.events = []

    def _maybe_compose(self, event, count, do_compose):
      if do_compose:
        self.events.append((event, count))
      return None

    def get_epsilon(self, target_delta):
      log.deltas.append(target_delta)
      log.composed.append([(e.noise_multiplier, c) for e, c in self.events])
      t = 0.0
      for e, c in self.events:
        t += c * eps_of(e.noise_multiplier)
      return t

  def make():
    log.made += 1
    a = Acc()
    if preloaded:
      a.compose(de.GaussianDpEvent(1.0))
    return a

  def event(x):
    log.params.append(x)
    if not lo <= x <= hi:
      raise ValueError('parameter outside the domain of the mechanism')
    return de.GaussianDpEvent(x)

  return make, event


def boundary(eps_of, target, lo, hi, increasing, discrete):
  """Extreme acceptable parameter in [lo, hi] by direct bisection on the acceptability predicate; None if there is none."""
  ok = lambda x: eps_of(x) <= target
  if discrete:
    lo, hi = int(lo), int(hi)
  if increasing:
    if not ok(lo):
      return None
    if ok(hi):
      return hi
    a, b = lo, hi
  else:
    if not ok(hi):
      return None
    if ok(lo):
      return lo
    a, b = hi, lo
  while True:
    m = (a + b) // 2 if discrete else (a + b) / 2
    if m in (a, b):
      return a
    if ok(m):
      a = m
    else:
      b = m


def curve(r, kind, increasing, lo, hi, discrete=False):
  """Monotone epsilon curve on [lo, hi] (and beyond): returns a function."""
  w = hi - lo
  u = lambda x: (x - lo) / w  # 0..1 in the bracket
  c = mech.logu(r, .01, 100)
  if kind == 'smooth':
    k = int(r.integers(0, 7))
    a = mech.logu(r, .01, 30)
    p = float(r.uniform(.3, 4))
    if k == 0:
      f = lambda t: c / (a * max(t, 0) + 1e-3) ** p
    elif k == 1:
      f = lambda t: c * math.exp(-a * t) if a * t > -600 else 1e300
    elif k == 2:
      f = lambda t: c * (1.3 - max(min(t, 1.3), -10))
    elif k == 3:
      f = lambda t: c * max(0.0, 1.2 - t) ** 3 if t > -100 else 1e300
    elif k == 4:
      f = lambda t: c / (1 + math.exp(min(700, 40 * a * (t - .4))))
    elif k == 5:
      f = lambda t: c * (2 - math.tanh(3 * (t - .5)) - 1)
    else:
      f = lambda t: c * (1 - t) ** 9 if t < 1 else -c * (t - 1) ** 9 + 0.0
  elif kind == 'steps':
    n = int(r.integers(1, 12))
    xs = np.sort(r.uniform(0.0, 1.0, n))
    ys = np.sort(np.concatenate([[0.0], mech.logu(r, .1, 10) * r.random(n)]))[::-1]
    slope = mech.pick(r, [0.0, 0.0, 1e-3, .1])
    f = lambda t: float(ys[int(np.searchsorted(xs, t, side='right'))]) + slope * (1 - t)
  elif kind == 'plateau':
    a, b = np.sort(r.uniform(.05, .95, 2))
    f = lambda t: c * (a - t) + c if t < a else (c if t <= b else c * max(0.0, 1 - (t - b)))
  if increasing:
    return (lambda x: float(f(1 - u(x)))), c
  return (lambda x: float(f(u(x)))), c


def judge(obs, log, got, eps_of, target, delta, tol, xs, increasing, discrete, ctx, lo, hi, key):
  obs.count('calibrations')
  obs.count('evaluations', len(log.params))
  obs.count('fresh_accountants', log.made)
  obs.key(*key)
  d = dict(ctx, got=got, tol=tol, target=target, boundary=xs)
  obs.check(log.made == len(log.params) == len(log.composed), 'fresh-accountant', 'accountants and evaluations do not pair up', made=log.made, evaluated=len(log.params),
            queried=len(log.composed), **ctx)
  obs.check(all(len(c) == 1 and c[0][1] == 1 and c[0][0] == p for c, p in zip(log.composed, log.params)), 'accountant-reused',
            'an evaluation composed something else than the one event of its parameter', **ctx)
  obs.check(all(x == delta for x in log.deltas), 'delta', 'epsilon was queried at another delta', deltas=sorted(set(log.deltas))[:5], want=delta)
  if discrete:
    obs.check(all(isinstance(p, int) for p in log.params), 'discrete:ints', 'non-integer parameter passed for a discrete family', **ctx)
    obs.check(isinstance(got, int), 'discrete:int-result', 'discrete result is not an integer', **d)
  e = eps_of(got)
  obs.check(e <= target, 'misses-target', 'epsilon of the returned parameter exceeds the target', eps=e, **d)
  if xs is not None:
    obs.count('boundary_checked')
    slack = 1e-9 * tol + 16 * np.spacing(max(abs(xs), abs(lo), abs(hi)))
    name = 'not-near-boundary:' + key[1] + (':reversed' if ctx.get('reversed') else '')
    if e == target == eps_of(xs):
      # Recorded finding: any point of a range with exactly the target epsilon is returned.
      name = 'exact-plateau'
    obs.check(abs(got - xs) <= tol + slack, name, 'the returned parameter is not within the tolerance of the extreme acceptable parameter', **d)


def run(case, obs):
  from dp_accounting import mechanism_calibration as mc
  r = mech.rng_of(case['s'], 'p18' + case['family'])
  f = case['family']
  if f == 'real':
    return real(case, r, obs)
  if f == 'args':
    return args(r, obs)
  inc = bool(r.random() < .5)
  delta = float(mech.pick(r, [0.0, 1e-5, 1.0, mech.logu(r, 1e-12, .5)]))
  tol = mech.pick(r, [None, 1e-6, 1e-3, mech.logu(r, 1e-9, .1)])
  discrete = f == 'discrete'
  lo = float(mech.pick(r, [0.0, 0.0, 1.0, -5.0, mech.logu(r, 1e-3, 10)]))
  hi = lo + float(mech.pick(r, [1.0, mech.logu(r, .01, 100), mech.logu(r, 1, 1e4)]))
  kind = f if f in ('steps', 'plateau') else 'smooth'
  if f == 'large':
    lo = mech.logu(r, 1e6, 1e13)
    hi = lo + mech.logu(r, 1, 1e12)
    tol = mech.pick(r, [None, 1e-6, 1e-9])
    kind = mech.pick(r, ['smooth', 'steps'])
  if f == 'tiny':
    # Parameters far below one, with a tolerance to match.
    lo = float(mech.pick(r, [0.0, mech.logu(r, 1e-12, 1e-7)]))
    hi = lo + mech.logu(r, 1e-12, 1e-5)
    tol = (hi - lo) * mech.logu(r, 1e-9, .1)
    kind = mech.pick(r, ['smooth', 'steps'])
    obs.count('tiny_parameters')
  if discrete:
    lo = int(mech.pick(r, [0, 1, -7, 100]))
    hi = lo + int(mech.pick(r, [1, 2, 3, 10, 1000, int(mech.logu(r, 1, 1e6))]))
    tol = mech.pick(r, [None, None, .1, .5, 1, 3.0, 10])
    kind = mech.pick(r, ['smooth', 'steps', 'smooth', 'plateau'])
    obs.count('discrete')
  fn, c = curve(r, kind, inc, lo, hi)
  if f == 'infinite':
    cut = lo + (hi - lo) * float(r.uniform(.02, .95))
    base = fn
    fn = (lambda x: math.inf if x > cut else base(x)) if inc else (lambda x: math.inf if x < cut else base(x))
    obs.count('infinite_regions')
  # Target: epsilon at a random point, a bit off it, or zero.
  x0 = lo + (hi - lo) * float(mech.pick(r, [r.uniform(0, 1), r.uniform(.0, .001), r.uniform(.999, 1)]))
  if discrete:
    x0 = round(x0)
  t0 = fn(x0)
  if not math.isfinite(t0):
    t0 = fn(lo if inc else hi)
  target = max(0.0, float(mech.pick(r, [t0, t0 * 1.0000001, t0 * (1 + 1e-12), t0 + 1e-3 * c, t0 * .999])))
  if f == 'plateau':
    target = mech.pick(r, [c, c, t0])
  if r.random() < .05:
    target = 0.0
  if f == 'steps' and r.random() < .5:
    target = max(0.0, target)
  etol = (max(0.5, tol or 0.5) if discrete else (tol or 1e-6))
  log = Log()
  dom = (-math.inf, math.inf)
  if f == 'domain':
    # The mechanism exists only inside the bracket (e.g. sampling probabilities), and the solution is near its edge.
    dom = (lo, hi)
    obs.count('edge_of_domain')
    tol = etol = mech.pick(r, [1e-6, 1e-3, (hi - lo) * .05, (hi - lo) * .4])
    x0 = hi - (hi - lo) * mech.pick(r, [0.0, 1e-9, 1e-4, .01]) if r.random() < .5 else lo + (hi - lo) * mech.pick(r, [0.0, 1e-9, 1e-4, .01])
    if r.random() < .5:
      xc = x0
      big, small = float(r.uniform(1, 5)), float(r.uniform(0, .9))
      step = mech.logu(r, 1e-3, 1)
      fn = (lambda x: big + step * (x - lo) if x > xc else small) if inc else (lambda x: big + step * (hi - x) if x < xc else small)
      target = 1.0
    else:
      target = max(0.0, fn(x0) * mech.pick(r, [1, 1 + 1e-9, 1 - 1e-9]))
  if f == 'none':
    return no_solution(r, obs, mc, fn, lo, hi, inc, delta, tol, c)
  bound = functools.partial(boundary, fn, target)
  make, event = harness(log, fn, discrete, *dom)
  guess = r.random() < .35 and f not in ('domain', 'large', 'tiny', 'infinite')
  ctx = dict(increasing=inc, lo=lo, hi=hi, curve=kind, s=case['s'])
  if guess:
    # The search from a guess must reach the solution: start with a fraction of the range.
    g = lo + max((hi - lo) * mech.logu(r, 1e-4, 1), 1 if discrete else 0)
    if discrete:
      g = round(g)
    br = mc.LowerEndpointAndGuess(lo, g)
    xs = bound(lo, hi + (hi - lo) + abs(g), inc, discrete)
    top = hi + (hi - lo) + abs(g)
    if xs is None or xs == (top if inc else lo) or xs == lo or xs >= hi:
      # No sign change between the lower endpoint and the end of the range: outside the documented domain.
      obs.count('skipped')
      return
    ctx.update(guess=g)
  else:
    a, b = lo, hi
    xs = bound(lo, hi, inc, discrete)
    if r.random() < .3:
      a, b = b, a
      ctx.update(reversed=True)
      obs.count('reversed_brackets')
    br = mc.ExplicitBracketInterval(a, b)
    one_sided = (fn(lo) <= target) == (fn(hi) <= target)
    if one_sided:
      # Everything acceptable, or nothing.
      try:
        got = mc.calibrate_dp_mechanism(make, event, target, delta, br, discrete, tol)
      except Exception:  # pylint: disable=broad-except
        obs.count('no_solution_raised')
        obs.count('oracle_evaluations')
        return
      obs.check(fn(got) <= target, 'misses-target', 'epsilon of the returned parameter exceeds the target', got=got, target=target, eps=fn(got), **ctx)
      return
  got = mc.calibrate_dp_mechanism(make, event, target, delta, br, discrete, tol)
  judge(obs, log, got, fn, target, delta, etol, xs, inc, discrete, ctx, lo, hi, ('fake', f, case['s']))


def no_solution(r, obs, mc, fn, lo, hi, inc, delta, tol, c):
  """Targets below everything the range reaches."""
  base = fn(lo) if inc else fn(hi)
  shift = abs(base) + c
  g = lambda x: max(fn(x), base) + shift + (c if math.isinf(delta) else 0)
  floor = max(0.0, min(g(lo), g(hi)))
  target = floor * float(r.uniform(0, .999))
  log = Log()
  disc = bool(r.random() < .3)
  make, event = harness(log, g, disc)
  br = mc.ExplicitBracketInterval(*mech.pick(r, [(lo, hi), (hi, lo)])) if r.random() < .6 else mc.LowerEndpointAndGuess(lo, hi)
  obs.key('none', lo, hi, target)
  try:
    got = mc.calibrate_dp_mechanism(make, event, target, delta, br, disc, tol)
  except (ValueError, mc.NoBracketIntervalFoundError):
    obs.count('no_solution_raised')
    obs.count('oracle_evaluations')
    return
  obs.violate('no-solution:returned', 'a value was returned although none meets the target', got=got, target=target, eps=g(got))


def args(r, obs):
  from dp_accounting import mechanism_calibration as mc, dp_event as de
  log = Log()
  fn = lambda x: 3.0 / max(x, 1e-9)
  make, event = harness(log, fn, False)
  pre, _ = harness(log, fn, False, preloaded=True)
  def expect(exc, what, *a, **k):
    obs.count('bad_arguments')
    obs.key('args', what)
    try:
      got = mc.calibrate_dp_mechanism(*a, **k)
    except exc:
      obs.count('oracle_evaluations')
      return
    obs.violate('arguments:' + what, 'invalid arguments were accepted', got=got)
  expect(mc.NonEmptyAccountantError, 'non-empty accountant', pre, event, 1.0, 1e-5)
  expect(mc.NonEmptyAccountantError, 'non-empty accountant, explicit', pre, event, 1.0, 1e-5, mc.ExplicitBracketInterval(.1, 10))
  expect(TypeError, 'accountant not callable', make(), event, 1.0, 1e-5)
  expect(TypeError, 'event not callable', make, de.GaussianDpEvent(1.0), 1.0, 1e-5)
  expect(ValueError, 'negative epsilon', make, event, -1e-9, 1e-5)
  expect(ValueError, 'delta above one', make, event, 1.0, 1.0000001)
  expect(ValueError, 'negative delta', make, event, 1.0, -1e-12)
  expect(TypeError, 'bracket type', make, event, 1.0, 1e-5, (0, 1))
  expect(ValueError, 'tolerance', make, event, 1.0, 1e-5, tol=0.0)
  expect(ValueError, 'tolerance', make, event, 1.0, 1e-5, tol=-1e-6)
  expect(ValueError, 'guess below lower endpoint', make, event, 1.0, 1e-5, mc.LowerEndpointAndGuess(2.0, 2.0))


def real(case, r, obs):
  import dp_accounting as d
  from dp_accounting import mechanism_calibration as mc, rdp, pld
  kinds = ['rdp-noise', 'rdp-rate', 'rdp-count', 'pld-noise', 'pld-laplace', 'pld-count', 'rdp-noise', 'rdp-tight']
  k = kinds[case['j'] % len(kinds)]
  delta = mech.logu(r, 1e-8, 1e-3)
  eps = mech.logu(r, .2, 8)
  seen = []
  made = []
  def counted(mk):
    def f():
      a = mk()
      made.append(a)
      return a
    return f
  disc, tol, br, inc = False, None, None, False
  R = counted(lambda: rdp.RdpAccountant())
  P = counted(lambda: pld.PLDAccountant(value_discretization_interval=1e-2))
  sig, q, n = mech.logu(r, .6, 5), mech.logu(r, 1e-3, .3), int(mech.logu(r, 1, 300))
  if k == 'rdp-noise':
    A, ev = R, lambda x: d.SelfComposedDpEvent(d.PoissonSampledDpEvent(q, d.GaussianDpEvent(x)), n)
    br = mech.pick(r, [None, mc.LowerEndpointAndGuess(0.1, 1.0), mc.ExplicitBracketInterval(0.2, 1000.0)])
  elif k == 'rdp-rate':
    A, ev, inc = R, lambda x: d.SelfComposedDpEvent(d.PoissonSampledDpEvent(x, d.GaussianDpEvent(sig)), n), True
    br = mc.ExplicitBracketInterval(0.0, 1.0)
    full = rdp.RdpAccountant().compose(ev(1.0)).get_epsilon(delta)
    eps = full * mech.pick(r, [.999, .9, .3, .99999])
    tol = mech.pick(r, [None, .01, .05])
  elif k == 'rdp-count':
    A, ev, inc, disc = R, lambda x: d.SelfComposedDpEvent(d.PoissonSampledDpEvent(q, d.GaussianDpEvent(sig)), x), True, True
    br = mc.LowerEndpointAndGuess(1, int(r.integers(2, 100)))
    one = rdp.RdpAccountant().compose(ev(1)).get_epsilon(delta)
    eps = one * float(r.uniform(1.1, 6))
  elif k == 'pld-noise':
    A, ev = P, lambda x: d.SelfComposedDpEvent(d.GaussianDpEvent(x), n)
    br = mc.ExplicitBracketInterval(mech.pick(r, [.5, .3]) * math.sqrt(n), 40.0 * math.sqrt(n))
    eps, tol = mech.logu(r, .3, 3), 1e-3
  elif k == 'pld-laplace':
    A, ev = P, lambda x: d.LaplaceDpEvent(x)
    br = mc.ExplicitBracketInterval(.1, 40.0)
    eps, tol = mech.logu(r, .3, 3), 1e-3
  elif k == 'pld-count':
    A, ev, inc, disc = P, lambda x: d.SelfComposedDpEvent(d.GaussianDpEvent(20.0 * sig), x), True, True
    br = mc.LowerEndpointAndGuess(1, 10)
    one = pld.PLDAccountant(value_discretization_interval=1e-2).compose(ev(1)).get_epsilon(delta)
    eps = max(one * 1.2, .05) * float(r.uniform(1.1, 4))
  else:
    # Large delta: epsilon is zero over half of the range.
    delta = float(r.uniform(.1, .5))
    A, ev = R, lambda x: d.GaussianDpEvent(x)
    eps = mech.pick(r, [0.0, .01])
    br = mc.ExplicitBracketInterval(.1, 100.0)
  def family(x):
    seen.append(x)
    return ev(x)
  fresh = {id(A): None}
  base = rdp.RdpAccountant if A is R else (lambda: pld.PLDAccountant(value_discretization_interval=1e-2))
  fn = lambda x: float(base().compose(ev(x)).get_epsilon(delta))
  got = mc.calibrate_dp_mechanism(A, family, eps, delta, br, disc, tol)
  obs.count('real_calibrations')
  obs.count('calibrations')
  obs.count('evaluations', len(seen))
  obs.count('fresh_accountants', len(made))
  obs.key('real', k, case['s'])
  etol = 1.0 if disc else (tol or 1e-6)
  d_ = dict(kind=k, got=got, eps=eps, delta=delta, tol=etol)
  obs.check(len({id(a) for a in made}) == len(made) == len(seen), 'fresh-accountant', 'accountants and evaluations do not pair up', **d_)
  obs.check(fn(got) <= eps, 'misses-target', 'epsilon of the returned parameter exceeds the target', reported=fn(got), **d_)
  if disc:
    obs.check(isinstance(got, int), 'discrete:int-result', 'discrete result is not an integer', **d_)
  # One tolerance (and a bit) further in the unsafe direction the target is missed.
  step = (1 if disc else etol * 1.01) * (1 if inc else -1)
  far = got + step
  if (br is None or not isinstance(br, mc.ExplicitBracketInterval) or min(br.endpoint_1, br.endpoint_2) <= far <= max(br.endpoint_1, br.endpoint_2)) and far > 0:
    obs.count('boundary_checked')
    name = 'exact-plateau' if fn(far) == eps == fn(got) else 'not-near-boundary'
    obs.check(fn(far) > eps, name, 'a parameter more than the tolerance better also meets the target', at=far, reported=fn(far), **d_)
