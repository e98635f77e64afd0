"""P01: pessimistic privacy loss distributions never under-report."""
import math
from vlib import gadget, mech, pldcheck

PROPERTY = 'P01'
RULE = ('an observation is non-trivial when the true delta is in (1e-13, 1) or the queried '
        'epsilon lies inside the loss range; distinct by mechanism parameters and algorithm')
ASSUMPTIONS = ['true divergences from closed forms / direct summation in 40-digit (discrete: long double) arithmetic',
               'floating-point slack 1e-9 relative + 4e-13 absolute']


def REQUIRED(tier):
  return {'delta_points': 4000, 'eps_points': 800, 'direction_points': 800, 'sibling_checks': 200}


def cases(seed, tier):
  n = 8000 if tier == 'quick' else 60000
  out = []
  for i in range(n):
    r = mech.rng_of(seed, 'p01', i)
    kind = mech.KINDS[i % 5]
    if kind == 'mog' and i % 4:
      kind = 'gaussian'
    spec = mech.random_spec(r, kind)
    h = mech.choose_h(spec, r, 3000 if kind == 'mog' else 20000)
    dots = bool(r.random() < 0.6)
    if kind == 'mog' and not dots:
      h = max(h, mech.eps_scale(spec) / 400)
    lmt = None
    if kind in ('gaussian', 'mog') and r.random() < .3:
      lmt = float(-r.uniform(5, 60))
    out.append(dict(family='single-' + kind, spec=spec, h=h, dots=dots, lmt=lmt, s=seed * 100003 + i))
  for i in range(6):
    out.append(dict(family='integer-interval', s=seed * 1000 + i, j=i))
  for i in range(n // 30):
    out.append(dict(family='extreme', s=seed * 77 + i))
  for i in range(n // 80):
    out.append(dict(family='tiny-noise', s=seed * 177 + i))
  return out


def check_points(pl, T, spec, h, pts, obs, fam, r, extra=0.0):
  for e in pts:
    t = T.delta(e)
    d = pl.get_delta_for_epsilon(e)
    obs.count('delta_points')
    if 1e-13 < t < 1:
      obs.key(str(spec), h, fam, round(e, 9))
    obs.check(d >= float(t) - pldcheck.slack(spec, t) - extra, 'delta-under-reported:' + spec['kind'],
              'pessimistic delta below the true divergence', eps=e, delta=d, true=float(t), spec=spec, h=h)
  for dl in pldcheck.eps_targets(T, r):
    e = pl.get_epsilon_for_delta(dl)
    obs.count('eps_points')
    if e == math.inf:
      continue
    t = T.delta(e)
    obs.check(float(t) <= dl + pldcheck.slack(spec, dl) + extra, 'epsilon-under-reported:' + spec['kind'],
              'pessimistic epsilon does not achieve the delta', delta=dl, eps=e, true=float(t), spec=spec, h=h)


def run(case, obs):
  fam = case['family']
  r = mech.rng_of(case['s'], 'run')
  if fam == 'integer-interval':
    return integer_interval(case, obs)
  if fam == 'extreme':
    return extreme(r, obs)
  if fam == 'tiny-noise':
    return tiny_noise(r, obs)
  spec, h, dots, lmt = case['spec'], case['h'], case['dots'], case['lmt']
  single(spec, h, dots, lmt, r, obs)
  if spec['kind'] != 'mog' and r.random() < .15:
    # The same mechanism with exactly one parameter changed, in the same process,
    # and the first one again: results must not leak from one to the other.
    obs.count('sibling_checks')
    j = int(r.integers(4))
    if j == 0:
      single(spec, h, not dots, lmt, r, obs)
    elif j == 1:
      single(spec, h * mech.pick(r, [2, 3, 1.5]), dots, lmt, r, obs)
    elif j == 2 and spec['kind'] == 'gaussian':
      single(spec, h, dots, float(-r.uniform(5, 60)), r, obs)
    else:
      # An optimistic estimate first, then a sibling, then the original again.
      mech.build(spec, h, False, dots, lmt)
      sib = mech.sibling(r, spec)
      if mech.eps_scale(sib) / h < 60000:
        single(sib, h, dots, lmt, r, obs)
    single(spec, h, dots, lmt, r, obs)


def single(spec, h, dots, lmt, r, obs):
  pl = mech.build(spec, h, True, dots, lmt)
  T = mech.truth(spec)
  pts = mech.eps_points(spec, h, r, 8)
  if spec['kind'] == 'mog':
    pts = pts[:6] + pts[-3:]
  check_points(pl, T, spec, h, pts, obs, dots, r)
  # Each direction separately, through a public-API gadget.
  if r.random() < 0.4:
    k = max(1, int(math.ceil(0.3 / h)))
    for which in ('add', 'remove'):
      g, a = gadget.direction(h, k, which, True)
      comp = pl.compose(g)
      fn = T.add if which == 'add' else T.remove
      for e in [p for p in pts[:6] if p > -0.2]:
        d = comp.get_delta_for_epsilon(e - k * h)
        t = fn(e)
        want = (1 - a) + a * float(t)
        obs.count('direction_points')
        obs.check(d >= want - pldcheck.slack(spec, t) - 1e-12 - 1e-14 * 1, 'direction-under-reported:%s:%s' % (spec['kind'], which),
                  'pessimistic delta of one direction below its true divergence',
                  eps=e, delta=d, want=want, spec=spec, h=h, which=which)


def integer_interval(case, obs):
  """Integer-typed discretization intervals must behave like their float value."""
  from dp_accounting.pld import privacy_loss_distribution as pld
  r = mech.rng_of(case['s'], 'ii')
  for kind in mech.KINDS:
    spec = mech.random_spec(r, kind)
    T = mech.truth(spec)
    dots = bool(case['j'] % 2)
    h = 1
    pl = mech.build(spec, h, True, dots)
    for e in (0, 1, 2, 0.5, 1.7, 0.0, 1.0):
      t = T.delta(e)
      d = pl.get_delta_for_epsilon(e)
      obs.count('delta_points')
      mname = 'delta-under-reported:' + kind
      if kind == 'mog':
        # Known finding: integer arrays are inverted with integer arithmetic.  It
        # only explains a violation that the float interval does not show.
        df = mech.build(spec, 1.0, True, dots).get_delta_for_epsilon(e)
        if obs.check(df >= float(t) - pldcheck.slack(spec, t), mname,
                     'pessimistic delta below the true divergence', eps=e, delta=df, true=float(t), spec=spec, h=1.0):
          mname = 'mog-integer-interval'
      obs.check(d >= float(t) - pldcheck.slack(spec, t), mname,
                'pessimistic delta below the true divergence with an integer discretization interval',
                eps=e, delta=d, true=float(t), spec=spec, h=h, dots=dots)


def extreme(r, obs):
  """Very large or very small losses; any discretization."""
  kind = mech.pick(r, ['gaussian', 'laplace', 'dlaplace', 'dgaussian'])
  small = r.random() < .5
  q = mech.pick(r, [1.0, 1.0, mech.logu(r, 1e-6, 1e-2), 0.5])
  if kind == 'gaussian':
    spec = dict(kind=kind, scale=mech.logu(r, 30, 1e4) if small else mech.logu(r, .03, .3), sens=1.0, q=q)
  elif kind == 'laplace':
    spec = dict(kind=kind, scale=mech.logu(r, 50, 1e5) if small else mech.logu(r, .003, .1), sens=1.0, q=q)
  elif kind == 'dlaplace':
    spec = dict(kind=kind, scale=mech.logu(r, 1e-3, .02) if small else mech.logu(r, 8, 60), sens=int(r.integers(1, 4)), q=q)
  else:
    spec = dict(kind=kind, scale=mech.logu(r, 20, 200) if small else mech.logu(r, .15, .4), sens=int(r.integers(1, 3)), q=q, trunc=None)
  es = mech.eps_scale(spec)
  h = max(es / 5000, mech.pick(r, [1e-4, 1e-2, .1, 1.0]))
  T = mech.truth(spec)
  pl = mech.build(spec, h, True, bool(r.random() < .6))
  pts = [p for p in mech.eps_points(spec, h, r, 6) if abs(p) < 690]
  check_points(pl, T, spec, h, pts, obs, 'extreme', r)


def tiny_noise(r, obs):
  """Little noise on a fine grid: deltas close to one differ by rounding errors only."""
  spec = dict(kind='gaussian', scale=mech.logu(r, .045, .15), sens=1.0, q=mech.pick(r, [1.0, 1e-3, mech.logu(r, 1e-6, .9)]))
  h = mech.pick(r, [1e-3, 2e-3, 5e-3, 1e-2, mech.logu(r, 1e-3, 1e-2)])
  pl = mech.build(spec, h, True, bool(r.random() < .8))
  pts = [p for p in mech.eps_points(spec, h, r, 5) if abs(p) < 690]
  obs.count('tiny_noise')
  check_points(pl, mech.truth(spec), spec, h, pts, obs, 'tiny', r)
