"""P02: optimistic estimates never over-report; both estimates are tight."""
import math
from vlib import gadget, mech, pldcheck

PROPERTY = 'P02'
RULE = ('an observation is non-trivial when the true delta is in (1e-13, 1); distinct by '
        'mechanism parameters, interval, estimate and epsilon')
ASSUMPTIONS = ['true divergences from closed forms / direct summation in 40-digit (discrete: long double) arithmetic',
               'tail truncation allowance: exp(log_mass_truncation_bound) for Gaussian and mixture']


def REQUIRED(tier):
  return {'optimistic_points': 3000, 'tight_points': 6000, 'direction_points': 500, 'sibling_checks': 200}


def cases(seed, tier):
  n = 3500 if tier == 'quick' else 50000
  out = []
  for i in range(n):
    r = mech.rng_of(seed, 'p02', i)
    kind = mech.KINDS[i % 5]
    if kind == 'mog' and i % 4:
      kind = 'gaussian'
    spec = mech.random_spec(r, kind)
    h = mech.choose_h(spec, r, 3000 if kind == 'mog' else 20000)
    pess, dots = [(False, False), (False, True), (True, True), (True, False)][int(r.integers(4))]
    if kind == 'mog' and not (dots and pess):
      h = max(h, mech.eps_scale(spec) / 400)
    lmt = None
    if kind in ('gaussian', 'mog') and r.random() < .3:
      lmt = float(-r.uniform(5, 60))
    out.append(dict(family=('pess-' if pess else 'opt-') + kind, spec=spec, h=h, pess=pess, dots=dots,
                    lmt=lmt, s=seed * 100003 + i))
  return out


def run(case, obs):
  spec, h, pess, dots, lmt = case['spec'], case['h'], case['pess'], case['dots'], case['lmt']
  r = mech.rng_of(case['s'], 'run')
  single(spec, h, pess, dots, lmt, r, obs)
  if spec['kind'] != 'mog' and r.random() < .15:
    # The same mechanism with exactly one parameter changed, in the same process,
    # and the first one again: results must not leak from one to the other.
    obs.count('sibling_checks')
    j = int(r.integers(5))
    if j == 0:
      single(spec, h, pess, not dots, lmt, r, obs)
    elif j == 1:
      single(spec, h * mech.pick(r, [2, 3, 1.5]), pess, dots, lmt, r, obs)
    elif j == 2:
      single(spec, h, not pess, dots, lmt, r, obs)
    elif j == 3 and spec['kind'] == 'gaussian':
      single(spec, h, pess, dots, float(-r.uniform(5, 60)), r, obs)
    else:
      sib = mech.sibling(r, spec)
      if mech.eps_scale(sib) / h < 60000:
        single(sib, h, pess, dots, lmt, r, obs)
    single(spec, h, pess, dots, lmt, r, obs)


def single(spec, h, pess, dots, lmt, r, obs):
  pl = mech.build(spec, h, pess, dots, lmt)
  T = mech.truth(spec)
  trunc = mech.trunc_slack(spec, lmt)
  H = pldcheck.one_interval(h)
  pts = mech.eps_points(spec, h, r, 8)
  if spec['kind'] == 'mog':
    pts = pts[:6] + pts[-3:]
  for e in pts:
    t = T.delta(e)
    d = float(pl.get_delta_for_epsilon(e))
    if 1e-13 < t < 1:
      obs.key(str(spec), h, pess, dots, round(e, 9))
    sl = pldcheck.slack(spec, t)
    if not pess:
      obs.count('optimistic_points')
      obs.check(d <= float(t) + sl, 'optimistic-over-reported:' + spec['kind'],
                'optimistic delta above the true divergence', eps=e, delta=d, true=float(t), spec=spec, h=h)
      lo = float(T.delta(e + H))
      obs.count('tight_points')
      obs.check(d >= lo - trunc - sl, 'optimistic-not-tight:' + spec['kind'],
                'optimistic delta below the true divergence one interval above', eps=e, delta=d, bound=lo, spec=spec, h=h)
    else:
      hi = float(T.delta(e - H))
      obs.count('tight_points')
      obs.check(d <= hi + trunc + sl, 'pessimistic-not-tight:' + spec['kind'],
                'pessimistic delta above the true divergence one interval below', eps=e, delta=d, bound=hi, spec=spec, h=h)
  inf_mass = float(T.delta(6000))
  for dl in pldcheck.eps_targets(T, r):
    if abs(dl - inf_mass) <= 1e-9 * dl + 1e-12 + trunc:
      continue
    e = pl.get_epsilon_for_delta(dl)
    obs.count('eps_points')
    if not pess:
      if e > 1e-6 and math.isfinite(e):
        # Optimistic epsilon must not exceed the true one.
        t = T.delta(e - 1e-9 * max(1, e))
        obs.check(float(t) >= dl - pldcheck.slack(spec, dl), 'optimistic-epsilon-over-reported:' + spec['kind'],
                  'optimistic epsilon above the true epsilon', delta=dl, eps=e, true=float(t), spec=spec, h=h)
      obs.check(e < math.inf or dl < inf_mass, 'optimistic-epsilon-infinite:' + spec['kind'],
                'optimistic epsilon is infinite for a mechanism whose losses are finite', delta=dl, spec=spec, h=h)
    elif dl > inf_mass + trunc * 1.01 + 1e-12:
      ref = e - H - 1e-9 * max(1, e) if math.isfinite(e) else None
      if ref is None:
        obs.check(False, 'pessimistic-epsilon-infinite:' + spec['kind'],
                  'pessimistic epsilon is infinite above the truncation mass', delta=dl, spec=spec, h=h)
      elif ref > 0:
        t = float(T.delta(ref))
        obs.check(t >= dl - trunc - pldcheck.slack(spec, dl), 'pessimistic-epsilon-not-tight:' + spec['kind'],
                  'pessimistic epsilon more than one interval above the true one', delta=dl, eps=e, true=t, spec=spec, h=h)
  if r.random() < 0.4:
    k = max(1, int(math.ceil(0.3 / h)))
    for which in ('add', 'remove'):
      g, a = gadget.direction(h, k, which, pess)
      comp = pl.compose(g)
      fn = T.add if which == 'add' else T.remove
      for e in [p for p in pts[:6] if p > -0.2]:
        d = float(comp.get_delta_for_epsilon(e - k * h))
        t = fn(e)
        obs.count('direction_points')
        # The gadget's own rounding may shift it by one interval.
        if pess:
          want = (1 - a) + a * float(fn(e - 2 * H))
          # The other direction never exceeds its first term plus a*delta.
          oth = T.remove if which == 'add' else T.add
          want = max(want, float(oth(e - (2 * k + 3) * H)) if e - (2 * k + 3) * H > -600 else 1.0)
          obs.check(d <= want + trunc + pldcheck.slack(spec, want) + 1e-12, 'direction-not-tight:%s:%s' % (spec['kind'], which),
                    'pessimistic delta of one direction too large', eps=e, delta=d, want=want, spec=spec, h=h)
        else:
          want = (1 - a) + a * float(t)
          oth = T.remove if which == 'add' else T.add
          want = max(want, float(oth(e - 2 * k * h)) if e - 2 * k * h > -600 else 1.0)
          obs.check(d <= want + pldcheck.slack(spec, want) + 1e-12, 'direction-over-reported:%s:%s' % (spec['kind'], which),
                    'optimistic delta of one direction above its true divergence', eps=e, delta=d, want=want, spec=spec, h=h)
          want = (1 - a) + a * float(fn(e + 2 * H))
          obs.check(d >= want - trunc - pldcheck.slack(spec, want) - 1e-12, 'direction-not-tight:%s:%s' % (spec['kind'], which),
                    'optimistic delta of one direction too small', eps=e, delta=d, want=want, spec=spec, h=h)
