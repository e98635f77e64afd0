"""P07: more noise or less sampling never costs more; rescaling changes nothing."""
import math
import numpy as np
from vlib import events as E
from vlib import mech

PROPERTY = 'P07'
RULE = ('an observation is a pair of executions whose parameters are ordered (or rescaled, or sampled at rate one) and whose reported '
        'guarantees are compared; distinct by both parameter sets')
ASSUMPTIONS = ['privacy loss distributions may deviate by one discretization interval per release (both sides round in the same direction)',
               'pairs of discrete mechanisms whose exact divergences are not ordered (at the queried point) are not compared',
               'fractional orders of sampled Gaussian mechanisms, where a bounded over-estimate is documented, are not compared across parameters']


def REQUIRED(tier):
  return {'pld_pairs': 500, 'pld_points': 4000, 'rescaled': 300, 'rate_one': 250, 'rdp_pairs': 600, 'rdp_points': 10000, 'model_pairs': 500,
          'acct_pairs': 100, 'helper_scalings': 40, 'more_noise': 400, 'less_sensitivity': 150, 'less_sampling': 300}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 12
  out = []
  for fam, k in (('acct', 160), ('helper', 60), ('swor_noise', 1), ('pld', 600), ('scale', 350), ('rate1', 260), ('rdp', 800), ('rdp1', 60), ('model', 800)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i, j=i))
  return out


def spec_pair(r, kind=None, with_h=False):
  """(less private spec, more private spec, what changed)."""
  a = mech.random_spec(r, kind)
  h = interval(a, r)       # may move the parameters onto the grid
  b = dict(a)
  f = float(mech.pick(r, [1.0 + 10 ** float(-r.uniform(0, 4)), float(r.uniform(1, 3)), 2.0, 10.0, 1.25]))
  discrete = a['kind'] in ('dlaplace', 'dgaussian')
  what = mech.pick(r, ['noise', 'noise', 'sens', 'q'] if a['kind'] != 'mog' else ['noise', 'sens', 'probs'])
  if what == 'q' and a['q'] == 1.0 and r.random() < .5:
    what = 'noise'
  if what == 'noise':
    b['scale'] = a['scale'] / f if a['kind'] == 'dlaplace' else a['scale'] * f
  elif what == 'sens':
    if a['kind'] == 'mog':
      b['sens'] = [v / f for v in a['sens']]
    elif discrete:
      if a['sens'] == 1:
        return spec_pair(r, kind, with_h)
      b['sens'] = int(r.integers(1, a['sens']))
    else:
      b['sens'] = a['sens'] / f
  elif what == 'probs':
    # Move mass from the largest to the smallest shift.
    i, j = int(np.argmax(a['sens'])), int(np.argmin(a['sens']))
    if i == j or len(a['sens']) < 2:
      return spec_pair(r, kind, with_h)
    p = list(a['probs'])
    t = p[i] * float(r.uniform(.05, .6))
    p[i] -= t
    p[j] += t
    k = int(np.argmax(p))
    p[k] = 1.0 - math.fsum(v for m, v in enumerate(p) if m != k)
    if not math.isclose(math.fsum(p), 1.0, abs_tol=1e-12) or min(p) <= 0:
      return spec_pair(r, kind, with_h)
    b['probs'] = p
  else:
    b['q'] = a['q'] / f
  if b.get('trunc') is not None and what in ('noise', 'sens'):
    b['trunc'] = a['trunc'] = None
  return (a, b, what, f, h) if with_h else (a, b, what, f)


def interval(spec, r):
  h = mech.choose_h(spec, r, 1500 if spec['kind'] == 'mog' else 8000)
  if spec['kind'] == 'mog':
    h = float(max(h, mech.eps_scale(spec) / 400)) * float(r.uniform(1, 1.1))
  return h


def counted(obs, what):
  obs.count({'noise': 'more_noise', 'sens': 'less_sensitivity', 'q': 'less_sampling', 'probs': 'less_shift'}[what])


def points(r, spec, h, n=7):
  e = mech.eps_scale(spec)
  out = [0.0, 2 * h, e * .5, e]
  for _ in range(n - 4):
    v = float(r.uniform(0, 1.1 * e))
    out.append(round(v / h) * h if r.random() < .4 else v)
  if spec['kind'] == 'mog':
    # Keep queries off the known finding about integral ratios of epsilon and interval.
    out = [v + h * .2371 for v in out]
  return out


# Tail truncation differs between the two executions by at most this much.
SLACK = 4e-13


def do_pld(case, obs, r):
  a, b, what, f, h = spec_pair(r, mech.KINDS[case['j'] % 5] if case['j'] % 10 else 'mog', True)
  pess = bool(r.random() < .7)
  dots = bool(r.random() < .5) if pess else False
  if a['kind'] == 'mog' and pess:
    dots = True
  n = int(mech.pick(r, [1, 1, 1, 2, 5]))
  A, Bp = mech.build(a, h, pess, dots), mech.build(b, h, pess, dots)
  if n > 1:
    A, Bp = A.self_compose(n), Bp.self_compose(n)
  obs.count('pld_pairs')
  counted(obs, what)
  obs.key(repr((a, b, h, pess, dots, n)))
  mixed = a['kind'] in ('dlaplace', 'dgaussian')
  Ta, Tb = (mech.truth(a), mech.truth(b)) if mixed else (None, None)
  sh = n * h * (1 + 1e-7) + 1e-12
  ctx = dict(what=what, less_private=a, more_private=b, h=h, pessimistic=pess, dots=dots, count=n)
  for e in points(r, a, h):
    if mixed and any(Tb.delta(v) > Ta.delta(v) + 1e-15 for v in (e, e - h / 2, e - h)):
      obs.count('unordered_truth')
      continue
    if mixed and n > 1 and what != 'q':
      # Dominance of single releases at all epsilons is needed for composition.
      grid = [x * mech.eps_scale(a) / 8 for x in range(-8, 9)]
      if any(Tb.delta(v) > Ta.delta(v) + 1e-15 for v in grid):
        continue
    obs.count('pld_points')
    da, db = float(A.get_delta_for_epsilon(e - sh)), float(Bp.get_delta_for_epsilon(e))
    obs.check(db <= da * (1 + 1e-9) + SLACK * n, 'pld:order:' + what, 'a mechanism with %s reports a larger delta' %
              {'noise': 'more noise', 'sens': 'smaller sensitivity', 'q': 'less sampling', 'probs': 'smaller shifts'}[what],
              eps=e, more_private_delta=db, less_private_delta=da, **ctx)
  if not mixed:
    d = 10 ** float(-r.uniform(1, 9))
    ea, eb = A.get_epsilon_for_delta(d * (1 - 1e-6) - 1e-12 * n), Bp.get_epsilon_for_delta(d)
    obs.check(eb <= ea + sh + 1e-9, 'pld:order-eps:' + what, 'a more private mechanism reports a larger epsilon', delta=d, more_private_value=eb, less_private_value=ea, **ctx)


def do_scale(case, obs, r):
  kind = ['gaussian', 'laplace', 'mog'][case['j'] % 3]
  a = mech.random_spec(r, kind)
  exact = r.random() < .5
  c = float(mech.pick(r, [2.0, 4.0, .5, 2.0 ** int(r.integers(-20, 20))])) if exact else float(mech.pick(r, [3.0, .1, 10.0, mech.logu(r, 1e-4, 1e4)]))
  h = interval(a, r)       # may move the parameters onto the grid
  b = dict(a, scale=a['scale'] * c, sens=[v * c for v in a['sens']] if kind == 'mog' else a['sens'] * c)
  pess = bool(r.random() < .7)
  dots = True if kind == 'mog' and pess else bool(r.random() < .5) and pess
  A, Bp = mech.build(a, h, pess, dots), mech.build(b, h, pess, dots)
  obs.count('rescaled')
  obs.key(repr((a, c, h, pess, dots)))
  ctx = dict(spec=a, factor=c, h=h, pessimistic=pess, dots=dots)
  sh = h * (1 + 1e-7) + 1e-12
  for e in points(r, a, h, 6):
    obs.count('pld_points')
    da, db = float(A.get_delta_for_epsilon(e)), float(Bp.get_delta_for_epsilon(e))
    if exact and kind != 'mog':
      obs.check(abs(da - db) <= 1e-9 * da + 1e-13, 'scale:exact', 'rescaling noise and sensitivity by a power of two changed delta', eps=e, original=da, rescaled=db, **ctx)
    else:
      # Losses on the grid may be rounded differently: one interval.
      obs.check(db <= float(A.get_delta_for_epsilon(e - sh)) * (1 + 1e-9) + SLACK and da <= float(Bp.get_delta_for_epsilon(e - sh)) * (1 + 1e-9) + SLACK,
                'scale:shift', 'rescaling noise and sensitivity changed delta by more than the discretization', eps=e, original=da, rescaled=db, **ctx)


def do_rate1(case, obs, r):
  """Sampling with probability one, or next to one, is no sampling."""
  from dp_accounting import dp_event as de
  from dp_accounting.pld import privacy_loss_distribution as pld
  a = mech.random_spec(r, mech.KINDS[case['j'] % 4], sampled=False)
  h = interval(a, r)
  pess = bool(r.random() < .7)
  dots = bool(r.random() < .5) and pess
  obs.count('rate_one')
  obs.key(repr((a, h, pess, dots)))
  A = mech.build(dict(a, q=1.0), h, pess, dots)
  mk = dict(gaussian=lambda **k: pld.from_gaussian_mechanism(a['scale'], sensitivity=a['sens'], **k),
            laplace=lambda **k: pld.from_laplace_mechanism(a['scale'], sensitivity=a['sens'], **k),
            dlaplace=lambda **k: pld.from_discrete_laplace_mechanism(a['scale'], sensitivity=a['sens'], **k),
            dgaussian=lambda **k: pld.from_discrete_gaussian_mechanism(a['scale'], sensitivity=a['sens'], truncation_bound=a.get('trunc'), **k))[a['kind']]
  kw = dict(pessimistic_estimate=pess, value_discretization_interval=h, use_connect_dots=dots)
  plain = mk(**kw)
  near = mk(sampling_prob=1 - 1e-13, **kw)
  one = mk(sampling_prob=1, **kw)
  sh = h * (1 + 1e-6) + 1e-10
  ctx = dict(spec=a, h=h, pessimistic=pess, dots=dots)
  for e in points(r, a, h, 6):
    d0 = float(plain.get_delta_for_epsilon(e))
    for nm, p in (('float', A), ('int', one)):
      d = float(p.get_delta_for_epsilon(e))
      obs.check(abs(d - d0) <= 1e-9 * d0 + 1e-13, 'rate1:' + nm, 'sampling with probability one differs from no sampling', eps=e, sampled=d, plain=d0, **ctx)
    d = float(near.get_delta_for_epsilon(e))
    obs.check(d <= float(plain.get_delta_for_epsilon(e - sh)) * (1 + 1e-9) + 1e-11 and d0 <= float(near.get_delta_for_epsilon(e - sh)) * (1 + 1e-9) + 1e-11,
              'rate1:near', 'sampling with probability next to one differs from no sampling by more than the discretization', eps=e, sampled=d, plain=d0, **ctx)


# ---------------------------------------------------------------- Renyi accountant

INT = [2, 3, 4, 5, 8, 16, 32, 64, 128, 256]
FRAC = [1.1, 1.5, 2.5, 7.3, 20.7]


def rdp_of(event, rel, orders, n=1):
  a = E.accountant('rdp', rel, orders)
  a.compose(event, n)
  return a


def rdp_pair(r):
  """(rel, less private event spec, more private, what, fractional orders comparable)."""
  f = float(mech.pick(r, [1 + 10 ** float(-r.uniform(0, 4)), float(r.uniform(1, 3)), 2.0, 10.0]))
  k = mech.pick(r, ['g', 'l', 'rr', 'ps', 'ps', 'ps', 'psn', 'swor', 'swor', 'tree', 'ras', 'nested'])
  z = mech.logu(r, .3, 20)
  AOR = 'ADD_OR_REMOVE_ONE'
  if k == 'g':
    return mech.pick(r, [AOR, 'REPLACE_SPECIAL']), ['g', z], ['g', z * f], 'noise', True
  if k == 'l':
    return AOR, ['l', z], ['l', z * f], 'noise', True
  if k == 'rr':
    p = float(r.uniform(.05, .9))
    return mech.pick(r, ['REPLACE_ONE', 'REPLACE_SPECIAL']), ['rr', p, 4], ['rr', p + (1 - p) * (1 - 1 / f) * .9, 4], 'noise', True
  q = float(mech.pick(r, [mech.logu(r, 1e-4, 1), .5, .01, 1.0, .9]))
  if k == 'ps':
    if r.random() < .5:
      return AOR, ['ps', q, ['g', z]], ['ps', q / f, ['g', z]], 'q', False
    return AOR, ['ps', q, ['g', z]], ['ps', q, ['g', z * f]], 'noise', False
  if k == 'psn':
    # Nested: two Gaussians released on the same sample.
    return AOR, ['ps', q, ['comp', [['g', z], ['self', ['g', z * 2], 3]]]], ['ps', q, ['comp', [['g', z * f], ['self', ['g', z * 2], 3]]]], 'noise', False
  if k == 'swor':
    n = int(mech.pick(r, [10, 100, 1000, 10 ** 6]))
    m = int(r.integers(2, n))
    if r.random() < .5:
      return 'REPLACE_ONE', ['swor', n, m, ['g', z]], ['swor', n, max(1, int(m / f)), ['g', z]], 'q', False
    return 'REPLACE_ONE', ['swor', n, m, ['g', z]], ['swor', n, m, ['g', z * f]], 'noise', False
  if k == 'tree':
    s = [int(v) for v in r.integers(1, 200, int(r.integers(1, 5)))]
    if r.random() < .5:
      t = [max(1, int(v / f)) for v in s]
      return 'REPLACE_SPECIAL', ['tree', z, s], ['tree', z, t], 'q', True
    return 'REPLACE_SPECIAL', ['tree', z, s], ['tree', z * f, s], 'noise', True
  if k == 'ras':
    mean = mech.logu(r, 1.1, 50)
    shape = float(mech.pick(r, [0.0, .5, 1.0, 2.0, math.inf]))
    # The event describes a distribution over at least one (shape < inf) repetition.
    if r.random() < .5:
      return AOR, ['ras', ['g', z], mean, shape], ['ras', ['g', z * f], mean, shape], 'noise', True
    return AOR, ['ras', ['g', z], mean, shape], ['ras', ['g', z], max(1.0001, mean / f), shape], 'q', True
  return AOR, ['comp', [['g', z], ['l', z], ['ps', q, ['g', z]]]], ['self', ['comp', [['g', z * f], ['l', z * f], ['ps', q / f, ['g', z * f]]]], 1], 'noise', False


def coarse(s, order):
  from vlib import renyi
  return renyi.swor_bound(s[2] / s[1], s[3][1], order, fine=False)


def do_swor_noise(case, obs, r):
  """The recorded finding, reproduced on its example."""
  a, b = ['swor', 100, 9, ['g', 11.400053364612727]], ['swor', 100, 9, ['g', 11.794556159749504]]
  x, y = (float(rdp_of(E.build(s), 'REPLACE_ONE', [256]).rdp[0]) for s in (a, b))
  obs.key('swor-noise')
  name = 'swor-forward-difference-noise' if y <= coarse(b, 256) * (1 + 1e-9) else 'rdp:order:noise'
  obs.check(y <= x * (1 + 1e-7), name, 'a more private event has a larger Renyi value', order=256, more_private_value=y, less_private_value=x, less_private=a, more_private=b)


def do_rdp(case, obs, r):
  rel, a, b, what, frac = rdp_pair(r)
  orders = INT + FRAC if frac else INT
  n = int(mech.pick(r, [1, 3, 1000]))
  A, Bp = rdp_of(E.build(a), rel, orders, n), rdp_of(E.build(b), rel, orders, n)
  obs.count('rdp_pairs')
  counted(obs, what)
  obs.key(repr((rel, a, b, n)))
  ctx = dict(relation=rel, less_private=a, more_private=b, count=n)
  for o, x, y in zip(orders, A.rdp, Bp.rdp):
    obs.count('rdp_points')
    ok = y <= x * (1 + 1e-7) + 1e-12 * n
    name = 'rdp:order:' + what
    if not ok and a[0] == 'swor' and o > 8 and y <= n * coarse(b, o) * (1 + 1e-9):
      name = 'swor-forward-difference-noise'
    obs.check(ok, name, 'a more private event has a larger Renyi value', order=o, more_private_value=float(y), less_private_value=float(x), **ctx)
  if a[0] == 'swor':
    # Epsilon from the orders that are free of the recorded finding only.
    A, Bp = rdp_of(E.build(a), rel, INT[:5], n), rdp_of(E.build(b), rel, INT[:5], n)
  for d in (1e-3, 1e-6, 1e-10):
    x, y = A.get_epsilon(d), Bp.get_epsilon(d)
    obs.check(y <= x * (1 + 1e-7) + 1e-9 * (1 + n * 1e-3), 'rdp:order-eps', 'a more private event reports a larger epsilon', delta=d, more_private_value=y, less_private_value=x, **ctx)


def do_rdp1(case, obs, r):
  z = mech.logu(r, .3, 20)
  rel = mech.pick(r, ['ADD_OR_REMOVE_ONE', 'REPLACE_SPECIAL'])
  inner = mech.pick(r, [['g', z], ['comp', [['g', z], ['g', 2 * z]]], ['self', ['g', z], 3]])
  orders = INT + FRAC
  A = rdp_of(E.build(inner), rel, orders).rdp
  if not E.supported(['ps', 1.0, inner], 'rdp', rel):
    return
  for q in (1.0, 1):
    y = rdp_of(E.build(['ps', q, inner]), rel, orders).rdp
    obs.count('rate_one')
    obs.count('rdp_points', len(orders))
    obs.key('rdp1', rel, repr(inner), repr(q))
    obs.check(np.allclose(A, y, rtol=1e-9, atol=0), 'rate1:rdp', 'sampling with probability one differs from no sampling', relation=rel, inner=inner, q=q, sampled=list(map(float, y)), plain=list(map(float, A)))
  y = rdp_of(E.build(['ps', 1 - 1e-12, inner]), rel, INT).rdp
  obs.check(np.allclose(A[:len(INT)], y, rtol=1e-5, atol=1e-9), 'rate1:rdp-near', 'sampling with probability next to one is far from no sampling', relation=rel, inner=inner,
            sampled=list(map(float, y)), plain=list(map(float, A)))
  y = rdp_of(E.build(['ps', 0.0, inner]), rel, orders).rdp
  obs.check(np.all(y == 0), 'rate0:rdp', 'an event that never looks at data has a privacy cost', relation=rel, inner=inner, got=list(map(float, y)))


# ---------------------------------------------------------------- PLD accountant on events

def do_acct(case, obs, r):
  f = float(mech.pick(r, [1 + 10 ** float(-r.uniform(0, 2)), float(r.uniform(1, 3)), 2.0]))
  z = mech.logu(r, .8, 8)
  q = float(mech.pick(r, [mech.logu(r, 1e-3, 1), .5, .1, 1.0]))
  k = mech.pick(r, ['g', 'l', 'rr', 'ps-q', 'ps-z', 'psl', 'mog', 'comp', 'rate1', 'rate1'])
  rel = mech.pick(r, ['ADD_OR_REMOVE_ONE', 'REPLACE_SPECIAL'])
  if k == 'g':
    a, b = ['g', z], ['g', z * f]
  elif k == 'l':
    rel, a, b = 'ADD_OR_REMOVE_ONE', ['l', z], ['l', z * f]
  elif k == 'rr':
    p = float(r.uniform(.05, .9))
    rel, a, b = mech.pick(r, ['REPLACE_ONE', 'REPLACE_SPECIAL']), ['rr', p, 4], ['rr', p + (1 - p) * (1 - 1 / f) * .9, 4]
  elif k == 'ps-q':
    a, b = ['ps', q, ['g', z]], ['ps', q / f, ['g', z]]
  elif k == 'ps-z':
    a, b = ['ps', q, ['g', z]], ['ps', q, ['g', z * f]]
  elif k == 'psl':
    rel, a, b = 'ADD_OR_REMOVE_ONE', ['ps', q, ['l', z]], ['ps', q / f, ['l', z * f]]
  elif k == 'mog':
    s = [0.0, 1.0, float(r.uniform(1, 2))]
    p = [.5, .3, .2]
    rel, a, b = 'ADD_OR_REMOVE_ONE', ['mog', z, s, p], ['mog', z * f, s, p]
  elif k == 'comp':
    a, b = ['comp', [['g', z], ['ps', q, ['g', z]]]], ['self', ['comp', [['ps', q / f, ['g', z * f]], ['g', z * f]]], 1]
  else:
    inner = mech.pick(r, [['g', z], ['l', z]])
    rel, a, b = 'ADD_OR_REMOVE_ONE', inner, ['ps', 1.0, inner]
  if not (E.supported(a, 'pld', rel) and E.supported(b, 'pld', rel)):
    return
  h = float(mech.pick(r, [1e-3, 3.7e-3, 1e-2]))
  n = int(mech.pick(r, [1, 2, 7]))
  A, Bp = E.accountant('pld', rel, None, h), E.accountant('pld', rel, None, h)
  A.compose(E.build(a), n)
  Bp.compose(E.build(b), n)
  obs.count('acct_pairs')
  obs.key(repr((rel, a, b, h, n)))
  ctx = dict(relation=rel, less_private=a, more_private=b, interval=h, count=n)
  parts = 3 if k == 'comp' else 1
  sh = parts * n * h * (1 + 1e-6) + 1e-10
  e0 = A.get_epsilon(1e-4)
  for e in (0.0, e0 * .4 + h * .237, e0 + h * .237, e0 * 1.2 + h * .237):
    obs.count('pld_points')
    da, db = float(A.get_delta(e - sh)) if e >= sh else 1.0, float(Bp.get_delta(e))
    obs.check(db <= da * (1 + 1e-9) + 1e-11 * n, 'acct:order:' + k, 'a more private event reports a larger delta', eps=e, more_private_value=db, less_private_value=da, **ctx)
    if k == 'rate1' and n > 1 and b[2][0] == 'g':
      # Repeated Gaussian releases are merged before the discretization when they are not sampled.
      obs.count('rate_one')
      obs.check(float(A.get_delta(e + sh)) <= db * (1 + 1e-9) + 1e-11 * n, 'rate1:acct', 'sampling with probability one differs from no sampling', eps=e, **ctx)
    elif k == 'rate1':
      da, db = float(A.get_delta(e)), float(Bp.get_delta(e))
      obs.count('rate_one')
      obs.check(abs(da - db) <= 1e-9 * da + 1e-12 * n, 'rate1:acct', 'sampling with probability one differs from no sampling', eps=e, sampled=db, plain=da, **ctx)
  for d in (1e-3, 1e-6):
    x, y = A.get_epsilon(d * (1 - 1e-6)), Bp.get_epsilon(d)
    obs.check(y <= x + sh, 'acct:order-eps:' + k, 'a more private event reports a larger epsilon', delta=d, more_private_value=y, less_private_value=x, **ctx)


def do_helper(case, obs, r):
  """The smallest noise scales with the sensitivity and grows with queries, and shrinks with the budget."""
  from dp_accounting.pld import accountant, common
  k = mech.pick(r, ['gaussian', 'laplace', 'gaussian', 'laplace', 'subsampled' if case['j'] % 10 == 0 else 'gaussian'])
  eps, delta = float(mech.pick(r, [.5, 1.0, 3.0, mech.logu(r, .2, 4)])), mech.logu(r, 1e-7, .02)
  n = int(mech.pick(r, [1, 2, 5]))
  fn = dict(gaussian=accountant.get_smallest_gaussian_noise, laplace=accountant.get_smallest_laplace_noise,
            subsampled=lambda *a, **kw: accountant.get_smallest_subsampled_gaussian_noise(*a, sampling_prob=.3, **kw))[k]
  P = common.DifferentialPrivacyParameters(eps, delta)
  c = float(mech.pick(r, [2.0, 8.0, .25, 3.0, 10.0]))
  x, y = fn(P, num_queries=n, sensitivity=1.0), fn(P, num_queries=n, sensitivity=c)
  obs.count('helper_scalings')
  obs.key('helper', k, eps, delta, n, c)
  ctx = dict(helper=k, eps=eps, delta=delta, n=n)
  # 1e-7 search tolerance on both sides; the discretised curve has jitter on the grid for factors that are not powers of two.
  rel = 1e-6 if k == 'gaussian' else .12
  obs.check(abs(y - c * x) <= 3e-7 * (1 + c) + rel * y, 'helper:scale', 'noise does not scale with the sensitivity', factor=c, one=x, scaled=y, **ctx)
  z = fn(P, num_queries=n + 1, sensitivity=1.0)
  obs.check(z >= x * (1 if k == 'gaussian' else .88) - 3e-7, 'helper:queries', 'more queries need less noise', fewer=x, more=z, **ctx)
  w = fn(common.DifferentialPrivacyParameters(eps * 1.5, delta), num_queries=n, sensitivity=1.0)
  obs.check(w <= x * (1 if k == 'gaussian' else 1.12) + 3e-7, 'helper:budget', 'a larger budget needs more noise', budget=x, larger=w, **ctx)


def do_model(case, obs, r):
  """The exact divergences computed by the mechanism models."""
  from dp_accounting.pld import privacy_loss_mechanism as M
  a, b, what, f = spec_pair(r, mech.pick(r, ['gaussian', 'laplace', 'dlaplace', 'mog']))
  adj = mech.pick(r, [M.AdjacencyType.ADD, M.AdjacencyType.REMOVE])
  def mk(s):
    if s['kind'] == 'gaussian':
      return M.GaussianPrivacyLoss(s['scale'], sensitivity=s['sens'], sampling_prob=s['q'], adjacency_type=adj)
    if s['kind'] == 'laplace':
      return M.LaplacePrivacyLoss(s['scale'], sensitivity=s['sens'], sampling_prob=s['q'], adjacency_type=adj)
    if s['kind'] == 'dlaplace':
      return M.DiscreteLaplacePrivacyLoss(s['scale'], sensitivity=s['sens'], sampling_prob=s['q'], adjacency_type=adj)
    return M.MixtureGaussianPrivacyLoss(s['scale'], s['sens'], s['probs'], adjacency_type=adj)
  A, Bp = mk(a), mk(b)
  obs.count('model_pairs')
  counted(obs, what)
  obs.key(repr((a, b, str(adj))))
  ctx = dict(what=what, less_private=a, more_private=b, adjacency=str(adj))
  tol = (1e-9, 1e-13) if a['kind'] != 'mog' else (1e-7, 1e-10)
  pts = [e for e in points(r, a, 1e-3, 9)]
  for e in pts:
    da, db = float(A.get_delta_for_epsilon(e)), float(Bp.get_delta_for_epsilon(e))
    obs.check(db <= da * (1 + tol[0]) + tol[1], 'model:order:' + what, 'a more private mechanism has a larger divergence', eps=e, more_private_value=db, less_private_value=da, **ctx)
  if a['kind'] != 'dlaplace':
    c = float(mech.pick(r, [2.0, .125, 3.0, 1e3]))
    C = mk(dict(a, scale=a['scale'] * c, sens=[v * c for v in a['sens']] if a['kind'] == 'mog' else a['sens'] * c))
    obs.count('rescaled')
    for e in pts:
      da, dc = float(A.get_delta_for_epsilon(e)), float(C.get_delta_for_epsilon(e))
      obs.check(abs(da - dc) <= 1e-7 * da + (1e-12 if a['kind'] != 'mog' else 1e-10), 'model:scale', 'rescaling noise and sensitivity changed the divergence', eps=e, factor=c, original=da, rescaled=dc, spec=a, adjacency=str(adj))


def run(case, obs):
  r = mech.rng_of(case['s'], 'p07', case['family'])
  globals()['do_' + case['family']](case, obs, r)
