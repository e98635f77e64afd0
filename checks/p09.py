"""P09: Renyi accounting never under-reports the Renyi divergence of a mechanism."""
import math
import numpy as np
from vlib import mech, renyi as R

PROPERTY = 'P09'
RULE = ('an observation is non-trivial when the true divergence is positive and finite; distinct by event tree, '
        'relation and order')
ASSUMPTIONS = ['true divergences: closed forms in 50-digit arithmetic; sampled Gaussian by a geometrically convergent '
               'trapezoid rule in long double (both directions)',
               'fractional orders of sampled Gaussians: the documented series drops signs, so an over-estimate up to the '
               'absolute series (or infinity when that series does not converge) is accepted there']


def REQUIRED(tier):
  return {'gaussian_values': 1500, 'laplace_values': 1500, 'rr_values': 1500, 'sampled_int_values': 1500,
          'sampled_frac_values': 1000, 'tree_values': 1500, 'trees_with_nested_sampling': 30}


def cases(seed, tier):
  n = 3 if tier == 'quick' else 60
  out = []
  for fam, k in (('gaussian', 150), ('laplace', 200), ('rr', 200), ('sampled', 700), ('tree', 400), ('edge', 60)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def orders_of(r, lo=1.0, n=12, sampled=False):
  out = []
  for _ in range(n):
    m = r.random()
    if m < .45:
      out.append(float(r.integers(2, 70)))
    elif m < .55:
      out.append(float(mech.pick(r, [128, 256, 257, 512, 1024, 300])))
    elif m < .75:
      out.append(1 + mech.logu(r, 1e-3, 1))
    elif m < .9:
      out.append(float(r.uniform(1.1, 12)))
    else:
      out.append(float(r.uniform(12, 300)))
  return [max(o, lo) for o in out]


def acct(orders, rel):
  from dp_accounting.rdp import rdp_privacy_accountant as ra
  return ra.RdpAccountant(orders, rel)


def rels():
  from dp_accounting import privacy_accountant as pa
  return pa.NeighboringRelation


def equal(obs, mechn, got, want, ctx, ab=1e-12, rel=1e-8):
  obs.key(repr(ctx))
  if want == math.inf or got == math.inf:
    return obs.check(got == want, mechn, 'Renyi value differs from the true divergence', got=got, want=want, **ctx)
  obs.check(got >= want - ab - rel * want, mechn + ':under', 'Renyi value below the true divergence', got=got, want=want, **ctx)
  return obs.check(got <= want + ab + rel * want, mechn + ':over', 'Renyi value above the true divergence', got=got, want=want, **ctx)


def sampled_value(obs, got, q, sigma, a, count, ctx, mechn='sampled'):
  """count * D_a of the sampled Gaussian."""
  want = R.sampled_gaussian(q, sigma, a)
  ctx = dict(ctx, q=q, sigma=sigma, order=a)
  if a == int(a) or q in (0, 1) or math.isinf(want):
    obs.count('sampled_int_values')
    # float64 evaluation of log(1+tiny): absolute error of about 1e-15 in the log moment.
    return equal(obs, mechn + ':integer', got, want * count, ctx, ab=count * 3e-15 * max(1, a) / min(1, a - 1))
  obs.count('sampled_frac_values')
  obs.key(repr(ctx))
  tol = count * (2e-13 + 3e-15 * a) / min(1, a - 1) + 1e-8 * want * count
  obs.check(got >= want * count - tol, mechn + ':fractional:under', 'Renyi value below the true divergence', got=got, want=want * count, **ctx)
  if got == math.inf:
    obs.count('fractional_infinite')
  up, late = R.fractional_series(q, sigma, a)
  if got == math.inf:
    obs.check(late > -32, mechn + ':fractional:excluded', 'order excluded although the series converges', late=late, **ctx)
  else:
    obs.check(got <= up * count + tol + 1e-8 * up * count, mechn + ':fractional:over', 'Renyi value above the absolute series',
              got=got, up=up * count, true=want * count, **ctx)


def run(case, obs):
  from dp_accounting import dp_event as de
  r = mech.rng_of(case['s'], case['family'])
  f = case['family']
  N = rels()
  if f == 'gaussian':
    nm = mech.pick(r, [mech.logu(r, 0.05, 200), 1, 2.0, 1.0])
    count = int(mech.pick(r, [1, 1, 2, 17, 10 ** 6]))
    orders = orders_of(r) + [1.0, math.inf]
    rel = mech.pick(r, [N.ADD_OR_REMOVE_ONE, N.REPLACE_ONE, N.REPLACE_SPECIAL])
    a = acct(orders, rel).compose(de.GaussianDpEvent(nm), count)
    for o, g in zip(orders, a.rdp):
      obs.count('gaussian_values')
      w = R.gaussian(nm, o) * count
      equal(obs, 'gaussian', float(g), w, dict(nm=nm, order=o, count=count), rel=1e-11)
  elif f == 'laplace':
    nm = mech.pick(r, [mech.logu(r, 0.02, 500), mech.logu(r, 0.2, 5), 1, 2.0, 1.0])
    count = int(mech.pick(r, [1, 1, 3, 1000]))
    orders = orders_of(r) + [1.0, 1 + mech.logu(r, 1e-9, 1e-3), 1.1, 1.0999]
    rel = mech.pick(r, [N.ADD_OR_REMOVE_ONE, N.REPLACE_ONE, N.REPLACE_SPECIAL])
    a = acct(orders, rel).compose(de.LaplaceDpEvent(nm), count)
    for o, g in zip(orders, a.rdp):
      obs.count('laplace_values')
      w = R.laplace(nm, o) * count
      equal(obs, 'laplace', float(g), w, dict(nm=nm, order=o, count=count), rel=1e-8, ab=count * 1e-15 * (1 / nm + 1) / min(1, max(o - 1, 1e-1)))
  elif f == 'rr':
    p = float(mech.pick(r, [mech.logu(r, 1e-6, 1), 1 - mech.logu(r, 1e-6, 1), 0.5, 0.1, 1.0, 0.0, 1]))
    k = int(mech.pick(r, [1, 2, 2, 3, 5, 10, 100, 1000]))
    one = bool(r.random() < .5)
    count = int(mech.pick(r, [1, 1, 3, 50]))
    orders = [max(o, 1.001) for o in orders_of(r)] + [math.inf]
    a = acct(orders, N.REPLACE_ONE if one else N.REPLACE_SPECIAL).compose(de.RandomizedResponseDpEvent(p, k), count)
    for o, g in zip(orders, a.rdp):
      obs.count('rr_values')
      w = R.randomized_response(p, k, o, one) * count
      equal(obs, 'rr:' + ('one' if one else 'special'), float(g), w, dict(p=p, k=k, order=o, count=count), rel=1e-8,
            ab=count * 4e-15 / min(1, o - 1))
  elif f == 'sampled':
    q = float(mech.pick(r, [mech.logu(r, 1e-7, 1), mech.logu(r, 1e-3, 1), float(r.uniform(0, 1)), 0.5, 0.01, 1.0, 0.999]))
    sg = float(mech.pick(r, [mech.logu(r, 0.3, 30), mech.logu(r, 0.5, 3), 1, 2]))
    if r.random() < .5:
      sg = int(sg) if sg >= 1 and sg == int(sg) else sg
    orders = [max(o, 1.01) for o in orders_of(r, n=10)]
    rel = mech.pick(r, [N.ADD_OR_REMOVE_ONE, N.REPLACE_SPECIAL])
    count = int(mech.pick(r, [1, 1, 7, 1000]))
    a = acct(orders, rel).compose(de.PoissonSampledDpEvent(q, de.GaussianDpEvent(sg)), count)
    for o, g in zip(orders, a.rdp):
      sampled_value(obs, float(g), q, sg, o, count, dict(count=count))
      if r.random() < .15 and q < 1:
        obs.count('reverse_direction')
        w = R.sampled_gaussian(q, sg, o, True) * count
        obs.check(float(g) >= w * (1 - 1e-8) - count * (2e-13 + 3e-15 * o) / min(1, o - 1), 'sampled:reverse',
                  'Renyi value below the divergence of the reverse direction', got=float(g), want=w, q=q, sigma=sg, order=o)
  elif f == 'edge':
    edge(r, obs, N, de)
  else:
    tree(r, obs, N, de)


def edge(r, obs, N, de):
  from dp_accounting.rdp import rdp_privacy_accountant as ra
  rel = mech.pick(r, [N.ADD_OR_REMOVE_ONE, N.REPLACE_SPECIAL])
  orders = [1.5, 2, 8, 32.5, 64]
  q = float(r.uniform(0.01, 0.99))
  G = lambda s: de.GaussianDpEvent(s)
  zero = [de.GaussianDpEvent(0), de.LaplaceDpEvent(0), de.NonPrivateDpEvent(), de.PoissonSampledDpEvent(q, G(0)),
          de.PoissonSampledDpEvent(q, de.ComposedDpEvent([G(1.0), G(0.0)])),
          de.PoissonSampledDpEvent(q, de.SelfComposedDpEvent(G(0.0), 3))]
  free = [de.NoOpDpEvent(), de.PoissonSampledDpEvent(0, G(1.0)), de.GaussianDpEvent(math.inf),
          de.PoissonSampledDpEvent(q, G(math.inf)), de.PoissonSampledDpEvent(0, G(0.0)), de.ComposedDpEvent([]),
          de.PoissonSampledDpEvent(q, de.ComposedDpEvent([G(math.inf), G(math.inf)]))]
  for e in zero:
    obs.count('edge_values')
    v = ra.RdpAccountant(orders, rel).compose(G(1.0)).compose(e).rdp
    obs.check(bool(np.all(v == math.inf)), 'edge:zero-noise', 'a release without noise did not make every order infinite', event=repr(e), got=v)
  for e in free:
    obs.count('edge_values')
    v = ra.RdpAccountant(orders, rel).compose(e).rdp
    obs.check(bool(np.all(v == 0)), 'edge:free', 'an event without privacy loss has a cost', event=repr(e), got=v)
  # Default orders: the documented set, all values finite for a plain Gaussian.
  a = ra.RdpAccountant(neighboring_relation=rel).compose(G(2.0))
  obs.check(bool(np.allclose(a.rdp, a.orders / 8.0, rtol=1e-12)), 'edge:default-orders', 'default orders and values are inconsistent')


def random_gauss_tree(r, depth, de):
  """(event, sum of 1/sigma^2)."""
  m = r.random()
  if depth == 0 or m < .3:
    s = float(mech.logu(r, 0.5, 20))
    if r.random() < .3:
      s = int(math.ceil(s))
    return de.GaussianDpEvent(s), float(s) ** -2
  if m < .6:
    e, v = random_gauss_tree(r, depth - 1, de)
    c = int(r.integers(1, 6))
    return de.SelfComposedDpEvent(e, c), v * c
  parts = [random_gauss_tree(r, depth - 1, de) for _ in range(int(r.integers(1, 5)))]
  return de.ComposedDpEvent([p[0] for p in parts]), math.fsum(p[1] for p in parts)


def random_tree(r, depth, de, rel, N, nested):
  """(event, list of (multiplicity, leaf description))."""
  m = r.random()
  if depth == 0 or m < .35:
    kinds = ['g', 'l']
    if rel in (N.ADD_OR_REMOVE_ONE, N.REPLACE_SPECIAL):
      kinds += ['s', 's']
    if rel in (N.REPLACE_ONE, N.REPLACE_SPECIAL):
      kinds += ['r']
    k = mech.pick(r, kinds)
    if k == 'g':
      s = float(mech.logu(r, .3, 20))
      return de.GaussianDpEvent(s), [(1, ('g', s))]
    if k == 'l':
      s = float(mech.logu(r, .2, 20))
      return de.LaplaceDpEvent(s), [(1, ('l', s))]
    if k == 'r':
      p, kk = float(r.uniform(.01, 1)), int(r.integers(2, 6))
      return de.RandomizedResponseDpEvent(p, kk), [(1, ('r', p, kk))]
    e, v = random_gauss_tree(r, int(r.integers(0, 4)), de)
    if not isinstance(e, de.GaussianDpEvent):
      nested.append(1)
    q = float(mech.logu(r, 1e-3, 1))
    return de.PoissonSampledDpEvent(q, e), [(1, ('s', q, v ** -0.5))]
  if m < .6:
    e, l = random_tree(r, depth - 1, de, rel, N, nested)
    c = int(r.integers(1, 5))
    return de.SelfComposedDpEvent(e, c), [(x * c, d) for x, d in l]
  ev, ls = [], []
  for _ in range(int(r.integers(1, 4))):
    e, l = random_tree(r, depth - 1, de, rel, N, nested)
    ev.append(e)
    ls += l
    if r.random() < .1:
      ev.append(de.NoOpDpEvent())
  return de.ComposedDpEvent(ev), ls


def tree(r, obs, N, de):
  rel = mech.pick(r, [N.ADD_OR_REMOVE_ONE, N.REPLACE_ONE, N.REPLACE_SPECIAL])
  orders = sorted({float(r.integers(2, 40)) for _ in range(4)} | {2.0})
  a = acct(orders, rel)
  want = np.zeros(len(orders))
  desc = []
  for _ in range(int(r.integers(1, 4))):
    nested = []
    e, leaves = random_tree(r, int(r.integers(1, 4)), de, rel, N, nested)
    if nested:
      obs.count('trees_with_nested_sampling')
    c = int(r.integers(1, 4))
    a.compose(e, c)
    desc.append((repr(e), c))
    for x, d in leaves:
      for i, o in enumerate(orders):
        if d[0] == 'g':
          v = R.gaussian(d[1], o)
        elif d[0] == 'l':
          v = R.laplace(d[1], o)
        elif d[0] == 'r':
          v = R.randomized_response(d[1], d[2], o, rel == N.REPLACE_ONE)
        else:
          v = R.sampled_gaussian(d[1], d[2], o)
        want[i] += v * x * c
  for o, g, w in zip(orders, a.rdp, want):
    obs.count('tree_values')
    obs.key(repr(desc), o)
    equal(obs, 'tree', float(g), float(w), dict(history=str(desc)[:1500], order=o), ab=1e-11)
