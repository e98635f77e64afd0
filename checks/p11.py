"""P11: conversion from Renyi curves to (epsilon, delta) is sound and best over orders."""
import math
import mpmath as mp
import numpy as np
from vlib import mech, oracle as O, renyi as R

PROPERTY = 'P11'
RULE = ('an observation is non-trivial when the reported epsilon is positive and finite (or delta in (0, 1)); distinct by '
        'curve and query')
ASSUMPTIONS = ['documented conversion (CKS20 Proposition 12 above order 1.01, and the Kullback-Leibler bound) re-implemented in 40 digits',
               'soundness witnessed by mechanisms whose Renyi curve and hockey-stick divergence are both computed exactly']


def REQUIRED(tier):
  return {'epsilon_formula': 3000, 'delta_formula': 3000, 'sound_epsilon': 1500, 'sound_delta': 1500, 'roundtrips': 2000,
          'optimal_orders': 4000, 'rejections': 100, 'accountant_queries': 500, 'infinite_order': 1500}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 25
  out = []
  for fam, k in (('formula', 1200), ('sound-gaussian', 250), ('sound-laplace', 150), ('sound-finite', 500), ('accountant', 250), ('edge', 30), ('infinite-order', 250)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def orders_of(r):
  n = int(r.integers(1, 25))
  out = []
  for _ in range(n):
    m = r.random()
    if m < .4:
      out.append(float(r.integers(2, 100)))
    elif m < .6:
      out.append(1 + mech.logu(r, 1e-3, 1))
    elif m < .9:
      out.append(float(r.uniform(1.01, 20)))
    else:
      out.append(float(mech.pick(r, [1.0, 1.01, 1.005, 256, 1024, 1e4])))
  if r.random() < .8:
    out = sorted(set(out))
  return out


def deltas_of(r):
  return float(mech.pick(r, [mech.logu(r, 1e-15, 1), mech.logu(r, 1e-3, 1), 1e-5, 0.5, 0.9999, 1.0, 1e-300, float(r.uniform(0, 1))]))


def near(a, b, rel=1e-9, ab=1e-12):
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def run(case, obs):
  from dp_accounting.rdp import rdp_privacy_accountant as ra
  r = mech.rng_of(case['s'], case['family'])
  globals()[case['family'].replace('-', '_')](r, obs, ra)


def judge(obs, ra, orders, rdp, delta=None, eps=None, tagp=''):
  """One conversion against the documented formula, plus range and optimal-order laws."""
  ctx = dict(orders=list(map(float, orders))[:40], rdp=list(map(float, rdp))[:40])
  if delta is not None:
    e, o = ra.compute_epsilon(orders, rdp, delta)
    w = R.eps_of(orders, rdp, delta)
    obs.count('epsilon_formula')
    # Near the Kullback-Leibler threshold either value is within rounding.
    if any(abs(delta ** 2 + math.expm1(-x)) < 1e-14 for x in rdp if 0 <= x < 700):
      obs.count('threshold_skipped')
    else:
      obs.check(near(e, w, ab=1e-11 * (1 + max([x for x in rdp if math.isfinite(x)], default=0))), tagp + 'epsilon', 'epsilon is not the best documented conversion over the orders',
                delta=delta, got=float(e), want=w, **ctx)
    obs.check(e >= 0, tagp + 'epsilon-range', 'negative epsilon', delta=delta, got=float(e), **ctx)
    obs.count('optimal_orders')
    if obs.check(o in list(orders), tagp + 'optimal-order', 'reported order is not tracked', got=float(o), **ctx):
      vals = [ra.compute_epsilon([o], [x], delta)[0] for a, x in zip(orders, rdp) if a == o]
      obs.check(any(near(v, e) for v in vals), tagp + 'optimal-order', 'reported order does not attain the reported epsilon',
                delta=delta, got=float(e), at_order=[float(v) for v in vals], order=float(o), **ctx)
    if 0 < e < math.inf:
      obs.key(repr(ctx), delta)
    if math.isfinite(e):
      back, _ = ra.compute_delta(orders, rdp, e)
      obs.count('roundtrips')
      # d(log delta)/d(eps) = -(order-1): float rounding of epsilon is amplified by the order.
      amp = max(orders) * 4e-16 * (1 + e + max([x for x in rdp if math.isfinite(x)], default=0)) * 8
      obs.check(back <= delta * (1 + 1e-9 + amp) + 1e-300 + 1e-14 * (delta > 1e-9), tagp + 'roundtrip', 'delta at the reported epsilon exceeds the requested delta',
                delta=delta, eps=float(e), back=float(back), **ctx)
    return e
  d, o = ra.compute_delta(orders, rdp, eps)
  w = R.delta_of(orders, rdp, eps)
  obs.count('delta_formula')
  amp = max(orders) * 4e-16 * (1 + eps + max([x for x in rdp if math.isfinite(x)], default=0)) * 8
  obs.check(abs(d - w) <= (1e-9 + amp) * max(d, w) + 1e-300, tagp + 'delta', 'delta is not the best documented conversion over the orders',
            eps=eps, got=float(d), want=w, **ctx)
  obs.check(0 <= d <= 1, tagp + 'delta-range', 'delta out of range', eps=eps, got=float(d), **ctx)
  obs.count('optimal_orders')
  if obs.check(o in list(orders), tagp + 'optimal-order', 'reported order is not tracked', got=float(o), **ctx):
    vals = [ra.compute_delta([o], [x], eps)[0] for a, x in zip(orders, rdp) if a == o]
    obs.check(any(near(v, d, ab=1e-300) for v in vals), tagp + 'optimal-order', 'reported order does not attain the reported delta',
              eps=eps, got=float(d), at_order=[float(v) for v in vals], order=float(o), **ctx)
  if 0 < d < 1:
    obs.key(repr(ctx), eps)
  return d


def formula(r, obs, ra):
  orders = orders_of(r)
  m = r.random()
  if m < .4:
    c = mech.logu(r, 1e-6, 30)
    rdp = [c * a for a in orders]
  elif m < .7:
    v = np.cumsum(r.exponential(mech.logu(r, 1e-4, 3), len(orders)))
    idx = np.argsort(orders)
    rdp = np.zeros(len(orders))
    rdp[idx] = v
    rdp = [float(x) for x in rdp]
  else:
    rdp = [float(mech.logu(r, 1e-9, 100)) for _ in orders]
  if r.random() < .3:
    for i in range(len(rdp)):
      if r.random() < .3:
        rdp[i] = float(mech.pick(r, [0.0, math.inf, mech.logu(r, 1e-12, 1e3), mech.logu(r, 1e-25, 1e-9)]))
  if r.random() < .3:
    orders, rdp = np.array(orders), np.array(rdp)
  prev = None
  ds = sorted(deltas_of(r) for _ in range(4))
  for d in ds:
    e = judge(obs, ra, orders, rdp, delta=d)
    if prev is not None:
      obs.check(e <= prev + 1e-11 * (1 + abs(prev)) or e == prev, 'epsilon-monotone', 'epsilon increases with delta', deltas=ds, orders=list(orders), rdp=list(rdp))
    prev = e
  prev = None
  es = sorted([0.0, float(mech.logu(r, 1e-3, 50)), float(mech.logu(r, 1e-1, 500)), float(r.uniform(0, 5))])
  for e in es:
    d = judge(obs, ra, orders, rdp, eps=e)
    if prev is not None:
      obs.check(d <= prev * (1 + 1e-9), 'delta-monotone', 'delta increases with epsilon', eps=es, orders=list(orders), rdp=list(rdp))
    prev = d


def sound(obs, ra, orders, rdp, delta_fn, r, ctx, scale):
  """The reported guarantee must hold for a mechanism with exactly this curve."""
  for _ in range(5):
    d = min(deltas_of(r), 0.99999)
    if d < 1e-30:
      continue
    e, _ = ra.compute_epsilon(orders, rdp, d)
    obs.count('sound_epsilon')
    if math.isfinite(e):
      t = float(delta_fn(e))
      obs.key(repr(ctx), d)
      obs.check(t <= d * (1 + 1e-7) + 1e-16, 'unsound-epsilon', 'a mechanism with this Renyi curve has a larger delta at the reported epsilon',
                eps=float(e), delta=d, true=t, **ctx)
  for _ in range(5):
    e = float(mech.pick(r, [0.0, float(r.uniform(0, scale)), mech.logu(r, 1e-3, 1) * scale, 2 * scale]))
    d, _ = ra.compute_delta(orders, rdp, e)
    t = float(delta_fn(e))
    obs.count('sound_delta')
    obs.key(repr(ctx), e)
    obs.check(t <= d * (1 + 1e-7) + 1e-16, 'unsound-delta', 'a mechanism with this Renyi curve has a larger delta', eps=e, got=float(d), true=t, **ctx)


def witness_orders(r):
  from dp_accounting.rdp import rdp_privacy_accountant as ra
  m = r.random()
  if m < .3:
    return list(ra.DEFAULT_RDP_ORDERS)
  if m < .6:
    return [float(v) for v in np.exp(r.uniform(math.log(1.02), math.log(300), int(r.integers(1, 30))))]
  return [float(r.uniform(1.02, 2.5)) for _ in range(int(r.integers(1, 6)))]


def sound_gaussian(r, obs, ra):
  s = mech.logu(r, .1, 50)
  T = O.Gaussian(s)
  orders = witness_orders(r)
  rdp = [R.gaussian(s, a) for a in orders]
  sound(obs, ra, orders, rdp, T.H, r, dict(sigma=s, orders=orders[:30]), 1 / s ** 2 + 6 / s)


def sound_laplace(r, obs, ra):
  b = mech.logu(r, .1, 50)
  T = O.Laplace(b)
  orders = witness_orders(r)
  rdp = [R.laplace(b, a) for a in orders]
  sound(obs, ra, orders, rdp, T.H, r, dict(b=b, orders=orders[:30]), 1.1 / b)


def sound_finite(r, obs, ra):
  n = int(r.integers(2, 6))
  P = r.dirichlet(np.full(n, mech.pick(r, [.2, 1, 5])))
  m = r.random()
  if m < .5:
    Q = r.dirichlet(np.full(n, mech.pick(r, [.2, 1, 5])))
  else:
    Q = P * np.exp(r.normal(0, mech.logu(r, .01, 8), n))
    if m < .75:  # a rare large loss: the conversion's extremal shape
      Q = P.copy()
      P = P * 1.0
      j = int(r.integers(n))
      P[j] = mech.logu(r, 1e-8, .5)
      Q[j] = P[j] * math.exp(-mech.logu(r, .1, 30))
  P = np.maximum(P, 1e-18)
  Q = np.maximum(Q, 1e-25)
  P, Q = P / P.sum(), Q / Q.sum()
  P = [mp.mpf(float(v)) for v in P]
  Q = [mp.mpf(float(v)) for v in Q]
  sp, sq = mp.fsum(P), mp.fsum(Q)
  P, Q = [v / sp for v in P], [v / sq for v in Q]

  def H(e):
    c = mp.exp(e)
    return mp.fsum(max(mp.mpf(0), p - c * q) for p, q in zip(P, Q))
  orders = witness_orders(r)
  rdp = [R.finite(P, Q, a) for a in orders]
  if min(rdp) < 1e-13:
    return
  sc = float(max(mp.log(p / q) for p, q in zip(P, Q)))
  sound(obs, ra, orders, rdp, H, r, dict(P=[float(v) for v in P], Q=[float(v) for v in Q], orders=orders[:30]), max(sc, 0.01))


def accountant(r, obs, ra):
  from dp_accounting import dp_event as de
  a = ra.RdpAccountant(orders=None if r.random() < .3 else sorted(set(o for o in orders_of(r) if o > 1)) or [2.0])
  for _ in range(int(r.integers(0, 4))):
    e = mech.pick(r, [de.GaussianDpEvent(mech.logu(r, .3, 30)), de.LaplaceDpEvent(mech.logu(r, .3, 30))])
    a.compose(e, int(r.integers(1, 20)))
  orders, rdp = a.orders, a.rdp
  for _ in range(3):
    d = deltas_of(r)
    e = judge(obs, ra, orders, rdp, delta=d, tagp='accountant-')
    ge = a.get_epsilon(d)
    go, oo = a.get_epsilon_and_optimal_order(d)
    obs.count('accountant_queries', 2)
    obs.check(ge == e and go == e and oo in list(orders), 'accountant-epsilon', 'accountant epsilon is not that of its curve', got=[ge, go], want=e, delta=d)
    x = float(mech.logu(r, 1e-3, 50))
    dl = judge(obs, ra, orders, rdp, eps=x, tagp='accountant-')
    gd = a.get_delta(x)
    g2, o2 = a.get_delta_and_optimal_order(x)
    obs.check(gd == dl and g2 == dl and o2 in list(orders), 'accountant-delta', 'accountant delta is not that of its curve', got=[gd, g2], want=dl, eps=x)


def edge(r, obs, ra):
  o = [2.0, 4.0]
  for f in (lambda: ra.compute_epsilon(o, [1.0], 1e-5), lambda: ra.compute_delta(o, [1.0], 1.0), lambda: ra.compute_epsilon([0.5], [1.0], 1e-5),
            lambda: ra.compute_delta([0.5, 2], [1.0, 1.0], 1.0), lambda: ra.compute_epsilon(o, [1.0, 2.0], -1e-9), lambda: ra.compute_delta(o, [1.0, 2.0], -1e-9)):
    obs.count('rejections')
    try:
      v = f()
    except ValueError:
      continue
    obs.check(False, 'malformed-accepted', 'malformed input was accepted', got=repr(v))
  obs.check(ra.compute_epsilon(o, [0.0, 0.0], 0)[0] == 0, 'zero-delta', 'no loss but positive epsilon at delta 0')
  obs.check(ra.compute_epsilon(o, [0.0, 1e-9], 0)[0] == math.inf, 'zero-delta', 'finite epsilon at delta 0 from a non-zero curve')
  obs.check(ra.compute_epsilon(o, [math.inf, math.inf], 1e-5)[0] == math.inf, 'infinite', 'finite epsilon from an infinite curve')
  obs.check(ra.compute_delta(o, [math.inf, math.inf], 10.0)[0] == 1, 'infinite', 'delta below one from an infinite curve')
  x = float(mech.logu(r, 1e-3, 10))
  obs.check(near(ra.compute_epsilon(o, [math.inf, x], 1e-5)[0], ra.compute_epsilon([4.0], [x], 1e-5)[0]), 'infinite', 'an infinite order changes the best value')


def infinite_order(r, obs, ra):
  """Order infinity is a bound on the privacy loss itself; it joins the minimum like any other order."""
  from dp_accounting import dp_event as de, privacy_accountant as pa
  orders = sorted(set(o for o in orders_of(r) if o > 1))[:int(r.integers(0, 8))]
  if r.random() < .5:
    c = mech.logu(r, 1e-3, 3)
    rdp = [c * a for a in orders]
    x = float(mech.pick(r, [math.inf, mech.logu(r, 1e-3, 100), max(rdp, default=1.0), 0.0]))
    i = int(r.integers(0, len(orders) + 1))
    oo, rr = orders[:i] + [math.inf] + orders[i:], rdp[:i] + [x] + rdp[i:]
    eps_fn, delta_fn = lambda d: ra.compute_epsilon(oo, rr, d), lambda e: ra.compute_delta(oo, rr, e)
  else:
    i = int(r.integers(0, len(orders) + 1))
    oo = orders[:i] + [math.inf] + orders[i:]
    a = ra.RdpAccountant(oo, pa.NeighboringRelation.REPLACE_ONE)
    x = 0.0
    for _ in range(int(r.integers(1, 4))):
      if r.random() < .3:
        a.compose(de.GaussianDpEvent(mech.logu(r, 1, 30)))
        x = math.inf
      else:
        p, k, n = float(r.uniform(.05, 1)), int(r.integers(2, 9)), int(r.integers(1, 5))
        a.compose(de.RandomizedResponseDpEvent(p, k), n)
        x += n * math.log((1 - p + p / k) / (p / k))
    rr = [float(v) for v in a.rdp]
    obs.check(near(rr[i], x), 'infinite-order-rdp', 'the Renyi value of infinite order is not the largest privacy loss', got=rr[i], want=x)
    x = rr[i]
    rdp = rr[:i] + rr[i + 1:]
    eps_fn, delta_fn = a.get_epsilon_and_optimal_order, a.get_delta_and_optimal_order
  ctx = dict(orders=repr(oo), rdp=repr(rr))
  for d in [deltas_of(r) for _ in range(4)]:
    obs.count('infinite_order')
    if any(abs(d ** 2 + math.expm1(-v)) < 1e-14 for v in rr if 0 <= v < 700):
      continue
    e, _ = eps_fn(d)
    w = R.eps_of(orders, rdp, d) if orders else math.inf
    w = min(w, 0.0 if d ** 2 + math.expm1(-x) > 0 else x)
    obs.key('inf', repr(ctx), d)
    obs.check(near(float(e), w, ab=1e-10), 'infinite-order-epsilon', 'epsilon is not the best conversion over orders that include infinity', delta=d, got=float(e), want=w, **ctx)
  for e in (0.0, mech.logu(r, 1e-2, 50), x * 1.0001, x * .9999):
    if math.isinf(e) or e == x:
      continue
    obs.count('infinite_order')
    d, _ = delta_fn(e)
    w = R.delta_of(orders, rdp, e) if orders else 1.0
    w = min(w, 0.0 if e > x or x == 0 else math.sqrt(-math.expm1(-x)))
    amp = max(orders, default=1) * 4e-15 * (1 + e + max([v for v in rdp if math.isfinite(v)], default=0))
    obs.key('inf', repr(ctx), e)
    obs.check(abs(float(d) - w) <= (1e-9 + amp) * max(d, w) + 1e-300, 'infinite-order-delta', 'delta is not the best conversion over orders that include infinity',
              eps=e, got=float(d), want=w, **ctx)
