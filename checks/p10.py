"""P10: Renyi bounds for compound mechanisms dominate the exact mechanism."""
import math
import numpy as np
from vlib import mech, renyi as R

PROPERTY = 'P10'
RULE = ('an observation is non-trivial when the exact divergence of the described procedure is positive; distinct by '
        'event, base mechanism and order')
ASSUMPTIONS = ['exact procedures: best-of-K output laws through probability generating functions (discrete bases in '
               '50-digit arithmetic, Gaussian base by quadrature in long double); dyadic nodes counted explicitly; '
               'sampling without replacement through concrete neighbouring one-dimensional data sets',
               'documented bounds re-derived independently (Theorem 27 of 1808.00087, Theorems 2 and 6 of 2110.03620)']


def REQUIRED(tier):
  return {'swor_values': 800, 'swor_witness': 300, 'tree_values': 500, 'repeat_values': 1500,
          'repeat_exact_discrete': 800, 'repeat_exact_gaussian': 80, 'poisson_shape': 200, 'tnb_shape': 500}


def cases(seed, tier):
  n = 3 if tier == 'quick' else 60
  out = []
  for fam, k in (('swor', 250), ('tree', 250), ('repeat-rr', 500), ('repeat-gauss', 160), ('repeat-compound', 150), ('edge', 30)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def run(case, obs):
  from dp_accounting import dp_event as de
  from dp_accounting import privacy_accountant as pa
  from dp_accounting.rdp import rdp_privacy_accountant as ra
  N = pa.NeighboringRelation
  r = mech.rng_of(case['s'], case['family'])
  f = case['family']
  {'swor': swor, 'tree': tree, 'repeat-rr': repeat_rr, 'repeat-gauss': repeat_gauss,
   'repeat-compound': repeat_compound, 'edge': edge}[f](r, obs, de, N, ra)


def swor(r, obs, de, N, ra):
  n = int(mech.pick(r, [2, 3, 5, 10, 100, 1000, 10 ** 6]))
  m = int(r.integers(1, n + 1)) if r.random() < .5 else max(1, int(n * mech.logu(r, 1e-3, 1)))
  q = m / n
  parts = []
  if r.random() < .5:
    sg = float(mech.logu(r, 0.4, 12))
    e = de.GaussianDpEvent(sg)
  else:
    ss = [float(mech.logu(r, 0.8, 12)) for _ in range(int(r.integers(1, 4)))]
    c = int(r.integers(1, 4))
    e = de.SelfComposedDpEvent(de.ComposedDpEvent([de.GaussianDpEvent(s) for s in ss]), c)
    sg = (c * sum(s ** -2 for s in ss)) ** -0.5
  orders = sorted({float(r.integers(2, 20)) for _ in range(3)} | {float(r.integers(20, 65)), float(r.uniform(1.05, 10)),
                  float(r.uniform(1.05, 1.99)), float(mech.pick(r, [2, 3, 128, 256, 257, 300.5]))})
  count = int(mech.pick(r, [1, 1, 5]))
  v = ra.RdpAccountant(orders, N.REPLACE_ONE).compose(de.SampledWithoutReplacementDpEvent(n, m, e), count).rdp
  for o, g in zip(orders, v):
    g = float(g) / count
    ctx = dict(n=n, m=m, sigma=sg, order=o)
    obs.count('swor_values')
    if o <= 130:
      w = R.swor_witness(q, sg, o) if q < 1 else R.gaussian(sg, o)
      if w > 0:
        obs.count('swor_witness')
        obs.key(repr(ctx))
      obs.check(g >= w * (1 - 1e-6) - 1e-12 / min(1, o - 1), 'swor:under', 'Renyi value below the divergence of a concrete neighbouring pair', got=g, want=w, **ctx)
    coarse = R.swor_bound(q, sg, o, fine=False)
    obs.check(g <= coarse * (1 + 1e-9) + 1e-12 / min(1, o - 1), 'swor:over', 'Renyi value above the documented bound', got=g, bound=coarse, **ctx)
    if sg <= 3 and o <= 30 or o > 256 and o == int(o) or q == 1:
      b = R.swor_bound(q, sg, o)
      obs.count('swor_equalities')
      obs.check(abs(g - b) <= 1e-5 * b + 1e-11 / min(1, o - 1), 'swor:bound', 'Renyi value differs from the documented bound', got=g, bound=b, **ctx)


def tree(r, obs, de, N, ra):
  def steps():
    m = r.random()
    if m < .5:
      return int(r.integers(1, 300))
    if m < .8:
      k = int(r.integers(1, 45))
      return max(1, 2 ** k + int(r.integers(-1, 2)))
    return int(mech.logu(r, 1, 1e6))
  if r.random() < .5:
    sc = steps()
    lst = [sc]
  else:
    lst = [steps() for _ in range(int(r.integers(1, 6)))]
    if r.random() < .3:
      lst.insert(int(r.integers(len(lst) + 1)), 0)
    sc = lst
  nm = float(mech.logu(r, .3, 50))
  orders = [1.5, 2.0, float(r.uniform(1.01, 64)), 64.0, math.inf]
  count = int(r.integers(1, 5))
  a = ra.RdpAccountant(orders, N.REPLACE_SPECIAL)
  w1 = 0
  if r.random() < .3:
    a.compose(de.GaussianDpEvent(2.0))
    w1 = 1
  v = a.compose(de.SingleEpochTreeAggregationDpEvent(nm, sc), count).rdp
  k = max(R.tree_nodes(s) for s in lst)
  for o, g in zip(orders, v):
    obs.count('tree_values')
    obs.key('tree', repr(sc), nm, o)
    w = k * R.gaussian(nm, o) * count + (R.gaussian(2.0, o) if w1 else 0)
    ok = g == w if math.isinf(w) else abs(g - w) <= 1e-10 * w
    obs.check(ok, 'tree', 'Renyi value differs from that of the nodes a record can influence', steps=sc, nm=nm, order=o, got=float(g), want=w, nodes=k, count=count)


def reps(r):
  shape = mech.pick(r, [math.inf, 1, 1.0, 0, 0.0, 0.5, 2, float(r.uniform(0, 5)), mech.logu(r, 1e-4, 30), math.inf])
  mean = float(mech.pick(r, [mech.logu(r, 1, 300), mech.logu(r, 1, 5), 1.0, 2, 10]))
  return shape, mean


def doc_check(obs, orders, base, got, mean, shape, ctx):
  b = R.repeat_bound(orders, base, mean, shape)
  for o, g, w in zip(orders, got, b):
    obs.count('repeat_values')
    if math.isinf(w):
      continue
    obs.check(g <= w * (1 + 1e-6) + 4e-9 * (1 + (0 if math.isinf(shape) else shape)), 'repeat:over', 'Renyi value above the documented bound', order=o, got=float(g), bound=w, **ctx)
    obs.check(g >= w * (1 - 1e-6) - 1e-9, 'repeat:bound', 'Renyi value below the documented bound', order=o, got=float(g), bound=w, **ctx)


def repeat_rr(r, obs, de, N, ra):
  shape, mean = reps(r)
  p, k = float(mech.pick(r, [float(r.uniform(.02, .98)), mech.logu(r, 1e-3, 1)])), int(r.integers(2, 6))
  one = bool(r.random() < .5)
  rel = N.REPLACE_ONE if one else N.REPLACE_SPECIAL
  orders = sorted({float(r.integers(2, 30)), float(r.uniform(1.02, 3)), 2.0, 5.5, 16.0, float(r.uniform(20, 200))})
  base = ra.RdpAccountant(orders, rel).compose(de.RandomizedResponseDpEvent(p, k)).rdp
  prior = r.random() < .3
  count = int(mech.pick(r, [1, 1, 2]))
  a = ra.RdpAccountant(orders, rel)
  if prior:
    a.compose(de.LaplaceDpEvent(3.0))
  got = a.compose(de.RepeatAndSelectDpEvent(de.RandomizedResponseDpEvent(p, k), mean, shape), count).rdp
  if prior:
    got = got - np.array([R.laplace(3.0, o) for o in orders])
  got = got / count
  ctx = dict(p=p, k=k, mean=mean, shape=shape, one=one, prior=prior, count=count)
  obs.count('poisson_shape' if math.isinf(shape) else 'tnb_shape', len(orders))
  rep = R.Repetitions(mean, shape)
  hi, lo = 1 - p + p / k, p / k
  pairs = []
  for x in range(k):
    P = [lo] * k
    P[x] = hi
    if one:
      for y in range(k):
        if y != x:
          Q = [lo] * k
          Q[y] = hi
          pairs.append((P, Q))
    else:
      U = [1.0 / k] * k
      pairs += [(P, U), (U, P)]
  if len(pairs) > 6:
    pairs = [pairs[int(i)] for i in r.permutation(len(pairs))[:6]]
  sel = [(rep.select_finite(P), rep.select_finite(Q)) for P, Q in pairs]
  for o, g in zip(orders, got):
    for (P, Q), (SP, SQ) in zip(pairs, sel):
      w = R.finite(SP, SQ, o)
      obs.count('repeat_exact_discrete')
      if w > 0:
        obs.key(repr(ctx), o, P.index(max(P)))
      obs.check(float(g) >= w * (1 - 1e-7) - 1e-10, 'repeat:under', 'Renyi value below the divergence of repeating and selecting',
                order=o, got=float(g), want=w, P=P, Q=Q, **ctx)
  doc_check(obs, orders, base, got, mean, shape, ctx)


def repeat_gauss(r, obs, de, N, ra):
  shape, mean = reps(r)
  sg = float(mech.logu(r, .5, 8))
  rel = mech.pick(r, [N.ADD_OR_REMOVE_ONE, N.REPLACE_ONE, N.REPLACE_SPECIAL])
  orders = sorted({1.5, 2.0, float(r.integers(3, 12)), float(r.uniform(1.1, 20)), 32.0})
  base = ra.RdpAccountant(orders, rel).compose(de.GaussianDpEvent(sg)).rdp
  got = ra.RdpAccountant(orders, rel).compose(de.RepeatAndSelectDpEvent(de.GaussianDpEvent(sg), mean, shape)).rdp
  ctx = dict(sigma=sg, mean=mean, shape=shape)
  obs.count('poisson_shape' if math.isinf(shape) else 'tnb_shape', len(orders))
  doc_check(obs, orders, base, got, mean, shape, ctx)
  rep = R.Repetitions(mean, shape)
  for o, g in zip(orders, got):
    if o > 20:
      continue
    for up in (True, False):
      w = R.select_gaussian(rep, sg, o, up)
      if w is None or math.isnan(w):
        obs.count('quadrature_skipped')
        continue
      obs.count('repeat_exact_gaussian')
      obs.key(repr(ctx), o, up)
      obs.check(float(g) >= w * (1 - 1e-5) - 1e-7, 'repeat:under', 'Renyi value below the divergence of repeating and selecting',
                order=o, got=float(g), want=w, up=up, **ctx)


def repeat_compound(r, obs, de, N, ra):
  """Compound bases: bound must be that of the base's total Renyi curve."""
  shape, mean = reps(r)
  rel = mech.pick(r, [N.ADD_OR_REMOVE_ONE, N.REPLACE_SPECIAL])
  parts = [de.GaussianDpEvent(float(mech.logu(r, 1, 9))), de.LaplaceDpEvent(float(mech.logu(r, 1, 9))),
           de.PoissonSampledDpEvent(float(r.uniform(.01, .5)), de.GaussianDpEvent(float(mech.logu(r, 1, 5))))]
  e = de.ComposedDpEvent([parts[int(i)] for i in r.integers(0, 3, int(r.integers(1, 4)))])
  if r.random() < .3:
    e = de.SelfComposedDpEvent(e, int(r.integers(2, 5)))
  orders = sorted({float(v) for v in r.integers(2, 60, 6)})
  perm = [orders[int(i)] for i in r.permutation(len(orders))]
  base = ra.RdpAccountant(perm, rel).compose(e).rdp
  before = float(mech.logu(r, 1, 9))
  a = ra.RdpAccountant(perm, rel).compose(de.GaussianDpEvent(before))
  c = int(r.integers(1, 4))
  got = a.compose(de.RepeatAndSelectDpEvent(e, mean, shape), c).rdp
  got = (got - np.array([R.gaussian(before, o) for o in perm])) / c
  ctx = dict(event=repr(e), mean=mean, shape=shape, count=c, before=before)
  obs.count('poisson_shape' if math.isinf(shape) else 'tnb_shape', len(orders))
  obs.key(repr(ctx))
  doc_check(obs, perm, base, got, mean, shape, ctx)
  if mean == 1 and not math.isinf(shape):
    pass


def edge(r, obs, de, N, ra):
  orders = [2.0, 8.0, 32.0]
  n = int(r.integers(2, 50))
  G = de.GaussianDpEvent
  inf = [(de.SampledWithoutReplacementDpEvent(n, 1, G(0.0)), N.REPLACE_ONE), (de.SampledWithoutReplacementDpEvent(n, n, G(0)), N.REPLACE_ONE),
         (de.SingleEpochTreeAggregationDpEvent(0, 4), N.REPLACE_SPECIAL), (de.SingleEpochTreeAggregationDpEvent(0.0, [4, 2]), N.REPLACE_SPECIAL),
         (de.RepeatAndSelectDpEvent(de.NonPrivateDpEvent(), 3.0, 1.0), N.ADD_OR_REMOVE_ONE),
         (de.RepeatAndSelectDpEvent(G(0.0), 3.0, math.inf), N.ADD_OR_REMOVE_ONE)]
  for e, rel in inf:
    obs.count('edge_values')
    v = ra.RdpAccountant(orders, rel).compose(e).rdp
    obs.check(bool(np.all(v == math.inf)), 'edge:zero-noise', 'a procedure without noise has finite Renyi values', event=repr(e), got=v)
  zero = [(de.SampledWithoutReplacementDpEvent(n, 0, G(1.0)), N.REPLACE_ONE), (de.SampledWithoutReplacementDpEvent(n, 1, G(math.inf)), N.REPLACE_ONE)]
  for e, rel in zero:
    obs.count('edge_values')
    v = ra.RdpAccountant(orders, rel).compose(e).rdp
    obs.check(bool(np.all(v == 0)), 'edge:free', 'a procedure without privacy loss has a cost', event=repr(e), got=v)
  bad = [de.RepeatAndSelectDpEvent(G(1.0), 0.5, 1.0), de.RepeatAndSelectDpEvent(G(1.0), 2.0, -1.0),
         de.RepeatAndSelectDpEvent(G(1.0), math.nan, 1.0), de.RepeatAndSelectDpEvent(G(1.0), 2.0, math.nan),
         de.SingleEpochTreeAggregationDpEvent(1.0, []), de.SingleEpochTreeAggregationDpEvent(1.0, 0),
         de.SingleEpochTreeAggregationDpEvent(-1.0, 4), de.SingleEpochTreeAggregationDpEvent(1.0, [4, -1])]
  for e in bad:
    obs.count('rejections')
    a = ra.RdpAccountant(orders, N.REPLACE_SPECIAL)
    try:
      a.compose(e)
    except (ValueError, TypeError):
      obs.check(bool(np.all(a.rdp == 0)), 'edge:partial', 'a rejected event changed the accountant', event=repr(e))
      continue
    obs.check(False, 'edge:accepted', 'an invalid event was accepted', event=repr(e), rdp=a.rdp)
