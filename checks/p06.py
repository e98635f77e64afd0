"""P06: distributions built from explicit probabilities or guarantees are faithful."""
import math
import numpy as np
from vlib import mech, oracle as O

PROPERTY = 'P06'
RULE = ('an observation is one delta of a constructed distribution compared with the exact divergence of the object it was '
        'built from (both directions, both estimates); non-trivial when the true delta lies in (1e-13, 1); distinct by object, setting and epsilon')
ASSUMPTIONS = ['true divergences by long-double summation or closed form', 'slack 1e-9 relative + 1e-12 absolute']
LD = np.longdouble


def REQUIRED(tier):
  return {'points': 20000, 'tight': 15000, 'pair': 200, 'rr': 150, 'cdf': 60, 'guarantee': 100, 'disjoint': 40, 'near_grid': 60, 'dots': 150, 'dots_rejected': 60}


def cases(seed, tier):
  n = 9000 if tier == 'quick' else 30000
  fams = ['pair', 'rr', 'guarantee', 'pair', 'rr', 'cdf', 'rounded', 'pair', 'dots']
  return [dict(family=fams[i % 9], s=seed * 1000003 + i) for i in range(n)]


def judge(obs, pl, H, h, pess, pts, tag, trunc=0.0, desc=None, tight=True):
  """H: list of direction functions eps -> true delta; delta is their max."""
  for e in pts:
    true = max(f(e) for f in H)
    d = float(pl.get_delta_for_epsilon(e))
    sl = 1e-9 * true + 1e-12
    obs.count('points')
    if 1e-13 < true < 1:
      obs.key(tag, str(desc)[:80], round(e, 9))
    hp = h * (1 + 1e-7) + 1e-11 * max(1, abs(e))
    if pess:
      obs.check(d >= true - sl, 'under-reported:' + tag, 'pessimistic delta below the true divergence', eps=e, got=d, true=true, desc=desc, h=h)
      hi = max(f(e - hp) for f in H)
      obs.count('tight')
      if tight:
        obs.check(d <= hi + trunc + sl, 'not-tight:' + tag, 'pessimistic delta above the true divergence one interval below', eps=e, got=d, bound=hi, desc=desc, h=h, trunc=trunc)
    else:
      obs.check(d <= true + sl, 'over-reported:' + tag, 'optimistic delta above the true divergence', eps=e, got=d, true=true, desc=desc, h=h)
      lo = max(f(e + hp) for f in H)
      obs.count('tight')
      if tight:
        obs.check(d >= lo - trunc - sl, 'not-tight:' + tag, 'optimistic delta below the true divergence one interval above', eps=e, got=d, bound=lo, desc=desc, h=h, trunc=trunc)


def hs(p, q):
  p, q = np.asarray(p, dtype=LD), np.asarray(q, dtype=LD)

  def f(e):
    d = p - np.exp(LD(e)) * q
    return float(np.sum(d[d > 0]))
  return f


def points(r, losses, h, n=12):
  fin = [l for l in losses if math.isfinite(l)] or [0.0]
  lo, hi = min(fin), max(fin)
  pts = [0.0, h, -h, hi, hi + h, lo - 3]
  for _ in range(n):
    l = float(mech.pick(r, fin))
    pts.append(l + mech.pick(r, [0, -h / 2, h / 2, -h, 1e-9, -1e-9]))
    pts.append(float(r.uniform(lo - h, hi + h)))
  return [p for p in pts if abs(p) < 2000]


def run(case, obs):
  r = mech.rng_of(case['s'], 'p06')
  globals()['fam_' + case['family']](r, obs)


def rand_interval(r):
  return mech.pick(r, [1e-4, 1e-3, 1e-2, .1, .5, 1.0, 1, mech.logu(r, 1e-4, 1)])


def fam_pair(r, obs):
  from dp_accounting.pld import privacy_loss_distribution as P
  h = rand_interval(r)
  pess = bool(r.random() < .6)
  k = int(mech.pick(r, [1, 2, 2, 3, 4, 6, 20, 200]))
  mode = mech.pick(r, ['plain', 'plain', 'grid', 'disjoint', 'tiny', 'neargrid'])
  if mode == 'neargrid':
    # Losses a hair above or below a grid point; one outcome absorbs the normalisation.
    obs.count('near_grid')
    k = max(k, 2)
    q = r.dirichlet(np.full(k, 3.0))
    off = np.array([mech.pick(r, [-1, 1]) * mech.logu(r, 1e-9, .02) for _ in range(k)])
    js = r.integers(-5, 6, k)
    ls = (js + off) * h
    m = float(np.dot(q[1:], np.exp(ls[1:])))
    if m >= .95:
      # Make room: the other outcomes become less likely under both.
      q[1:] *= .9 / m
      q[0] = 1 - q[1:].sum() if q[1:].sum() < 1 else .05
      m = .9
    if not (q[0] > 1e-6 and abs(q.sum() - 1) < 1e-12):
      q = r.dirichlet(np.full(k, 3.0))
      m = float(np.dot(q[1:], np.exp(ls[1:])))
    if 0 < m < 1:
      p = q * np.exp(ls)
      p[0] = 1 - m
    else:
      p = r.dirichlet(np.full(k, 3.0))
  elif mode == 'grid':
    # Losses exactly on the grid.
    q = r.dirichlet(np.ones(k))
    js = r.integers(-5, 6, k)
    lp = np.log(q) + js * h
    lp = lp - math.log(np.sum(np.exp(lp)))
    p = np.exp(lp)
  else:
    a = mech.pick(r, [.05, .3, 1, 10])
    p = r.dirichlet(np.full(k, a))
    q = r.dirichlet(np.full(k, a))
  lim = 1e-5
  p = np.maximum(p, 1e-14)
  q = np.maximum(q, 1e-14)
  if mode == 'tiny' and k > 1:
    p[int(r.integers(k))] = 10 ** -float(r.uniform(20, 200))
    q[int(r.integers(k))] = 10 ** -float(r.uniform(20, 200))
  p, q = p / p.sum(), q / q.sum()
  names = [mech.pick(r, ['o%d' % i, i, (i, 'x')]) for i in range(k)]
  up = {n: math.log(v) for n, v in zip(names, p)}
  low = {n: math.log(v) for n, v in zip(names, q)}
  if mode == 'disjoint':
    obs.count('disjoint')
    for n in names:
      u = r.random()
      if u < .3:
        if r.random() < .5:
          low.pop(n)
        else:
          low[n] = -math.inf
      elif u < .6:
        if r.random() < .5:
          up.pop(n)
        else:
          up[n] = -math.inf
    # Re-normalise what is left; guarantee non-empty.
    for d in (up, low):
      if not [v for v in d.values() if v > -math.inf]:
        d['extra%d' % id(d)] = 0.0
      t = math.fsum(math.exp(v) for v in d.values())
      for n in d:
        d[n] = d[n] - math.log(t)
  if r.random() < .3:
    low = dict(sorted(low.items(), key=lambda z: r.random()))
  sym = bool(r.random() < .4)
  lmt = mech.pick(r, [None, None, -math.inf, -float(r.uniform(1, 40))])
  kw = {} if lmt is None else dict(log_mass_truncation_bound=lmt)
  u0, l0 = dict(up), dict(low)
  if sym and r.random() < .3:
    pl = P.PrivacyLossDistribution.from_two_probability_mass_functions(low, up, pess, h, **kw)
  else:
    pl = P.from_two_probability_mass_functions(low, up, pess, h, symmetric=sym, **kw)
  obs.check(up == u0 and low == l0, 'input-modified', 'the probability mass functions passed in were modified')
  keys = sorted(set(up) | set(low), key=str)
  pv = [math.exp(up.get(n, -math.inf)) for n in keys]
  qv = [math.exp(low.get(n, -math.inf)) for n in keys]
  H = [hs(pv, qv)] if sym else [hs(pv, qv), hs(qv, pv)]
  trunc = 0.0
  if lmt is not None and lmt > -math.inf:
    t1 = sum(v for v in pv if 0 < v <= math.exp(lmt) * (1 + 1e-12))
    t2 = sum(v for v in qv if 0 < v <= math.exp(lmt) * (1 + 1e-12))
    trunc = t1 if sym else max(t1, t2)
  losses = [math.log(a / b) for a, b in zip(pv, qv) if a > 0 and b > 0]
  obs.count('pair')
  judge(obs, pl, H, h, pess, points(r, losses, h, 8), 'pair', trunc, desc=[mode, k, sym, lmt])


def fam_rr(r, obs):
  from dp_accounting.pld import privacy_loss_distribution as P
  from dp_accounting import privacy_accountant
  NR = privacy_accountant.NeighboringRelation
  h = rand_interval(r)
  pess = bool(r.random() < .6)
  p = mech.pick(r, [.5, float(r.uniform(.01, .99)), mech.logu(r, 1e-12, .5), 1 - mech.logu(r, 1e-12, .5)])
  k = int(mech.pick(r, [2, 3, 4, 10, 100, int(r.integers(2, 10 ** 6))]))
  rel = mech.pick(r, [None, NR.REPLACE_ONE, NR.REPLACE_SPECIAL])
  if rel is None and r.random() < .5:
    pl = P.PrivacyLossDistribution.from_randomized_response(p, k, pess, h)
  elif rel is None:
    pl = P.from_randomized_response(p, k, pess, h)
  else:
    pl = P.from_randomized_response(p, k, pess, h, neighboring_relation=rel)
  lp = LD(p)
  hit, miss = 1 - lp + lp / k, lp / k
  if rel == NR.REPLACE_SPECIAL:
    a, b = [hit, miss * (k - 1)], [LD(1) / k, LD(k - 1) / k]
    H = [hs(a, b), hs(b, a)]
    losses = [float(np.log(x / y)) for x, y in zip(a, b)]
    losses += [-l for l in losses]
  else:
    a, b = [hit, miss, miss * (k - 2)], [miss, hit, miss * (k - 2)]
    H = [hs(a, b)]
    l = float(np.log(hit / miss))
    losses = [l, -l, 0.0]
  obs.count('rr')
  # math.log(1 - p (k-1)/k) loses relative precision as p -> 1; only loosens by 1e-10.
  judge(obs, pl, H, h, pess, points(r, losses, h, 6), 'rr:' + (rel.name if rel else 'default'), 0.0, desc=[p, k, str(rel)])


def fam_guarantee(r, obs):
  from dp_accounting.pld import privacy_loss_distribution as P, common
  h = rand_interval(r)
  eps = mech.pick(r, [0.0, 1.0, float(r.uniform(0, 5)), mech.logu(r, 1e-6, 600), h, 3 * h, 2.5 * h, mech.logu(r, 600, 1500)])
  eps = min(eps, h * 20000)
  d = mech.pick(r, [0, 0.0, 1e-5, mech.logu(r, 1e-15, 1), 1.0, .5])
  pl = mech.pick(r, [P, P.PrivacyLossDistribution]).from_privacy_parameters(common.DifferentialPrivacyParameters(eps, d), h)
  def H(e):
    # exact curve of the worst (eps, d) mechanism
    if e >= eps:
      return float(d)
    if e <= -eps:
      v = -math.expm1(e)
    else:
      # (e^eps - e^e)/(1+e^eps)
      v = -math.expm1(e - eps) / (1 + math.exp(-eps))
    return float(d) + (1 - float(d)) * v
  obs.count('guarantee')
  judge(obs, pl, [H], h, True, points(r, [eps, -eps], h, 6), 'guarantee', 0.0, desc=[eps, d])


def fam_cdf(r, obs):
  from dp_accounting.pld import privacy_loss_distribution as P
  from scipy import stats
  pess = bool(r.random() < .6)
  kind = mech.pick(r, ['normal', 'normal', 'atoms'])
  t = mech.pick(r, [None, 1e-15, 1e-10, 1e-4, .05])
  kw = {} if t is None else dict(tail_mass_truncation=t)
  tm = 1e-15 if t is None else t
  if kind == 'normal':
    # The loss of a Gaussian mechanism: N(mu^2/2, mu^2).
    mu = mech.logu(r, .05, 5)
    h = max(mech.pick(r, [1e-2, .1, mech.logu(r, 1e-3, .5)]), mu * 20 / 4000)
    cdf = lambda x: float(stats.norm.cdf((x - mu * mu / 2) / mu))
    T = O.Gaussian(1.0, mu)
    H = [lambda e: float(T.H(e))]
    losses = [mu * mu / 2, mu * mu / 2 + 3 * mu]
    desc = ['normal', mu, t]
  else:
    h = mech.pick(r, [.01, .1, .25, mech.logu(r, 1e-2, .5)])
    k = int(r.integers(1, 6))
    ls = np.sort(r.uniform(-3, 3, k))
    w = r.dirichlet(np.ones(k))
    ls = np.where(r.random(k) < .3, np.round(ls / .25) * .25, ls)
    def cdf(x):
      return float(np.sum(w[ls <= x])) if x < ls.max() else 1.0
    def H0(e):
      m = ls > e
      return float(np.dot(w[m], -np.expm1(e - ls[m])))
    H = [H0]
    losses = list(ls)
    desc = ['atoms', k, t]
  pl = mech.pick(r, [P, P.PrivacyLossDistribution]).create_from_cdf(cdf, pess, h, **kw)
  obs.count('cdf')
  # Accumulated grid points drift by float rounding; an atom on a grid point may
  # land in either cell, which changes delta by at most one more interval.
  hh = h * (2 if kind == 'atoms' else 1)
  if kind == 'atoms' and not pess:
    H = [lambda e, H0=H[0]: H0(e)]
  for e in points(r, losses, h, 6):
    true = H[0](e)
    got = float(pl.get_delta_for_epsilon(e))
    obs.count('points')
    obs.count('tight')
    if 1e-13 < true < 1:
      obs.key('cdf', str(desc), round(e, 9))
    drift = 1e-9
    sl = 1e-9 * true + 1e-11
    if pess:
      obs.check(got >= H[0](e + drift) - sl, 'under-reported:cdf', 'pessimistic delta below the true divergence', eps=e, got=got, true=true, desc=desc, h=h)
      hi = H[0](e - hh - drift)
      obs.check(got <= hi + 2 * tm + sl, 'not-tight:cdf', 'pessimistic delta too large', eps=e, got=got, bound=hi, desc=desc, h=h)
    else:
      obs.check(got <= H[0](e - drift) + sl, 'over-reported:cdf', 'optimistic delta above the true divergence', eps=e, got=got, true=true, desc=desc, h=h)
      lo = H[0](e + hh + drift)
      obs.check(got >= lo - 2 * tm - sl, 'not-tight:cdf', 'optimistic delta too small', eps=e, got=got, bound=lo, desc=desc, h=h)


def fam_rounded(r, obs):
  """create_from_rounded_probability and identity; both entry points (module and class)."""
  from dp_accounting.pld import privacy_loss_distribution as P
  from vlib import pmf
  h = float(rand_interval(r))
  pl, ref = pmf.random_pld(r, h, bool(r.random() < .6))
  for e in ref.eps_points(r, 8):
    w = ref.delta(e)
    g = float(pl.get_delta_for_epsilon(e))
    obs.count('points')
    obs.key('rounded', round(e, 9), round(w, 12))
    obs.check(abs(g - w) <= ref.slack(w), 'rounded', 'delta differs from the rounded probabilities given', eps=e, got=g, want=w)
  i = mech.pick(r, [P, P.PrivacyLossDistribution]).identity(h)
  for e in (0.0, h, 3.0, -h, -2.0, 0):
    w = max(0.0, -math.expm1(e))
    obs.count('points')
    obs.check(abs(float(i.get_delta_for_epsilon(e)) - w) < 1e-12, 'identity', 'the identity leaks', eps=e)
  obs.check(i.get_epsilon_for_delta(0.0) == 0, 'identity', 'the identity has positive epsilon')


def fam_dots(r, obs):
  """Points of a hockey-stick curve turned into a distribution (connect the dots)."""
  from dp_accounting.pld import pld_pmf
  h = float(rand_interval(r))
  k = int(mech.pick(r, [2, 2, 3, 5, 30]))
  q = r.dirichlet(np.full(k, mech.pick(r, [.3, 1, 5])))
  p = r.dirichlet(np.full(k, mech.pick(r, [.3, 1, 5])))
  p, q = np.maximum(p, 1e-12), np.maximum(q, 1e-12)
  p, q = p / p.sum(), q / q.sum()
  if r.random() < .3:
    q[0] = 0.0
    q = q / q.sum()
  H = hs(p, q)
  free = bool(r.random() < .5)
  n = int(mech.pick(r, [1, 2, 3, 10, 200]))
  lo = int(r.integers(-n - 5, 6))
  if n * h > 30:
    n = max(1, int(30 / h))
    lo = max(lo, -n)
  if free:
    ks = sorted({lo + int(v) for v in np.cumsum(r.integers(1, int(mech.pick(r, [2, 5, 50])), n))})
    ks = [v for v in ks if abs(v * h) < 60] or [0]
  else:
    ks = list(range(lo, lo + n))
  ds = [min(1.0, max(0.0, H(v * h))) for v in ks]
  ds = [float(v) for v in np.minimum.accumulate(ds)]
  dsk = list(ds)
  arg = np.array(ds) if r.random() < .5 else ds
  call = (lambda ks, ds: pld_pmf.create_pmf_pessimistic_connect_dots(h, ks, ds)) if free else (
      lambda ks, ds: pld_pmf.create_pmf_pessimistic_connect_dots_fixed_gap(h, ks[0], ks[-1], ds))
  m = call(np.array(ks) if free and r.random() < .5 else ks, arg)
  obs.count('dots')
  obs.check([float(v) for v in arg] == dsk, 'dots:modified', 'the deltas passed in were modified')
  sl = 1e-12 + 4e-16 * len(ks) / h
  tag = 'dots-free' if free else 'dots-fixed'
  for v, d in zip(ks, ds):
    got = float(m.get_delta_for_epsilon(v * h + 1e-13 * max(1, abs(v * h))))
    obs.count('points')
    if 1e-13 < d < 1:
      obs.key(tag, round(v * h, 9), round(d, 12))
    obs.check(abs(got - d) <= sl + 1e-9 * d, tag + ':at-point', 'delta at a given point differs from the one given', eps=v * h, got=got, want=d, h=h, n=len(ks))
  for _ in range(12):
    e = float(r.uniform(ks[0] * h - 2 * h, ks[-1] * h + h))
    true, got = H(e), float(m.get_delta_for_epsilon(e))
    obs.count('points')
    obs.check(got >= true - sl - 1e-9 * true, tag + ':below-curve', 'delta between the points falls below the true curve', eps=e, got=got, want=true, h=h, n=len(ks))
    j = int(np.searchsorted(np.array(ks) * h, e))
    if j > 0:
      obs.check(got <= ds[j - 1] + sl, tag + ':above-points', 'delta between two points exceeds the left one', eps=e, got=got, left=ds[j - 1], h=h)
  for e in (-40.0, -3 * h + min(0, ks[0] * h)):
    if e <= ks[0] * h:
      got, want = float(m.get_delta_for_epsilon(e)), 1 - math.exp(e - ks[0] * h) * (1 - ds[0])
      obs.check(abs(got - want) <= sl * 10 + 1e-9, tag + ':mass', 'the distribution does not have total mass one', eps=e, got=got, want=want)
  got = float(m.get_delta_for_epsilon(ks[-1] * h + 5))
  obs.check(abs(got - ds[-1]) <= sl, tag + ':infinite', 'the infinite mass is not the last delta', got=got, want=ds[-1])
  # Malformed inputs are rejected.
  bad = []
  if len(ks) > 1:
    i = int(r.integers(len(ks) - 1))
    up = list(ds)
    up[i + 1] = min(1.0, up[i] + mech.logu(r, 1e-9, .5))
    if up[i + 1] > up[i]:
      bad.append((ks, up))
    if free:
      rep = list(ks)
      rep[i + 1] = rep[i]
      bad.append((rep, ds))
      bad.append((ks[::-1], ds))
  out = list(ds)
  out[0] = 1 + mech.logu(r, 1e-9, 1)
  bad.append((ks, out))
  out = list(ds)
  out[-1] = -mech.logu(r, 1e-9, 1)
  bad.append((ks, out))
  bad.append((ks, ds + [0.0]))
  for bk, bd in bad:
    try:
      got = call(bk, bd)
    except ValueError:
      got = None
    obs.count('dots_rejected')
    obs.check(got is None, tag + ':accepted', 'malformed points were accepted', eps=bk, deltas=bd)
