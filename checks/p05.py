"""P05: epsilon and delta queries are consistent inverses."""
import math
import numpy as np
from vlib import mech, pmf

PROPERTY = 'P05'
RULE = ('an observation is one delta or epsilon answer judged against the explicit long-double sum over the losses; '
        'distinct by distribution, query kind and query value')
ASSUMPTIONS = ['slack 1e-9 relative + 2e-13 absolute on delta (vectorised evaluation cancels); epsilon checked through the delta curve']


def REQUIRED(tier):
  return {'delta_scalar': 10000, 'delta_array': 10000, 'eps': 8000, 'huge_eps': 500, 'unsorted_rejected': 100, 'monotone': 500, 'exact_infinity_mass': 300}


def cases(seed, tier):
  n = 2000 if tier == 'quick' else 30000
  return [dict(family=['grid', 'wide', 'grid', 'composed', 'mechanism'][i % 5], s=seed * 1000003 + i) for i in range(n)]


def run(case, obs):
  r = mech.rng_of(case['s'], 'p05')
  fam = case['family']
  h = mech.pick(r, [1e-3, 1e-2, .1, .5, 1.0, mech.logu(r, 1e-4, .3)])
  if fam == 'mechanism':
    return mechanism(r, h, obs)
  pess = bool(r.random() < .7)
  if fam == 'wide':
    h = mech.pick(r, [1.0, 3.0, .7])
    pl, ref = pmf.random_pld(r, h, pess, mech.pick(r, ['gap', 'tiny', 'dense']))
  elif fam == 'composed':
    a, ra = pmf.random_pld(r, h, pess, mech.pick(r, ['tiny', 'mid', 'gap']))
    b, rb = pmf.random_pld(r, h, pess, mech.pick(r, ['tiny', 'mid', 'edge']))
    pl, ref = a.compose(b, 0), ra.compose(rb, 0)
  else:
    pl, ref = pmf.random_pld(r, h, pess)
  slack = lambda v: 1e-9 * abs(v) + 2e-13 + (4e-13 if fam == 'composed' else 0)
  pts = ref.eps_points(r, 14) + [h, -h, 1e-12, -1e-12, 750.0, -750.0, 5000.0, -5000.0, float(r.uniform(-800, 800)), 1e300]
  pts += [mech.pick(r, pts)]
  want = {e: ref.delta(e) for e in pts}
  nfam = (fam, case['s'])
  vals = []
  for e in pts:
    q = e
    m = r.random()
    if m < .1:
      q = np.float64(e)
    elif m < .15 and abs(e) < 1e6:
      q = int(e)
      want[q] = ref.delta(q)
    d = pl.get_delta_for_epsilon(q)
    obs.count('delta_scalar')
    obs.count('huge_eps', abs(e) > 700)
    obs.key(nfam, 'd', round(float(q), 9))
    w = want[q] if q in want else want[e]
    obs.check(np.ndim(d) == 0 and abs(float(d) - w) <= slack(w), 'delta-scalar', 'delta differs from its definition', eps=q, got=d, want=w)
    obs.check(-1e-12 <= float(d) <= 1 + 1e-9, 'delta-range', 'delta outside [0, 1]', eps=q, got=d)
    vals.append((float(q), float(d)))
  vals.sort()
  for (e1, d1), (e2, d2) in zip(vals, vals[1:]):
    obs.count('monotone')
    obs.check(d2 <= d1 + slack(d1), 'delta-monotone', 'delta increases with epsilon', e1=e1, d1=d1, e2=e2, d2=d2)
  # Arrays: sorted, with repetitions and infinities, list or array.
  srt = sorted(pts)
  for variant in range(4):
    if variant == 0:
      xs = srt
    elif variant == 1:
      xs = np.array(srt)
    elif variant == 2:
      k = int(r.integers(1, 6))
      xs = sorted(float(v) for v in r.choice(srt, k))
    else:
      xs = srt[3:9] + [math.inf] * int(r.integers(1, 3))
    keep = list(xs)
    ds = pl.get_delta_for_epsilon(xs)
    obs.check(len(ds) == len(xs), 'delta-array-shape', 'wrong number of deltas', n=len(xs), got=len(ds))
    obs.check(list(xs) == keep, 'query-modified', 'the queried array was modified')
    for e, d in zip(xs, ds):
      w = want[e] if e in want else ref.delta(e)
      obs.count('delta_array')
      obs.key(nfam, 'v', variant, round(min(float(e), 1e9), 9))
      obs.check(abs(float(d) - w) <= slack(w), 'delta-array', 'delta of an array query differs from its definition', eps=e, got=float(d), want=w)
  bad = list(srt)
  i = int(r.integers(0, len(bad) - 1))
  if bad[i] != bad[-1]:
    bad[i], bad[-1] = bad[-1], bad[i]
    try:
      ds = pl.get_delta_for_epsilon(bad)
      # Any answer is fine if it is right.
      ok = all(abs(float(d) - ref.delta(e)) <= slack(1) for d, e in zip(ds, bad))
    except ValueError:
      ok = True
    obs.count('unsorted_rejected')
    obs.check(ok, 'unsorted-array', 'an unsorted array query was answered wrongly')
  eps_checks(pl, ref.delta, float(max(i for _, _, i in ref.dirs)), r, obs, slack, nfam,
             [ref.delta(e) for e in (0.0, float(r.uniform(*[min(0, ref.span()[0]), max(ref.span()[1], h)])))], ref)


def eps_checks(pl, delta, inf, r, obs, slack, nfam, extra, ref=None):
  ds = [0.0, 1.0, inf, min(1.0, inf * (1 + 1e-6) + 1e-9), max(0.0, inf * (1 - 1e-6) - 1e-9), .5] + extra
  ds += [mech.logu(r, 1e-14, 1) for _ in range(6)]
  ds += [float(r.uniform(min(inf, 1), 1)) for _ in range(4)]
  if r.random() < .3:
    ds.append(1)
    ds.append(0)
  # The infinite-loss mass exactly as the distribution reports it.
  exact_inf = float(pl.get_delta_for_epsilon(math.inf))
  ds += [exact_inf, float(np.nextafter(exact_inf, 1)), float(np.nextafter(exact_inf, 0))]
  res = []
  for d in ds:
    if not 0 <= d <= 1:
      continue
    e = pl.get_epsilon_for_delta(d)
    obs.count('eps')
    obs.key(nfam, 'e', round(float(d), 15))
    res.append((float(d), float(e)))
    if not obs.check(float(e) >= 0, 'epsilon-negative', 'epsilon is negative or not a number', delta=d, eps=e):
      continue
    obs.check((e == math.inf) == (exact_inf > d), 'epsilon-infinite-exactly', 'epsilon is not infinite exactly when the infinite mass exceeds delta',
              delta=d, inf=exact_inf, eps=e)
    obs.count('exact_infinity_mass', d == exact_inf > 0)
    if e == math.inf:
      obs.check(inf > d * (1 - 1e-9) - 2e-13, 'epsilon-infinite', 'epsilon infinite although the infinite mass does not exceed delta', delta=d, inf=inf)
      continue
    obs.check(inf <= d + slack(d), 'epsilon-finite', 'epsilon finite although the infinite mass exceeds delta', delta=d, inf=inf, eps=e)
    w = delta(e + 1e-11 * max(1.0, e))
    obs.check(w <= d + slack(d), 'epsilon-does-not-achieve', 'delta at the reported epsilon exceeds the target', delta=d, eps=e, at=w)
    if e > 0:
      w = delta(e - 1e-8 * max(1.0, e))
      # Below d: a smaller epsilon would do (unless rounding of delta hides it).
      obs.check(w >= d - slack(d), 'epsilon-not-smallest', 'a smaller epsilon achieves the delta', delta=d, eps=e, below=w)
  res.sort()
  for (d1, e1), (d2, e2) in zip(res, res[1:]):
    obs.count('monotone')
    obs.check(e2 <= e1 + 1e-7 * max(1, e1) or delta(e1) > d1 - slack(d1), 'epsilon-monotone', 'epsilon increases with delta', d1=d1, e1=e1, d2=d2, e2=e2)


def mechanism(r, h, obs):
  """Queries on distributions of real mechanisms agree with one another."""
  spec = mech.random_spec(r, mech.pick(r, ['gaussian', 'laplace', 'dlaplace', 'dgaussian']))
  h = mech.choose_h(spec, r, 4000)
  pl = mech.build(spec, h, True, bool(r.random() < .6))
  es = max(mech.eps_scale(spec), h)
  pts = sorted(float(v) for v in mech.eps_points(spec, h, r, 10) + [800.0, -800.0])
  slack = lambda v: 1e-9 * abs(v) + 1e-12
  arr = pl.get_delta_for_epsilon(pts)
  prev = 2.0
  for e, d in zip(pts, arr):
    s = float(pl.get_delta_for_epsilon(e))
    obs.count('delta_scalar')
    obs.count('delta_array')
    obs.key(str(spec), h, round(e, 9))
    obs.check(abs(s - float(d)) <= slack(s), 'scalar-vs-array', 'scalar and array queries disagree', eps=e, scalar=s, array=float(d), spec=spec)
    obs.check(-1e-12 <= s <= 1 + 1e-6, 'delta-range', 'delta outside [0, 1]', eps=e, got=s)
    obs.check(s <= prev + slack(s), 'delta-monotone', 'delta increases with epsilon', eps=e, got=s, prev=prev)
    prev = s
  inf = float(pl.get_delta_for_epsilon(5000.0))
  D = lambda e: float(pl.get_delta_for_epsilon(e))
  eps_checks(pl, D, inf, r, obs, slack, (str(spec), h), [D(0.0), D(float(r.uniform(0, es)))])
