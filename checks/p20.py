"""P20: advanced composition equals the exact optimal composition of DP guarantees."""
import math
from fractions import Fraction as F
import mpmath as mp
from vlib import mech

PROPERTY = 'P20'
RULE = ('an observation is one call compared with the exact optimal-composition delta (50-digit sums over the binomial distribution of '
        'k randomized responses); distinct by (epsilon, delta, k, total)')
ASSUMPTIONS = ['the exact value is the Kairouz-Oh-Viswanath optimum, cross-checked in every run by direct enumeration of all 4^k outcomes for k <= 6',
               'targets within 1e-11 relative (1e-15 absolute) of a threshold may fall on either side']


def REQUIRED(tier):
  return {'advanced_calls': 600, 'none_expected': 60, 'enumerations': 40, 'smallest_calls': 200, 'pld_comparisons': 40, 'large_k': 40, 'threshold_targets': 150}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 20
  out = []
  for fam, k in (('adv', 700), ('threshold', 200), ('large', 60), ('enum', 60), ('smallest', 250), ('pld', 60), ('smallest-edge', 60)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def exact(eps, delta, k, i):
  """Optimal total delta at total epsilon eps * (k - 2 i)."""
  with mp.workdps(40 + k // 20):
    e = mp.mpf(eps)
    t = e * (k - 2 * i)
    tot = mp.mpf(0)
    p1 = 1 / (1 + mp.exp(-e))
    for l in range(k + 1):
      d = 1 - mp.exp(t - e * (k - 2 * l))
      if d <= 0:
        break
      tot += mp.binomial(k, l) * p1 ** (k - l) * (1 - p1) ** l * d
    return 1 - (1 - mp.mpf(delta)) ** k * (1 - tot)


def enum(eps, delta, k, i):
  """The same by enumerating all outcome sequences of the extremal pair {0, 1, only-P, only-Q}."""
  with mp.workdps(40):
    e, d = mp.mpf(eps), mp.mpf(delta)
    P = [d, (1 - d) * mp.exp(e) / (1 + mp.exp(e)), (1 - d) / (1 + mp.exp(e)), mp.mpf(0)]
    Q = P[::-1]
    t = mp.exp(e * (k - 2 * i))
    tot = mp.mpf(0)
    seqs = [(mp.mpf(1), mp.mpf(1))]
    for _ in range(k):
      seqs = [(a * p, b * q) for a, b in seqs for p, q in zip(P, Q)]
    for a, b in seqs:
      v = a - t * b
      if v > 0:
        tot += v
    return tot


def expected(eps, delta, k, total):
  """(index i or None, slack flag): largest i with exact delta <= total; also the ambiguous alternatives."""
  tol = mp.mpf(total) * mp.mpf(10) ** -11 + mp.mpf(10) ** -15
  ok = set()
  lo, hi = [], []
  best = None
  for i in range(k // 2, -1, -1):
    v = exact(eps, delta, k, i)
    if v <= total - tol:
      ok.add(i)
      break
    if v <= total + tol:
      ok.add(i)
  else:
    ok.add(None)
  return ok


def run(case, obs):
  from dp_accounting.pld import accountant as A, common
  r = mech.rng_of(case['s'], case['family'])
  f = case['family']
  P = common.DifferentialPrivacyParameters
  eps = float(mech.pick(r, [mech.logu(r, 1e-3, 3), mech.logu(r, 1e-2, 1), 0.1, 1.0, 0.5, 0.0]))
  delta = float(mech.pick(r, [0.0, 0.0, mech.logu(r, 1e-12, 1e-2), 1e-5, mech.logu(r, 1e-3, .5)]))
  k = int(mech.pick(r, [1, 2, 3, 4, 5, int(mech.logu(r, 2, 60)), int(mech.logu(r, 2, 60))]))
  none_at = -math.expm1(k * math.log1p(-delta)) if delta < 1 else 1.0
  if f in ('adv', 'threshold', 'large'):
    if f == 'large':
      obs.count('large_k')
      k = int(mech.logu(r, 60, 300))
      eps = mech.logu(r, 1e-3, 8)
      delta = float(mech.pick(r, [0.0, mech.logu(r, 1e-14, 1e-7)]))
      if case['s'] % 10 == 0:
        k, eps = 1200, mech.logu(r, 1e-3, 1)
      none_at = -math.expm1(k * math.log1p(-delta))
    total = float(mech.pick(r, [mech.logu(r, 1e-12, .9), 1e-6, none_at * float(r.uniform(0, 1)), none_at + mech.logu(r, 1e-9, .5), 0.0, none_at * 1.01]))
    if f == 'threshold':
      # A target just above or below an achievable value.
      obs.count('threshold_targets')
      i = int(r.integers(0, k // 2 + 1))
      v = float(exact(eps, delta, k, i))
      total = v * (1 + float(mech.pick(r, [1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3]))) + float(mech.pick(r, [0, 1e-13, -1e-13]))
    total = min(max(total, 0.0), 1.0)
    got = A.advanced_composition(P(eps, delta), k, total)
    obs.count('advanced_calls')
    obs.key(eps, delta, k, total)
    ok = expected(eps, delta, k, total)
    if ok == {None}:
      obs.count('none_expected')
    want = [None if i is None else eps * (k - 2 * i) for i in ok]
    obs.check(any((w is None and got is None) or (w is not None and got is not None and abs(w - got) <= 1e-12 * (1 + w)) for w in want),
              'advanced', 'total epsilon differs from the exact optimal composition', eps=eps, delta=delta, k=k, total=total, got=got, want=want)
  elif f == 'enum':
    obs.count('enumerations')
    k = int(r.integers(1, 7))
    i = int(r.integers(0, k // 2 + 1))
    a, b = exact(eps, delta, k, i), enum(eps, delta, k, i)
    assert abs(a - b) < mp.mpf(10) ** -30, 'the two oracles disagree'
    # Just above the enumerated value the threshold is accepted.
    total = float(b) * (1 + 1e-9) + 1e-13
    if total > 1:
      return
    got = A.advanced_composition(P(eps, delta), k, total)
    obs.count('advanced_calls')
    obs.key('enum', eps, delta, k, i)
    obs.check(got is not None and got <= eps * (k - 2 * i) + 1e-12, 'advanced:enumerated', 'an achievable total epsilon was not found', eps=eps, delta=delta,
              k=k, total=total, got=got, want=eps * (k - 2 * i))
  elif f == 'pld':
    # The distribution-based composition reports the same optimum (grid aligned with epsilon).
    from dp_accounting.pld import privacy_loss_distribution as pl
    eps = float(mech.logu(r, 0.02, 1))
    k = int(r.integers(1, 30))
    delta = float(mech.pick(r, [0.0, mech.logu(r, 1e-9, 1e-3)]))
    one = pl.from_privacy_parameters(P(eps, delta), value_discretization_interval=eps)
    c = one.self_compose(k)
    for i in range(k // 2 + 1):
      obs.count('pld_comparisons')
      v = float(exact(eps, delta, k, i))
      w = float(c.get_delta_for_epsilon(eps * (k - 2 * i)))
      obs.key('pld', eps, k, delta, i)
      obs.check(abs(v - w) <= 1e-12 + 1e-9 * v, 'pld', 'the composed distribution does not report the exact optimum', eps=eps, delta=delta, k=k, i=i, got=w, want=v)
  else:
    E = float(mech.pick(r, [mech.logu(r, .05, 8), 1.0, 0.1]))
    k = int(mech.pick(r, [1, 2, 3, 10, int(r.integers(1, 60))]))
    D = float(mech.pick(r, [mech.logu(r, 1e-10, .3), 0.0, 1e-6]))
    d = float(mech.pick(r, [0.0, D / k * float(r.uniform(0, .99)), D / k * 1.5, mech.logu(r, 1e-12, 1e-3)]))
    if f == 'smallest-edge':
      # Only basic composition is possible: epsilon / k exactly at the lower end of the search.
      D, d = 0.0, 0.0
      E, k = float(r.uniform(.1, 5)), int(r.integers(2, 60))
    d = min(max(d, 0.0), 1.0)
    got = A.get_smallest_epsilon_from_advanced_composition(P(E, D), k, d)
    obs.count('smallest_calls')
    obs.key('smallest', E, D, k, d)
    floor = -mp.expm1(k * mp.log1p(-mp.mpf(d)))
    if floor > D + mp.mpf(10) ** -15:
      return obs.check(got is None, 'smallest:none', 'an epsilon was reported although none exists', E=E, D=D, k=k, d=d, got=got)
    if floor > D - mp.mpf(10) ** -15 and d > 0:
      return
    if not obs.check(got is not None, 'smallest:missing', 'no epsilon was reported although basic composition gives one', E=E, D=D, k=k, d=d):
      return
    obs.check(E / k * (1 - 1e-9) - 1e-7 <= got <= E * (1 + 1e-12), 'smallest:range', 'epsilon outside [total / k, total]', E=E, D=D, k=k, d=d, got=got)
    # Safe side: composing (got, d) k times stays within (E, D).
    obs.check(total_eps(got, d, k, D, 1) <= E + 1e-9, 'smallest:unsafe', 'the reported epsilon composes to more than the target', E=E, D=D, k=k, d=d, got=got,
              total=float(total_eps(got, d, k, D, 1)))
    up = got + 2e-6
    if up < E:
      obs.check(total_eps(up, d, k, D, -1) > E - 1e-9, 'smallest:wasteful', 'a larger epsilon also composes to the target', E=E, D=D, k=k, d=d, got=got, larger=up,
                total=float(total_eps(up, d, k, D, -1)))


def total_eps(eps, d, k, D, side):
  """Smallest listed total epsilon; side>0 accepts thresholds within rounding, side<0 does not."""
  tol = (mp.mpf(D) * mp.mpf(10) ** -10 + mp.mpf(10) ** -14) * side
  for i in range(k // 2, -1, -1):
    if exact(eps, d, k, i) <= D + tol:
      return eps * (k - 2 * i)
  return mp.inf if side > 0 else mp.inf
