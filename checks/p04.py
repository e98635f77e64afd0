"""P04: composition laws (metamorphic monitors over real compositions)."""
import math
import numpy as np
from vlib import mech, pmf

PROPERTY = 'P04'
RULE = ('an observation is one law instance (commutativity, grouping, identity, power, shortcut query, operand '
        'immutability, mismatch rejection) at one epsilon; distinct by law, operands and epsilon')
ASSUMPTIONS = ['laws compared up to floating-point slack (2e-14 per composition, 1e-9 relative); tail truncation off or 1e-15 unless its effect is allowed for']


def REQUIRED(tier):
  return {'commute': 2000, 'associate': 2000, 'identity': 2000, 'power': 1000, 'shortcut': 4000,
          'immutable': 500, 'rejected': 100}


def cases(seed, tier):
  n = 1500 if tier == 'quick' else 16000
  return [dict(family=['discrete', 'mechanism', 'discrete'][i % 3], s=seed * 1000003 + i) for i in range(n)]


def pool_of(r, fam, h, pess):
  """Three (pld, approx size) operands."""
  out = []
  for _ in range(3):
    if fam == 'discrete':
      p, ref = pmf.random_pld(r, h, pess, mech.pick(r, ['one', 'tiny', 'tiny', 'gap', 'mid', 'mid', 'edge', 'dense']))
      out.append((p, ref.span()))
    else:
      spec = mech.random_spec(r, mech.pick(r, ['gaussian', 'laplace', 'dlaplace', 'dgaussian']))
      es = mech.eps_scale(spec)
      if es / h > 3000 or es < h / 50:
        k = mech.logu(r, 3 * h, 300 * h)
        spec = dict(kind='laplace', scale=1 / k, sens=1.0, q=mech.pick(r, [1.0, .3]))
        es = k
      out.append((mech.build(spec, h, pess, bool(r.random() < .6)), (-es, es)))
  return out


def near(a, b, ops):
  return abs(a - b) <= 2e-14 * (ops + 6) + 1e-9 * max(abs(a), abs(b))


def run(case, obs):
  r = mech.rng_of(case['s'], 'p04')
  fam = case['family']
  h = mech.pick(r, [1e-2, .1, .5, mech.logu(r, 1e-3, .3)])
  pess = bool(r.random() < .8)
  from dp_accounting.pld import privacy_loss_distribution as P
  pool = pool_of(r, fam, h, pess)
  (a, sa), (b, sb), (c, sc) = pool
  lo = sa[0] + sb[0] + sc[0]
  hi = sa[1] + sb[1] + sc[1]
  pts = [0.0, lo - 5, hi, hi + 1]
  for _ in range(8):
    v = float(r.uniform(lo, hi))
    if r.random() < .4:
      v = round(v / h) * h
    pts.append(v)
  pts2 = [0.0, sa[0] + sb[0] - h, sa[1] + sb[1]] + [float(r.uniform(sa[0] + sb[0], sa[1] + sb[1])) for _ in range(5)]
  pts2 += [round(v / h) * h for v in pts2[3:]]
  before = [snapshot(x, pts) for x, _ in pool]
  t = mech.pick(r, [0, 1e-15])
  D = lambda p, e: float(p.get_delta_for_epsilon(e))

  ab, ba = a.compose(b, t), b.compose(a, t)
  for e in pts2:
    obs.count('commute')
    obs.key('c', case['s'], round(e, 9))
    obs.check(near(D(ab, e), D(ba, e), 1), 'commutativity', 'order of composition changes delta', eps=e, ab=D(ab, e), ba=D(ba, e))
    for x, y in ((a, b), (b, a)):
      s = float(x.get_delta_for_epsilon_for_composed_pld(y, e))
      obs.count('shortcut')
      obs.check(near(s, D(ab, e), 2), 'shortcut-query', 'delta of the composition asked without composing differs',
                eps=e, shortcut=s, composed=D(ab, e))
  snap_ab = snapshot(ab, pts)
  abc = ab.compose(c, t)
  a_bc = a.compose(b.compose(c, t), t)
  cab = c.compose(ab, t)
  for e in pts:
    obs.count('associate')
    obs.key('a', case['s'], round(e, 9))
    v = D(abc, e)
    obs.check(near(v, D(a_bc, e), 3), 'associativity', 'grouping of composition changes delta', eps=e, left=v, right=D(a_bc, e))
    obs.check(near(v, D(cab, e), 3), 'order', 'order of composition changes delta', eps=e, left=v, right=D(cab, e))
    s = float(ab.get_delta_for_epsilon_for_composed_pld(c, e))
    obs.count('shortcut')
    obs.check(near(s, v, 3), 'shortcut-query', 'delta of the composition asked without composing differs', eps=e, shortcut=s, composed=v)
  # identity
  idn = P.identity(h)
  if pess:
    for x, sx in ((a, sa), (ab, None)):
      for y in (x.compose(idn, t), idn.compose(x, t)):
        for e in pts[:6]:
          obs.count('identity')
          obs.check(near(D(y, e), D(x, e), 1), 'identity', 'composing with the identity changes delta', eps=e, got=D(y, e), want=D(x, e))
  # powers
  n = int(r.integers(1, 6))
  x, sx = pool[int(r.integers(3))]
  p1 = x.self_compose(n, t)
  p2 = x
  for _ in range(n - 1):
    p2 = p2.compose(x, t)
  for e in [0.0, sx[0] * n, sx[1] * n] + [float(r.uniform(sx[0] * n, sx[1] * n)) for _ in range(5)]:
    obs.count('power')
    obs.key('p', case['s'], n, round(e, 9))
    obs.check(near(D(p1, e), D(p2, e), 2 * n), 'power', 'self-composition differs from repeated composition', eps=e, n=n, power=D(p1, e), repeated=D(p2, e))
  if n >= 2:
    m = int(r.integers(1, n))
    q = x.self_compose(m, t).compose(x.self_compose(n - m, t), t)
    for e in [0.0] + [float(r.uniform(sx[0] * n, sx[1] * n)) for _ in range(3)]:
      obs.count('power')
      obs.check(near(D(p1, e), D(q, e), 2 * n), 'power-split', 'splitting a self-composition changes delta', eps=e, n=n, m=m, power=D(p1, e), split=D(q, e))
  # truncating compositions of a temporary must not write into operands
  for tt in (1e-3, .05, 1e-9):
    a.compose(b, tt)
    ab.compose(c, tt)
    x.self_compose(2, tt)
    ab.self_compose(2, tt)
  after = [snapshot(y, pts) for y, _ in pool]
  for u, v in zip(before + [snap_ab], after + [snapshot(ab, pts)]):
    obs.count('immutable')
    obs.check(u == v, 'operand-modified', 'composing or querying changed an operand', before=u, after=v)
  # mismatches must be rejected, leaving operands alone
  for other in (P.identity(h * 2), P.PrivacyLossDistribution.create_from_rounded_probability({0: 1.0}, 0.0, h, pessimistic_estimate=not pess)):
    for f in (lambda: a.compose(other), lambda: other.compose(a), lambda: a.validate_composable(other),
              lambda: a.get_delta_for_epsilon_for_composed_pld(other, 0.1)):
      obs.count('rejected')
      try:
        f()
        ok = False
      except (ValueError, TypeError):
        ok = True
      obs.check(ok, 'mismatch-accepted', 'distributions with different intervals or estimate types were composed')


def snapshot(p, pts):
  return [float(p.get_delta_for_epsilon(e)) for e in pts] + [float(p.get_epsilon_for_delta(d)) for d in (0.0, 1e-6, .1, .5)]
