"""P16: accountants never report less than the true loss of a whole history."""
import math
import mpmath as mp
import numpy as np
from vlib import bracket as B, events as E, mech, oracle as O, renyi as R

PROPERTY = 'P16'
RULE = ('an observation is one guarantee (delta at an epsilon or epsilon at a delta) of a history compared with the independent '
        'bracket of the true value; non-trivial when the true delta lies in (1e-9, 1) or the true epsilon is positive; distinct by history and query')
ASSUMPTIONS = ['the true composed loss is bracketed independently by rounding each leaf loss down to a grid (lower bound) and adding the '
               'grid width per leaf (upper bound); all-Gaussian histories are compared with the closed form',
               'sampling without replacement and repeat-and-select only count as non-negative losses here (their own bounds are P10)',
               'closeness of the numerical accountant: one discretization interval per released leaf plus 1e-9 of mass']


def REQUIRED(tier):
  return {'pld_delta': 900, 'pld_epsilon': 700, 'rdp_delta': 700, 'rdp_epsilon': 700, 'gaussian_exact': 600, 'closeness': 900,
          'sampled_histories': 60, 'large_count_histories': 25}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 15
  out = []
  for fam, k in (('mixed', 240), ('gaussian', 120), ('sgd', 60), ('repeat', 100), ('rr', 50)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


ORDERS = None


def leaves_of(counter, rel, direction):
  """Bracket leaves [(leaf, count)] for a multiset of event specs."""
  import json
  out = []
  for k, c in counter.items():
    s = json.loads(k)
    b = one(s, rel, direction)
    if b is not None:
      out.append((b, c))
  return out


def one(s, rel, direction):
  k = s[0]
  if k == 'g':
    return B.Gauss(1 / s[1])
  if k == 'l':
    return B.Lap(1 / s[1])
  if k == 'rr':
    pair = O.randomized_response_pair(s[1], int(s[2]), 'one' if rel == 'REPLACE_ONE' else 'special')
    p, q = np.asarray(pair.p, float), np.asarray(pair.q, float)
    if rel != 'REPLACE_ONE' and s[1] == 1:
      return None
    return B.Fin(p, q) if direction == 'remove' else B.Fin(q, p)
  if k == 'mog':
    m = B.Mog(s[1], s[2], s[3])
    return m if direction == 'remove' else B.Rev(m)
  if k == 'ps':
    inner = s[2]
    if inner[0] == 'l':
      base = B.Lap(1 / inner[1])
    else:
      base = B.Gauss(math.sqrt(inv_var(inner)))
    if s[1] == 0:
      return None
    if s[1] == 1:
      return base
    m = B.Remove(base, s[1])
    return m if direction == 'remove' else B.Rev(m)
  if k == 'tree':
    nodes = max(R.tree_nodes(int(x)) for x in (s[2] if isinstance(s[2], list) else [s[2]]))
    return B.Gauss(math.sqrt(nodes) / s[1]) if nodes else None
  return None


def inv_var(s):
  if s[0] == 'g':
    return s[1] ** -2.0
  if s[0] == 'self':
    return s[2] * inv_var(s[1])
  return math.fsum(inv_var(x) for x in s[1])


def collect(hist):
  out = None
  for s, c in hist:
    out = E.flatten(s, c, out)
  return out


def curves(counter, rel):
  out = []
  rem = leaves_of(counter, rel, 'remove')
  if not rem:
    return None
  total = sum(c for _, c in rem)
  span = sum((l.hi - l.lo) * (c if c < 4 else 2 * math.sqrt(c)) for l, c in rem)
  widest = max(l.hi - l.lo for l, _ in rem)
  g = max(min(2e-3 / total, 1e-4), span / 2.0 ** 20, widest / 2.0 ** 18)
  if any(isinstance(l, B.Mog) for l, _ in rem):
    g = max(g, widest / 2.0 ** 15)
  for d in ('remove', 'add'):
    out.append(B.Curve(leaves_of(counter, rel, d), g))
  return out


def run(case, obs):
  r = mech.rng_of(case['s'], case['family'])
  f = case['family']
  if f == 'gaussian':
    return gaussian(r, obs)
  rel = mech.pick(r, E.RELS)
  h = mech.pick(r, [1e-3, 1e-2, 5e-3])
  kp = ['g', 'l', 'rr', 'psg', 'psl']
  if r.random() < .15:
    kp = kp + ['mog']
    h = max(h, 5e-3)
  if f == 'mixed':
    acc = mech.pick(r, ['pld', 'pld', 'rdp'])
    lo = mech.pick(r, [0.8, 1.5, 4.0])
    hist = [(E.tree(r, acc, rel, int(r.integers(0, 3)), lo=lo, kinds=kp if acc == 'pld' else None), int(mech.pick(r, [1, 1, 2, 3])))
            for _ in range(int(r.integers(1, 5)))]
  elif f == 'sgd':
    acc = mech.pick(r, ['pld', 'rdp'])
    rel = mech.pick(r, ['ADD_OR_REMOVE_ONE', 'REPLACE_SPECIAL'])
    h = mech.pick(r, [1e-3, 1e-4])
    steps = int(mech.logu(r, 10, 3000))
    s = ['ps', mech.logu(r, 1e-3, .2), ['g', mech.logu(r, .7, 5)]]
    if acc == 'pld' and r.random() < .3:
      s = ['ps', mech.logu(r, 1e-3, .2), ['l', mech.logu(r, 1, 10)]]
    hist = [(s, steps)] if r.random() < .6 else [(['comp', [s, ['g', 50.0]]], max(1, steps // 10)), (s, 5)]
    obs.count('large_count_histories')
  elif f == 'repeat':
    acc = mech.pick(r, ['pld', 'rdp'])
    s = E.leaf(r, acc, rel, lo=3.0, kinds=['g', 'l', 'rr', 'psg', 'psl'])
    c = int(mech.logu(r, 2, 300))
    hist = [E.repeat(r, s, c, 3)] + ([E.repeat(r, E.leaf(r, acc, rel, lo=3.0, kinds=['g', 'l', 'rr', 'psg']), int(r.integers(1, 20)), 2)]
                                     if r.random() < .5 else [])
    obs.count('large_count_histories')
  else:
    acc = mech.pick(r, ['pld', 'rdp'])
    rel = mech.pick(r, ['REPLACE_ONE', 'REPLACE_SPECIAL'])
    hist = [(['rr', float(mech.pick(r, [r.uniform(.2, 1), .5, .9, 1 - mech.logu(r, 1e-3, .3)])), int(mech.pick(r, [2, 2, 3, 10, 50]))], int(mech.pick(r, [1, 2, 5, 20])))
            for _ in range(int(r.integers(1, 4)))]
  counter = collect(hist)
  if not counter or sum(counter.values()) > 40000:
    return
  if any(k.startswith('["ps"') for k in counter):
    obs.count('sampled_histories')
  cs = curves(counter, rel)
  a = E.accountant(acc, rel, ORDERS, h)
  for s, c in hist:
    a.compose(E.build(s), c)
  ctx = dict(acc=acc, rel=rel, h=h, history=hist)
  if cs is None:
    obs.check(a.get_epsilon(1e-5) >= 0, 'trivial', 'negative epsilon', **ctx)
    return
  lo = lambda e: max(c.below(e) for c in cs)
  up = lambda e: max(c.above(e) for c in cs)
  e0 = max(c.eps_below(1e-4) for c in cs)
  n = sum(counter.values())
  for eps in sorted({0.0, e0 / 2, e0, e0 * 1.5 + .1, float(r.uniform(0, 1.5 * e0 + .1)), e0 / 10}):
    got = float(a.get_delta(eps))
    t = lo(eps)
    obs.count(acc + '_delta')
    if 1e-9 < t < 1:
      obs.key(repr(hist), eps)
    obs.check(got >= t * (1 - 1e-9) - 1e-11, acc + ':delta', 'reported delta is below the true delta of the history', eps=eps, got=got, true_at_least=t,
              true_at_most=up(eps), **ctx)
    if acc == 'pld':
      obs.count('closeness')
      w = up(eps - n * h * 1.001) * (1 + 1e-9) + 1e-9
      obs.check(got <= w, 'pld:closeness', 'reported delta is far above the true delta', eps=eps, got=got, bound=w, true_at_most=up(eps), **ctx)
  for d in (0.3, 1e-2, 1e-4, 1e-6, 1e-8):
    got = float(a.get_epsilon(d))
    t = max(c.eps_below(d + 1e-11) for c in cs)
    obs.count(acc + '_epsilon')
    if t > 0:
      obs.key(repr(hist), d, 'e')
    obs.check(got >= t * (1 - 1e-9) - 1e-9, acc + ':epsilon', 'reported epsilon is below the true epsilon of the history', delta=d, got=got,
              true_at_least=t, **ctx)
    if acc == 'pld' and d >= 1e-7:
      w = max(c.eps_above(d - 2e-9 if d > 1e-6 else d * .9) for c in cs) + n * h * 1.001 + 1e-6
      obs.check(got <= w, 'pld:closeness:epsilon', 'reported epsilon is far above the true epsilon', delta=d, got=got, bound=w, **ctx)


def gaussian(r, obs):
  """All-Gaussian histories have a closed form."""
  acc = mech.pick(r, ['pld', 'rdp'])
  rel = mech.pick(r, E.RELS)
  h = mech.pick(r, [1e-3, 1e-4, 1e-2])
  hist, inv = [], mp.mpf(0)
  for _ in range(int(r.integers(1, 6))):
    s = E.gauss_tree(r, int(r.integers(0, 3)), lo=mech.pick(r, [0.7, 3.0, 20.0]))
    c = int(mech.pick(r, [1, 1, 2, 7]))
    if r.random() < .2:
      c = int(mech.logu(r, 100, 1e7))
      s = ['g', math.sqrt(c) * mech.logu(r, .7, 10)]
    hist.append((s, c))
    for k, m in E.flatten(s, c).items():
      inv += m * mp.mpf(1) / mp.mpf(E.json.loads(k)[1]) ** 2
  mu = mp.sqrt(inv)
  if mu > 8:
    return
  n = len(hist) + sum(len(E.flatten(s)) for s, _ in hist) * 4
  T = O.Gaussian(1, mu)
  a = E.accountant(acc, rel, None, h)
  for s, c in hist:
    a.compose(E.build(s), c)
  ctx = dict(acc=acc, rel=rel, h=h, history=hist, mu=float(mu))
  for eps in (0.0, float(mu) / 3, float(mu), float(mu) * 3 + float(mu) ** 2 / 2):
    obs.count('gaussian_exact')
    t = float(T.H(mp.mpf(eps)))
    got = float(a.get_delta(eps))
    obs.key(repr(hist), eps, acc)
    obs.check(got >= t * (1 - 1e-9) - 1e-13 * n, 'gaussian:%s:delta' % acc, 'reported delta is below the exact delta', eps=eps, got=got, true=t, **ctx)
    if acc == 'pld':
      # Each compose call of the accountant discretizes one combined Gaussian.
      w = float(T.H(mp.mpf(eps - releases(hist) * h * 1.001))) * (1 + 1e-9) + 1e-12 * n
      obs.count('closeness')
      obs.check(got <= w, 'gaussian:closeness', 'reported delta is far above the exact delta', eps=eps, got=got, true=t, bound=w, **ctx)
  for d in (1e-2, 1e-5, 1e-8):
    obs.count('gaussian_exact')
    t = float(O.smallest_eps(lambda e: T.H(mp.mpf(e)), d + 1e-12))
    got = float(a.get_epsilon(d))
    obs.check(got >= t - 1e-7, 'gaussian:%s:epsilon' % acc, 'reported epsilon is below the exact epsilon', delta=d, got=got, true=t, **ctx)


def releases(hist):
  """Number of Gaussian nodes visited when composing."""
  def nodes(s):
    if s[0] == 'g':
      return 1
    if s[0] == 'self':
      return nodes(s[1])
    return sum(nodes(x) for x in s[1])
  return sum(nodes(s) for s, _ in hist) + sum(sum(E.flatten(s).values()) for s, _ in hist)
