"""Random event trees as JSON specs, real events built from them, and a reference model of what they mean."""
import collections
import json
import math
import numpy as np
from vlib import mech

RELS = ['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL']


def build(s):
  """Spec -> real event."""
  from dp_accounting import dp_event as de
  k = s[0]
  if k == 'noop':
    return de.NoOpDpEvent()
  if k == 'np':
    return de.NonPrivateDpEvent()
  if k == 'unsup':
    return de.UnsupportedDpEvent()
  if k == 'rr':
    return de.RandomizedResponseDpEvent(s[1], s[2])
  if k == 'g':
    return de.GaussianDpEvent(s[1])
  if k == 'l':
    return de.LaplaceDpEvent(s[1])
  if k == 'self':
    return de.SelfComposedDpEvent(build(s[1]), s[2])
  if k == 'comp':
    return de.ComposedDpEvent([build(x) for x in s[1]])
  if k == 'ps':
    return de.PoissonSampledDpEvent(s[1], build(s[2]))
  if k == 'swr':
    return de.SampledWithReplacementDpEvent(s[1], s[2], build(s[3]))
  if k == 'swor':
    return de.SampledWithoutReplacementDpEvent(s[1], s[2], build(s[3]))
  if k == 'tree':
    return de.SingleEpochTreeAggregationDpEvent(s[1], s[2])
  if k == 'ras':
    return de.RepeatAndSelectDpEvent(build(s[1]), s[2], s[3])
  if k == 'mog':
    return de.MixtureOfGaussiansDpEvent(s[1], s[2], s[3])
  raise ValueError(k)


def spec_of(e):
  """Real event -> spec (reads the public fields only)."""
  n = type(e).__name__
  if n == 'NoOpDpEvent':
    return ['noop']
  if n == 'NonPrivateDpEvent':
    return ['np']
  if n == 'UnsupportedDpEvent':
    return ['unsup']
  if n == 'RandomizedResponseDpEvent':
    return ['rr', e.noise_parameter, e.num_buckets]
  if n == 'GaussianDpEvent':
    return ['g', e.noise_multiplier]
  if n == 'LaplaceDpEvent':
    return ['l', e.noise_multiplier]
  if n == 'SelfComposedDpEvent':
    return ['self', spec_of(e.event), e.count]
  if n == 'ComposedDpEvent':
    return ['comp', [spec_of(x) for x in e.events]]
  if n == 'PoissonSampledDpEvent':
    return ['ps', e.sampling_probability, spec_of(e.event)]
  if n == 'SampledWithReplacementDpEvent':
    return ['swr', e.source_dataset_size, e.sample_size, spec_of(e.event)]
  if n == 'SampledWithoutReplacementDpEvent':
    return ['swor', e.source_dataset_size, e.sample_size, spec_of(e.event)]
  if n == 'SingleEpochTreeAggregationDpEvent':
    return ['tree', e.noise_multiplier, e.step_counts if isinstance(e.step_counts, int) else list(e.step_counts)]
  if n == 'RepeatAndSelectDpEvent':
    return ['ras', spec_of(e.event), e.mean, e.shape]
  if n == 'MixtureOfGaussiansDpEvent':
    return ['mog', e.standard_deviation, list(e.sensitivities), list(e.sampling_probs)]
  raise ValueError(n)


def canon(s):
  """Equal events have equal canonical forms (1 and 1.0 are equal parameters)."""
  if isinstance(s, (list, tuple)):
    return [canon(x) for x in s]
  if isinstance(s, (int, float)) and not isinstance(s, bool):
    return float(s)
  return s


def key(s):
  return json.dumps(canon(s))


def flatten(s, n=1, out=None):
  """Multiset {leaf key: count} of the primitive events of a composition; drops no-ops."""
  out = collections.Counter() if out is None else out
  if s[0] == 'noop':
    pass
  elif s[0] == 'self':
    flatten(s[1], n * s[2], out)
  elif s[0] == 'comp':
    for x in s[1]:
      flatten(x, n, out)
  else:
    out[key(s)] += n
  return out


def sequence(s, limit=3000, n=1):
  """Fully expanded sequence of leaf keys, or None if longer than limit."""
  if s[0] == 'noop':
    return []
  if s[0] == 'self':
    one = sequence(s[1], limit)
    if one is None or len(one) * s[2] > limit:
      return None
    return one * s[2]
  if s[0] == 'comp':
    out = []
    for x in s[1]:
      t = sequence(x, limit)
      if t is None:
        return None
      out += t
      if len(out) > limit:
        return None
    return out
  return [key(s)]


# ---------------------------------------------------------------- generation

def num(r, v):
  """Same value, sometimes as an int."""
  return int(v) if v == int(v) and r.random() < .5 else v


def gauss_tree(r, depth, lo=0.6):
  m = r.random()
  if depth == 0 or m < .45:
    v = mech.logu(r, lo, 20)
    if r.random() < .3:
      v = num(r, float(math.ceil(v)))
    return ['g', v]
  if m < .7:
    return ['self', gauss_tree(r, depth - 1, lo), int(r.integers(1, 5))]
  return ['comp', [gauss_tree(r, depth - 1, lo) for _ in range(int(r.integers(1, 4)))]]


def leaf(r, acc, rel, lo=0.6, kinds=None):
  """A random supported primitive event of accountant 'pld' or 'rdp'."""
  ks = ['g', 'g', 'l']
  if rel != 'ADD_OR_REMOVE_ONE':
    ks += ['rr', 'rr']
  if rel != 'REPLACE_ONE':
    ks += ['psg', 'psg'] + (['psl'] if acc == 'pld' else [])
  if acc == 'pld':
    ks += ['mog']
  else:
    ks += ['ras']
    if rel == 'REPLACE_ONE':
      ks += ['swor', 'swor']
    if rel == 'REPLACE_SPECIAL':
      ks += ['tree', 'tree']
  if kinds:
    ks = [k for k in ks if k in kinds] or ['g']
  k = mech.pick(r, ks)
  if k == 'g':
    v = mech.logu(r, lo, 30)
    return ['g', num(r, float(math.ceil(v))) if r.random() < .3 else v]
  if k == 'l':
    v = mech.logu(r, lo, 30)
    return ['l', num(r, float(math.ceil(v))) if r.random() < .3 else v]
  if k == 'rr':
    return ['rr', float(r.uniform(.1, .99)), int(r.integers(2, 9))]
  if k == 'psg':
    q = mech.pick(r, [mech.logu(r, 1e-3, 1), 0.5, 0.01, 1.0, float(r.uniform(.01, .9))])
    return ['ps', q, ['g', mech.logu(r, lo, 10)] if acc == 'pld' else gauss_tree(r, int(r.integers(0, 3)), lo)]
  if k == 'psl':
    return ['ps', mech.pick(r, [mech.logu(r, 1e-3, 1), 0.5, 0.01, 1.0]), ['l', mech.logu(r, lo, 10)]]
  if k == 'mog':
    n = int(r.integers(1, 4))
    s = [float(x) for x in range(n + 1)]
    w = r.dirichlet(np.full(n + 1, 1.0))
    w = [float(max(x, 1e-3)) for x in w]
    t = math.fsum(w)
    w = [x / t for x in w]
    w[-1] = 1 - math.fsum(w[:-1])
    return ['mog', n * mech.logu(r, lo, 10), s, w]
  if k == 'swor':
    n = int(r.integers(10, 10000))
    return ['swor', n, int(r.integers(1, max(2, n // 10))), gauss_tree(r, int(r.integers(0, 2)), 1.0)]
  if k == 'tree':
    return ['tree', mech.logu(r, 1.0, 30), int(r.integers(1, 200)) if r.random() < .5 else
            [int(x) for x in r.integers(1, 60, int(r.integers(1, 5)))]]
  inner = leaf(r, acc, rel, lo=2.0, kinds=['g', 'l', 'psg', 'rr'])
  return ['ras', inner, mech.logu(r, 1.5, 20), mech.pick(r, [0.0, 1.0, 0.5, 2.0, math.inf])]


def tree(r, acc, rel, depth=3, lo=0.6, big=False, kinds=None):
  m = r.random()
  if depth == 0 or m < .4:
    return leaf(r, acc, rel, lo, kinds) if r.random() < .93 else ['noop']
  if m < .65:
    c = int(r.integers(1, 5)) if not big or r.random() < .8 else int(mech.logu(r, 5, 5000))
    return ['self', tree(r, acc, rel, depth - 1, lo, big, kinds), c]
  return ['comp', [tree(r, acc, rel, depth - 1, lo, big, kinds) for _ in range(int(r.integers(0, 4)))]]


def group(r, seq, depth=3):
  """Random history [(spec, count)] whose expansion, up to order, is the multiset seq (leaf specs)."""
  seq = list(seq)
  r.shuffle(seq)
  out = []
  i = 0
  while i < len(seq):
    n = min(int(r.integers(1, 5)), len(seq) - i)
    out.append((nest(r, seq[i:i + n], depth), 1))
    i += n
    if r.random() < .15:
      out.append((mech.pick(r, [['noop'], ['comp', []], ['self', ['noop'], 7], ['comp', [['noop'], ['noop']]]]), int(r.integers(1, 4))))
  return out


def nest(r, seq, depth):
  if len(seq) == 1:
    s = seq[0]
    while r.random() < .3 and depth:
      s = ['comp', [s]] if r.random() < .6 else ['self', s, 1]
      depth -= 1
    return s
  if depth == 0:
    return ['comp', list(seq)]
  k = int(r.integers(1, len(seq) + 1))
  cuts = sorted(set(int(x) for x in r.integers(1, len(seq), k)))
  parts, a = [], 0
  for c in cuts + [len(seq)]:
    if c > a:
      parts.append(seq[a:c])
      a = c
  items = [nest(r, p, depth - 1) for p in parts]
  if r.random() < .2:
    items.insert(int(r.integers(0, len(items) + 1)), ['noop'])
  return ['comp', items]


def counted_history(r, counts, depth=2):
  """Random history [(spec, count)] with the given multiset {index: count} of leaf specs, using counts and self-composition."""
  left = {i: c for i, (s, c) in enumerate(counts)}
  spec = {i: s for i, (s, c) in enumerate(counts)}
  out = []
  while any(left.values()):
    live = [i for i, c in left.items() if c]
    if len(live) > 1 and r.random() < .4:
      # A composed list repeated several times.
      k = int(r.integers(2, len(live) + 1))
      ch = [live[j] for j in r.permutation(len(live))[:k]]
      m = int(r.integers(1, min(left[i] for i in ch) + 1))
      for i in ch:
        left[i] -= m
      out.append(repeat(r, ['comp', [spec[i] for i in ch]], m, depth))
    else:
      i = mech.pick(r, live)
      m = int(r.integers(1, left[i] + 1))
      left[i] -= m
      out.append(repeat(r, spec[i], m, depth))
    if r.random() < .1:
      out.append((['noop'], int(r.integers(1, 4))))
  r.shuffle(out)
  return [tuple(x) for x in out]


def repeat(r, s, m, depth):
  """(spec, count) meaning s composed m times, in a random form."""
  divs = [d for d in range(1, m + 1) if m % d == 0]
  c = mech.pick(r, divs)
  rest = m // c
  while rest > 1 and depth > 0 and r.random() < .7:
    divs = [d for d in range(1, rest + 1) if rest % d == 0]
    d = mech.pick(r, divs)
    if d > 1:
      if d <= 6 and r.random() < .4:
        s = ['comp', [s] * d]
      else:
        s = ['self', s, d]
      rest //= d
    depth -= 1
  if rest > 1:
    s = ['self', s, rest]
  return (s, c)


# ---------------------------------------------------------------- support model

def gauss_only(s):
  if s[0] == 'g':
    return True
  if s[0] == 'self':
    return gauss_only(s[1])
  if s[0] == 'comp':
    return all(gauss_only(x) for x in s[1])
  return False


def sampled_gauss(s):
  return gauss_only(s)


def supported(s, acc, rel):
  """Reference: is the event (with valid parameters) supported for the relation?"""
  k = s[0]
  if k in ('noop', 'np', 'g', 'l'):
    return True
  if k == 'self':
    return supported(s[1], acc, rel)
  if k == 'comp':
    return all(supported(x, acc, rel) for x in s[1])
  if k == 'rr':
    return rel != 'ADD_OR_REMOVE_ONE'
  if k == 'ps':
    if rel == 'REPLACE_ONE':
      return False
    return s[2][0] in ('g', 'l') if acc == 'pld' else gauss_only(s[2])
  if k == 'mog':
    return acc == 'pld'
  if acc == 'pld':
    return False
  if k == 'swor':
    return rel == 'REPLACE_ONE' and gauss_only(s[3])
  if k == 'tree':
    return rel == 'REPLACE_SPECIAL'
  if k == 'ras':
    return supported(s[1], acc, rel)
  return False


def relation(name):
  from dp_accounting import privacy_accountant as pa
  return getattr(pa.NeighboringRelation, name)


def accountant(acc, rel, orders=None, h=None):
  if acc == 'pld':
    from dp_accounting.pld import pld_privacy_accountant as m
    return m.PLDAccountant(relation(rel), **({} if h is None else {'value_discretization_interval': h}))
  from dp_accounting.rdp import rdp_privacy_accountant as m
  return m.RdpAccountant(orders, relation(rel))


def guarantees(a, deltas, epss):
  return ([float(a.get_epsilon(d)) for d in deltas], [float(a.get_delta(e)) for e in epss])
