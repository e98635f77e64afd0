"""P12: accountants depend only on the multiset of composed events."""
import math
import numpy as np
from vlib import events as E, mech

PROPERTY = 'P12'
RULE = ('an observation is one pair of histories with the same multiset of primitive events but different order, wrapping or '
        'counts whose guarantees were compared; distinct by both histories')
ASSUMPTIONS = ['numerical accountant: differences up to the declared tail truncation (1e-15 per composition), FFT rounding, and, '
               'only when Gaussian counts are regrouped, the discretization interval per release are accepted']


def REQUIRED(tier):
  return {'histories': 500, 'pld_comparisons': 1500, 'rdp_comparisons': 3000, 'free_events_inserted': 100, 'counted_histories': 200,
          'custom_comparisons': 60, 'run_histories': 250}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 20
  out = []
  for fam, k in (('pld-order', 90), ('pld-count', 110), ('rdp-order', 160), ('rdp-count', 160), ('free', 60), ('generic', 100), ('pld-runs', 140), ('rdp-runs', 200)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


ORD = [1.5, 2.0, 3.0, 8.0, 32.0]
DELTAS = [1e-3, 1e-5, 1e-8, 0.1]


def apply(acc, rel, hist, orders=None, h=None):
  a = E.accountant(acc, rel, orders, h)
  for s, c in hist:
    a.compose(E.build(s), c)
  return a


def compare_pld(obs, mechn, a, b, shift, slack, ctx):
  """Delta curves of a and b agree up to a shift of the losses and slack of mass."""
  obs.count('histories')
  obs.key(repr(ctx))
  e = a.get_epsilon(1e-3)
  e = min(e, 50.0) if math.isfinite(e) else 1.0
  for eps in (0.0, e * 0.5, e, e * 1.3, 0.1):
    obs.count('pld_comparisons')
    da, db = float(a.get_delta(eps)), float(b.get_delta(eps))
    if shift == 0:
      obs.check(abs(da - db) <= slack + 1e-9 * da, mechn, 'two histories of the same events have different delta', eps=eps, a=da, b=db, **ctx)
    else:
      obs.check(float(a.get_delta(eps + shift)) <= db + slack and float(b.get_delta(eps + shift)) <= da + slack, mechn + ':shift',
                'two histories of the same events differ by more than the discretization', eps=eps, shift=shift, a=da, b=db,
                a_shifted=float(a.get_delta(eps + shift)), b_shifted=float(b.get_delta(eps + shift)), **ctx)
  for d in DELTAS:
    obs.count('pld_comparisons')
    eb = b.get_epsilon(d)
    lo, hi = a.get_epsilon(d + slack + 1e-9 * d), a.get_epsilon(max(d - slack - 1e-9 * d, 0))
    obs.check(lo - shift - 1e-9 <= eb <= hi + shift + 1e-9, mechn + ':epsilon',
              'two histories of the same events have different epsilon', delta=d, a=[lo, hi], b=eb, **ctx)


def compare_rdp(obs, mechn, a, b, ctx, total, exact_fn=True):
  obs.count('histories')
  obs.key(repr(ctx))
  ra, rb = a.rdp, b.rdp
  for o, x, y in zip(a.orders, ra, rb):
    obs.count('rdp_comparisons')
    ok = (x == y) or abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + total * 1e-13
    obs.check(ok, mechn, 'two histories of the same events have different Renyi values', order=float(o), a=float(x), b=float(y), **ctx)
  for d in DELTAS:
    x, y = a.get_epsilon(d), b.get_epsilon(d)
    obs.check(x == y or abs(x - y) <= 1e-7 * max(1, x), mechn + ':epsilon', 'two histories of the same events have different epsilon',
              delta=d, a=x, b=y, **ctx)
  for e in (0.1, 1.0, 5.0):
    x, y = a.get_delta(e), b.get_delta(e)
    obs.check(x == y or abs(x - y) <= 1e-6 * max(x, y) + 1e-7, mechn + ':delta', 'two histories of the same events have different delta',
              eps=e, a=x, b=y, **ctx)


def run(case, obs):
  r = mech.rng_of(case['s'], case['family'])
  f = case['family']
  rel = mech.pick(r, E.RELS)
  if f == 'pld-order':
    h = mech.pick(r, [2e-3, 1e-2, 3e-3, 0.05])
    seq = [E.leaf(r, 'pld', rel, lo=0.8) for _ in range(int(r.integers(2, 9)))]
    if r.random() < .5:
      seq += [seq[int(r.integers(len(seq)))] for _ in range(int(r.integers(1, 4)))]
    flat = [(s, 1) for s in seq]
    a = apply('pld', rel, flat, h=h)
    b = apply('pld', rel, E.group(r, seq), h=h)
    c_hist = E.group(r, seq)
    c = apply('pld', rel, c_hist, h=h)
    sl = 1e-12
    compare_pld(obs, 'pld-order', a, b, 0, sl, dict(rel=rel, h=h, hist=flat))
    compare_pld(obs, 'pld-order', a, c, 0, sl, dict(rel=rel, h=h, hist=flat, other=c_hist))
  elif f == 'pld-count':
    h = mech.pick(r, [2e-3, 1e-2, 3e-3])
    noG = r.random() < .6
    kinds = [k for k in ('l', 'rr', 'psg', 'psl', 'mog', 'g') if not (noG and k == 'g')]
    counts, seen = [], set()
    for _ in range(int(r.integers(1, 4))):
      s = E.leaf(r, 'pld', rel, lo=1.0, kinds=kinds)
      if noG and s[0] == 'g':
        s = ['l', s[1]]
      if E.key(s) not in seen:
        seen.add(E.key(s))
        counts.append((s, int(mech.pick(r, [1, 2, 3, 4, 6, 9, 12]))))
    total = sum(c for _, c in counts)
    nG = sum(c for s, c in counts if s[0] == 'g')
    h1, h2 = E.counted_history(r, counts), E.counted_history(r, counts)
    flat = [(s, 1) for s, c in counts for _ in range(c)] if r.random() < .5 else h2
    assert collect(h1) == collect(flat)
    obs.count('counted_histories')
    a, b = apply('pld', rel, h1, h=h), apply('pld', rel, flat, h=h)
    compare_pld(obs, 'pld-count', a, b, (nG + 1) * h if nG else 0, 1e-12 * (1 + total), dict(rel=rel, h=h, a_hist=h1, b_hist=flat))
  elif f in ('rdp-order', 'rdp-count'):
    orders = sorted({float(r.integers(2, 60)) for _ in range(5)} | {float(r.uniform(1.1, 10)), 2.0}) if r.random() < .7 else None
    if f == 'rdp-order':
      seq = [E.leaf(r, 'rdp', rel) for _ in range(int(r.integers(2, 9)))]
      h1, h2 = E.group(r, seq), E.group(r, seq)
      total = len(seq)
    else:
      counts, seen = [], set()
      for _ in range(int(r.integers(1, 5))):
        s = E.leaf(r, 'rdp', rel)
        if E.key(s) not in seen:
          seen.add(E.key(s))
          counts.append((s, int(mech.pick(r, [1, 2, 3, 4, 6, 9, 12, 60]))))
      total = sum(c for _, c in counts)
      h1, h2 = E.counted_history(r, counts), E.counted_history(r, counts)
      if r.random() < .4:
        h2 = [(s, 1) for s, c in counts for _ in range(c)]
      obs.count('counted_histories')
    assert collect(h1) == collect(h2)
    a, b = apply('rdp', rel, h1, orders), apply('rdp', rel, h2, orders)
    compare_rdp(obs, f, a, b, dict(rel=rel, a_hist=h1, b_hist=h2), total)
  elif f in ('pld-runs', 'rdp-runs'):
    # One list with runs of equal events (adjacent or separated) against the same events one by one.
    acc = f[:3]
    h = mech.pick(r, [1e-2, 0.05])
    kinds = ['psg', 'psl', 'l', 'rr', 'mog'] if acc == 'pld' else None
    if r.random() < .4:
      kinds = [mech.pick(r, ['psg', 'psl', 'l', 'rr', 'mog'] if acc == 'pld' else ['g', 'psg', 'l', 'rr', 'swor', 'tree', 'ras'])]
    pool = [E.leaf(r, acc, rel, lo=1.0, kinds=kinds) for _ in range(int(r.integers(1, 4)))]
    if acc == 'pld':
      pool = [['l', s[1]] if s[0] == 'g' else s for s in pool]
    seq = []
    for _ in range(int(r.integers(1, 5))):
      s = mech.pick(r, pool)
      seq += [s] * int(r.integers(1, 4)) if r.random() < .7 else [['self', s, int(r.integers(1, 4))]]
      if r.random() < .15:
        seq.append(['noop'])
    c = int(mech.pick(r, [1, 1, 2, 3]))
    h1 = [(['comp', seq], c)] if r.random() < .7 else [(['comp', [['comp', seq]] * c], 1)]
    if r.random() < .3:
      h1 = [(['self', ['comp', seq], c], 1)]
    flat = [s for s in seq if s[0] != 'noop'] * c
    flat = [(x, 1) for s in flat for x in ([s[1]] * s[2] if s[0] == 'self' else [s])]
    r.shuffle(flat)
    flat = [tuple(x) for x in flat]
    obs.count('run_histories')
    assert collect(h1) == collect(flat)
    a, b = apply(acc, rel, h1, ORD if acc == 'rdp' else None, h=h), apply(acc, rel, flat, ORD if acc == 'rdp' else None, h=h)
    ctx = dict(rel=rel, a_hist=h1, b_hist=flat)
    if acc == 'pld':
      compare_pld(obs, f, a, b, 0, 1e-12 * (1 + len(flat)), dict(h=h, **ctx))
    else:
      compare_rdp(obs, f, a, b, ctx, len(flat))
  elif f == 'free':
    # Events without privacy cost change nothing, wherever they are inserted.
    acc = mech.pick(r, ['pld', 'rdp'])
    h = 1e-3
    free = [['noop'], ['comp', []], ['self', ['noop'], 3], ['comp', [['noop'], ['comp', []]]]]
    if rel != 'REPLACE_ONE':
      free += [['ps', 0.0, ['g', 1.0]], ['ps', 0, ['g', 2.0]]]
    if rel != 'ADD_OR_REMOVE_ONE':
      free += [['rr', 1.0, 3], ['rr', 0.3, 1], ['rr', 1, 2]]
    if acc == 'pld':
      free += [['mog', 1.0, [0.0, 1.0], [1.0, 0.0]], ['mog', 1.0, [0.0], [1.0]]]
    hist = [(E.tree(r, acc, rel, 2), int(r.integers(1, 4))) for _ in range(int(r.integers(0, 4)))]
    mixed = []
    for s, c in hist + [(None, 0)]:
      while r.random() < .5:
        mixed.append((mech.pick(r, free), int(mech.pick(r, [1, 2, 1000]))))
        obs.count('free_events_inserted')
      if s is not None:
        if r.random() < .5:
          s = ['comp', [s, mech.pick(r, free)] if r.random() < .5 else [mech.pick(r, free), s]]
          obs.count('free_events_inserted')
        mixed.append((s, c))
    orders = [1.5, 2.0, 3.3, 8.0, 32.0]
    a, b = apply(acc, rel, hist, orders, h), apply(acc, rel, mixed, orders, h)
    if acc == 'pld':
      compare_pld(obs, 'free', a, b, 0, 1e-12, dict(rel=rel, hist=hist, mixed=mixed))
    else:
      compare_rdp(obs, 'free', a, b, dict(rel=rel, hist=hist, mixed=mixed), 1)
  else:
    # The base class with a recording accountant: every leaf reaches it with its exact multiplicity.
    from dp_accounting import dp_event as de, privacy_accountant as pa

    class Recorder(pa.PrivacyAccountant):
      """A user-defined accountant: epsilon is the number of Gaussian releases."""

      def __init__(self):
        super().__init__(pa.NeighboringRelation.ADD_OR_REMOVE_ONE)
        self._n = 0.0

      def _maybe_compose(self, event, count, do_compose):
        if isinstance(event, de.NoOpDpEvent):
          return None
        if isinstance(event, de.SelfComposedDpEvent):
          return self._maybe_compose(event.event, count * event.count, do_compose)
        if isinstance(event, de.ComposedDpEvent):
          for e in event.events:
            x = self._maybe_compose(e, count, do_compose)
            if x is not None:
              return x
          return None
        if isinstance(event, de.GaussianDpEvent):
          if do_compose:
            self._n += count * event.noise_multiplier
          return None
        return self.CompositionErrorDetails(event, 'no')

      def get_epsilon(self, target_delta):
        return self._n

    counts = [(['g', float(i + 1)], int(r.integers(1, 20))) for i in range(int(r.integers(1, 5)))]
    hist = E.counted_history(r, counts)
    a = Recorder()
    for s, c in hist:
      out = a.compose(E.build(s), c)
      obs.check(out is a, 'generic:chain', 'compose did not return the accountant')
    want = float(sum(s[1] * c for s, c in counts))
    obs.count('custom_comparisons')
    obs.key('generic', repr(hist))
    obs.check(a.get_epsilon(0.1) == want, 'generic:sum', 'a custom accountant saw wrong multiplicities', hist=hist, got=a.get_epsilon(0.1), want=want)
    bad = None
    try:
      a.compose(de.ComposedDpEvent([de.GaussianDpEvent(5.0), de.LaplaceDpEvent(1.0)]))
    except pa.UnsupportedEventError as e:
      bad = e
    obs.check(bad is not None and a.get_epsilon(0.1) == want, 'generic:reject', 'a custom accountant composed part of an unsupported event')


def collect(hist):
  out = None
  for s, c in hist:
    out = E.flatten(s, c, out)
  return out
