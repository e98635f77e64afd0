"""P13: the ledger and the event builder record every composed event exactly."""
import copy
import math
import numpy as np
from vlib import events as E, mech

PROPERTY = 'P13'
RULE = ('an observation is one ledger or built event compared with the reference record of the history so far; distinct by history; '
        'trivial (empty) records are not counted')
ASSUMPTIONS = ['a record is compared by what it means: its fully expanded sequence (or, when longer than 3000, multiset) of primitive '
               'events with no-ops dropped, not by how the composition is nested']


def REQUIRED(tier):
  return {'ledger_reads': 1500, 'builder_reads': 1500, 'returned_events_rechecked': 1500, 'replays': 150,
          'rejected_composes': 300, 'interleaved_accountants': 60}


def cases(seed, tier):
  n = 5 if tier == 'quick' else 60
  out = []
  for fam, k in (('builder', 600), ('accountant', 400), ('pair', 120), ('default-shared', 40)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


class Model:
  """What a record must contain after a history."""

  def __init__(self):
    self.hist = []

  def add(self, s, c):
    self.hist.append((s, c))

  def meaning(self):
    s = ['comp', [['self', x, c] for x, c in self.hist]]
    return E.flatten(s), E.sequence(s)


def same(obs, mechn, event, model, ctx):
  """The real event means exactly what the model recorded."""
  multi, seq = model.meaning()
  got = E.spec_of(event)
  gm, gs = E.flatten(got), E.sequence(got)
  if multi:
    obs.key(repr(model.hist))
  bad = [x for x in flat_counts(got) if not isinstance(x, int) or x < 1]
  ok = +gm == +multi and (seq is None or gs is None or gs == seq) and not bad
  obs.check(ok, mechn, 'the record differs from the composed events', got=got, want=[(k, v) for k, v in multi.items()],
            history=model.hist, **ctx)


def flat_counts(s):
  if s[0] == 'self':
    yield s[2]
    yield from flat_counts(s[1])
  elif s[0] == 'comp':
    for x in s[1]:
      yield from flat_counts(x)


def any_tree(r, depth=3):
  """Arbitrary trees, including events no accountant supports; few distinct leaves, so that neighbours often coincide."""
  m = r.random()
  if depth == 0 or m < .45:
    return mech.pick(r, [['g', 1.0], ['g', 1.0], ['g', 1], ['g', 2.0], ['l', 1.0], ['rr', .5, 2], ['np'], ['unsup'], ['noop'], ['noop'],
                         ['ps', .1, ['g', 1.0]], ['ps', .1, ['self', ['g', 1.0], 2]], ['ps', .1, ['noop']], ['swr', 10, 3, ['g', 1.0]],
                         ['swor', 10, 3, ['self', ['l', 1.0], 3]], ['tree', 1.0, [3, 4]], ['tree', 1.0, 7], ['ras', ['g', 1.0], 2.0, 1.0],
                         ['ras', ['comp', [['g', 1.0]]], 2.0, 0.0], ['mog', 1.0, [0.0, 1.0], [.5, .5]]])
  if m < .75:
    return ['self', any_tree(r, depth - 1), int(mech.pick(r, [1, 1, 2, 3, 10, 1000]))]
  return ['comp', [any_tree(r, depth - 1) for _ in range(int(r.integers(0, 4)))]]


BAD_COUNTS = [0, -1, -5, 1.0, 2.5, '2', None, [1], math.nan]


def run(case, obs):
  from dp_accounting import dp_event as de, dp_event_builder as db
  r = mech.rng_of(case['s'], case['family'])
  f = case['family']
  if f == 'builder':
    many = [(db.DpEventBuilder(), Model()) for _ in range(int(r.integers(1, 4)))]
    returned = []
    for step in range(int(r.integers(1, 14))):
      b, m = mech.pick(r, many)
      x = r.random()
      if x < .6:
        s, c = any_tree(r, int(r.integers(0, 4))), int(mech.pick(r, [1, 1, 1, 2, 3, 7, 10 ** 6]))
        if m.hist and r.random() < .35:
          s = m.hist[-1][0]
        ev = E.build(s)
        if returned and r.random() < .1:
          # Compose an event that another builder (or this one) returned.
          ev, sp = mech.pick(r, returned)
          s = sp
        before = E.spec_of(ev)
        if c == 1 and r.random() < .5:
          b.compose(ev)
        else:
          b.compose(ev, c)
        obs.check(E.spec_of(ev) == before, 'builder:argument', 'composing changed the event given to the builder', event=before)
        m.add(s, c)
      elif x < .7:
        obs.count('rejected_composes')
        bad_event = mech.pick(r, [None, 'event', 3, ['g'], de.GaussianDpEvent, object()])
        bad_count = mech.pick(r, BAD_COUNTS)
        try:
          if r.random() < .5:
            b.compose(bad_event)
            obs.violate('builder:bad-event', 'something that is not an event was accepted', event=repr(bad_event))
          else:
            b.compose(E.build(any_tree(r, 2)), bad_count)
            obs.violate('builder:bad-count', 'an invalid count was accepted', count=repr(bad_count))
        except (TypeError, ValueError):
          pass
      if r.random() < .5:
        obs.count('builder_reads')
        e = b.build()
        same(obs, 'builder:record', e, m, {})
        returned.append((e, copy.deepcopy(E.spec_of(e))))
    for b, m in many:
      obs.count('builder_reads')
      same(obs, 'builder:final', b.build(), m, {})
      same(obs, 'builder:rebuild', b.build(), m, {})
    for e, sp in returned:
      obs.count('returned_events_rechecked')
      obs.check(E.spec_of(e) == sp, 'builder:returned-event', 'an event returned earlier changed later', then=sp, now=E.spec_of(e))
    return
  acc = mech.pick(r, ['pld', 'rdp', 'rdp', 'rdp'])
  rel = mech.pick(r, E.RELS)
  orders = [2.0, 4.0, 16.0]
  h = 0.05
  mk = lambda: E.accountant(acc, rel, orders, h)
  if f == 'accountant':
    a, m = mk(), Model()
    returned = []
    size = 0
    for step in range(int(r.integers(1, 9))):
      x = r.random()
      if x < .7:
        s = E.tree(r, acc, rel, 2 if acc == 'pld' else 3, lo=2.0, kinds=None if acc == 'rdp' else ['g', 'l', 'psg', 'psl', 'rr'])
        c = int(mech.pick(r, [1, 1, 2, 3, 50 if acc == 'rdp' else 4]))
        if m.hist and r.random() < .3:
          s = m.hist[-1][0]
        if returned and r.random() < .12 and size < 40:
          s = mech.pick(r, returned)[1]
        size += c
        a.compose(E.build(s), c) if c > 1 or r.random() < .5 else a.compose(E.build(s))
        m.add(s, c)
      else:
        obs.count('rejected_composes')
        bad = mech.pick(r, [['unsup'], ['comp', [['g', 1.0], ['unsup']]], ['self', ['comp', [['g', 1.0], ['swr', 10, 2, ['g', 1.0]]]], 3]])
        try:
          m3 = r.random()
          if m3 < .5:
            a.compose(E.build(bad))
          elif m3 < .8:
            a.compose(E.build(['g', 3.0]), mech.pick(r, BAD_COUNTS))
          else:
            a.compose(mech.pick(r, [None, 3, 'g']))
          obs.violate('accountant:bad-accepted', 'an invalid composition was accepted', event=bad)
        except Exception:  # the kind of error is judged by P14
          pass
      if r.random() < .3:
        a.get_epsilon(1e-3)
      if r.random() < .2:
        a.supports(E.build(any_tree(r, 2)))
      if r.random() < .6:
        obs.count('ledger_reads')
        e = a.ledger
        same(obs, 'accountant:ledger', e, m, dict(acc=acc, rel=rel))
        returned.append((e, copy.deepcopy(E.spec_of(e))))
    obs.count('ledger_reads', 2)
    led = a.ledger
    same(obs, 'accountant:final', led, m, dict(acc=acc, rel=rel))
    same(obs, 'accountant:reread', a.ledger, m, dict(acc=acc, rel=rel))
    for e, sp in returned:
      obs.count('returned_events_rechecked')
      obs.check(E.spec_of(e) == sp, 'accountant:returned-ledger', 'a ledger returned earlier changed later', then=sp, now=E.spec_of(e))
    if r.random() < .6:
      obs.count('replays')
      b = mk().compose(led)
      replay_equal(obs, acc, a, b, h, m)
  elif f == 'pair':
    # Several accountants interleaved: records never leak.
    obs.count('interleaved_accountants')
    many = [(mk(), Model()) for _ in range(int(r.integers(2, 5)))]
    for _ in range(int(r.integers(2, 14))):
      a, m = mech.pick(r, many)
      s = mech.pick(r, [['g', 3.0], ['g', 3.0], ['l', 3.0], ['comp', [['g', 3.0], ['l', 3.0]]], ['self', ['g', 3.0], 2]])
      c = int(r.integers(1, 4))
      a.compose(E.build(s), c)
      m.add(s, c)
      for x, y in many:
        obs.count('ledger_reads')
        same(obs, 'pair:ledger', x.ledger, y, {})
  else:
    # Default arguments and class attributes must not be shared between instances.
    from dp_accounting.pld import pld_privacy_accountant as pm
    from dp_accounting.rdp import rdp_privacy_accountant as rm
    a, b = (rm.RdpAccountant(), rm.RdpAccountant()) if r.random() < .5 else (pm.PLDAccountant(), pm.PLDAccountant())
    s = mech.pick(r, [['g', 3.0], ['l', 5.0], ['ps', .1, ['g', 2.0]]])
    a.compose(E.build(s), 3)
    obs.check(b.get_epsilon(1e-6) == 0 and isinstance(b.ledger, de.NoOpDpEvent), 'shared:fresh', 'composing one accountant changed another')
    m = Model()
    m.add(s, 3)
    same(obs, 'shared:ledger', a.ledger, m, {})
    c = type(a)()
    obs.check(c.get_epsilon(1e-6) == 0 and isinstance(c.ledger, de.NoOpDpEvent), 'shared:later', 'an accountant created later is not fresh')
    obs.count('ledger_reads', 3)


def replay_equal(obs, acc, a, b, h, m):
  if acc == 'rdp':
    x, y = a.rdp, b.rdp
    ok = np.all((x == y) | (np.abs(x - y) <= 1e-9 * np.maximum(np.abs(x), np.abs(y)) + 1e-11))
    obs.check(bool(ok), 'replay:rdp', 'replaying the ledger gives different Renyi values', a=x, b=y, history=m.hist)
    return
  g = sum(c for k, c in m.meaning()[0].items() if k.startswith('["g"'))
  sh = (g + 1) * h if g else 0
  for eps in (0.0, 0.5, 2.0):
    u, v = float(a.get_delta(eps)), float(b.get_delta(eps))
    obs.check(float(a.get_delta(eps + sh)) <= v + 1e-10 and float(b.get_delta(eps + sh)) <= u + 1e-10, 'replay:pld',
              'replaying the ledger gives a different delta', eps=eps, shift=sh, a=u, b=v, history=m.hist)
  x, y = a.get_epsilon(1e-4), b.get_epsilon(1e-4)
  obs.check(math.isinf(x) == math.isinf(y), 'replay:pld', 'replaying the ledger gives a different epsilon', a=x, b=y, history=m.hist)
