"""P14: unsupported or invalid events are rejected before any state changes."""
import math
import numpy as np
from vlib import events as E, mech

PROPERTY = 'P14'
RULE = ('an observation is one attempted composition or support query with state compared before and after; distinct by event tree, '
        'accountant and relation')
ASSUMPTIONS = ['the supported events per accountant and relation are those documented in the accountants (reference predicate in vlib/events.py)',
               'state is observed through ledger, rdp, get_epsilon and get_delta']


def REQUIRED(tier):
  return {'fault_injections': 700, 'rejected': 500, 'accepted': 300, 'supports_queries': 1500, 'invalid_counts': 300,
          'nonprivate': 250, 'state_comparisons': 1500}


def cases(seed, tier):
  n = 5 if tier == 'quick' else 60
  out = []
  for fam, k in (('inject', 500), ('table', 250), ('count', 200), ('nonprivate', 200), ('invalid', 200), ('random', 200)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


DEL = [1e-6, 1e-3, 0.2]
EPS = [0.0, 0.7, 3.0]


def state(a):
  s = [E.spec_of(a.ledger)]
  s += [float(a.get_epsilon(d)) for d in DEL] + [float(a.get_delta(e)) for e in EPS]
  if hasattr(a, 'rdp'):
    s += [float(x) for x in a.rdp] + [float(x) for x in a.orders]
  s.append(a.neighboring_relation)
  return s


def same_state(obs, mechn, before, a, ctx):
  obs.count('state_comparisons')
  now = state(a)
  obs.check(repr(now) == repr(before), mechn, 'a rejected composition or a support query changed the accountant',
            before=repr(before)[:400], now=repr(now)[:400], **ctx)


def prepared(r, acc, rel):
  a = E.accountant(acc, rel, [1.5, 2.0, 8.0, 32.0], 0.02)
  for _ in range(int(r.integers(0, 3))):
    a.compose(E.build(mech.pick(r, [['g', 2.0], ['l', 3.0], ['comp', [['g', 3.0], ['l', 2.0]]]])), int(r.integers(1, 4)))
  return a


def place(r, bad, good, depth):
  """A tree with bad at a random place among good events."""
  s = bad
  for _ in range(depth):
    m = r.random()
    if m < .35:
      s = ['self', s, int(r.integers(1, 4))]
    else:
      xs = [good() for _ in range(int(r.integers(0, 4)))]
      xs.insert(int(r.integers(0, len(xs) + 1)), s)
      s = ['comp', xs]
  return s


def simple_good(r, acc, rel):
  return E.leaf(r, acc, rel, lo=2.0, kinds=['g', 'l', 'rr', 'psg', 'tree', 'swor'])


def bads(acc, rel):
  out = [['unsup'], ['swr', 10, 3, ['g', 1.0]], ['swr', 10, 3, ['noop']]]
  if rel == 'ADD_OR_REMOVE_ONE':
    out += [['rr', .5, 2], ['rr', 1.0, 2], ['rr', 0.0, 2], ['rr', .5, 1]]
  if rel == 'REPLACE_ONE':
    out += [['ps', .1, ['g', 1.0]], ['ps', 0.0, ['g', 1.0]], ['ps', 1.0, ['g', 1.0]], ['ps', .1, ['l', 1.0]]]
  out += [['ps', .1, ['unsup']], ['ps', .1, ['comp', [['g', 1.0], ['unsup']]]], ['ps', .1, ['comp', [['g', 1.0], ['noop']]]],
          ['ps', .2, ['ps', .3, ['g', 1.0]]], ['ps', .2, ['np']], ['ps', .2, ['rr', .5, 2]], ['ps', .2, ['mog', 1.0, [0.0, 1.0], [.5, .5]]]]
  if acc == 'pld':
    out += [['swor', 10, 3, ['g', 1.0]], ['tree', 1.0, 5], ['tree', 1.0, [3, 4]], ['ras', ['g', 1.0], 2.0, 1.0], ['ras', ['noop'], 2.0, 1.0],
            ['ps', .1, ['comp', [['g', 1.0], ['g', 1.0]]]], ['ps', .1, ['self', ['g', 1.0], 2]], ['ps', .1, ['comp', [['g', 1.0]]]]]
  else:
    out += [['mog', 1.0, [0.0, 1.0], [.5, .5]], ['ps', .1, ['l', 1.0]], ['ps', .1, ['comp', [['g', 1.0], ['l', 1.0]]]],
            ['ps', .1, ['self', ['l', 1.0], 3]], ['ps', .1, ['comp', [['comp', [['g', 1.0]]], ['self', ['comp', [['rr', .5, 2]]], 2]]]],
            ['ras', ['unsup'], 2.0, 1.0], ['ras', ['comp', [['g', 1.0], ['unsup']]], 2.0, 0.0], ['ras', ['ras', ['unsup'], 3.0, 1.0], 2.0, 1.0],
            ['ras', ['mog', 1.0, [0.0, 1.0], [.5, .5]], 2.0, 1.0]]
    if rel != 'REPLACE_ONE':
      out += [['swor', 10, 3, ['g', 1.0]], ['ras', ['swor', 10, 3, ['g', 1.0]], 2.0, 1.0]]
    else:
      out += [['swor', 10, 3, ['l', 1.0]], ['swor', 10, 3, ['comp', [['g', 1.0], ['l', 1.0]]]], ['swor', 10, 3, ['ps', .1, ['g', 1.0]]],
              ['ras', ['ps', .1, ['g', 1.0]], 2.0, 1.0]]
    if rel != 'REPLACE_SPECIAL':
      out += [['tree', 1.0, 5], ['tree', 1.0, [3, 4]], ['ras', ['tree', 1.0, 5], 2.0, 1.0]]
    if rel == 'ADD_OR_REMOVE_ONE':
      out += [['ras', ['rr', .5, 2], 2.0, 1.0]]
  return out


def attempt(obs, mechn, a, s, count, expect_ok, ctx, pa):
  """Compose and compare with expectation; the accountant must be unchanged after an error."""
  before = state(a)
  ev = E.build(s)
  obs.count('supports_queries')
  sup = a.supports(ev)
  same_state(obs, mechn + ':supports', before, a, ctx)
  obs.check(sup is True or sup is False, mechn + ':supports-type', 'supports did not return a boolean', got=repr(sup), **ctx)
  obs.check(bool(sup) == expect_ok, mechn + ':supports-answer', 'supports() disagrees with the documented support', got=sup, want=expect_ok, **ctx)
  obs.key(repr(ctx), repr(s), repr(count))
  err = None
  try:
    a.compose(ev, count)
  except Exception as e:  # pylint: disable=broad-except
    err = e
  if expect_ok:
    obs.count('accepted')
    if obs.check(err is None, mechn + ':refused', 'a supported event was refused', error=repr(err), **ctx):
      obs.check(E.flatten(E.spec_of(a.ledger)) == E.flatten(['comp', [before[0], ['self', s, count]]]), mechn + ':ledger',
                'an accepted event is missing from the ledger', ledger=E.spec_of(a.ledger), **ctx)
  else:
    obs.count('rejected')
    obs.check(isinstance(err, pa.UnsupportedEventError), mechn + ':accepted', 'an unsupported event was not rejected with the documented error',
              error=repr(err), **ctx)
    same_state(obs, mechn + ':state', before, a, ctx)


def run(case, obs):
  from dp_accounting import privacy_accountant as pa
  r = mech.rng_of(case['s'], case['family'])
  f = case['family']
  acc, rel = mech.pick(r, ['pld', 'rdp']), mech.pick(r, E.RELS)
  a = prepared(r, acc, rel)
  good = lambda: simple_good(r, acc, rel)
  if f in ('inject', 'table'):
    bad = mech.pick(r, bads(acc, rel))
    assert not E.supported(bad, acc, rel), (bad, acc, rel)
    s = bad if f == 'table' else place(r, bad, good, int(r.integers(1, 5)))
    c = int(r.integers(1, 4))
    obs.count('fault_injections')
    attempt(obs, f, a, s, c, False, dict(acc=acc, rel=rel, event=s, count=c), pa)
    # The accountant is still usable and correct afterwards.
    g = ['g', 4.0]
    attempt(obs, f + ':after', a, g, 1, True, dict(acc=acc, rel=rel, event=g, count=1), pa)
  elif f == 'random':
    s = E.tree(r, acc, rel, 3, lo=2.0)
    other = mech.pick(r, [x for x in E.RELS])
    if r.random() < .5:
      a = prepared(r, acc, other)
      rel = other
    if r.random() < .3:
      acc = 'rdp' if acc == 'pld' else 'pld'
      a = prepared(r, acc, rel)
    attempt(obs, f, a, s, int(r.integers(1, 3)), E.supported(s, acc, rel), dict(acc=acc, rel=rel, event=s), pa)
  elif f == 'count':
    s = place(r, good(), good, int(r.integers(0, 3)))
    if r.random() < .1:
      s = mech.pick(r, [['noop'], ['np'], ['comp', []]])
    for c in (0, -1, -7, 1.5, 2.0, '2', None, [3], math.inf, math.nan, (1,)):
      obs.count('invalid_counts')
      before = state(a)
      err = None
      try:
        a.compose(E.build(s), c)
      except Exception as e:  # pylint: disable=broad-except
        err = e
      obs.key(acc, rel, repr(s), repr(c))
      obs.check(isinstance(err, (TypeError, ValueError)), 'count:accepted', 'an invalid count was not rejected', count=repr(c), event=s, error=repr(err))
      same_state(obs, 'count:state', before, a, dict(acc=acc, rel=rel, event=s, count=repr(c)))
    for e in (None, 5, 'x', object, [E.build(['g', 1.0])], {'a': 1}):
      before = state(a)
      err = None
      try:
        a.compose(e)
      except Exception as ex:  # pylint: disable=broad-except
        err = ex
      obs.check(isinstance(err, TypeError), 'type:accepted', 'something that is not an event was composed', event=repr(e), error=repr(err))
      same_state(obs, 'type:state', before, a, dict(acc=acc, rel=rel, event=repr(e)))
  elif f == 'nonprivate':
    np_ = [['np'], ['g', 0], ['g', 0.0], ['l', 0], ['l', 0.0]]
    if rel != 'REPLACE_ONE':
      q = float(r.uniform(.001, 1))
      np_ += [['ps', q, ['g', 0]], ['ps', q, ['g', 0.0]], ['ps', 1.0, ['g', 0.0]]]
      if acc == 'rdp':
        np_ += [['ps', q, ['comp', [['g', 1.0], ['g', 0]]]], ['ps', q, ['self', ['g', 0.0], 2]], ['ps', q, ['comp', [['self', ['g', 0], 2], ['g', 1]]]]]
      else:
        np_ += [['ps', q, ['l', 0.0]], ['ps', 1, ['l', 0]]]
    if rel != 'ADD_OR_REMOVE_ONE':
      np_ += [['rr', 0.0, 2], ['rr', 0, 5]]
    if acc == 'pld':
      np_ += [['mog', 0.0, [0.0, 1.0], [.5, .5]], ['mog', 0, [1.0], [1.0]]]
    else:
      np_ += [['ras', ['np'], 2.0, 1.0], ['ras', ['g', 0.0], 3.0, math.inf], ['ras', ['comp', [['g', 1.0], ['l', 0]]], 3.0, 0.0]]
      if rel == 'REPLACE_SPECIAL':
        np_ += [['tree', 0.0, 5], ['tree', 0, [2, 3]]]
      if rel == 'REPLACE_ONE':
        np_ += [['swor', 10, 3, ['g', 0.0]], ['swor', 10, 3, ['comp', [['g', 1.0], ['g', 0]]]]]
    s = place(r, mech.pick(r, np_), good, int(r.integers(0, 4)))
    c = int(mech.pick(r, [1, 2, 100]))
    seq = [(s, c)] + [(good(), 1) for _ in range(int(r.integers(0, 2)))]
    r.shuffle(seq)
    for x, n in seq:
      a.compose(E.build(x), int(n))
    obs.key(acc, rel, repr(seq))
    for d in (1e-12, 1e-6, 0.01, 0.5, 0.999):
      obs.count('nonprivate')
      e = a.get_epsilon(d)
      obs.check(e == math.inf, 'nonprivate:epsilon', 'epsilon is finite after a release without privacy', delta=d, epsilon=e, acc=acc, rel=rel, history=seq)
    for e in (0.0, 1.0, 50.0):
      d = a.get_delta(e)
      obs.check(d == 1, 'nonprivate:delta', 'delta is below one after a release without privacy', epsilon=e, delta=d, acc=acc, rel=rel, history=seq)
  else:
    # Invalid parameters: whatever is raised, nothing is composed partially.
    inv = [['g', -1.0], ['l', -1.0], ['g', 'a'], ['l', None], ['self', ['g', 1.0], 'x'], ['comp', None], ['self', ['g', 1.0], None],
           ['g', math.nan], ['l', math.nan]]
    if rel != 'REPLACE_ONE':
      inv += [['ps', 1.5, ['g', 1.0]], ['ps', -.1, ['g', 1.0]], ['ps', .1, ['g', -1.0]], ['ps', None, ['g', 1.0]]]
    if rel != 'ADD_OR_REMOVE_ONE':
      inv += [['rr', 1.5, 2], ['rr', -.1, 2], ['rr', .5, 0], ['rr', .5, 'k']]
    if acc == 'pld':
      inv += [['mog', -1.0, [0.0, 1.0], [.5, .5]], ['mog', 1.0, [0.0, 1.0], [.5, .6]], ['mog', 1.0, [0.0], [.5, .5]], ['mog', 1.0, [-1.0, 1.0], [.5, .5]]]
    else:
      inv += [['ras', ['g', 1.0], .5, 1.0], ['ras', ['g', 1.0], 2.0, -1.0], ['ras', ['g', -1.0], 2.0, 1.0], ['ras', ['l', -1.0], 2.0, 1.0]]
      if rel == 'REPLACE_SPECIAL':
        inv += [['tree', -1.0, 5], ['tree', 1.0, -5], ['tree', 1.0, [3, -1]]]
      if rel == 'REPLACE_ONE':
        inv += [['swor', 0, 3, ['g', 1.0]], ['swor', 10, 30, ['g', 1.0]], ['swor', 10, 3, ['g', -1.0]]]
    bad = mech.pick(r, inv)
    s = bad if bad[0] == 'comp' else place(r, bad, good, int(r.integers(0, 4)))
    before = state(a)
    err = None
    obs.count('fault_injections')
    try:
      ev = build_raw(s)
    except Exception:  # the event itself cannot be built
      return
    try:
      a.compose(ev)
    except Exception as e:  # pylint: disable=broad-except
      err = e
    if err is not None:
      obs.count('rejected')
      obs.key(acc, rel, repr(s))
      same_state(obs, 'invalid:state', before, a, dict(acc=acc, rel=rel, event=repr(s), error=repr(err)[:200]))
      # A later valid composition is unaffected by the failed one.
      fresh = E.accountant(acc, rel, [1.5, 2.0, 8.0, 32.0], 0.02)
      led = before[0]
      a.compose(E.build(['g', 3.0]))
      fresh.compose(E.build(led)).compose(E.build(['g', 3.0]))
      x, y = a.get_epsilon(1e-3), fresh.get_epsilon(1e-3)
      obs.check(abs(x - y) <= 0.02 * 20 + 1e-9 if acc == 'pld' else abs(x - y) <= 1e-9, 'invalid:after',
                'a failed composition influences later ones', a=x, b=y, event=repr(s))
    else:
      obs.count('invalid_but_accepted')


def build_raw(s):
  from dp_accounting import dp_event as de
  if s[0] == 'comp' and s[1] is None:
    return de.ComposedDpEvent(None)
  return E.build(s)
