"""P17: event serialization round-trips."""
import collections
import math
import numpy as np
from vlib import events as E, mech

PROPERTY = 'P17'
RULE = ('an observation is one event tree converted to its form and back (or one altered form); distinct by event tree and alteration; '
        'trees have 1 to about 60 nodes, all built-in event types and user-defined ones')
ASSUMPTIONS = ['fields hold numbers, strings, None, events, or one level of list, tuple or mapping of those, as in the built-in events',
               'a malformed form (unknown class or module, missing or misspelt field) must raise; which exception is not specified']


def REQUIRED(tier):
  return {'round_trips': 2400, 'mapped': 2500, 'foreign_forms': 1200, 'distinct_pairs': 4000, 'malformed_rejected': 1500, 'unconvertible_rejected': 100,
          'custom': 800, 'sibling_tests': 400}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 25
  out = []
  for fam, k in (('tree', 1400), ('custom', 900), ('malformed', 500), ('unconvertible', 40), ('deep', 20), ('pairs', 400), ('edge', 100)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def value(r):
  return mech.pick(r, [0.0, 1.0, 1, 3, -2.5, math.inf, mech.logu(r, 1e-12, 1e12), float(r.normal()), 5e-324, 1e308, 0, 2 ** 70, True])


def any_tree(r, depth):
  """Random spec; serialization does not care whether an accountant supports it."""
  m = r.random()
  if depth == 0 or m < .3:
    k = mech.pick(r, ['noop', 'np', 'unsup', 'g', 'l', 'rr', 'tree', 'mog', 'g'])
    if k in ('noop', 'np', 'unsup'):
      return [k]
    if k in ('g', 'l'):
      return [k, value(r)]
    if k == 'rr':
      return [k, value(r), int(r.integers(1, 9))]
    if k == 'tree':
      return [k, value(r), mech.pick(r, [int(r.integers(1, 99)), [int(x) for x in r.integers(0, 9, int(r.integers(0, 5)))], tuple(int(x) for x in r.integers(1, 9, 2))])]
    n = int(r.integers(0, 4))
    seq = mech.pick(r, [list, tuple])
    return ['mog', value(r), seq(value(r) for _ in range(n)), seq(float(x) for x in r.random(n))]
  k = mech.pick(r, ['self', 'comp', 'ps', 'swr', 'swor', 'ras', 'comp'])
  sub = lambda: any_tree(r, depth - 1)
  if k == 'self':
    return [k, sub(), int(r.integers(0, 50))]
  if k == 'comp':
    return [k, [sub() for _ in range(int(r.integers(0, 5)))]]
  if k == 'ps':
    return [k, value(r), sub()]
  if k in ('swr', 'swor'):
    return [k, int(r.integers(1, 1000)), int(r.integers(1, 100)), sub()]
  return [k, sub(), value(r), value(r)]


def custom_event(r, depth):
  from vlib import custom_events as C
  from dp_accounting import dp_event as de
  sub = lambda: custom_event(r, depth - 1)
  m = r.random()
  if depth == 0 or m < .25:
    return E.build(any_tree(r, 1)) if r.random() < .6 else mech.pick(r, [C.GaussianDpEvent(value(r)), C.Plain(), C.Mapped({}), C.Child([], 2.0, 'x')])
  k = int(r.integers(0, 7))
  if k == 0:
    return C.Named(mech.pick(r, ['query', '', 'a b', 'été', '[1]', 'x']), sub())
  if k == 1:
    keys = mech.pick(r, [['a', 'b', 'c'], [3, 1, 2], ['module_name', '_x', 'k']])
    cls = mech.pick(r, [dict, collections.OrderedDict])
    return C.Mapped(cls((x, sub() if r.random() < .7 else value(r)) for x in keys[:int(r.integers(0, 4))]), value(r))
  if k == 2:
    return C.Pair(first=sub(), second=sub(), rates=tuple(value(r) for _ in range(int(r.integers(0, 3)))), comment=mech.pick(r, [None, 'note', b'raw', 3]))
  if k == 3:
    return C.Child(tuple(sub() for _ in range(int(r.integers(0, 4)))), value(r), sub() if r.random() < .5 else value(r))
  if k == 4:
    return de.ComposedDpEvent([sub() for _ in range(int(r.integers(0, 4)))])
  if k == 5:
    return de.SelfComposedDpEvent(sub(), int(r.integers(1, 9)))
  return de.PoissonSampledDpEvent(value(r), sub())


def fields(e):
  import attr
  return [(a.name, getattr(e, a.name)) for a in attr.fields(type(e))]


def strict_eq(a, b, where='event'):
  """None if equal with equal types at every level, else where they differ."""
  from dp_accounting import dp_event as de
  if isinstance(a, de.DpEvent) or isinstance(b, de.DpEvent):
    if type(a) is not type(b):
      return '%s: %s became %s' % (where, type(a).__name__, type(b).__name__)
    for (n, x), (_, y) in zip(fields(a), fields(b)):
      d = strict_eq(x, y, '%s.%s' % (where, n))
      if d:
        return d
    return None
  if isinstance(a, dict):
    if type(a) is not type(b) or list(a) != list(b):
      return where + ': mapping differs'
    for k in a:
      d = strict_eq(a[k], b[k], '%s[%r]' % (where, k))
      if d:
        return d
    return None
  if isinstance(a, (list, tuple)):
    if type(a) is not type(b) or len(a) != len(b):
      return '%s: %r became %r' % (where, a, b)
    for i, (x, y) in enumerate(zip(a, b)):
      d = strict_eq(x, y, '%s[%d]' % (where, i))
      if d:
        return d
    return None
  if type(a) is not type(b) or a != b:
    return '%s: %r became %r' % (where, a, b)
  return None


def leaves(x):
  """All leaves of a form, by an independent traversal of tuples, lists and mappings."""
  if isinstance(x, dict):
    for v in x.values():
      yield from leaves(v)
  elif isinstance(x, (list, tuple)):
    for v in x:
      yield from leaves(v)
  else:
    yield x


def foreign(x, r, shuffle=True):
  """The same form as another program would hold it: other named-tuple classes, fields in another order."""
  if isinstance(x, tuple) and hasattr(x, '_fields'):
    names = list(x._fields)
    if shuffle:
      r.shuffle(names)
    return collections.namedtuple('Form', names)(**{n: foreign(getattr(x, n), r, shuffle) for n in names})
  if isinstance(x, dict):
    return type(x)((k, foreign(v, r, shuffle)) for k, v in x.items())
  if isinstance(x, (list, tuple)):
    return type(x)([foreign(v, r, shuffle) for v in x])
  return x


def nodes(x, out=None):
  out = [] if out is None else out
  if isinstance(x, tuple) and hasattr(x, '_fields'):
    out.append(x)
    for n in x._fields:
      nodes(getattr(x, n), out)
  elif isinstance(x, dict):
    for v in x.values():
      nodes(v, out)
  elif isinstance(x, (list, tuple)):
    for v in x:
      nodes(v, out)
  return out


def replace_node(x, old, new):
  if x is old:
    return new
  if isinstance(x, tuple) and hasattr(x, '_fields'):
    return type(x)(*[replace_node(getattr(x, n), old, new) for n in x._fields])
  if isinstance(x, dict):
    return type(x)((k, replace_node(v, old, new)) for k, v in x.items())
  if isinstance(x, (list, tuple)):
    return type(x)([replace_node(v, old, new) for v in x])
  return x


def round_trip(ev, make, obs, r, label, k):
  """make() rebuilds an event equal to ev, to see that ev is not changed."""
  import tree as dmtree
  from dp_accounting import dp_event as de
  nt = ev.to_named_tuple()
  obs.count('round_trips')
  obs.key('rt', k)
  obs.check(strict_eq(ev, make()) is None, 'form:event-modified', 'converting to a form modified the event', event=repr(ev))
  obs.check(isinstance(nt, tuple) and all(not isinstance(v, de.DpEvent) for v in leaves(nt)), 'form:contains-event', 'the form contains unconverted events', event=repr(ev))
  obs.check(nt.module_name == type(ev).__module__ and nt.class_name == type(ev).__name__ and
            set(nt._fields) == {'module_name', 'class_name'} | {n for n, _ in fields(ev)}, 'form:names', 'the form does not name the class and fields', event=repr(ev))
  for entry in (de.DpEvent, type(ev)):
    back = entry.from_named_tuple(nt)
    d = strict_eq(ev, back)
    obs.check(d is None and ev == back, label, 'round trip does not yield an equal event', event=repr(ev), back=repr(back), differs=d)
  # Generic structure mapping of the leaves.
  for f, nm in ((lambda v: v, 'identity'), (lambda v: v.encode() if isinstance(v, str) else v, 'bytes')):
    if nm == 'bytes' and label == 'round-trip:custom':
      # Only the class and module names may come back as bytes for events with string fields.
      f = lambda v, s=set(x for n in nodes(nt) for x in (n.module_name, n.class_name)): v.encode() if isinstance(v, str) and v in s else v
    m = dmtree.map_structure(f, nt)
    back = de.DpEvent.from_named_tuple(m)
    obs.count('mapped')
    obs.key('map', nm, k)
    if label == 'round-trip:custom':
      d = None if back == ev else 'not equal'
    else:
      d = strict_eq(ev, back)
    obs.check(d is None, 'structure-mapping:' + nm, 'the form does not survive structure mapping of its leaves', event=repr(ev), back=repr(back), differs=d)
  back = de.DpEvent.from_named_tuple(foreign(nt, r))
  obs.count('foreign_forms')
  obs.check(strict_eq(ev, back) is None, 'foreign-form', 'an equal form of another tuple class yields another event', event=repr(ev), back=repr(back))
  # Scaling a leaf number is seen in the event (structure mapping acts on the fields).
  return nt


def run(case, obs):
  import attr
  from dp_accounting import dp_event as de
  r = mech.rng_of(case['s'], 'p17' + case['family'])
  f = case['family']
  if f == 'tree':
    s = any_tree(r, int(r.integers(0, 5)))
    round_trip(E.build(s), lambda: E.build(s), obs, r, 'round-trip', E.key(s))
  elif f == 'deep':
    s = ['g', value(r)]
    for i in range(60):
      s = mech.pick(r, [['self', s, i + 1], ['comp', [s]], ['ps', .5, s], ['comp', [['noop'], s, ['l', 1.0]]]])
    round_trip(E.build(s), lambda: E.build(s), obs, r, 'round-trip', E.key(s))
  elif f == 'custom':
    obs.count('custom')
    st = case['s']
    mk = lambda: custom_event(mech.rng_of(st, 'p17c'), 3)
    ev = mk()
    obs.count('custom', len(nodes(ev.to_named_tuple())) > 1)
    round_trip(ev, mk, obs, r, 'round-trip:custom', repr(ev))
  elif f == 'edge':
    for ev in (de.DpEvent(), de.ComposedDpEvent([]), de.ComposedDpEvent(()), de.SelfComposedDpEvent(de.ComposedDpEvent([]), 1),
               de.GaussianDpEvent(np.float64(value(r))), de.SingleEpochTreeAggregationDpEvent(np.float32(2), np.int64(3)),
               de.MixtureOfGaussiansDpEvent(1.0, (0.0, 1.0), [.5, .5]), de.GaussianDpEvent(None)):
      round_trip(ev, lambda: ev, obs, r, 'round-trip', repr(ev) + str(case['s'] % 7))
  elif f == 'pairs':
    # One altered field, class or element gives a different form; equal events equal forms.
    s = any_tree(r, int(r.integers(1, 4)))
    base = E.build(s).to_named_tuple()
    obs.check(base == E.build(s).to_named_tuple(), 'form:deterministic', 'equal events have different forms', spec=s)
    seen = {E.key(s)}
    for _ in range(12):
      t = alter(r, s)
      if E.build(t) == E.build(s):
        continue
      obs.count('distinct_pairs')
      obs.key('pair', E.key(s), E.key(t))
      nt = E.build(t).to_named_tuple()
      obs.check(nt != base, 'form:injective', 'different events have equal forms', a=s, b=t)
      back = de.DpEvent.from_named_tuple(nt)
      obs.count('sibling_tests')
      obs.check(strict_eq(E.build(t), back) is None, 'round-trip', 'round trip does not yield an equal event', event=repr(E.build(t)), back=repr(back))
  elif f == 'malformed':
    s = any_tree(r, int(r.integers(1, 4)))
    nt = E.build(s).to_named_tuple()
    ns = nodes(nt)
    for _ in range(4):
      n = ns[int(r.integers(0, len(ns)))]
      d = {k: getattr(n, k) for k in n._fields}
      own = [k for k in d if k not in ('module_name', 'class_name')]
      kind = mech.pick(r, ['class', 'module', 'extra', 'missing', 'rename', 'no-class', 'no-module', 'case'])
      if kind in ('missing', 'rename') and not own:
        continue
      if kind == 'class':
        d['class_name'] = mech.pick(r, ['NoSuchDpEvent', '', d['class_name'] + '2', d['class_name'][:-1]])
      elif kind == 'case':
        d['class_name'] = d['class_name'].lower()
      elif kind == 'module':
        d['module_name'] = mech.pick(r, ['no_such_module_xyz', d['module_name'] + 'x', 'dp_accounting.no_such', ''])
      elif kind == 'extra':
        d['unknown_field'] = 1
      elif kind == 'missing':
        del d[mech.pick(r, own)]
      elif kind == 'rename':
        k = mech.pick(r, own)
        d[k + 's'] = d.pop(k)
      elif kind == 'no-class':
        del d['class_name']
      else:
        del d['module_name']
      bad = collections.namedtuple('Form', list(d))(**d)
      m = replace_node(foreign_keep(nt), n, bad) if n is not nt else bad
      obs.key('bad', kind, E.key(s))
      if kind in ('no-class', 'no-module') and n is not nt:
        # A nested tuple without a name is no event form: it may stay a tuple, but not become an event.
        try:
          back = de.DpEvent.from_named_tuple(m)
        except Exception:
          obs.count('malformed_rejected')
          continue
        cnt = count_events(back)
        obs.check(cnt < len(ns), 'malformed:accepted', 'a form without class or module name became an event', kind=kind, back=repr(back))
        continue
      try:
        back = de.DpEvent.from_named_tuple(m)
      except Exception:
        obs.count('malformed_rejected')
        obs.count('oracle_evaluations')
        continue
      obs.violate('malformed:accepted', 'a malformed form was accepted', kind=kind, form=repr(m)[:300], back=repr(back)[:300])
  else:
    from vlib import custom_events as C
    for ev in (C.Private(1.0), C.Derived(2.0), de.ComposedDpEvent([de.GaussianDpEvent(1.0), C.Private(2.0)]),
               de.SelfComposedDpEvent(C.Derived(1.0), 3), de.PoissonSampledDpEvent(.5, C.Private(1.0))):
      try:
        x = ev.to_named_tuple()
      except ValueError:
        obs.count('unconvertible_rejected')
        obs.count('oracle_evaluations')
        continue
      obs.violate('unconvertible:accepted', 'an event which cannot be rebuilt was converted', event=repr(ev), form=repr(x))


def foreign_keep(x):
  return x


def count_events(x):
  from dp_accounting import dp_event as de
  if isinstance(x, de.DpEvent):
    return 1 + sum(count_events(v) for _, v in fields(x))
  if isinstance(x, dict):
    return sum(count_events(v) for v in x.values())
  if isinstance(x, (list, tuple)):
    return sum(count_events(v) for v in x)
  return 0


SAME = {'g': 'l', 'l': 'g', 'swr': 'swor', 'swor': 'swr', 'noop': 'np', 'np': 'unsup', 'unsup': 'noop'}


def alter(r, s):
  """s with one random node altered."""
  s = list(s)
  kids = [i for i, x in enumerate(s) if i and isinstance(x, list) and x and isinstance(x[0], str)]
  if s[0] == 'comp':
    m = r.random()
    el = list(s[1])
    if el and m < .5:
      i = int(r.integers(0, len(el)))
      el[i] = alter(r, el[i])
    elif m < .65:
      el.append(['noop'])
    elif el and m < .8:
      el.pop(int(r.integers(0, len(el))))
    else:
      el = el[::-1]
    return ['comp', el]
  if kids and r.random() < .6:
    i = mech.pick(r, kids)
    s[i] = alter(r, s[i])
    return s
  if s[0] in SAME and r.random() < .5:
    s[0] = SAME[s[0]]
    return s
  nums = [i for i, x in enumerate(s) if i and isinstance(x, (int, float))]
  if nums:
    i = mech.pick(r, nums)
    v = s[i]
    s[i] = v + 1 if isinstance(v, int) or abs(v) < 1e15 else 1.5
  elif s[0] in SAME:
    s[0] = SAME[s[0]]
  return s
