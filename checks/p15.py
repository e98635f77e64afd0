"""P15: privacy spent never decreases and queries have no side effects."""
import json
import math
import os
import numpy as np
from vlib import events as E, mech

PROPERTY = 'P15'
RULE = ('an observation is one composition step compared with the guarantee before it, or one query answer compared with the answer of an '
        'undisturbed twin; distinct by history and query')
ASSUMPTIONS = ['numerical accountant: a decrease of delta below 1e-12 (FFT rounding, truncation) is accepted',
               'sampled Gaussians of the Renyi monotonicity part use the same accountant arithmetic, tolerance 1e-12 relative']


def REQUIRED(tier):
  return {'isolated_comparisons': 1500, 'isolated_processes': 600, 'monotone_steps': 500, 'monotone_comparisons': 4000, 'twin_comparisons': 3000, 'array_mutations': 500,
          'interleaved_queries': 3000}


# Every case runs in a process of its own, so that nothing was computed before it.
TASKS_PER_PROCESS = 1


def SETUP():
  # Imported (not used) before the processes are forked.
  # pylint: disable=unused-import,g-import-not-at-top
  from dp_accounting import privacy_accountant, rdp
  from dp_accounting.pld import pld_privacy_accountant, privacy_loss_distribution
  from dp_accounting.rdp import rdp_privacy_accountant


def cases(seed, tier):
  n = 3 if tier == 'quick' else 50
  out = []
  for fam, k in (('mono-pld', 120), ('mono-rdp', 250), ('twin-pld', 80), ('twin-rdp', 250), ('arrays', 150), ('pld-object', 120), ('isolated', 150)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


DELTAS = [0.3, 1e-2, 1e-5, 1e-9]
EPSS = [0.0, 0.05, 0.4, 1.5, 6.0]


def history(r, acc, rel, n=6):
  kinds = ['g', 'l', 'rr', 'psg', 'psl'] if acc == 'pld' else None
  if acc == 'pld' and r.random() < .2:
    kinds.append('mog')
  out = []
  for _ in range(int(r.integers(1, n))):
    lo = mech.pick(r, [1.0, 3.0, 10.0])
    s = E.tree(r, acc, rel, int(r.integers(0, 3)), lo=lo, kinds=kinds)
    out.append((s, int(mech.pick(r, [1, 1, 2, 3, 8]))))
  if r.random() < .08:
    out.insert(int(r.integers(0, len(out) + 1)), (mech.pick(r, [['np'], ['g', 0.0], ['l', 0]]), 1))
  return out


ORDERS = [[1.5, 2.0, 4.0, 8.0, 33.0], [2, 3, 64, 256], [1.0, 1.01, 1.05, 2.0, 5.5, 128.0], None]


def run(case, obs):
  r = mech.rng_of(case['s'], case['family'])
  f = case['family']
  rel = mech.pick(r, E.RELS)
  if f.startswith('mono'):
    acc = f[5:]
    h = mech.pick(r, [1e-2, 2e-3, 0.05])
    orders = ORDERS[int(r.integers(4))]
    if orders and 1.0 in orders:
      hist_ok = False
    a = E.accountant(acc, rel, orders, h)
    hist = history(r, acc, rel)
    if acc == 'rdp' and orders and min(orders) <= 1.0:
      hist = [(s, c) for s, c in hist if only_plain(s)]
    prev = E.guarantees(a, DELTAS, EPSS)
    prev_rdp = a.rdp if acc == 'rdp' else None
    done = []
    for s, c in hist:
      a.compose(E.build(s), c)
      done.append((s, c))
      obs.count('monotone_steps')
      cur = E.guarantees(a, DELTAS, EPSS)
      ctx = dict(acc=acc, rel=rel, h=h, orders=orders, history=list(done))
      obs.key(repr(done), acc, rel)
      slack = 1e-12 if acc == 'pld' else 0.0
      for i, d in enumerate(DELTAS):
        obs.count('monotone_comparisons')
        # eps cannot drop: allow the accepted mass slack by asking the new accountant at a slightly smaller delta.
        now = cur[0][i] if acc == 'rdp' else float(a.get_epsilon(max(d * (1 - 1e-9) - slack, 0)))
        obs.check(now >= prev[0][i] * (1 - 1e-11) - 1e-10, 'mono:%s:epsilon' % acc, 'composing an event decreased epsilon', delta=d,
                  before=prev[0][i], after=now, **ctx)
      for i, e in enumerate(EPSS):
        obs.count('monotone_comparisons')
        obs.check(cur[1][i] >= prev[1][i] * (1 - 1e-9) - slack, 'mono:%s:delta' % acc, 'composing an event decreased delta', eps=e,
                  before=prev[1][i], after=cur[1][i], **ctx)
      if acc == 'rdp':
        now = a.rdp
        obs.check(bool(np.all(now >= prev_rdp * (1 - 1e-12) - 1e-13)), 'mono:rdp:values', 'composing an event decreased a Renyi value',
                  before=prev_rdp, after=now, **ctx)
        prev_rdp = now
      for x, name in ((cur[0], 'epsilon'), (cur[1], 'delta')):
        obs.check(all(v >= (-1e-15 if name == 'delta' and acc == 'pld' else 0) for v in x), 'range:' + name, 'a reported value is negative or not a number', values=x, **ctx)
      obs.check(all(v <= (1 + 1e-9 if acc == 'pld' else 1) for v in cur[1]), 'range:delta1', 'a reported delta is above one', values=cur[1], **ctx)
      prev = cur
  elif f.startswith('twin'):
    acc = f[5:]
    h = mech.pick(r, [1e-2, 0.05])
    orders = ORDERS[int(r.integers(2))]
    n = int(r.integers(1, 4))
    hists = [history(r, acc, rel) for _ in range(n)]
    # Interleaved run with many queries, failed compositions and other accountants' work in between ...
    accs = [E.accountant(acc, rel, orders, h) for _ in range(n)]
    pos = [0] * n
    answers = [[] for _ in range(n)]
    log = []
    while any(pos[i] < len(hists[i]) for i in range(n)):
      live = [i for i in range(n) if pos[i] < len(hists[i])]
      for _ in range(int(r.integers(0, 5))):
        j = int(r.integers(n))
        obs.count('interleaved_queries')
        kind = int(r.integers(0, 9))
        log.append((j, kind))
        query(r, accs[j], kind, acc)
      i = mech.pick(r, live)
      s, c = hists[i][pos[i]]
      accs[i].compose(E.build(s), c)
      pos[i] += 1
      if r.random() < .5:
        answers[i].append((pos[i], E.guarantees(accs[i], DELTAS[:3], EPSS[:3])))
    # ... against undisturbed twins.
    for i in range(n):
      want = dict(answers[i])
      twin = E.accountant(acc, rel, orders, h)
      for k, (s, c) in enumerate(hists[i]):
        twin.compose(E.build(s), c)
        if k + 1 in want:
          t2 = E.accountant(acc, rel, orders, h)
          for s2, c2 in hists[i][:k + 1]:
            t2.compose(E.build(s2), c2)
          cmp(obs, acc, want[k + 1], E.guarantees(t2, DELTAS[:3], EPSS[:3]), dict(acc=acc, rel=rel, history=hists[i][:k + 1], log=log[-30:]))
      cmp(obs, acc, E.guarantees(accs[i], DELTAS, EPSS), E.guarantees(twin, DELTAS, EPSS), dict(acc=acc, rel=rel, history=hists[i], log=log[-30:]))
      x, y = E.guarantees(accs[i], DELTAS, EPSS), E.guarantees(accs[i], DELTAS, EPSS)
      obs.check(repr(x) == repr(y), 'twin:repeat', 'asking twice gives two answers', a=x, b=y)
      obs.key(repr(hists[i]), repr(log))
  elif f == 'arrays':
    orders = [1.5, 2.0, 4.0, 8.0, 33.0]
    given = mech.pick(r, [list(orders), tuple(orders), np.array(orders)])
    if r.random() < .2:
      given = None
    a = E.accountant('rdp', rel, given)
    for s, c in history(r, 'rdp', rel, 4):
      a.compose(E.build(s), c)
    before = (E.guarantees(a, DELTAS, EPSS), [float(x) for x in a.rdp], [float(x) for x in a.orders])
    for _ in range(int(r.integers(1, 5))):
      obs.count('array_mutations')
      x = a.rdp if r.random() < .5 else a.orders
      k = int(r.integers(0, 4))
      if k == 0:
        x[:] = 0
      elif k == 1:
        x += 5
      elif k == 2:
        x[int(r.integers(len(x)))] = math.inf
      else:
        x.sort()
        x *= 0.5
    b = E.accountant('rdp', rel, given).compose(E.build(['g', 1.0]))
    obs.key('arrays', repr(before))
    now = (E.guarantees(a, DELTAS, EPSS), [float(x) for x in a.rdp], [float(x) for x in a.orders])
    obs.check(repr(now) == repr(before), 'arrays:leak', 'changing a returned array changed the accountant', before=repr(before)[:300], now=repr(now)[:300])
    if given is not None:
      obs.check([float(x) for x in given] == orders, 'arrays:argument', 'the orders given to the constructor were modified', now=repr(given))
      if not isinstance(given, tuple):
        # The caller reuses its orders container for something else.
        given[0] = 1.9
        now = (E.guarantees(a, DELTAS, EPSS), [float(x) for x in a.rdp], [float(x) for x in a.orders])
        obs.check(repr(now) == repr(before), 'arrays:given', 'changing the orders container after construction changed the accountant')
    c = E.accountant('rdp', rel, None)
    d = E.accountant('rdp', rel, None)
    c.orders[:] = 7
    c.compose(E.build(['g', 2.0]))
    obs.check([float(x) for x in c.orders] == [float(x) for x in d.orders] and bool(np.all(d.rdp == 0)), 'arrays:default',
              'accountants with default orders share state')
  elif f == 'isolated':
    isolated(r, obs)
  else:
    pld_object(r, obs)


def only_plain(s):
  if s[0] == 'self':
    return only_plain(s[1])
  if s[0] == 'comp':
    return all(only_plain(x) for x in s[1])
  return s[0] in ('noop', 'g', 'l', 'np')


def cmp(obs, acc, x, y, ctx):
  obs.count('twin_comparisons', len(x[0]) + len(x[1]))
  obs.check(repr(x) == repr(y), 'twin:' + acc, 'queries or other accountants changed what an accountant reports', disturbed=x, undisturbed=y, **ctx)


def query(r, a, kind, acc):
  """One query of any public kind; errors of the query itself are fine, changes are not."""
  try:
    if kind == 0:
      a.get_epsilon(float(10 ** r.uniform(-9, 0)))
    elif kind == 1:
      a.get_delta(float(r.uniform(0, 10)))
    elif kind == 2:
      a.ledger  # pylint: disable=pointless-statement
    elif kind == 3:
      a.supports(E.build(E.tree(r, acc, mech.pick(r, E.RELS), 2)))
    elif kind == 4:
      a.compose(E.build(['comp', [['g', .1], ['unsup']]]), 3)
    elif kind == 5:
      a.compose(E.build(['g', .1]), mech.pick(r, [0, -1, 2.5, 'x']))
    elif kind == 6:
      if acc == 'rdp':
        a.get_epsilon_and_optimal_order(1e-5), a.get_delta_and_optimal_order(1.0)
      else:
        a.get_delta(0.0)
    elif kind == 7:
      a.neighboring_relation  # pylint: disable=pointless-statement
      if acc == 'rdp':
        a.rdp[:] = 3
        a.orders[:] = 3
    else:
      a.get_epsilon(-1.0)
  except Exception:  # pylint: disable=broad-except
    pass


def in_fork(fn):
  """The answer of fn in a process that has computed nothing before."""
  rd, wr = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      try:
        out = json.dumps(fn())
      except Exception as e:  # pylint: disable=broad-except
        out = json.dumps(['raised', type(e).__name__])
      with os.fdopen(wr, 'w') as fh:
        fh.write(out)
    finally:
      os._exit(0)
  os.close(wr)
  with os.fdopen(rd) as fh:
    txt = fh.read()
  os.waitpid(pid, 0)
  return json.loads(txt)


def near(r, x):
  """x, or a value that is easily confused with x."""
  return mech.pick(r, [x, x, x * (1 + 4e-7), x * (1 + 1e-7), x * (1 - 1e-9), x * (1 - 3e-5), x * 1.001, x * 1.5, x / 2])


def variants(r):
  """Computations that share most of their inputs; each is (description, function returning plain numbers)."""
  m = int(mech.pick(r, [0, 0, 0, 1, 1, 2]))
  if m == 0:
    # Accountants that differ in orders, interval, relation or one parameter of an event.
    acc = mech.pick(r, ['pld', 'rdp'])
    rel0 = mech.pick(r, E.RELS)
    base = [(E.leaf(r, acc, rel0, lo=1.0), int(mech.pick(r, [1, 2, 7]))) for _ in range(int(r.integers(1, 3)))]
    h0 = mech.pick(r, [1e-2, 0.05])
    o0 = mech.pick(r, ORDERS)
    if r.random() < .4:
      s = ['ps', mech.pick(r, [.01, .25, mech.logu(r, 1e-3, .5)]), [mech.pick(r, ['g', 'g', 'l']), mech.pick(r, [1.0, mech.logu(r, .7, 4)])]]
      if E.supported(s, acc, rel0):
        base[0] = (s, base[0][1])
    out = []
    for _ in range(5):
      hist, rel, h, o = [], rel0, h0, o0
      for s, c in base:
        hist.append((perturb(r, s) if r.random() < .5 else s, c if r.random() < .8 else c + 1))
      if r.random() < .4:
        h = near(r, h0)
      if o0 and r.random() < .6:
        o = [o0[0]] + sorted(float(x) if r.random() < .5 else float(x) + mech.pick(r, [1e-6, .25, 1.0, 3.0]) for x in o0[1:])
      if r.random() < .3:
        rel2 = mech.pick(r, E.RELS)
        if all(E.supported(s, acc, rel2) for s, _ in hist):
          rel = rel2

      def fn(acc=acc, rel=rel, o=o, h=h, hist=tuple(hist)):
        a = E.accountant(acc, rel, o, h)
        for s, c in hist:
          a.compose(E.build(s), c)
        return E.guarantees(a, DELTAS[:3], EPSS[:3]) + (([float(x) for x in a.rdp],) if acc == 'rdp' else ())
      out.append((['accountant', acc, rel, o, h, hist], fn))
    return out
  if m == 1:
    # Distributions that differ in estimate, algorithm, interval or one parameter.
    spec0 = mech.random_spec(r, kind=mech.pick(r, ['gaussian', 'laplace', 'dlaplace', 'dgaussian', 'mog']))
    h0 = max(mech.pick(r, [1e-2, 0.1]), mech.eps_scale(spec0) / 500)
    out = []
    for _ in range(5):
      spec = mech.sibling(r, spec0) if r.random() < .6 else spec0
      h = near(r, h0) if r.random() < .4 else h0
      pess, dots = bool(r.random() < .6), bool(r.random() < .5)
      n = int(mech.pick(r, [1, 1, 3]))

      def fn2(spec=spec, h=h, pess=pess, dots=dots, n=n):
        p = mech.build(spec, h, pess, dots and pess).self_compose(n)
        return [float(p.get_delta_for_epsilon(e)) for e in (0.0, 0.3, 1.1)] + [float(p.get_epsilon_for_delta(d)) for d in (1e-2, 1e-6)] + \
            [float(x) for x in p.get_delta_for_epsilon([0.0, 0.5, 2.0])]
      out.append((['pld', spec, h, pess, dots, n], fn2))
    return out
  # Conversions and mechanism objects.
  from dp_accounting import rdp
  o0 = [2.0, 3.0, 8.0, 20.0]
  v0 = [float(x) for x in np.cumsum(r.uniform(0, 1, 4))]
  spec0 = mech.random_spec(r, kind=mech.pick(r, ['gaussian', 'laplace', 'dlaplace', 'dgaussian']))
  out = []
  for _ in range(5):
    o = [near(r, x) for x in o0] if r.random() < .5 else o0
    v = [near(r, x) for x in v0] if r.random() < .5 else v0
    d, e = near(r, 1e-5), near(r, 1.0)
    spec = mech.sibling(r, spec0)

    def fn3(o=o, v=v, d=d, e=e, spec=spec):
      pl = mechanism(spec)
      return [float(x) for x in rdp.compute_epsilon(o, v, d)] + [float(x) for x in rdp.compute_delta(o, v, e)] + \
          [float(pl.get_delta_for_epsilon(e)), float(pl.privacy_loss(1)), float(pl.privacy_loss_tail().upper_x_truncation)]
    out.append((['convert', o, v, d, e, spec], fn3))
  return out


def mechanism(spec):
  from dp_accounting.pld import privacy_loss_mechanism as m
  k = spec['kind']
  if k == 'gaussian':
    return m.GaussianPrivacyLoss(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'])
  if k == 'laplace':
    return m.LaplacePrivacyLoss(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'])
  if k == 'dlaplace':
    return m.DiscreteLaplacePrivacyLoss(spec['scale'], sensitivity=spec['sens'], sampling_prob=spec['q'])
  return m.DiscreteGaussianPrivacyLoss(spec['scale'], sensitivity=spec['sens'], truncation_bound=spec.get('trunc'), sampling_prob=spec['q'])


def perturb(r, s):
  """The event with (at most) one number changed a little."""
  s = json.loads(json.dumps(s)) if 'inf' not in repr(s) else [x for x in s]
  k = s[0]
  if k in ('g', 'l'):
    s[1] = near(r, s[1])
  elif k == 'ps':
    if r.random() < .5:
      s[1] = min(1.0, near(r, s[1]))
    else:
      s[2] = perturb(r, s[2])
  elif k == 'rr':
    if r.random() < .5:
      s[1] = min(1.0, near(r, s[1]))
    else:
      s[2] = s[2] + 1
  elif k == 'mog':
    s[1] = near(r, s[1])
  elif k == 'swor':
    s[3] = perturb(r, s[3])
  elif k == 'tree':
    s[1] = near(r, s[1])
  elif k == 'ras':
    if r.random() < .5:
      s[2] = near(r, s[2])
    else:
      s[1] = perturb(r, s[1])
  elif k == 'self':
    s[1] = perturb(r, s[1])
  elif k == 'comp' and s[1]:
    s[1][0] = perturb(r, s[1][0])
  return s


def isolated(r, obs):
  """What is computed does not depend on what was computed before in the process."""
  vs = variants(r)
  alone = []
  for _, fn in vs:
    alone.append(in_fork(fn))
    obs.count('isolated_processes')
  order = [int(x) for x in r.integers(0, len(vs), 2 * len(vs))]
  for step, i in enumerate(order):
    try:
      now = json.loads(json.dumps(vs[i][1]()))
    except Exception as e:  # pylint: disable=broad-except
      now = ['raised', type(e).__name__]
    obs.count('isolated_comparisons')
    obs.key('isolated', repr(vs[i][0]))
    obs.check(repr(now) == repr(alone[i]), 'isolated:' + vs[i][0][0], 'the result depends on what was computed before in the process',
              alone=alone[i], now=now, computation=repr(vs[i][0]), before=[repr(vs[j][0])[:300] for j in order[:step][-4:]])


def pld_object(r, obs):
  """Privacy loss distributions themselves: no operation changes any live object; answers are repeatable."""
  from dp_accounting.pld import privacy_loss_distribution as pl
  h = mech.pick(r, [0.1, 0.02])
  pool = []
  for _ in range(3):
    spec = mech.random_spec(r, kind=mech.pick(r, ['gaussian', 'laplace', 'dlaplace', 'dgaussian']))
    e = mech.eps_scale(spec)
    if e / h > 3000:
      continue
    pool.append(mech.build(spec, h))
  pool.append(pl.identity(h))
  pool.append(pl.from_privacy_parameters(_params(0.3, 1e-3), value_discretization_interval=h))
  pts = [0.0, h, 1.0, 2.3]
  ans = lambda p: [float(p.get_delta_for_epsilon(e)) for e in pts] + [float(p.get_epsilon_for_delta(d)) for d in (1e-3, 1e-6, .2)] + \
      [float(x) for x in p.get_delta_for_epsilon([0.0, 0.5, 1.0])]
  base = [ans(p) for p in pool]
  for _ in range(int(r.integers(3, 14))):
    i, j = int(r.integers(len(pool))), int(r.integers(len(pool)))
    obs.count('interleaved_queries')
    m = int(r.integers(0, 5))
    if m == 0:
      n = pool[i].compose(pool[j])
    elif m == 1:
      n = pool[i].self_compose(int(r.integers(1, 6)))
    elif m == 2:
      pool[i].get_delta_for_epsilon_for_composed_pld(pool[j], 0.5)
      n = None
    elif m == 3:
      pool[i].get_epsilon_for_delta(1e-4)
      n = None
    else:
      pool[i].get_delta_for_epsilon([0.0, 1.0])
      n = None
    if n is not None and len(pool) < 9:
      pool.append(n)
      base.append(ans(n))
  for i, p in enumerate(pool):
    obs.count('twin_comparisons')
    obs.key('pld', repr(base[i]))
    now = ans(p)
    obs.check(repr(now) == repr(base[i]), 'pld-object', 'operating on privacy loss distributions changed one of them', before=base[i], now=now)


def _params(e, d):
  from dp_accounting.pld import common
  return common.DifferentialPrivacyParameters(e, d)
