"""P29: parameters and targets outside of their domain are never answered with a privacy guarantee."""
import math
import numpy as np
from vlib import aud, clu, events as E, mech
from checks import p14

PROPERTY = 'P29'
RULE = ('an observation is one use of an invalid parameter or target (or of a valid boundary value) and its outcome: an error, a vacuous '
        'answer or a guarantee; distinct by entry point, parameter, value and surrounding history')
ASSUMPTIONS = ['the domains are those of the documentation: positive noise scales and sensitivities (zero noise: no privacy), probabilities in '
               '[0, 1], at least one bucket, one step, one repetition, one query, orders of at least one, positive discretization intervals, '
               'non-negative epsilons and deltas; NaN is in no domain',
               'infinite and fractional values whose meaning is a convention are not judged',
               'an epsilon of infinity, a delta of at least one, NaN, None for "no guarantee" and infinite noise are vacuous']

NAN, INF = math.nan, math.inf


def REQUIRED(tier):
  return {'invalid_events': 900, 'invalid_pld': 500, 'invalid_targets': 300, 'invalid_config': 120, 'invalid_helper': 250, 'invalid_clustering': 80,
          'invalid_auditing': 80, 'boundary': 350, 'rejected': 1500}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 12
  out = []
  for fam, k in (('event', 1400), ('pld', 700), ('target', 120), ('config', 160), ('helper', 320), ('clustering', 120), ('auditing', 120),
                 ('boundary', 500)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def below(r, bound=0.0, closed=False):
  """A value below the bound (or the bound itself, if it is excluded)."""
  m = int(r.integers(0, 8))
  if m == 0:
    return NAN
  if m == 1:
    return -INF
  if m == 2:
    return bound - 1.0
  if m == 3:
    return bound - mech.logu(r, 1e-9, 100)
  if m == 4:
    return math.nextafter(bound, -INF)
  if m == 5 and closed:
    return bound
  if m == 6:
    return int(math.floor(bound)) - 1 - int(r.integers(0, 3))
  return NAN if r.random() < .3 else bound - float(r.uniform(0.01, 3))


def bad_prob(r, zero=False, one=False):
  """Not a probability (zero / one: these are excluded as well)."""
  m = int(r.integers(0, 9))
  if m == 0:
    return NAN
  if m == 1:
    return INF
  if m == 2:
    return math.nextafter(1.0, 2)
  if m == 3:
    return 1 + mech.logu(r, 1e-9, 100)
  if m == 4 and zero:
    return 0.0
  if m == 5 and one:
    return 1.0
  return below(r)


def bad_event(r, acc, rel):
  """(spec of an event with one parameter outside of its domain, what)."""
  gt = lambda: ['g', mech.logu(r, .5, 5)]
  ks = ['g', 'g', 'l', 'l', 'selfcount']
  if rel != 'REPLACE_ONE':
    ks += ['psq', 'psq', 'psg', 'psg'] + (['psl'] if acc == 'pld' else ['psnest', 'psnest'])
  if rel != 'ADD_OR_REMOVE_ONE':
    ks += ['rrp', 'rrp', 'rrk']
  if acc == 'pld':
    ks += ['mogstd', 'mogp', 'mogs']
  else:
    ks += ['rasmean', 'rasshape', 'rasin']
    if rel == 'REPLACE_ONE':
      ks += ['swornoise', 'sworn', 'swornest']
    if rel == 'REPLACE_SPECIAL':
      ks += ['treenoise', 'treesteps']
  k = mech.pick(r, ks)
  q = float(r.uniform(.01, .9))
  if k == 'g':
    return ['g', below(r)], k
  if k == 'l':
    return ['l', below(r)], k
  if k == 'selfcount':
    return ['self', mech.pick(r, [gt(), ['l', 2.0], ['self', gt(), -1]]), mech.pick(r, [-1, -2, -3, NAN, -INF])], k
  if k == 'psq':
    return ['ps', bad_prob(r), gt()], k
  if k == 'psg':
    return ['ps', mech.pick(r, [q, 1.0, 1]), ['g', below(r)]], k
  if k == 'psl':
    return ['ps', mech.pick(r, [q, 1.0]), ['l', below(r)]], k
  if k in ('psnest', 'swornest'):
    s = p14.place(r, ['g', below(r)], gt, int(r.integers(1, 3)))
    return (['ps', q, s] if k == 'psnest' else ['swor', 100, int(r.integers(1, 100)), s]), k
  if k == 'rrp':
    return ['rr', bad_prob(r), int(r.integers(2, 9))], k
  if k == 'rrk':
    return ['rr', float(r.uniform(.1, .9)), mech.pick(r, [0, -1, -5, NAN, -INF])], k
  if k == 'mogstd':
    return ['mog', below(r), [0.0, 1.0], [.5, .5]], k
  if k == 'mogp':
    return ['mog', mech.logu(r, .5, 5), [0.0, 1.0], mech.pick(r, [[.5, .6], [.5, .4], [1.5, -.5], [NAN, .5], [.5, NAN], [.5], [], [.5, .5, .5], [2.0, 3.0],
                                                                   [.5 - q / 2, .5], [.5, .5 + q]])], k
  if k == 'mogs':
    return ['mog', mech.logu(r, .5, 5), mech.pick(r, [[-1.0, 1.0], [0.0, -q], [-1e-9, 2.0], [NAN, 1.0], [1.0, NAN], [1.0], [], [-2.0, -1.0]]), [.5, .5]], k
  if k == 'rasmean':
    return ['ras', gt(), below(r, 1.0), mech.pick(r, [0.0, 1.0, 2.0, INF])], k
  if k == 'rasshape':
    return ['ras', gt(), mech.logu(r, 1.1, 10), below(r)], k
  if k == 'rasin':
    b, w = bad_event(r, acc, rel)
    return ['ras', p14.place(r, b, gt, int(r.integers(0, 3))), mech.logu(r, 1.1, 10), mech.pick(r, [0.0, 1.0, 2.0])], 'ras:' + w
  if k == 'swornoise':
    return ['swor', 100, int(r.integers(1, 100)), ['g', below(r)]], k
  if k == 'sworn':
    return ['swor', *mech.pick(r, [(10, 30), (10, 11), (0, 3), (-10, 3), (10, -3), (NAN, 3), (10, NAN), (100, 101), (5, INF)]), gt()], k
  if k == 'treenoise':
    return ['tree', below(r), mech.pick(r, [5, [3, 4]])], k
  return ['tree', mech.logu(r, .5, 5), mech.pick(r, [-1, -5, 0, [], [3, -1], [-1], NAN, [NAN]])], k


def outcome(obs, fn):
  """('error', e) or ('value', v)."""
  try:
    v = fn()
  except Exception as e:  # pylint: disable=broad-except
    obs.count('rejected')
    return 'error', e
  return 'value', v


def no_guarantee(obs, kind, a_fn, ctx):
  """a_fn builds something with get_epsilon / get_delta; no finite epsilon and no delta below one may come out."""
  k, a = outcome(obs, a_fn)
  if k == 'error':
    return True
  obs.count('accepted')
  good = True
  for d in (1e-9, 1e-3, 0.3):
    k, e = outcome(obs, lambda: a.get_epsilon(d))
    if k == 'value':
      good &= obs.check(not e < INF, kind + ':epsilon', 'an invalid parameter is accounted with a finite epsilon', delta=d, epsilon=e, **ctx)
  for x in (0.0, 1.0, 5.0):
    k, d = outcome(obs, lambda: a.get_delta(x))
    if k == 'value':
      good &= obs.check(not d < 1 - 1e-12, kind + ':delta', 'an invalid parameter is accounted with a delta below one', epsilon=x, delta=d, **ctx)
  return good


class Pld:
  """get_epsilon / get_delta of a privacy loss distribution."""

  def __init__(self, p):
    self.get_epsilon = p.get_epsilon_for_delta
    self.get_delta = p.get_delta_for_epsilon


def run(case, obs):
  r = mech.rng_of(case['s'], case['family'])
  globals()['run_' + case['family']](case, obs, r)


def run_event(case, obs, r):
  acc, rel = mech.pick(r, ['pld', 'rdp']), mech.pick(r, E.RELS)
  a = p14.prepared(r, acc, rel)
  bad, what = bad_event(r, acc, rel)
  s = p14.place(r, bad, lambda: p14.simple_good(r, acc, rel), int(r.integers(0, 4)))
  n = int(r.integers(1, 4))
  obs.count('invalid_events')
  obs.key('event', acc, rel, repr(s), n)

  def go():
    a.compose(E.build(s), n)
    return a
  no_guarantee(obs, 'event:' + what.split(':')[0], go, dict(acc=acc, rel=rel, event=repr(s), count=n))


def run_pld(case, obs, r):
  from dp_accounting import privacy_accountant as pa
  from dp_accounting.pld import common as C, privacy_loss_distribution as P, privacy_loss_mechanism as M
  ctor = mech.pick(r, ['laplace', 'gaussian', 'discrete_laplace', 'discrete_gaussian', 'mixture', 'rr', 'params', 'loss'])
  pes, dots = bool(r.random() < .5), bool(r.random() < .5)
  h = mech.pick(r, [1e-2, 0.1, 0.05])
  kw = dict(pessimistic_estimate=pes, value_discretization_interval=h)
  bad_h = lambda: mech.pick(r, [below(r, closed=True), INF, NAN, -h])
  q = float(r.uniform(.05, .95))
  scale = mech.logu(r, .5, 4)
  if ctor in ('laplace', 'gaussian', 'discrete_laplace', 'discrete_gaussian'):
    f = getattr(P, f'from_{ctor}_mechanism')
    what = mech.pick(r, ['scale', 'scale', 'sens', 'sens', 'q', 'q', 'h'])
    kw['use_connect_dots'] = dots
    kw['sampling_prob'] = mech.pick(r, [1.0, q])
    kw['sensitivity'] = 1 if 'discrete' in ctor else mech.logu(r, .3, 3)
    v = {'scale': lambda: below(r, closed=True), 'sens': lambda: below(r, closed=True),
         'q': lambda: bad_prob(r, zero=True), 'h': bad_h}[what]()
    if what == 'sens' and 'discrete' in ctor and r.random() < .4:
      v = mech.pick(r, [0, -1, -2, 0.5, 1.5])
    if what == 'scale':
      scale = v
    else:
      kw[{'sens': 'sensitivity', 'q': 'sampling_prob', 'h': 'value_discretization_interval'}[what]] = v
    go = lambda: Pld(f(scale, **kw))
  elif ctor == 'mixture':
    what = mech.pick(r, ['scale', 'w', 's', 'h'])
    ss, ws = [0.0, 1.0], [1 - q, q]
    v = None
    if what == 'scale':
      scale = v = below(r, closed=True)
    elif what == 'w':
      ws = v = mech.pick(r, [[.5, .6], [.5, .4], [1.5, -.5], [NAN, .5], [.5], [], [q, q / 2], [.5, .5 + 1e-3], [1.0 + q, -q], [INF, .5]])
    elif what == 's':
      ss = v = mech.pick(r, [[-1.0, 1.0], [1.0, -q], [NAN, 1.0], [0.0, NAN], [0.0, 0.0], [1.0], [1.0, 2.0, 3.0]])
    else:
      v = kw['value_discretization_interval'] = bad_h()
    kw['use_connect_dots'] = dots
    go = lambda: Pld(P.from_mixture_gaussian_mechanism(scale, ss, ws, **kw))
  elif ctor == 'rr':
    what = mech.pick(r, ['p', 'k', 'h', 'rel'])
    p, k, rel = q, int(r.integers(2, 6)), mech.pick(r, [pa.NeighboringRelation.REPLACE_ONE, pa.NeighboringRelation.REPLACE_SPECIAL])
    if what == 'p':
      p = v = bad_prob(r, zero=True)
    elif what == 'k':
      k = v = mech.pick(r, [0, -1, -4, NAN, -INF])
    elif what == 'h':
      v = kw['value_discretization_interval'] = bad_h()
    else:
      rel = v = mech.pick(r, [pa.NeighboringRelation.ADD_OR_REMOVE_ONE, None, 'x'])
    go = lambda: Pld(P.from_randomized_response(p, k, neighboring_relation=rel, **kw))
  elif ctor == 'params':
    what = mech.pick(r, ['eps', 'delta', 'h'])
    e, d = mech.logu(r, .1, 3), mech.logu(r, 1e-6, .1)
    if what == 'eps':
      e = v = below(r)
    elif what == 'delta':
      d = v = bad_prob(r)
    else:
      v = bad_h()
      h = v
    go = lambda: Pld(P.from_privacy_parameters(C.DifferentialPrivacyParameters(e, d), value_discretization_interval=h))
  else:
    # The privacy-loss models themselves.
    which = mech.pick(r, ['laplace', 'gaussian', 'discrete_laplace', 'discrete_gaussian', 'gaussian_guarantee'])
    what = which + ':' + mech.pick(r, ['scale', 'sens', 'q'])
    sens, sq = 1, 1.0
    v = below(r, closed=True)
    if what.endswith('scale'):
      scale = v
    elif what.endswith('sens'):
      sens = v
    else:
      sq = v = bad_prob(r, zero=True)
    adj = mech.pick(r, [M.AdjacencyType.ADD, M.AdjacencyType.REMOVE])

    class Loss:

      def __init__(self, m):
        self.m = m

      def get_epsilon(self, d):
        return INF

      def get_delta(self, x):
        d = self.m.get_delta_for_epsilon(x)
        return NAN if x == 0 and d == 0 else d     # zero noise difference is no guarantee either
    cls = {'laplace': M.LaplacePrivacyLoss, 'gaussian': M.GaussianPrivacyLoss, 'discrete_laplace': M.DiscreteLaplacePrivacyLoss,
           'discrete_gaussian': M.DiscreteGaussianPrivacyLoss}.get(which)
    if cls is None:
      bad = below(r)
      go = lambda: Loss(M.GaussianPrivacyLoss.from_privacy_guarantee(C.DifferentialPrivacyParameters(bad, 1e-3)))
      v = bad
    else:
      go = lambda: Loss(cls(scale, sensitivity=sens, sampling_prob=sq, adjacency_type=adj))
  obs.count('invalid_pld')
  obs.key('pld', ctor, what, repr(v), pes, dots, repr(kw.get('sampling_prob')))
  no_guarantee(obs, f'pld:{what.split(":")[-1]}', go, dict(constructor=ctor, parameter=what, value=repr(v), pessimistic=pes, connect_dots=dots, args=repr(kw)))


def run_target(case, obs, r):
  """Queries at targets that are no epsilon / delta."""
  from dp_accounting import rdp
  acc, rel = mech.pick(r, ['pld', 'rdp']), mech.pick(r, E.RELS)
  a = p14.prepared(r, acc, rel)
  a.compose(E.build(p14.simple_good(r, acc, rel)))
  for d in (NAN, -1.0, -1e-300, -INF, below(r)):
    obs.count('invalid_targets')
    obs.key('target', acc, rel, 'delta', repr(d), case['s'])
    k, e = outcome(obs, lambda: a.get_epsilon(d))
    if k == 'value':
      obs.check(not e < INF, 'target:delta', 'a finite epsilon is reported for an invalid delta', acc=acc, delta=d, epsilon=e, ledger=repr(a.ledger)[:300])
    if acc == 'rdp':
      k, e = outcome(obs, lambda: a.get_epsilon_and_optimal_order(d)[0])
      if k == 'value':
        obs.check(not e < INF, 'target:delta-order', 'a finite epsilon is reported for an invalid delta', delta=d, epsilon=e)
  for x in [NAN] + ([-1.0, -1e-300, -INF, below(r)] if acc == 'rdp' else []):
    obs.count('invalid_targets')
    obs.key('target', acc, rel, 'eps', repr(x), case['s'])
    k, d = outcome(obs, lambda: a.get_delta(x))
    if k == 'value':
      obs.check(not d < 1, 'target:epsilon', 'a delta below one is reported for an invalid epsilon', acc=acc, epsilon=x, delta=d, ledger=repr(a.ledger)[:300])
    if acc == 'rdp':
      k, d = outcome(obs, lambda: a.get_delta_and_optimal_order(x)[0])
      if k == 'value':
        obs.check(not d < 1, 'target:epsilon-order', 'a delta below one is reported for an invalid epsilon', epsilon=x, delta=d)
  if acc == 'pld':
    p = a._pld
    for x in (NAN, [NAN], [0.0, NAN], [NAN, 1.0], [0.0, NAN, 2.0]):
      obs.count('invalid_targets')
      k, d = outcome(obs, lambda: np.asarray(p.get_delta_for_epsilon(x), dtype=float))
      if k == 'value':
        at = np.isnan(np.asarray(x, dtype=float))
        obs.check(not np.any(d[at] < 1), 'target:array', 'a delta below one is reported for a NaN epsilon', epsilon=repr(x), delta=repr(d))


def run_config(case, obs, r):
  """Accountants configured outside of the domain."""
  from dp_accounting import pld, rdp
  if r.random() < .6:
    good = [float(x) for x in np.sort(r.uniform(1.1, 50, int(r.integers(0, 4))))]
    v = below(r, 1.0)
    o = list(good)
    o.insert(int(r.integers(0, len(o) + 1)), v)
    ev = mech.pick(r, [['g', 1.0], ['l', 1.0], ['ps', .1, ['g', 1.0]], ['comp', [['g', 1.0], ['l', 2.0]]]])
    go = lambda: rdp.RdpAccountant(o).compose(E.build(ev))
    what = 'orders'
    # Only the invalid order must not contribute: the answer may not be better than that of the valid orders.
    obs.count('invalid_config')
    obs.key('config', what, repr(o), repr(ev))
    k, a = outcome(obs, go)
    if k == 'error':
      return
    ref = rdp.RdpAccountant(good).compose(E.build(ev)) if good else None
    for d in (1e-6, .1, .9):
      k, e = outcome(obs, lambda: a.get_epsilon(d))
      if k == 'value':
        lim = ref.get_epsilon(d) if ref else INF
        obs.check(not e < lim - 1e-9, 'config:orders', 'an invalid order improves the guarantee', orders=repr(o), event=repr(ev), delta=d, epsilon=e, valid_orders=lim)
    for x in (0.0, 1.0, 5.0):
      k, d = outcome(obs, lambda: a.get_delta(x))
      if k == 'value':
        lim = ref.get_delta(x) if ref else 1.0
        obs.check(not d < lim - 1e-9, 'config:orders', 'an invalid order improves the guarantee', orders=repr(o), event=repr(ev), epsilon=x, delta=d, valid_orders=lim)
  else:
    h = mech.pick(r, [below(r, closed=True), 0.0, INF, -INF, NAN, -0.01])
    rel = mech.pick(r, E.RELS)
    ev = p14.simple_good(r, 'pld', rel)
    obs.count('invalid_config')
    obs.key('config', 'interval', repr(h), rel, repr(ev))
    go = lambda: pld.PLDAccountant(E.rel(rel) if hasattr(E, 'rel') else rel_of(rel), value_discretization_interval=h).compose(E.build(ev))
    no_guarantee(obs, 'config:interval', go, dict(interval=h, relation=rel, event=repr(ev)))


def rel_of(name):
  from dp_accounting import privacy_accountant as pa
  return pa.NeighboringRelation[name]


def run_helper(case, obs, r):
  from dp_accounting import dp_event as de, mechanism_calibration as mc, rdp
  from dp_accounting.pld import accountant as A, common as C
  e, d = mech.logu(r, .3, 3), mech.logu(r, 1e-6, 1e-2)
  n, s, q = int(r.integers(1, 4)), 1, float(r.uniform(.1, .9))
  which = mech.pick(r, ['laplace', 'discrete_laplace', 'gaussian', 'subsampled', 'subsampled', 'advanced', 'smallest', 'calibrate', 'calibrate'])
  pick = {'laplace': ['e', 'd', 'n', 's'], 'discrete_laplace': ['e', 'd', 'n', 's'], 'gaussian': ['e', 'd', 'n', 's'],
          'subsampled': ['e', 'd', 'n', 's', 'q', 'q'], 'advanced': ['e', 'd', 'total', 'n'], 'smallest': ['e', 'd', 'n'],
          'calibrate': ['e', 'd']}[which]
  what = mech.pick(r, pick)
  total = 1e-3
  if what == 'e':
    e = v = below(r)
  elif what == 'd':
    d = v = bad_prob(r)
  elif what == 'n':
    n = v = mech.pick(r, [0, -1, -3, NAN, -INF])
  elif what == 's':
    s = v = below(r, closed=True)
  elif what == 'q':
    q = v = bad_prob(r)
  else:
    total = v = mech.pick(r, [NAN, -1.0, -1e-9, -INF])
  if which == 'advanced' and what == 'n':
    n = v = NAN                     # no or a negative number of queries reveals nothing
  P = C.DifferentialPrivacyParameters
  obs.count('invalid_helper')
  obs.key('helper', which, what, repr(v), repr(e))
  ctx = dict(helper=which, parameter=what, value=repr(v))
  if which in ('laplace', 'gaussian', 'discrete_laplace'):
    k, x = outcome(obs, lambda: getattr(A, f'get_smallest_{which}_noise')(P(e, d), n, s))
    if k == 'value':
      vac = x == 0 if which == 'discrete_laplace' else x == INF
      obs.check(vac or math.isnan(x), 'helper:' + what, 'finite noise is returned for an invalid parameter', noise=x, **ctx)
  elif which == 'subsampled':
    k, x = outcome(obs, lambda: A.get_smallest_subsampled_gaussian_noise(P(e, d), n, s, q))
    if k == 'value':
      obs.check(x == INF or math.isnan(x), 'helper:' + what, 'finite noise is returned for an invalid parameter', noise=x, **ctx)
  elif which == 'advanced':
    k, x = outcome(obs, lambda: A.advanced_composition(P(e, d), n, total))
    if k == 'value':
      obs.check(x is None or not x < INF, 'helper:' + what, 'a total epsilon is returned for an invalid parameter', got=x, **ctx)
  elif which == 'smallest':
    k, x = outcome(obs, lambda: A.get_smallest_epsilon_from_advanced_composition(P(e, d), n))
    if k == 'value':
      obs.check(x is None or not x < INF, 'helper:' + what, 'an epsilon is returned for an invalid parameter', got=x, **ctx)
  else:
    br = mech.pick(r, [None, mc.ExplicitBracketInterval(0.3, 50.0), mc.LowerEndpointAndGuess(0.3, 1.0)])
    k, x = outcome(obs, lambda: mc.calibrate_dp_mechanism(rdp.RdpAccountant, de.GaussianDpEvent, e, d, br))
    if k == 'value':
      obs.check(not x < INF, 'helper:calibrate-' + what, 'a parameter is returned for an invalid target', got=x, **ctx)


def run_clustering(case, obs, r):
  M = clu.load()
  what = mech.pick(r, ['eps', 'eps', 'delta', 'std', 'sens', 'lap', 'count', 'split', 'model'])
  obs.count('invalid_clustering')
  par, util = M['par'], M['util']
  data = np.array([[.1, .2], [.3, -.4], [-.5, .1], [.2, .2]])
  if what in ('eps', 'delta', 'model'):
    e, d, model = mech.logu(r, .5, 5), 1e-5, par.PrivacyModel.CENTRAL
    if what == 'eps':
      e = v = below(r)
    elif what == 'delta':
      d = v = below(r)
    else:
      model = v = mech.pick(r, [None, 'local', 'central'])
    how = mech.pick(r, ['calc', 'clustering', 'validate'])
    obs.key('clustering', what, how, repr(v))
    if how == 'validate':
      calc = M['calc'].PrivacyCalculator(par.DifferentialPrivacyParam(1.0, 1e-5), 1.0, 2, par.PrivacyCalculatorMultiplier())
      if what == 'model':
        return
      k, x = outcome(obs, lambda: calc.validate_accounting(par.DifferentialPrivacyParam(e, d), 2))
      obs.check(k == 'error', 'clustering:validate', 'the accounting is validated against an invalid target', parameter=what, value=repr(v))
      return
    pp = par.DifferentialPrivacyParam(e, d, model)
    if how == 'calc':
      k, x = outcome(obs, lambda: M['calc'].PrivacyCalculator(pp, 1.0, 2, par.PrivacyCalculatorMultiplier()))
    else:
      k, x = outcome(obs, lambda: M['algo'].private_lsh_clustering(2, par.Data(data, 1.0), pp))
    obs.check(k == 'error', 'clustering:' + what, 'clustering proceeds with an invalid privacy parameter', parameter=what, value=repr(v), how=how)
    return
  if what == 'std':
    v = below(r)
    k, x = outcome(obs, lambda: util.AveragePrivacyParam(v, 1.0))
  elif what == 'sens':
    v = below(r, closed=True)
    k, x = outcome(obs, lambda: util.AveragePrivacyParam(1.0, v))
  elif what == 'lap':
    v = below(r, closed=True)
    k, x = outcome(obs, lambda: util.CountPrivacyParam(v))
  elif what == 'count':
    v = mech.pick(r, [0, -1, -7, NAN])
    k, x = outcome(obs, lambda: util.get_private_average(data, v, util.AveragePrivacyParam(1.0, 1.0), 2))
  else:
    a = float(r.uniform(0, 1))
    v = (a, mech.pick(r, [1 - a + 1e-6, 1.0 + 1e-9, 2.0, 1 - a + float(r.uniform(.01, 1))]))
    if v[0] + v[1] <= 1:
      return
    k, x = outcome(obs, lambda: par.PrivacyBudgetSplit(*v))
  obs.key('clustering', what, repr(v))
  obs.check(k == 'error', 'clustering:' + what, 'an invalid privacy parameter of clustering is accepted', parameter=what, value=repr(v))


def run_auditing(case, obs, r):
  """A tester or runner with an invalid property must not be able to give a verdict."""
  A = aud.load()
  pp, tc = A['prop'], A['tcfg']
  what = mech.pick(r, ['pure', 'approx-eps', 'approx-delta', 'renyi-eps', 'renyi-alpha', 'none', 'two'])
  from dp_auditorium.testers import property_tester_utils as tu
  obs.count('invalid_auditing')
  v = below(r, closed=True)
  if what == 'pure':
    f = lambda: tu.validate_pure_dp_property(pp.PureDp(v))
  elif what == 'approx-eps':
    f = lambda: tu.validate_approximate_dp_property(pp.ApproximateDp(v, 1e-5))
  elif what == 'approx-delta':
    v = mech.pick(r, [None, below(r)])
    f = lambda: tu.validate_approximate_dp_property(pp.ApproximateDp(1.0, v))
  elif what == 'renyi-eps':
    f = lambda: tu.validate_renyi_dp_property(pp.RenyiDp(2.0, v))
  elif what == 'renyi-alpha':
    v = mech.pick(r, [None, below(r, 1.0, closed=True), 1.0])
    f = lambda: tu.validate_renyi_dp_property(pp.RenyiDp(v, 1.0))
  elif what == 'none':
    f = pp.PrivacyProperty
  else:
    xs = dict(pure_dp=pp.PureDp(1.0), renyi_dp=pp.RenyiDp(2.0, 1.0), approximate_dp=pp.ApproximateDp(1.0, .1))
    drop = mech.pick(r, [None] + list(xs))
    xs.pop(drop, None)
    v = sorted(xs)
    f = lambda: pp.PrivacyProperty(**xs)
  obs.key('auditing', what, repr(v))
  k, _ = outcome(obs, f)
  obs.check(k == 'error', 'auditing:' + what, 'an invalid property to audit is accepted', parameter=what, value=repr(v))


def run_boundary(case, obs, r):
  """Valid extreme values are accepted and mean what they say."""
  acc, rel = mech.pick(r, ['pld', 'rdp']), mech.pick(r, E.RELS)
  a = p14.prepared(r, acc, rel)
  b0 = ([a.get_epsilon(d) for d in (1e-6, 1e-2)], [a.get_delta(x) for x in (0.0, 1.0)])
  free, total, same = [['noop'], ['comp', []]], [['g', 0], ['g', 0.0], ['l', 0.0], ['np']], []
  g = mech.logu(r, 1.0, 5)
  if rel != 'REPLACE_ONE':
    free += [['ps', 0.0, ['g', g]], ['ps', 0, ['g', g]]]
    total += [['ps', 1.0, ['g', 0.0]], ['ps', .3, ['g', 0.0]]]
    same += [(['ps', 1.0, ['g', g]], ['g', g]), (['ps', 1, ['g', g]], ['g', g])]
    if acc == 'pld':
      same += [(['ps', 1.0, ['l', g]], ['l', g])]
  if rel != 'ADD_OR_REMOVE_ONE':
    free += [['rr', 1.0, 3], ['rr', 1, 2], ['rr', .5, 1]]
    total += [['rr', 0.0, 3], ['rr', 0, 2]]
  if acc == 'rdp':
    same += [(['ras', ['g', g], 1.0, 1.0], ['g', g])] if False else []
    if rel == 'REPLACE_ONE':
      free += [['swor', 10, 0, ['g', g]]]
      same += [(['swor', 10, 10, ['g', g]], ['g', g])]
    if rel == 'REPLACE_SPECIAL':
      total += [['tree', 0.0, 3]]
      same += [(['tree', g, 1], ['g', g]), (['tree', g, [1]], ['g', g])]
  kind = mech.pick(r, ['free', 'total', 'same'] if same else ['free', 'total'])
  n = int(r.integers(1, 4))
  ctx = dict(acc=acc, rel=rel)
  obs.count('boundary')
  if kind == 'free':
    s = mech.pick(r, free)
    obs.key('boundary', acc, rel, repr(s), n, case['s'])
    k, _ = outcome(obs, lambda: a.compose(E.build(s), n))
    if not obs.check(k == 'value', 'boundary:refused', 'a valid event is refused', event=repr(s), error=repr(_), **ctx):
      return
    b1 = ([a.get_epsilon(d) for d in (1e-6, 1e-2)], [a.get_delta(x) for x in (0.0, 1.0)])
    tol = 1e-6 if acc == 'pld' else 1e-9
    obs.check(np.allclose(b0[0], b1[0], atol=tol) and np.allclose(b0[1], b1[1], atol=tol), 'boundary:free', 'an event that releases nothing changes the guarantee',
              event=repr(s), before=repr(b0), after=repr(b1), **ctx)
  elif kind == 'total':
    s = mech.pick(r, total)
    obs.key('boundary', acc, rel, repr(s), n, case['s'])
    k, _ = outcome(obs, lambda: a.compose(E.build(s), n))
    if not obs.check(k == 'value', 'boundary:refused', 'a valid event is refused', event=repr(s), error=repr(_), **ctx):
      return
    q = 1e-3 if s[0] == 'ps' else 1e-2
    obs.check(a.get_epsilon(q) == INF, 'boundary:total', 'a release without noise is accounted with a finite epsilon', event=repr(s), epsilon=a.get_epsilon(q), **ctx)
  else:
    s, t = mech.pick(r, same)
    obs.key('boundary', acc, rel, repr(s), n, case['s'])
    x, y = p14.prepared(r, acc, rel), None
    x = E.accountant(acc, rel, [1.5, 2.0, 8.0, 32.0], 0.02)
    y = E.accountant(acc, rel, [1.5, 2.0, 8.0, 32.0], 0.02)
    k, _ = outcome(obs, lambda: x.compose(E.build(s), n))
    if not obs.check(k == 'value', 'boundary:refused', 'a valid event is refused', event=repr(s), error=repr(_), **ctx):
      return
    y.compose(E.build(t), n)
    for d in (1e-6, 1e-2):
      u, w = x.get_epsilon(d), y.get_epsilon(d)
      obs.check(abs(u - w) <= 1e-6 * max(1, abs(w)) + (0.1 if acc == 'pld' else 1e-9), 'boundary:same',
                'an event with a trivial parameter is not accounted like the plain one', event=repr(s), plain=repr(t), got=u, want=w, **ctx)
  # Targets at the ends of their ranges.
  good = E.accountant(acc, rel, [1.5, 2.0, 8.0, 32.0], 0.02).compose(E.build(['g', g]))
  for q, want in ((lambda: good.get_epsilon(1.0), 0), (lambda: good.get_epsilon(0.0), INF)):
    k, v = outcome(obs, q)
    obs.check(k == 'value' and v == want, 'boundary:target', 'a valid extreme target is not answered as it should', got=repr(v), want=want, **ctx)
  k, v = outcome(obs, lambda: good.get_delta(0.0))
  obs.check(k == 'value' and 0 < v <= 1, 'boundary:target', 'a valid extreme target is not answered as it should', got=repr(v), **ctx)
  k, v = outcome(obs, lambda: good.get_delta(INF))
  obs.check(k == 'value' and 0 <= v < 1e-9, 'boundary:target', 'a valid extreme target is not answered as it should', got=repr(v), **ctx)
