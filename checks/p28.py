"""P28: audit data set generators give neighbouring data sets and report every result to the optimiser."""
import collections
import math
import numpy as np
from vlib import aud, mech

PROPERTY = 'P28'
RULE = ('an observation is one call of a data set generator in a recorded history (suggestions and completed trials of the optimiser, returned '
        'pair), or one audited aggregation call; distinct by generator, configuration, history and seed')
ASSUMPTIONS = ['vizier and pipeline_dp are not installed: recording stand-ins supply suggestions and aggregation results']


def REQUIRED(tier):
  return {'scalar_calls': 2000, 'class_calls': 1500, 'pdp_calls': 1500, 'completed': 3000, 'zero_results': 300, 'repeat_calls': 400, 'exhausted': 100,
          'int_params': 200, 'many_params': 120, 'aggregations': 500, 'bad_type': 30}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 25
  out = []
  for fam, k in (('scalar', 700), ('class', 500), ('pdp', 500), ('agg', 200), ('bad', 40)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def source(r, limit):
  """Suggested values, in shuffled parameter order; some exactly on the bounds."""
  def f(params, number):
    if number >= limit:
      return None
    out = {}
    for j in r.permutation(len(params)):
      name, kind, lo, hi = params[j]
      u = r.random()
      v = lo if u < .1 else hi if u < .2 else (float(r.uniform(lo, hi)) if kind == 'float' else int(r.integers(lo, hi + 1)))
      out[name] = v
    return out
  return f


def same(a, b):
  return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def drive(r, obs, M, gen, metric, limit, check_pair, label, ctx):
  """Calls the generator with a history of results and monitors the optimiser's log."""
  C = M['clients']
  open_trial = None
  n_suggest = 0
  for step in range(int(r.integers(2, 9))):
    u = r.random()
    res = None if step == 0 or u < .15 else 0.0 if u < .3 else float(mech.pick(r, [r.normal(), -abs(r.normal()), 1e300, float('inf'), float('nan'), 5]))
    start = len(C.LOG)
    try:
      pair = gen(res)
      err = None
    except ValueError as e:
      pair, err = None, e
    seg = C.LOG[start:]
    comp = [e for e in seg if e[0] == 'complete']
    sugg = [e for e in seg if e[0] == 'suggest']
    exh = [e for e in seg if e[0] == 'exhausted']
    obs.count(label + '_calls')
    obs.key(label, step, repr(ctx)[:200], res, n_suggest)
    x = dict(ctx, step=step, result=repr(res))
    if res is None:
      obs.check(not comp, 'reports-nothing:' + label, 'a trial was completed although no result was given', **x)
      if open_trial is not None:
        obs.count('repeat_calls')
    elif open_trial is not None:
      obs.count('completed', len(comp))
      obs.count('zero_results', int(res == 0))
      obs.check(len(comp) == 1 and comp[0][1] == open_trial[0] and not comp[0][3], 'report:' + label,
                'the result of the last trial was not reported exactly once to the trial it belongs to', completed=[e[1] for e in comp], open=open_trial[0], **x)
      if len(comp) == 1:
        obs.check(list(comp[0][2]) == [metric] and same(comp[0][2][metric], res), 'reported-value:' + label, 'wrong value or metric reported', got=comp[0][2], **x)
        if sugg:
          obs.check(seg.index(comp[0]) < seg.index(sugg[0]), 'report-order:' + label, 'a new suggestion was requested before the result was reported', **x)
      open_trial = None
    if open_trial is None:
      if err is not None:
        obs.count('exhausted')
        obs.check(bool(exh) and not sugg, 'refuses:' + label, 'no data sets although the optimiser suggested a trial', error=str(err), **x)
        break
      obs.check(not exh, 'ignores-exhausted:' + label, 'data sets were returned although the optimiser had no suggestion left', **x)
      if not obs.check(len(sugg) == 1, 'new-trial:' + label, 'a fresh trial must be requested once the last one is reported', suggested=len(sugg), **x):
        break
      open_trial = (sugg[0][1], sugg[0][2])
      n_suggest += 1
    else:
      if not obs.check(err is None and not sugg, 'abandons-trial:' + label, 'a trial was abandoned without a result', **x):
        break
    obs.check(isinstance(pair, tuple) and len(pair) == 2, 'pair:' + label, 'not a pair', **x)
    check_pair(pair, open_trial[1], x)


def gcfg(M, r, n, limit_int=True):
  D = M['gcfg'].DataType
  isint = bool(limit_int and r.random() < .4)
  lo = float(r.integers(-5, 5)) if isint else float(r.uniform(-5, 5))
  hi = lo + (float(r.integers(1, 9)) if isint else float(math.exp(r.uniform(-2, 2))))
  if isint and r.random() < .3:
    lo, hi = lo + .0, hi + .4          # int() conversion is documented
  cfg = M['gcfg'].VizierDatasetGeneratorConfig(study_name='s%d' % r.integers(10**6), study_owner='o%d' % r.integers(10), num_vizier_parameters=n,
                                               data_type=D.DATA_TYPE_INT32 if isint else D.DATA_TYPE_FLOAT, min_value=lo, max_value=hi,
                                               search_algorithm=mech.pick(r, ['GRID_SEARCH', 'RANDOM_SEARCH', 'DEFAULT']), metric_name='m%d' % r.integers(10))
  return cfg, isint, lo, hi


def study(obs, M, start, cfg, want, ctx):
  st = [e for e in M['clients'].LOG[start:] if e[0] == 'study']
  if not obs.check(len(st) == 1, 'study', 'one study expected', **ctx):
    return None
  _, owner, sid, alg, metrics, params = st[0]
  obs.check(owner == cfg.study_owner and sid == cfg.study_name and alg == cfg.search_algorithm, 'study-config', 'study not set up as configured', got=[owner, sid, alg], **ctx)
  obs.check(metrics == [(cfg.metric_name, 'MAXIMIZE')], 'study-goal', 'the divergence must be maximised', got=metrics, **ctx)
  obs.check(len({p[0] for p in params}) == len(params) and sorted((p[1:] for p in params), key=repr) == sorted(want, key=repr), 'study-params',
            'search space differs from the configuration', got=params[:6], **ctx)
  return params


def run_scalar(r, obs, M):
  n = int(r.integers(1, 9)) if r.random() < .7 else int(r.integers(10, 130))
  cfg, isint, lo, hi = gcfg(M, r, n)
  limit = int(r.integers(1, 9))
  M['clients'].SOURCE[0] = source(r, limit)
  ctx = dict(n=n, int=isint, lo=lo, hi=hi)
  start = len(M['clients'].LOG)
  gen = M['vgen'].VizierScalarDataAddRemoveGenerator(cfg)
  obs.count('int_params', int(isint))
  obs.count('many_params', int(n > 10))
  params = study(obs, M, start, cfg, [('int', int(lo), int(hi)) if isint else ('float', lo, hi)] * n, ctx)
  if params is None:
    return

  def pair_ok(pair, values, x):
    a, b = np.asarray(pair[0]), np.asarray(pair[1])
    want = np.array([float(values[p[0]]) for p in params])
    obs.check(a.shape == (n - 1,) and b.shape == (n,) and np.array_equal(b[:-1], a), 'neighbours:scalar', 'the data sets do not differ by exactly the last record',
              first=a, second=b, **x)
    obs.check(np.array_equal(b, want), 'values:scalar', 'the data set does not hold the suggested values', got=b, expected=want, **x)
  drive(r, obs, M, gen, cfg.metric_name, limit, pair_ok, 'scalar', ctx)


def run_class(r, obs, M):
  n, d, k = int(r.integers(1, 8)), int(r.integers(1, 6)), int(r.integers(1, 6))
  lo = float(r.uniform(-5, 5))
  hi = lo + float(math.exp(r.uniform(-2, 2)))
  cfg = M['gcfg'].ClassificationDatasetGeneratorConfig(study_name='s%d' % r.integers(10**6), study_owner='o', min_value=lo, max_value=hi, search_algorithm='RANDOM_SEARCH',
                                                       metric_name='div', sample_dim=d, num_samples=n, num_classes=k)
  limit = int(r.integers(1, 9))
  M['clients'].SOURCE[0] = source(r, limit)
  ctx = dict(n=n, d=d, classes=k)
  start = len(M['clients'].LOG)
  gen = M['gens'].ClassificationDatasetGenerator(cfg)
  st = [e for e in M['clients'].LOG[start:] if e[0] == 'study']
  params = st[0][5]
  fl = [p for p in params if p[1] == 'float']
  it = [p for p in params if p[1] == 'int']
  obs.check(st[0][4] == [('div', 'MAXIMIZE')], 'study-goal', 'the divergence must be maximised', **ctx)
  obs.check(len(fl) == n * d and len(it) == n and all(p[2:] == (lo, hi) for p in fl) and all(0 <= p[2] <= p[3] <= k for p in it), 'study-params',
            'search space differs from the configuration', got=params[:4], **ctx)

  def pair_ok(pair, values, x):
    (f1, l1), (f2, l2) = pair
    f1, l1, f2, l2 = map(np.asarray, (f1, l1, f2, l2))
    obs.check(f1.shape == (n, d) and l1.shape == (n,) and f2.shape == (n - 1, d) and l2.shape == (n - 1,), 'shapes:class', 'wrong shapes', shapes=[f1.shape, l1.shape, f2.shape, l2.shape], **x)
    obs.check(np.array_equal(f1[:-1], f2) and np.array_equal(l1[:-1], l2), 'neighbours:class', 'the data sets do not differ by exactly one record', **x)
    obs.check(np.array_equal(f1.ravel(), [values[p[0]] for p in fl]) and np.array_equal(l1, [values[p[0]] for p in it]), 'values:class',
              'the data set does not hold the suggested values', **x)
  drive(r, obs, M, gen, 'div', limit, pair_ok, 'class', ctx)


def run_pdp(r, obs, M):
  ids, parts = int(r.integers(1, 7)), int(r.integers(1, 7))
  cfg, isint, lo, hi = gcfg(M, r, int(r.integers(1, 9)))
  limit = int(r.integers(1, 9))
  M['clients'].SOURCE[0] = source(r, limit)
  ctx = dict(ids=ids, partitions=parts)
  start = len(M['clients'].LOG)
  gen = M['gens'].PipelineDpDatasetGenerator(cfg, M['pgen'].PipelineDpDatasetGeneratorConfig(max_num_privacy_ids=ids, max_num_partitions=parts))
  params = study(obs, M, start, cfg, [('int', int(lo), int(hi)) if isint else ('float', lo, hi)] * (ids * parts), ctx)
  if params is None:
    return

  def pair_ok(pair, values, x):
    a, b = [tuple(map(float, t)) for t in pair[0]], [tuple(map(float, t)) for t in pair[1]]
    extra = collections.Counter(b) - collections.Counter(a)
    obs.check(not collections.Counter(a) - collections.Counter(b), 'neighbours:pdp', 'the smaller data set is not contained in the larger one', **x)
    obs.check(len(b) == ids * parts and len(a) == (ids - 1) * parts, 'sizes:pdp', 'wrong number of records', sizes=[len(a), len(b)], **x)
    obs.check(sorted(t[2] for t in b) == sorted(float(values[p[0]]) for p in params), 'values:pdp', 'the records do not hold the suggested values', **x)
    obs.check(len({t[:2] for t in b}) == len(b), 'pairs:pdp', 'a (partition, privacy id) pair is used twice', **x)

    def isolates(col):
      e = {t[col] for t in extra}
      return len(e) == 1 and not any(t[col] in e for t in a)
    if not obs.check(isolates(0) or isolates(1), 'neighbours:pdp', 'the data sets do not differ by all records of one unit', extra=list(extra)[:8], **x):
      return
    # the audited aggregation reads (partition_id, privacy_id, value), as documented
    obs.check(isolates(1), 'pdp-column-order', 'the data sets differ by a partition, not by a privacy id', extra=list(extra)[:8], **x)
  drive(r, obs, M, gen, cfg.metric_name, limit, pair_ok, 'pdp', ctx)


def run_agg(r, obs, M):
  import pipeline_dp as pdp
  from dp_auditorium.mechanisms.pipeline_dp import aggregation
  eps, delta = float(math.exp(r.uniform(-3, 3))), float(mech.pick(r, [0.0, 1e-5, .1]))
  n = int(r.integers(0, 20))
  data = [(int(r.integers(3)), int(r.integers(4)), float(r.normal())) for _ in range(n)]
  public = None if r.random() < .3 else sorted(set(r.integers(0, 3, 2).tolist()))
  width, rows = int(r.integers(1, 4)), int(r.integers(1, 5))
  made = []

  def result(recs, params, pub):
    v = r.normal(size=(rows, width))
    made.append(v)
    for i in range(rows):
      yield (i, tuple(v[i]))
  pdp.RESULT[0] = result
  params = pdp.AggregateParams(metrics=['x'])
  prop = M['prop'].ApproximateDp(epsilon=eps, delta=delta)
  mm = aggregation.AggregationMechanism(config=params, tested_privacy_property=prop, public_partitions=public)
  for rep in range(2):
    del pdp.LOG[:], made[:]
    k = int(r.integers(1, 6))
    out = np.asarray(mm(np.array(data) if n and r.random() < .5 else data, k))
    ctx = dict(eps=eps, delta=delta, n=n, samples=k, rep=rep)
    obs.count('aggregations', k)
    obs.key('agg', eps, n, k, rep, width, rows)
    acc = [e for e in pdp.LOG if e[0] == 'accountant']
    agg = [e for e in pdp.LOG if e[0] == 'aggregate']
    obs.check(len(acc) == k and len(agg) == k and len({e[1] for e in agg}) >= 1, 'agg-budget', 'every sample must spend a budget of its own', accountants=len(acc), runs=len(agg), **ctx)
    obs.check(all(e[1] == eps and e[2] == delta for e in acc), 'agg-budget', 'an aggregation ran with another budget than the tested one', got=[e[1:3] for e in acc][:3], **ctx)
    for e in agg:
      got = collections.Counter(tuple(map(float, t)) for t in e[2])
      obs.check(got == collections.Counter(tuple(map(float, t)) for t in data), 'agg-records', 'the aggregation did not see the data set as (partition, privacy id, value)', **ctx)
      obs.check(e[3] is params and (list(e[4]) if e[4] is not None else None) == public, 'agg-params', 'the aggregation ran with other parameters', **ctx)
    ok = out.shape == (k, rows * width) and np.array_equal(out, np.array([v.ravel() for v in made]))
    obs.check(ok, 'agg-output', 'samples are not the flattened metrics of independent aggregations', shape=list(out.shape), **ctx)


def run_bad(r, obs, M):
  cfg, *_ = gcfg(M, r, 3)
  cfg.data_type = mech.pick(r, [M['gcfg'].DataType.DATA_TYPE_UNSPECIFIED, None, 3])
  M['clients'].SOURCE[0] = source(r, 3)
  try:
    M['vgen'].VizierScalarDataAddRemoveGenerator(cfg)
    ok = False
  except NotImplementedError:
    ok = True
  obs.count('bad_type')
  obs.check(ok, 'accepts-type', 'an unknown data type was accepted', type=repr(cfg.data_type))


def run(case, obs):
  r = np.random.default_rng(case['s'])
  M = aud.load()
  del M['clients'].LOG[:]
  {'scalar': run_scalar, 'class': run_class, 'pdp': run_pdp, 'agg': run_agg, 'bad': run_bad}[case['family']](r, obs, M)
