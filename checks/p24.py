"""P24: clustering results are faithful post-processing of the private core-set."""
import math
import numpy as np
from vlib import clu, mech

PROPERTY = 'P24'
RULE = ('an observation is one clustering run with recorded releases, one labelled result or one metrics object; distinct by data, '
        'centers, labels and parameters')
ASSUMPTIONS = ['the third-party k-means step is replaced by a recording stand-in that answers with scripted or Lloyd centers']


def REQUIRED(tier):
  return {'runs': 120, 'coresets': 250, 'coreset_points': 1000, 'fewer_centers_than_k': 30, 'labelled_points': 20000, 'results': 250,
          'metrics': 350, 'pairs_enumerated': 300000, 'rejected': 100, 'clipped_coreset_points': 100, 'histograms': 350, 'large_metrics': 25}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 15
  out = []
  for fam, k in (('run', 160), ('coreset', 250), ('result', 300), ('metrics', 400), ('large', 30), ('reject', 60)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def bag(X, w):
  return sorted((bytes(np.ascontiguousarray(x, dtype=float)), float(c)) for x, c in zip(X, w))


def near(X, w, Y, v, rad):
  """Same weighted points in some order, up to rounding of the clipping."""
  X, Y = np.asarray(X, float), np.asarray(Y, float)
  if X.shape != Y.shape or len(w) != len(v):
    return False
  o1 = sorted(range(len(w)), key=lambda i: (float(w[i]),) + tuple(np.round(X[i] / rad, 6)))
  o2 = sorted(range(len(v)), key=lambda i: (float(v[i]),) + tuple(np.round(Y[i] / rad, 6)))
  left = list(o2)
  for i in o1:
    for j in left:
      if float(w[i]) == float(v[j]) and np.all(np.abs(X[i] - Y[j]) <= 1e-9 * (rad + np.abs(Y[j]))):
        left.remove(j)
        break
    else:
      return False
  return not left


def judge_labels(obs, mechn, data, centers, labels, loss, ctx):
  x = np.asarray(data, float)
  c = np.asarray(centers, float)
  n = len(x)
  labels = np.asarray(labels)
  if not obs.check(labels.shape == (n,), mechn + ':labels-shape', 'there is not one label per point', shape=labels.shape, **ctx):
    return
  obs.count('labelled_points', n)
  tot = 0.0
  scale = float((np.abs(x).max() if x.size else 0) + np.abs(c).max()) ** 2 + 1e-300
  if n:
    obs.check(bool(np.all((labels >= 0) & (labels < len(c)))), mechn + ':labels-range', 'a label names no center', **ctx)
    d = np.array([[math.fsum((xi - cj) ** 2) for cj in c] for xi in x[:400]])
    own = d[np.arange(len(d)), labels[:400].astype(int)]
    bad = own > d.min(axis=1) + 1e-9 * scale
    obs.check(not bad.any(), mechn + ':nearest', 'a point is not labelled with its nearest center', points=int(bad.sum()), **ctx)
    tot = float(((x[:, None, :] - c[None]) ** 2).sum(-1).min(1).sum())
  obs.check(abs(float(loss) - tot) <= 1e-9 * (tot + 1e-12 * scale * max(n, 1)), mechn + ':loss', 'the loss is not the sum of squared distances to the nearest center',
            loss=float(loss), want=tot, **ctx)


def run(case, obs):
  M = clu.load()
  r = mech.rng_of(case['s'], case['family'])
  np.random.seed(int(r.integers(2 ** 31)))
  {'run': full, 'coreset': coreset, 'result': result, 'metrics': metrics, 'large': large, 'reject': reject}[case['family']](M, r, obs, case)


def full(M, r, obs, case):
  P = M['par']
  x, rad, kind = clu.dataset(r, n=int(r.integers(1, 700)))
  eps = math.inf if r.random() < .4 else float(10 ** r.uniform(-.3, .5))
  k = int(r.integers(1, 20))
  labels = r.integers(0, 5, size=len(x)) if r.random() < .6 else None
  tp = None
  if r.random() < .7:
    t = int(r.integers(1, 80))
    tp = P.TreeParam(int(t * r.uniform(1, 3)), t, int(r.integers(0, 8)))
  kw = {} if r.random() < .7 else dict(privacy_budget_split=P.PrivacyBudgetSplit(.5, .5))
  script = r.random() < .5
  M['km'].SCRIPT[0] = (lambda X, w, k: r.normal(size=(k, X.shape[1])) * rad) if script else None
  tr, tap = clu.Trees(M), clu.Tap()
  data = P.Data(x, rad, labels)
  keep = np.array(x)
  with tr.on(), tap.on():
    res = M['algo'].private_lsh_clustering(k, data, P.DifferentialPrivacyParam(eps, 1e-4), tree_param=tp, **kw)
  obs.count('runs')
  log = M['km'].LOG
  ctx = dict(n=len(x), kind=kind, eps=eps, k=k, tp=repr(tp))
  obs.key(repr(ctx), keep.tobytes()[:3000], case['s'])
  obs.check(np.array_equal(keep, x), 'run:mutated', 'clustering changed its data', **ctx)
  if not obs.check(len(log) >= 1, 'run:fits', 'centers were not computed from a core-set', fits=len(log), **ctx):
    return
  leaves = [lf for t in tr.trees for lf in t.leaves]
  av = np.array([lf.get_private_average() for lf in leaves], float)
  w = np.array([lf.private_count for lf in leaves], float)
  obs.count('coreset_points', len(w))
  nr = np.sqrt((av ** 2).sum(1))
  obs.count('clipped_coreset_points', int((nr > rad).sum()))
  cl = clu.clip(av, rad)
  for e in log:
    obs.check(near(e['X'], e['w'], cl, w, rad), 'run:coreset', 'the final clustering does not work on exactly the released averages and counts',
              given=len(e['X']), released=len(w), **ctx)
    obs.check(e['k'] <= len(e['X']) and e['k'] <= k, 'run:k', 'more centers than core-set points or requested clusters', centers=e['k'], points=len(e['X']), **ctx)
  obs.check(log[-1]['k'] == min(k, len(w)), 'run:k-exact', 'the number of centers is not the smaller of k and the core-set size', centers=log[-1]['k'],
            points=len(w), **ctx)
  obs.count('fewer_centers_than_k', len(w) < k)
  obs.check(np.array_equal(np.asarray(res.centers), log[-1]['centers']), 'run:centers', 'the result does not carry the centers of the final step', **ctx)
  obs.check(np.array_equal(np.asarray(res.data.datapoints), keep) and res.data.labels is labels or labels is None, 'run:data',
            'the result does not refer to the original data', **ctx)
  judge_labels(obs, 'run', keep, res.centers, res.labels, res.loss, ctx)
  if labels is not None:
    judge_metrics(obs, 'run', res, np.asarray(res.labels), labels, ctx)
  # The root count is the one used for the default thresholds.
  if tp is None and eps != math.inf and tap.counts:
    first = int(np.ravel(tap.counts[0][1])[0])
    obs.check(tr.trees[0].tree[0][0].private_count == max(1, len(x) + first), 'run:root-count', 'the root does not reuse the released total count', **ctx)


def coreset(M, r, obs, case):
  P = M['par']
  x, rad, kind = clu.dataset(r, n=int(r.integers(0, 400)))
  x = clu.clip(x, rad)
  t = int(np.exp(r.uniform(0, 4)))
  tp = P.TreeParam(int(t * r.uniform(1, 3)), t, int(r.integers(0, 9)))
  lap = math.inf if r.random() < .25 else float(10 ** r.uniform(-2, 1))
  std = 0.0 if r.random() < .3 else float(rad * 10 ** r.uniform(-2, 2))
  cp = M['core'].CoresetParam(clu.FixedCalc(M, std, rad, lap), tp, 'x', rad)
  pc = None if r.random() < .5 else int(r.integers(-50, 500))
  tr = clu.Trees(M)
  with tr.on():
    cs = M['algo'].get_private_coreset(P.Data(x, rad), cp, pc)
  obs.count('coresets')
  ctx = dict(n=len(x), kind=kind, tp=repr(tp), laplace=lap, std=std, private_count=pc)
  obs.key(repr(ctx), case['s'])
  leaves = tr.trees[0].leaves
  w = np.array([lf.private_count for lf in leaves], float)
  av = np.array([lf.get_private_average() for lf in leaves], float)
  obs.count('coreset_points', len(w))
  obs.count('clipped_coreset_points', int((np.sqrt((av ** 2).sum(1)) > rad).sum()))
  obs.check(near(np.asarray(cs.datapoints), np.asarray(cs.weights), clu.clip(av, rad), w, rad), 'coreset:content',
            'the core-set is not the released averages (clipped) weighted by the released counts', points=len(cs.datapoints), leaves=len(w), **ctx)
  obs.check(len(np.asarray(cs.weights)) > 0 and bool(np.all(np.asarray(cs.weights) >= 1)), 'coreset:weights', 'a core-set point has a weight below one',
            weights=np.asarray(cs.weights)[:20].tolist(), **ctx)
  if pc is not None:
    obs.check(tr.trees[0].tree[0][0].private_count == max(1, pc), 'coreset:root', 'the given private count is not used for the root', **ctx)


def result(M, r, obs, case):
  P = M['par']
  x, rad, kind = clu.dataset(r, n=int(r.integers(0, 250)))
  x = np.asarray(x)
  k = int(r.integers(1, 15))
  c = r.normal(size=(k, x.shape[1])) * rad
  if len(x) and r.random() < .4:
    c[:] = np.asarray(x, float)[r.integers(0, len(x), size=k)]      # ties and zero distances
  if r.random() < .2:
    c = np.round(c)
  if r.random() < .2:
    c = c.astype(np.float32)
  ctx = dict(n=len(x), kind=kind, k=k)
  obs.key(repr(ctx), x.tobytes()[:2000], c.tobytes()[:500])
  res = M['algo'].ClusteringResult(P.Data(x, rad), c)
  obs.count('results')
  judge_labels(obs, 'result', x, np.asarray(c, float), res.labels, res.loss, ctx)
  # Given labels and loss are kept as they are.
  lab = r.integers(0, k, size=len(x))
  res2 = M['algo'].ClusteringResult(P.Data(x, rad), c, labels=lab, loss=3.25)
  obs.check(np.array_equal(res2.labels, lab) and res2.loss == 3.25, 'result:given', 'given labels were changed', **ctx)


def brute(a, b):
  """Pair counts over all pairs of points from two labelings."""
  n = len(a)
  sc = a[:, None] == a[None, :]
  st = b[:, None] == b[None, :]
  up = np.triu(np.ones((n, n), bool), 1)
  tp = int((st & up).sum())
  tn = int((st & ~sc & up).sum())
  fp = int((~st & up).sum())
  fm = int((~st & sc & up).sum())
  dom = 0
  for v in np.unique(a):
    dom += int(np.unique(b[a == v], return_counts=True)[1].max())
  return dom, tp, tn, fp, fm


def judge_metrics(obs, mechn, res, a, b, ctx):
  n = len(a)
  a, b = np.asarray(a), np.asarray(b)
  h = np.asarray(res.cross_label_histogram())
  obs.count('histograms')
  want = np.zeros(h.shape, int)
  ok = h.ndim == 2 and n > 0 and a.max() < h.shape[0] and b.max() < h.shape[1]
  if n:
    if not obs.check(ok, mechn + ':histogram-shape', 'the histogram does not cover all labels', shape=h.shape, **ctx):
      return
    np.add.at(want, (a.astype(int), b.astype(int)), 1)
  obs.check(np.array_equal(h, want), mechn + ':histogram', 'the histogram of label pairs is wrong', got=h.tolist()[:6], want=want.tolist()[:6], **ctx)
  with np.errstate(all='ignore'):
    m = res.get_clustering_metrics()
  dom, tp, tn, fp, fm = brute(a, b)
  obs.count('metrics')
  obs.count('pairs_enumerated', n * (n - 1) // 2)
  eq = lambda u, v: abs(float(u) - v) <= 1e-9 * max(1.0, abs(v))
  obs.check(m.num_points == n, mechn + ':points', 'the number of points is wrong', got=m.num_points, **ctx)
  for nm, v in (('dominant_label_correct_count', dom), ('true_pairs', tp), ('true_nonmatch_count', tn), ('false_pairs', fp), ('false_match_count', fm)):
    obs.check(eq(getattr(m, nm), v), mechn + ':' + nm, 'a clustering metric differs from its definition over all pairs', metric=nm, got=getattr(m, nm), want=v, **ctx)
  for nm, u, v in (('dominant_label_accuracy', dom, n), ('true_nonmatch_frac', tn, tp), ('false_match_frac', fm, fp)):
    if v:
      obs.check(eq(getattr(m, nm), u / v), mechn + ':' + nm, 'a clustering metric differs from its definition over all pairs', metric=nm, got=getattr(m, nm),
                want=u / v, **ctx)


def metrics(M, r, obs, case):
  P = M['par']
  n = int(r.integers(1, 120))
  k, t = int(r.integers(1, 12)), int(r.integers(1, 12))
  a, b = r.integers(0, k, size=n), r.integers(0, t, size=n)
  m = r.random()
  if m < .2:
    a = b % k                                   # clusters determined by the labels
  elif m < .3:
    a = np.zeros(n, int)
  elif m < .4:
    b = np.zeros(n, int)
  elif m < .5:
    a = np.where(r.random(n) < .8, a, k - 1)
  elif m < .6:
    b = b * 3                                   # unused true labels in between
  kk = max(k, int(a.max()) + 1 + int(r.integers(0, 3)))   # clusters without points
  x = r.normal(size=(n, 2))
  ctx = dict(n=n, clusters=k, truth=t)
  obs.key(a.tobytes(), b.tobytes())
  res = M['algo'].ClusteringResult(P.Data(x, 1.0, b), r.normal(size=(kk, 2)), labels=a, loss=1.0)
  judge_metrics(obs, 'metrics', res, a, b, ctx)


def large(M, r, obs, case):
  """Metrics of many points: the definition evaluated in unbounded integers."""
  P, A = M['par'], M['algo']
  k, t = int(r.integers(1, 5)), int(r.integers(1, 5))
  hi = int(10 ** r.uniform(3, 6.5))
  h = r.integers(0, hi, size=(k, t)) * (r.random((k, t)) < .8)
  h[int(r.integers(k)), int(r.integers(t))] += hi
  if r.random() < .3:
    # Through the labelling itself.
    h = (h * min(1.0, 150000 / h.sum())).astype(int)
    a = np.repeat(np.arange(k), h.sum(axis=1))
    b = np.concatenate([np.repeat(np.arange(t), row) for row in h])
    while len(b) and b.max() + 1 < t:
      t -= 1
    while len(a) and a.max() + 1 < k:
      k -= 1
    if not len(a):
      return
    res = A.ClusteringResult(P.Data(np.zeros((len(a), 1)), 1.0, b), np.zeros((h.shape[0], 1)), labels=a, loss=1.0)
    with np.errstate(all='ignore'):
      m = res.get_clustering_metrics()
    h = h[:k, :t]
    obs.check(np.array_equal(np.asarray(res.cross_label_histogram()), h), 'large:histogram', 'the histogram of label pairs is wrong', want=h.tolist())
  else:
    with np.errstate(all='ignore'):
      m = A.ClusteringMetrics(np.array(h))
  H = [[int(v) for v in row] for row in h]
  n = sum(map(sum, H))
  c2 = lambda v: v * (v - 1) // 2
  col, row = [sum(c) for c in zip(*H)], [sum(x) for x in H]
  tp, same = sum(map(c2, col)), sum(c2(v) for x in H for v in x)
  want = dict(num_points=n, dominant_label_correct_count=sum(max(x) for x in H), true_pairs=tp, true_nonmatch_count=tp - same,
              false_pairs=c2(n) - tp, false_match_count=sum(map(c2, row)) - same)
  obs.count('large_metrics')
  obs.key('large', repr(H))
  for nm, v in want.items():
    obs.check(abs(float(getattr(m, nm)) - v) <= 1e-9 * max(v, n), 'large:' + nm, 'a clustering metric differs from its definition over all pairs',
              metric=nm, got=getattr(m, nm), want=v, histogram=H)


def reject(M, r, obs, case):
  P, A = M['par'], M['algo']
  n, d = int(r.integers(1, 30)), int(r.integers(1, 5))
  x = r.normal(size=(n, d))
  data = P.Data(x, 1.0)
  k = int(r.integers(1, 6))
  c = r.normal(size=(k, d))
  lab = r.integers(0, k, size=n)
  bad = {'only-labels': lambda: A.ClusteringResult(data, c, labels=lab), 'only-loss': lambda: A.ClusteringResult(data, c, loss=1.0),
         'few-labels': lambda: A.ClusteringResult(data, c, labels=lab[:-1], loss=1.0),
         'dimension': lambda: A.ClusteringResult(data, r.normal(size=(k, d + 1)), labels=lab, loss=1.0),
         'range': lambda: A.ClusteringResult(data, c, labels=np.append(lab[:-1], k), loss=1.0),
         'negative': lambda: A.ClusteringResult(data, c, labels=np.append(lab[:-1], -1), loss=1.0),
         'no-truth': lambda: A.ClusteringResult(data, c).get_clustering_metrics(),
         'data-labels': lambda: P.Data(x, 1.0, np.zeros(n + 1, int)),
         'threshold': lambda: P.TreeParam(3, 0, 2), 'order': lambda: P.TreeParam(3, 4, 2)}
  for nm, fn in bad.items():
    try:
      fn()
      obs.check(False, 'reject:' + nm, 'inconsistent results or parameters were accepted')
    except ValueError:
      obs.count('rejected')
  obs.key(case['s'])
