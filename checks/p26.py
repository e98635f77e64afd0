"""P26: testers report a violation only with statistical evidence."""
import math
import numpy as np
from scipy import stats
from vlib import aud, mech

PROPERTY = 'P26'
RULE = ('an observation is one call of a tester lower bound on a recorded pair of samples (compared with a reference bound computed from the '
        'same samples and, over batches of calls, with the true divergence); distinct by tester, configuration and seed')
ASSUMPTIONS = ['tensorflow, etils and vizier are not installed: models are recording stand-ins that learn a histogram classifier or carry a fixed '
               'witness function, so numeric training itself is not observed; the testers, their sample split and their bounds are the real code']
LIM = 1e-9


def REQUIRED(tier):
  return {'hist_bounds': 900, 'mmd_bounds': 500, 'hs_bounds': 500, 'renyi_bounds': 500, 'coverage_runs': 6000, 'rejections': 300, 'passes': 800,
          'rejected_inputs': 500, 'unequal': 500, 'disjoint': 800, 'detected': 150, 'nontrivial_bounds': 350}


def cases(seed, tier):
  n = 2 if tier == 'quick' else 120
  out = []
  for fam, k in (('hist', 600), ('mmd', 350), ('hs', 450), ('renyi', 450), ('cover', 120), ('invalid', 100)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def logu(r, a, b):
  return float(math.exp(r.uniform(math.log(a), math.log(b))))


def dp(M, eps, delta):
  return M['prop'].ApproximateDp(epsilon=eps, delta=delta)


def verdict(obs, M, t, lb, thr, strict, ctx):
  """The tester rejects exactly at its threshold (strict: only above it), whatever the bound."""
  for x in (lb, thr, np.nextafter(thr, 9e9), np.nextafter(thr, -9e9), thr + 1, thr - 1, -1e300, float('-inf'), float('nan')):
    want = bool(x > thr if strict else x >= thr)
    got = bool(t.reject_property(x))
    obs.count('rejections' if got else 'passes')
    if x == thr:
      continue                       # a bound equal to the threshold may go either way
    obs.check(got == want, 'verdict', 'rejected without evidence or kept despite it', bound=float(x), threshold=thr, got=got, **ctx)


def close(a, b, tol=1e-9):
  if not (math.isfinite(a) and math.isfinite(b)):
    return a == b or (math.isnan(a) and math.isnan(b))
  return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- histogram tester
def hist_ref(c1, c2, n1, n2, eps, fp, k, original):
  p, q = c1 / n1, c2 / n2
  e = math.exp(eps)
  n = min(n1, n2)
  plug = float(np.maximum(p - e * q, 0).sum())
  if original:
    t1 = 2 * (1 + e) * math.sqrt(k / n)
  else:
    t1 = 2 / math.sqrt(n) * float(np.sqrt(p).sum() + e * np.sqrt(q).sum())
  return plug, plug - t1 - 6 * (1 + e) * math.sqrt(math.log(4 / fp) / (2 * n))


def hist_pair(r, M):
  k = int(r.integers(1, 25))
  discrete = bool(r.integers(2))
  original = bool(r.integers(2))
  lo = float(r.uniform(-3, 3))
  hi = lo + logu(r, .1, 10)
  eps, delta = logu(r, .01, 3), 0.0 if r.random() < .4 else float(r.uniform(0, .5))
  cfg = M['tcfg'].HistogramPropertyTesterConfig(test_discrete_mechanism=discrete, histogram_size=k, min_value=lo, max_value=hi,
                                                approximate_dp=dp(M, eps, delta), use_original_tester=original)
  return k, discrete, original, lo, hi, eps, delta, cfg


def run_hist(r, obs, M):
  k, discrete, original, lo, hi, eps, delta, cfg = hist_pair(r, M)
  t = M['test'].HistogramTester(cfg)
  ctx = dict(k=k, discrete=discrete, original=original, eps=eps, delta=delta)
  for rep in range(3):                                   # history: several estimates with one tester
    n1 = int(logu(r, 1, 20000))
    n2 = n1 if r.random() < .5 else int(logu(r, 1, 20000))
    fp = logu(r, 1e-6, .5)
    w1, w2 = r.dirichlet(np.full(k, .4)), r.dirichlet(np.full(k, .4))
    if r.random() < .3:
      w2 = w1
    i1, i2 = r.choice(k, n1, p=w1), r.choice(k, n2, p=w2)
    if discrete:
      s1, s2 = i1.astype(int), i2.astype(int)
    else:
      width = (hi - lo) / k
      s1 = lo + (i1 + r.uniform(.001, .999, n1)) * width
      s2 = lo + (i2 + r.uniform(.001, .999, n2)) * width
      out = (i1 == 0) & (r.random(n1) < .5)
      s1 = np.where(out, lo - r.exponential(1, n1), s1)    # out of range values count in the outer bins
      out = (i2 == k - 1) & (r.random(n2) < .5)
      s2 = np.where(out, hi + r.exponential(1, n2), s2)
    k1, k2 = s1.copy(), s2.copy()
    lb = float(t.estimate_lower_bound(s1, s2, fp))
    obs.check(np.array_equal(k1, s1) and np.array_equal(k2, s2), 'mutates', 'samples modified', **ctx)
    plug, ref = hist_ref(np.bincount(i1, minlength=k), np.bincount(i2, minlength=k), n1, n2, eps, fp, k, original)
    obs.count('hist_bounds')
    obs.count('unequal', int(n1 != n2))
    obs.count('nontrivial_bounds', int(ref > 0))
    obs.key('hist', k, n1, n2, eps, fp, discrete, original)
    obs.check(close(lb, ref), 'histogram-bound', 'the lower bound is not the plug-in estimate minus the error tolerance', got=lb, expected=ref,
              plug=plug, n1=n1, n2=n2, fp=fp, **ctx)
    verdict(obs, M, t, lb, delta, False, ctx)


# ---------------------------------------------------------------- MMD tester
def mmd_ref(x, y, kern, eps, fp):
  xa, xb = x[:len(x) // 2], x[len(x) // 2:]
  ya, yb = y[:len(y) // 2], y[len(y) // 2:]
  n = min(len(xa), len(xb), len(ya), len(yb))
  h = kern(xa[:n], xb[:n]) - 2 * kern(xa[:n], ya[:n]) + kern(ya[:n], yb[:n])
  mean, var = float(h.mean()), max(0., float((h * h).mean() - h.mean() ** 2))
  tol = [math.sqrt(8 * math.log(1 / fp) / n), math.inf if n == 1 else math.sqrt(2 * var * math.log(2 / fp) / n) + 28 * math.log(2 / fp) / (3 * (n - 1))]
  a, b, c = math.exp(eps) - 1, math.exp(eps) - math.exp(-eps), 1 + math.exp(-eps)
  f = lambda m: (math.sqrt(max(0., b * b + c * (m - a * a))) - b) / c
  return f(mean), max(f(mean - t) for t in tol)


def run_mmd(r, obs, M):
  K = M['tcfg'].Kernel
  lap = bool(r.integers(2))
  bw = logu(r, .01, 10)
  eps, delta = logu(r, .01, 2), 0.0 if r.random() < .4 else float(r.uniform(0, .5))
  t = M['test'].MMDPropertyTester(M['tcfg'].MMDPropertyTesterConfig(kernel=K.KERNEL_LAPLACIAN if lap else K.KERNEL_RBF, bandwidth=bw, approximate_dp=dp(M, eps, delta)))
  ctx = dict(kernel='laplacian' if lap else 'rbf', bandwidth=bw, eps=eps, delta=delta)
  for rep in range(2):
    n1 = int(logu(r, 4, 600))
    n2 = n1 if r.random() < .5 else int(logu(r, 4, 600))
    d = int(mech.pick(r, [0, 1, 2, 5]))
    fp = logu(r, 1e-6, .5)
    shift = mech.pick(r, [0, .5, 5, 50])
    shp = lambda n: (n,) if d == 0 else (n, d)
    x, y = r.normal(size=shp(n1)), r.normal(size=shp(n2)) + shift

    def kern(a, b):
      a, b = a.reshape(len(a), -1), b.reshape(len(b), -1)
      return np.exp(-bw * (np.abs(a - b).sum(1) if lap else ((a - b) ** 2).sum(1)))
    lb = float(t.estimate_lower_bound(x.copy(), y.copy(), fp))
    plug, ref = mmd_ref(x, y, kern, eps, fp)
    obs.count('mmd_bounds')
    obs.count('unequal', int(n1 != n2))
    obs.count('nontrivial_bounds', int(ref > 0))
    obs.key('mmd', n1, n2, d, eps, bw, fp)
    obs.check(close(lb, ref, 1e-7), 'mmd-bound', 'the lower bound is not the one implied by the recorded samples', got=lb, expected=ref, plug=plug,
              n1=n1, n2=n2, dim=d, fp=fp, shift=shift, **ctx)
    obs.check(lb <= plug + 1e-9, 'mmd-above-plugin', 'the bound exceeds the plug-in estimate', got=lb, plug=plug, **ctx)
    verdict(obs, M, t, lb, delta, True, ctx)


# ---------------------------------------------------------------- model-based testers
class HistModel:
  """Stand-in classifier: learns class frequencies on quantile cells of the first coordinate; logit = log odds."""

  def __init__(self, log, mode):
    self.log, self.mode = log, mode

  def clone(self):
    m = HistModel(self.log, self.mode)
    self.log.append(('clone',))
    return m

  def compile(self, optimizer=None, loss=None, metrics=None, **k):
    self.metrics = metrics or []
    self.loss = loss
    self.log.append(('compile',))

  def fit(self, x, y, **k):
    x, y = np.asarray(x, float), np.asarray(y, float)
    self.log.append(('fit', x.copy(), y.copy(), k))
    self.cuts = np.unique(np.quantile(x[:, 0], np.arange(1, 16) / 16)) if len(x) else np.zeros(0)
    c = np.searchsorted(self.cuts, x[:, 0])
    pos = np.bincount(c, weights=y[:, 0], minlength=len(self.cuts) + 1)
    tot = np.bincount(c, minlength=len(self.cuts) + 1)
    self.w = np.log((pos + .5) / (tot - pos + .5))

  def predict(self, x, **k):
    x = np.asarray(x, float)
    if self.mode == 'always0':
      return np.full((len(x), 1), -1.0)
    if self.mode == 'always1':
      return np.full((len(x), 1), 1.0)
    return self.w[np.searchsorted(self.cuts, x[:, 0])][:, None]

  def evaluate(self, x, y, batch_size=None, **k):
    x, y = np.asarray(x, float), np.asarray(y, float)
    z = self.predict(x)
    thr = getattr(self.metrics[0], 'threshold', 0.0) if self.metrics else 0.0
    acc = float(np.mean((z > thr) == (y > .5))) if len(x) else 0.0
    self.log.append(('evaluate', x.copy(), y.copy(), z.copy(), acc))
    return [float(np.mean(np.log1p(np.exp(-np.where(y > .5, z, -z))))), acc]


def train_cfg(M, r, bound=None):
  return M['tcfg'].TrainingConfig(training_epochs=int(r.integers(1, 4)), batch_size=int(r.integers(1, 200)), optimizer_learning_rate=.01,
                                  model_output_coordinate_bound=bound, verbose=0)


def rows(a):
  a = np.asarray(a, float)
  return a.reshape(len(a), -1)


def hs_ref(x, y, pred, eps, fp):
  """Bound from the second halves with the classifier the tester trained: returns plug-in delta, lower bound."""
  n = min(len(x), len(y))
  k = int(n / (1 + math.exp(eps)) + 1e-9)
  x, y = x[:n][:k], y[:n][k:]
  ok = float((pred(x) <= 0).sum() + (pred(y) > 0).sum()) / n
  f = lambda a: a * (1 + math.exp(eps)) - math.exp(eps)
  return f(ok), f(ok - math.sqrt(math.log(1 / fp) / (2 * n))), k, n


def sub(a, b):
  """Rows of a all occur in b (distinct continuous values)."""
  return set(map(bytes, np.ascontiguousarray(a))) <= set(map(bytes, np.ascontiguousarray(b)))


def run_hs(r, obs, M):
  eps, delta = logu(r, .01, 3), 0.0 if r.random() < .4 else float(r.uniform(0, .5))
  log = []
  mode = mech.pick(r, ['learn', 'learn', 'learn', 'always0', 'always1'])
  cfg = M['tcfg'].HockeyStickPropertyTesterConfig(training_config=train_cfg(M, r, mech.pick(r, [None, .1, 7.])), approximate_dp=dp(M, eps, delta),
                                                  evaluation_batch_size=int(r.integers(1, 2000)))
  t = M['test'].HockeyStickPropertyTester(config=cfg, base_model=HistModel(log, mode))
  ctx = dict(eps=eps, delta=delta, mode=mode)
  for rep in range(2):
    n1 = int(logu(r, 20, 4000))
    n2 = n1 if r.random() < .5 else int(logu(r, 20, 4000))
    d = int(mech.pick(r, [0, 1, 3]))
    fp = logu(r, 1e-6, .5)
    shift = mech.pick(r, [0, 0, .5, 5])
    shp = lambda n: (n,) if d == 0 else (n, d)
    x, y = r.normal(size=shp(n1)), r.normal(size=shp(n2)) + shift
    start = len(log)
    lb = float(t.estimate_lower_bound(x.copy(), y.copy(), fp))
    mine = log[start:]
    fits = [e for e in mine if e[0] == 'fit']
    evs = [e for e in mine if e[0] == 'evaluate']
    X, Y = rows(x), rows(y)
    obs.count('hs_bounds')
    obs.count('unequal', int(n1 != n2))
    obs.key('hs', n1, n2, d, eps, fp, mode)
    obs.check(len(fits) >= 1 and any(e[0] == 'clone' for e in mine), 'hs-fresh-model', 'the estimate did not train a fresh model', **ctx)
    tr = np.concatenate([rows(e[1]) for e in fits])
    te = np.concatenate([rows(e[1]) for e in evs]) if evs else np.zeros((0, X.shape[1]))
    obs.count('disjoint')
    obs.check(sub(te, np.concatenate([X, Y])) and not set(map(bytes, np.ascontiguousarray(te))) & set(map(bytes, np.ascontiguousarray(tr))), 'hs-train-test',
              'evaluation used training samples', **ctx)
    for e in fits + evs:
      a, l = rows(e[1]), np.asarray(e[2]).ravel()
      obs.check(sub(a[l < .5], X) and sub(a[l > .5], Y), 'hs-labels', 'samples labelled with the wrong distribution', **ctx)
    # reference: same classifier on the held-out halves, weights of the two samples as the guarantee needs them
    cl = HistModel([], mode)
    e = fits[-1]
    cl.fit(e[1], e[2])
    plug, ref, k, n = hs_ref(X[n1 // 2:], Y[n2 // 2:], cl.predict, eps, fp)
    obs.count('nontrivial_bounds', int(ref > 0))
    # any equally distributed selection of held-out samples would do: without rejecting more often than allowed
    slack = 2 * (1 + math.exp(eps)) / n
    edge = abs(n / (1 + math.exp(eps)) - round(n / (1 + math.exp(eps)))) < 1e-9
    obs.check(abs(lb - ref) <= 1e-7 * (1 + math.exp(eps)) + (slack if edge else 0), 'hs-bound',
              'the lower bound is not the one implied by the held-out samples', got=lb, expected=ref, plug=plug, n1=n1, n2=n2, dim=d, fp=fp, shift=shift, **ctx)
    if shift == 0:
      # identical distributions: a positive bound is a false alarm (probability at most fp, counted for large deviations only)
      sigma = math.sqrt(math.log(1e10) / (2 * n)) * (1 + math.exp(eps))
      obs.check(lb <= sigma + slack, 'hs-false-alarm', 'identical distributions give a large lower bound', got=lb, limit=sigma, n1=n1, n2=n2, **ctx)
    verdict(obs, M, t, lb, delta, True, ctx)


class Net:
  """Stand-in network: fixed witness function of the first coordinate followed by the layers the tester adds."""

  def __init__(self, fn, log):
    self.fn, self.log, self.extra = fn, log, []
    self.trainable_variables = [1.0]

  @property
  def layers(self):
    return []

  def add(self, layer):
    self.extra.append(layer)

  def __call__(self, x, training=None, **k):
    x = np.asarray(x, float)
    z = self.fn(rows(x)[:, :1])
    for l in self.extra:
      z = l(z)
    self.log.append(('train' if training else 'eval', x.copy(), np.asarray(z).copy()))
    return z


def renyi_ref(gp, gq, alpha, bound, fp, n):
  plug = alpha / (alpha - 1) * math.log(np.mean(np.exp((alpha - 1) * gp))) - math.log(np.mean(np.exp(alpha * gq)))
  L = math.log(2 / fp)
  g = max(math.sqrt(3 * L * math.exp(2 * (alpha - 1) * bound) / n), math.sqrt(2 * L * math.exp(2 * alpha * bound) / n))
  return plug, (plug - math.log((1 + g) / (1 - g)) if g < 1 else float('nan'))


def run_renyi(r, obs, M):
  bound = logu(r, .05, 1.5)
  alpha = float(mech.pick(r, [2, 1.5, 3, 1 + logu(r, .05, 3)]))
  eps = logu(r, .01, 2)
  pure = bool(r.integers(2))
  thr = min(eps, 2 * alpha * eps ** 2) if pure else eps
  pp = M['prop'].PrivacyProperty(pure_dp=M['prop'].PureDp(epsilon=eps)) if pure else M['prop'].PrivacyProperty(renyi_dp=M['prop'].RenyiDp(alpha=alpha, epsilon=eps))
  log = []
  a, b = float(r.normal()), float(r.normal())
  kind = mech.pick(r, ['step', 'lin', 'const'])
  fn = {'step': lambda z: a * np.sign(z - b), 'lin': lambda z: a * z + b, 'const': lambda z: np.full_like(z, a)}[kind]
  t = M['test'].RenyiPropertyTester(M['tcfg'].RenyiPropertyTesterConfig(alpha=alpha, training_config=train_cfg(M, r, bound), privacy_property=pp), base_model=Net(fn, log))
  ctx = dict(alpha=alpha, output_bound=bound, eps=eps, pure=pure, witness=kind)
  obs.check(t.privacy_property == pp, 'renyi-property', 'reported property differs', **ctx)
  for rep in range(2):
    n1 = n2 = 2 * int(logu(r, 10, 20000))
    if r.random() < .4:
      n2 += 1 if r.random() < .5 else 0
    d = int(mech.pick(r, [1, 3]))
    fp = logu(r, 1e-6, .5)
    shift = mech.pick(r, [0, 0, .5, 5])
    x, y = r.normal(size=(n1, d)), r.normal(size=(n2, d)) + shift
    start = len(log)
    with np.errstate(invalid='ignore'):
      lb = float(np.asarray(t.estimate_lower_bound(x.copy(), y.copy(), fp)))
    mine = log[start:]
    ev = [e for e in mine if e[0] == 'eval']
    tr = [e for e in mine if e[0] == 'train']
    obs.count('renyi_bounds')
    obs.count('unequal', int(n1 != n2))
    obs.key('renyi', n1, n2, alpha, bound, fp)
    obs.check(all(np.abs(e[2]).max() <= bound * (1 + 1e-12) for e in mine), 'renyi-range', 'the model output exceeds the declared coordinate bound', **ctx)
    seen_tr = set(map(bytes, np.concatenate([np.ascontiguousarray(e[1]) for e in tr]))) if tr else set()
    seen_te = set(map(bytes, np.concatenate([np.ascontiguousarray(e[1]) for e in ev]))) if ev else set()
    obs.count('disjoint')
    obs.check(seen_tr and seen_te and not seen_tr & seen_te, 'renyi-train-test', 'evaluation used training samples', train=len(seen_tr), test=len(seen_te), **ctx)
    g = lambda s: bound * np.tanh(fn(s[:, :1]))
    xt, yt = x[n1 // 2:], y[n2 // 2:]
    n = min(len(xt), len(yt))
    plug, ref = renyi_ref(g(xt), g(yt), alpha, bound, fp, n)
    obs.count('nontrivial_bounds', int(ref > 0))
    if math.isfinite(ref):
      obs.check(close(lb, ref, 1e-7), 'renyi-bound', 'the lower bound is not the one implied by the held-out samples', got=lb, expected=ref, plug=plug, n1=n1, n2=n2,
                fp=fp, shift=shift, **ctx)
    else:
      obs.check(not t.reject_property(lb), 'renyi-unbounded-error', 'rejected although too few samples give no bound', got=lb, n1=n1, fp=fp, **ctx)
    verdict(obs, M, t, lb, thr, True, ctx)


# ---------------------------------------------------------------- coverage over many draws
def run_cover(r, obs, M):
  """Empirical failure rate of one tester configuration against the exact divergence."""
  kind = mech.pick(r, ['hist', 'hist', 'mmd', 'hs', 'renyi'])
  n1 = int(mech.pick(r, [20, 60, 200, 1000] if kind != 'mmd' else [20, 60, 120]))
  n2 = n1 if kind == 'renyi' or r.random() < .4 else int(n1 * mech.pick(r, [.25, .5, 3, 10]))
  fp = float(mech.pick(r, [.05, .2, .5]))
  R = {'hist': 150, 'mmd': 40, 'hs': 100, 'renyi': 60}[kind]
  eps = logu(r, .01, 1.0)
  k = int(r.integers(2, 8))
  gap = mech.pick(r, ['same', 'same', 'shift'])
  w1 = r.dirichlet(np.full(k, .7))
  w2 = w1 if gap == 'same' else r.dirichlet(np.full(k, .7))
  e = math.exp(eps)
  log = []
  if kind == 'hist':
    t = M['test'].HistogramTester(M['tcfg'].HistogramPropertyTesterConfig(True, k, 0., 1., dp(M, eps, 0.0), bool(r.integers(2))))
    true = float(np.maximum(w1 - e * w2, 0).sum())
  elif kind == 'mmd':
    t = M['test'].MMDPropertyTester(M['tcfg'].MMDPropertyTesterConfig(M['tcfg'].Kernel.KERNEL_RBF, 1.0, dp(M, eps, 0.0)))
    true = float(max(np.maximum(w1 - e * w2, 0).sum(), np.maximum(w2 - e * w1, 0).sum()))
  elif kind == 'hs':
    t = M['test'].HockeyStickPropertyTester(M['tcfg'].HockeyStickPropertyTesterConfig(train_cfg(M, r), dp(M, eps, 0.0)), HistModel(log, mech.pick(r, ['learn', 'always0', 'always1'])))
    true = float(np.maximum(w2 - e * w1, 0).sum())
  else:
    alpha = float(mech.pick(r, [1.05, 1.2, 1.5, 2]))
    a = float(r.uniform(-1, 1))
    fn = lambda z: a * (z > k / 2)
    t = M['test'].RenyiPropertyTester(M['tcfg'].RenyiPropertyTesterConfig(alpha, train_cfg(M, r, .2), M['prop'].PrivacyProperty(renyi_dp=M['prop'].RenyiDp(alpha, eps))), Net(fn, log))
    true = float(math.log(np.sum(w1 ** alpha * np.maximum(w2, 1e-300) ** (1 - alpha))) / (alpha - 1))
  bad = 0
  for _ in range(R):
    s1, s2 = r.choice(k, n1, p=w1), r.choice(k, n2, p=w2)
    if kind != 'hist':
      s1, s2 = s1.astype(float), s2.astype(float)
    if kind == 'renyi':
      s1, s2 = s1[:, None], s2[:, None]
    with np.errstate(invalid='ignore'):
      lb = float(np.asarray(t.estimate_lower_bound(s1, s2, fp)))
    bad += lb > true + (2 * (1 + e) / (min(n1, n2) // 2) if kind == 'hs' else 1e-9)
    obs.count('coverage_runs')
    del log[:]
  obs.key('cover', kind, n1, n2, eps, w1.tobytes())
  p = float(stats.binom.sf(bad - 1, R, fp))
  obs.check(p > LIM, 'coverage', 'the bound exceeds the true divergence more often than the failure probability', tester=kind, n1=n1, n2=n2, fp=fp, eps=eps,
            failures=bad, runs=R, true=true, w1=w1, w2=w2)
  # gross violations are found with enough samples
  N = 40000 if kind == 'hist' else 3000
  if kind in ('hist', 'hs'):
    x, y = (np.zeros(N, int), np.full(N, k - 1)) if kind == 'hist' else (np.zeros(N), np.full(N, 1.0))
    if kind == 'hs':
      t = M['test'].HockeyStickPropertyTester(M['tcfg'].HockeyStickPropertyTesterConfig(train_cfg(M, r), dp(M, eps, 0.0)), HistModel(log, 'learn'))
    lb = float(t.estimate_lower_bound(x, y, .05))
    obs.count('detected', int(t.reject_property(lb)))
    obs.check(bool(t.reject_property(lb)), 'misses-violation', 'disjoint outputs were not reported', tester=kind, bound=lb, eps=eps)
  elif kind == 'mmd':
    x, y = np.zeros(3000), np.full(3000, 50.0)
    lb = float(t.estimate_lower_bound(x, y, .05))
    got = bool(t.reject_property(lb))
    # kernel mean discrepancy of disjoint point masses is 2: detectable below e^eps - 1 = sqrt(2 - tolerance)
    if (e - 1) ** 2 < 1.7:
      obs.count('detected', int(got))
      obs.check(got, 'misses-violation', 'disjoint outputs were not reported', tester=kind, bound=lb, eps=eps)


# ---------------------------------------------------------------- validation
def raises(f, *a, **k):
  try:
    f(*a, **k)
  except ValueError:
    return True
  return False


def run_invalid(r, obs, M):
  T, P, tc = M['test'], M['prop'], M['tcfg']
  good = dict(eps=logu(r, .01, 3), delta=float(r.uniform(0, .4)))
  hist = lambda a: T.HistogramTester(tc.HistogramPropertyTesterConfig(True, 4, 0., 1., a))
  mmd = lambda a, k=tc.Kernel.KERNEL_RBF: T.MMDPropertyTester(tc.MMDPropertyTesterConfig(k, 1.0, a))
  hs = lambda a, c=None: T.HockeyStickPropertyTester(tc.HockeyStickPropertyTesterConfig(c or train_cfg(M, r), a), HistModel([], 'learn'))
  bad = [dp(M, None, good['delta']), dp(M, 0.0, good['delta']), dp(M, -good['eps'], good['delta']), dp(M, good['eps'], None),
         dp(M, good['eps'], -logu(r, 1e-12, 1))]
  for a in bad:
    for n, f in (('histogram', hist), ('mmd', mmd), ('hockey-stick', hs)):
      obs.count('rejected_inputs')
      obs.check(raises(f, a), 'accepts-property:' + n, 'an invalid privacy property was accepted', eps=a.epsilon, delta=a.delta)
  for a in (dp(M, good['eps'], 0.0), dp(M, good['eps'], good['delta'])):
    for n, f in (('histogram', hist), ('mmd', mmd), ('hockey-stick', hs)):
      t = f(a)
      pp = t.privacy_property
      obs.check(pp.approximate_dp == a and pp.pure_dp is None and pp.renyi_dp is None, 'property:' + n, 'reported property differs')
  obs.check(raises(mmd, dp(M, good['eps'], 0.0), tc.Kernel.KERNEL_UNSPECIFIED), 'accepts-kernel', 'an unspecified kernel was accepted')
  ren = lambda pp, c=None, al=2.0: T.RenyiPropertyTester(tc.RenyiPropertyTesterConfig(al, c or train_cfg(M, r, 1.0), pp), Net(lambda z: z, []))
  for pp in (P.PrivacyProperty(pure_dp=P.PureDp(None)), P.PrivacyProperty(pure_dp=P.PureDp(-1.0)), P.PrivacyProperty(pure_dp=P.PureDp(0.0)),
             P.PrivacyProperty(renyi_dp=P.RenyiDp(2.0, 0.0)), P.PrivacyProperty(renyi_dp=P.RenyiDp(2.0, -1.0)), P.PrivacyProperty(renyi_dp=P.RenyiDp(2.0, None)),
             P.PrivacyProperty(approximate_dp=dp(M, 1.0, 0.1))):
    obs.count('rejected_inputs')
    obs.check(raises(ren, pp), 'accepts-property:renyi', 'an invalid privacy property was accepted', prop=repr(pp))
  for al in (None, 0.0, 1.0, float(r.uniform(0, 1)), -2.0):
    obs.count('rejected_inputs')
    obs.check(raises(ren, P.PrivacyProperty(renyi_dp=P.RenyiDp(al, 1.0)), None, al), 'accepts-alpha', 'an invalid order was accepted', alpha=al)
  obs.check(raises(ren, P.PrivacyProperty(renyi_dp=P.RenyiDp(3.0, 1.0)), None, 2.0), 'accepts-alpha', 'two different orders were accepted')
  for field, vals in (('training_epochs', (0, -1, None)), ('batch_size', (0, -3, None)), ('optimizer_learning_rate', (0.0, -.1, None)), ('model_output_coordinate_bound', (0.0, -1.0, None))):
    for v in vals:
      c = train_cfg(M, r, 1.0)
      setattr(c, field, v)
      obs.count('rejected_inputs')
      obs.check(raises(ren, P.PrivacyProperty(pure_dp=P.PureDp(1.0)), c), 'accepts-training', 'an invalid training configuration was accepted', field=field, value=v)
      if field != 'model_output_coordinate_bound':
        c = train_cfg(M, r, 1.0)
        setattr(c, field, v)
        obs.check(raises(hs, dp(M, 1.0, 0.1), c), 'accepts-training', 'an invalid training configuration was accepted', field=field, value=v)
  # samples
  t = hist(dp(M, good['eps'], good['delta']))
  okk = np.array([0, 1, 2, 3])
  for badx in (np.array([0, 4]), np.array([-1, 2]), np.array([], int), np.append(okk, 4 + int(r.integers(9)))):
    for pair in ((badx, okk), (okk, badx)):
      obs.count('rejected_inputs')
      obs.check(raises(t.estimate_lower_bound, *pair, .05), 'accepts-samples', 'empty or out-of-range samples were accepted', samples=badx)
  h = hs(dp(M, 1.0, .1))
  m = mmd(dp(M, 1.0, .1))
  for k in (0, 1):
    for t in (h, m):
      for pair in ((np.zeros(k), np.zeros(10)), (np.zeros(10), np.zeros(k))):
        obs.count('rejected_inputs')
        obs.check(raises(t.estimate_lower_bound, *pair, .05), 'accepts-samples', 'fewer than two samples were accepted', tester=type(t).__name__, n=k)
  obs.check(raises(h.estimate_lower_bound, np.zeros((10, 2)), np.zeros((10, 2, 2)), .05), 'accepts-rank', 'samples of different rank were accepted')
  for n in (0, 2, 3):
    f = [dict(pure_dp=P.PureDp(1.0)), dict(renyi_dp=P.RenyiDp(2.0, 1.0)), dict(approximate_dp=dp(M, 1.0, .1))][:n]
    kw = {}
    for z in f:
      kw.update(z)
    obs.check(raises(P.PrivacyProperty, **kw), 'accepts-container', 'a property container without exactly one property was accepted', n=n)


def run(case, obs):
  r = np.random.default_rng(case['s'])
  M = aud.load()
  {'hist': run_hist, 'mmd': run_mmd, 'hs': run_hs, 'renyi': run_renyi, 'cover': run_cover, 'invalid': run_invalid}[case['family']](r, obs, M)
