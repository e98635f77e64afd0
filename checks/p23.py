"""P23: private sums and counts carry exactly the declared noise."""
import math
import numpy as np
from scipy import stats
from vlib import clu, mech

PROPERTY = 'P23'
RULE = ('an observation is one stream of releases (counts or averages) with fixed parameters whose noise is tested; distinct by '
        'parameters, data and seed')
ASSUMPTIONS = ['noise is drawn from the global random state of the libraries, seeded per case', 'points are finite']
LIM = 1e-10


def REQUIRED(tier):
  return {'count_streams': 80, 'average_streams': 120, 'count_releases': 100000, 'average_releases': 10000, 'coordinates': 50000,
          'noise_off': 150, 'empty_data': 20, 'int_data': 15, 'node_releases': 3000, 'rejected': 40, 'lag_tests': 200}


def cases(seed, tier):
  n = 5 if tier == 'quick' else 60
  out = []
  for fam, k in (('count', 90), ('average', 160), ('off', 200), ('nodes', 60), ('reject', 60)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def pair_p(u, v, scale=1.0):
  """Two-sided p-value that the products of two independent centred sequences sum to zero (normalised by their second moments)."""
  u, v = np.asarray(u, float), np.asarray(v, float)
  d = math.sqrt(float((u * u).sum()) * float((v * v).sum()))
  if d == 0 or len(u) < 30:
    return 1.0
  t = float((u * v).sum()) / d
  # permutation-like bound: correlation of n independent pairs; t is a correlation coefficient with n degrees of freedom.
  n = len(u)
  t = min(max(t, -1 + 1e-15), 1 - 1e-15)
  return float(2 * stats.t.sf(abs(t) * math.sqrt((n - 1) / (1 - t * t)), n - 1))


def lags(obs, mechn, z, ctx, known_normal=True):
  """Consecutive releases are independent (correlation of values and of squares at several lags); no value repeats."""
  z = np.asarray(z, float)
  if not known_normal:      # ranks make the test distribution free
    z = stats.norm.ppf((stats.rankdata(z, method='ordinal') - .5) / len(z))
  for L in (1, 2, 3, 5):
    if len(z) > 60:
      obs.count('lag_tests')
      p = pair_p(z[:-L], z[L:])
      obs.check(p > LIM, mechn + ':serial', 'noise of consecutive releases is correlated', lag=L, p=p, **ctx)


def random_points(r):
  x, rad, kind = clu.dataset(r, n=0 if r.random() < .08 else int(r.integers(1, 60)), dim=int(r.integers(1, 12)), kind=mech.pick(r, ['blobs', 'same', 'lattice', 'origin', 'mixed', 'ints']))
  return x, rad, kind


def container(r, x):
  m = int(r.integers(6))
  if m == 0:
    return np.asarray(x, dtype=np.float32), 'float32'
  if m == 1:
    return np.round(np.asarray(x, float)).astype(int), 'int'
  if m == 2 and len(x):
    return np.asfortranarray(np.asarray(x, float)), 'fortran'
  if m == 3 and len(x):
    return np.asarray(x, float).tolist(), 'list'
  if m == 4:
    v = np.asarray(x, float).copy()
    v.setflags(write=False)
    return v, 'readonly'
  return np.asarray(x, float), 'float64'


def run(case, obs):
  M = clu.load()
  r = mech.rng_of(case['s'], case['family'])
  np.random.seed(int(r.integers(2 ** 31)))
  U = M['util']
  f = case['family']
  if f == 'count':
    a = float(10 ** r.uniform(-3, .9))
    cp = U.CountPrivacyParam(a)
    n = 2000
    pool = [0, 1, 7, 60, 10 ** 6, int(r.integers(0, 10 ** 9))]
    m = int(r.integers(3))
    if m == 0:
      counts = [int(r.choice(pool))] * n
    elif m == 1:
      counts = [int(c) for c in r.choice(pool, size=n)]
    else:
      counts = [np.int64(c) for c in r.integers(0, 50, size=n)]
    got = [U.get_private_count(c, cp) for c in counts]
    noise = np.array([int(g) - int(c) for g, c in zip(got, counts)])
    ctx = dict(laplace=a, counts=repr(counts[:4]))
    obs.count('count_streams')
    obs.count('count_releases', n)
    obs.key(a, repr(counts[:9]), case['s'])
    obs.check(all(float(g) == int(g) for g in got), 'count:integer', 'a released count is not an integer', **ctx)
    p = clu.dlap_gof(noise, a)
    obs.check(p > LIM, 'count:law', 'the noise of a released count is not discrete Laplace noise of the declared parameter', p=p,
              sample=noise[:30].tolist(), **ctx)
    # The law does not depend on the true count.
    if m:
      med = np.median(counts)
      for part in (noise[np.array(counts) > med], noise[np.array(counts) <= med]):
        p = clu.dlap_gof(part, a)
        obs.check(p > LIM, 'count:data-dependent', 'the noise depends on the true count', p=p, **ctx)
      j = r.random(n)
      p = pair_p(stats.norm.ppf((stats.rankdata(noise + j * 1e-3) - .5) / n), stats.norm.ppf((stats.rankdata(np.array(counts, float) + r.random(n) * 1e-3) - .5) / n))
      obs.check(p > LIM, 'count:correlated', 'the noise is correlated with the true count', p=p, **ctx)
    lags(obs, 'count', noise + r.random(n) * .5, ctx, known_normal=False)
  elif f == 'average':
    x, rad, kind = random_points(r)
    x, how = container(r, x)
    dim = np.shape(x)[1] if len(x) else int(r.integers(1, 8))
    if len(x) == 0:
      x = [] if r.random() < .3 else np.zeros((0, dim), dtype=getattr(x, 'dtype', float))
      obs.count('empty_data')
    s = np.asarray(x, float).reshape(-1, dim).sum(axis=0)
    size = float(np.abs(np.asarray(x, float)).sum()) + 1e-9
    std = float(size * 10 ** r.uniform(-1, 2) + rad * 1e-3) if how == 'float32' else float((size + rad) * 10 ** r.uniform(-5, 2))
    ap = U.AveragePrivacyParam(std, rad)
    k = 120
    obs.count('int_data', how == 'int')
    ctx = dict(kind=kind, container=how, n=len(x), dim=dim, std=std)
    keep = np.array(x, copy=True)
    z = []
    for i in range(k):
      c = int(r.integers(1, 10 ** int(r.integers(1, 7))))
      c = np.int64(c) if r.random() < .3 else c
      got = np.asarray(U.get_private_average(x, c, ap, dim), float)
      if not obs.check(got.shape == (dim,), 'average:shape', 'a released average has the wrong dimension', shape=got.shape, **ctx):
        return
      z.append((got * int(c) - s) / std)
    obs.check(np.array_equal(keep, np.asarray(x)), 'average:mutated', 'the points were changed by a release', **ctx)
    z = np.array(z)
    obs.count('average_streams')
    obs.count('average_releases', k)
    obs.count('coordinates', z.size)
    obs.key(repr(ctx), case['s'])
    for t, p in clu.gauss_gof(z).items():
      obs.check(p > LIM, 'average:law:' + t, 'the noise of a released average is not Gaussian noise of the declared deviation', p=p,
                sample=z.ravel()[:20].tolist(), **ctx)
    worst = 0.0
    for i in range(dim):
      for t, p in clu.gauss_gof(z[:, i]).items():
        obs.check(p > LIM / 10, 'average:coordinate:' + t, 'the noise in one coordinate is not as declared', coordinate=i, p=p, **ctx)
      for j in range(i):
        p = pair_p(z[:, i], z[:, j])
        obs.check(p > LIM / 10, 'average:coordinates-dependent', 'the noise of two coordinates is correlated', p=p, pair=(i, j), **ctx)
        p = pair_p(z[:, i] ** 2 - 1, z[:, j] ** 2 - 1) if np.array_equal(z[:, i] ** 2, z[:, j] ** 2) else 1.0
        obs.check(p > LIM / 10, 'average:coordinates-equal', 'two coordinates carry the same noise', pair=(i, j), **ctx)
      lags(obs, 'average', z[:, i], ctx)
    if dim > 1:
      lags(obs, 'average-flat', z.ravel(), ctx)
    obs.check(len(np.unique(z.round(6), axis=0)) == k, 'average:repeated', 'the same noise was used for two releases', **ctx)
  elif f == 'off':
    x, rad, kind = random_points(r)
    x, how = container(r, x)
    dim = np.shape(x)[1] if len(x) else int(r.integers(1, 8))
    if len(x) == 0:
      x = [] if r.random() < .3 else np.zeros((0, dim))
      obs.count('empty_data')
    ctx = dict(kind=kind, container=how, n=len(x), dim=dim)
    obs.count('noise_off')
    obs.key(repr(ctx), case['s'])
    obs.count('int_data', how == 'int')
    c = int(r.integers(1, 1000))
    got = np.asarray(U.get_private_average(x, c, U.AveragePrivacyParam(0 if r.random() < .5 else 0.0, rad), dim), float)
    xf = np.asarray(x, float).reshape(-1, dim)
    want = np.array([math.fsum(col) for col in xf.T]) / c
    tol = (1e-5 if how == 'float32' else 1e-13) * (np.abs(xf).sum() / c + 1e-300)
    obs.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)), 'off:average', 'without noise the average is not exact',
              got=got.tolist(), want=want.tolist(), **ctx)
    n = int(r.integers(0, 10 ** int(r.integers(1, 15))))
    obs.check(U.get_private_count(n, U.CountPrivacyParam(math.inf)) == n, 'off:count', 'without noise the count is not exact', true_count=n, **ctx)
  elif f == 'nodes':
    node_stream(M, r, obs, case)
  else:
    for c in (0, -1, -10 ** 9):
      try:
        U.get_private_average(np.zeros((3, 2)), c, U.AveragePrivacyParam(float(r.uniform(0, 3)), 1.0), 2)
        obs.check(False, 'reject:count', 'an average with a private count below one was released', private_count=c)
      except ValueError:
        obs.count('rejected')
    for bad in (lambda: U.AveragePrivacyParam(-float(10 ** r.uniform(-9, 3)), 1.0), lambda: U.AveragePrivacyParam(1.0, 0.0),
                lambda: U.AveragePrivacyParam(1.0, -float(10 ** r.uniform(-9, 3))), lambda: U.CountPrivacyParam(0.0),
                lambda: U.CountPrivacyParam(-float(10 ** r.uniform(-9, 3)))):
      try:
        bad()
        obs.check(False, 'reject:param', 'an invalid noise parameter was accepted')
      except ValueError:
        obs.count('rejected')
    obs.key(case['s'])


def node_stream(M, r, obs, case):
  """Random interleavings of count and average releases of many nodes with re-asking."""
  dim = int(r.integers(1, 5))
  lap, std = float(10 ** r.uniform(-2, .5)), float(10 ** r.uniform(-1, 1))
  cp = M['core'].CoresetParam(clu.FixedCalc(M, std, 1.0, lap), M['par'].TreeParam(1, 1, 4), 'x', 1.0)
  sh = M['lsh'].SimHash(dim, 4)
  nodes = []
  ctx = dict(laplace=lap, std=std, dim=dim)
  shared = r.normal(size=(int(r.integers(0, 40)), dim))
  for _ in range(80):
    x = shared if r.random() < .5 else r.normal(size=(int(r.integers(0, 40)), dim))
    nodes.append((M['tree'].LshTreeNode(mech.pick(r, ['', '0', '01', '1']), x, cp, sh), x))
  cn = np.array([int(nd.private_count) - len(x) for nd, x in nodes], float)
  order = r.permutation(len(nodes))
  z = {}
  for i in order:
    nd, x = nodes[i]
    obs.count('node_releases')
    c = nd.private_count
    if r.random() < .5:
      nd.get_private_count()
    if c < 1:
      continue
    a = np.asarray(nd.get_private_average(), float)
    z[i] = (a * c - x.sum(axis=0)) / std
    if r.random() < .5:
      nd.get_private_average()
  obs.key(repr(ctx), case['s'])
  p = clu.dlap_gof(cn, lap)
  obs.check(p > LIM, 'nodes:count-law', 'counts of tree nodes do not carry the declared noise', p=p, **ctx)
  zz = np.array([z[i] for i in sorted(z)]).reshape(-1, dim)
  for t, p in clu.gauss_gof(zz).items():
    obs.check(p > LIM, 'nodes:average-law:' + t, 'averages of tree nodes do not carry the declared noise', p=p, **ctx)
  obs.check(len(np.unique(zz.round(6), axis=0)) == len(zz), 'nodes:repeated', 'two nodes carry the same noise', **ctx)
  if len(zz) > 40:
    u = cn[sorted(z)]
    u = u - u.mean()
    for j in range(dim):
      # noise of the sum is independent of the count noise: exact conditional normal test
      if np.any(u):
        t = float((zz[:, j] * u).sum() / math.sqrt((u * u).sum()))
        obs.check(2 * stats.norm.sf(abs(t)) > LIM, 'nodes:correlated', 'noise of the sum is correlated with noise of the count', z=t, **ctx)
  sizes = np.array([len(nodes[i][1]) for i in sorted(z)], float)
  sizes -= sizes.mean() if len(sizes) else 0
  if np.any(sizes):
    t = float((zz[:, 0] * sizes).sum() / math.sqrt((sizes ** 2).sum()))
    obs.check(2 * stats.norm.sf(abs(t)) > LIM, 'nodes:data-dependent', 'noise of the sum depends on the data', z=t, **ctx)
