"""Stand-in for k-means: records what it is given and answers with scripted or simple Lloyd centers."""
import numpy as np

LOG = []          # one entry per fit
SCRIPT = [None]   # optional function (points, weights, k) -> centers


def _centers(X, w, k):
  if SCRIPT[0] is not None:
    return np.asarray(SCRIPT[0](X, w, k), dtype=float)
  c = np.array(X[:k], dtype=float)
  for _ in range(5):
    d = ((X[:, None, :] - c[None]) ** 2).sum(-1)
    l = d.argmin(1)
    for j in range(len(c)):
      m = l == j
      if m.any():
        c[j] = np.average(X[m], axis=0, weights=w[m])
  return c


def _fit(X, w, k, how):
  X = np.array(X, dtype=float)
  w = np.ones(len(X)) if w is None else np.array(w, dtype=float)
  if X.ndim != 2 or len(X) != len(w):
    raise ValueError('stand-in k-means: bad shapes %s %s' % (X.shape, w.shape))
  if not 1 <= k <= len(X):
    raise ValueError('n_samples=%d should be >= n_clusters=%d.' % (len(X), k))
  if not np.all(np.isfinite(X)):
    raise ValueError('Input X contains NaN or infinity.')
  c = _centers(X, w, int(k))
  LOG.append(dict(X=X, w=w, k=int(k), how=how, centers=c.copy()))
  d = ((X[:, None, :] - c[None]) ** 2).sum(-1)
  return c, d.argmin(1), float((w * d.min(1)).sum())


class KMeans:

  def __init__(self, n_clusters=8, *args, **kw):
    self.n_clusters = n_clusters

  def fit(self, X, y=None, sample_weight=None):
    self.cluster_centers_, self.labels_, self.inertia_ = _fit(X, sample_weight, self.n_clusters, 'KMeans')
    return self

  def fit_predict(self, X, y=None, sample_weight=None):
    return self.fit(X, y, sample_weight).labels_

  def predict(self, X, sample_weight=None):
    d = ((np.asarray(X, float)[:, None, :] - self.cluster_centers_[None]) ** 2).sum(-1)
    return d.argmin(1)


def k_means(X, n_clusters, sample_weight=None, **kw):
  return _fit(X, sample_weight, n_clusters, 'k_means')
