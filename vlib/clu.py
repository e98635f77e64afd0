"""Workload and instrumentation for the clustering package (learning/clustering)."""
import contextlib
import os
import sys
import numpy as np
from scipy import stats

_ST = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs_clu')
DLAP = stats.dlaplace.rvs


def load():
  """Imports the real package with the k-means stand-in."""
  if _ST not in sys.path:
    sys.path.insert(0, _ST)
  import sklearn.cluster as km
  from clustering import (central_privacy_utils, clustering_algorithm, clustering_params, coreset_params,
                          default_clustering_params, lsh, lsh_tree, privacy_calculator)
  assert hasattr(km, 'LOG')
  km.SCRIPT[0] = None
  del km.LOG[:]
  return dict(km=km, util=central_privacy_utils, algo=clustering_algorithm, par=clustering_params, core=coreset_params,
              dflt=default_clustering_params, lsh=lsh, tree=lsh_tree, calc=privacy_calculator)


class FixedCalc:
  """Noise parameters given directly (same two attributes as the real calculator)."""

  def __init__(self, M, std, sens, lap):
    self.average_privacy_param = M['util'].AveragePrivacyParam(std, sens)
    self.count_privacy_param = M['util'].CountPrivacyParam(lap)

  def validate_accounting(self, *a, **k):
    pass


def dlap_pmf(a, k):
  """P[noise = k] for discrete Laplace noise with parameter a."""
  return np.tanh(a / 2) * np.exp(-a * np.abs(np.asarray(k, dtype=float)))


def dlap_cdf(a, k):
  k = np.floor(np.asarray(k, dtype=float))
  q = np.exp(-a)
  return np.where(k < 0, np.exp(a * np.minimum(k, 0)) / (1 + q), 1 - np.exp(-a * (np.maximum(k, 0) + 1)) / (1 + q))


def dlap_gof(x, a, bins=40):
  """p-value of a chi-square goodness-of-fit test against discrete Laplace(a), plus the out-of-support test."""
  x = np.asarray(x, dtype=float)
  n = len(x)
  if n == 0:
    return 1.0
  if np.any(x != np.round(x)):
    return 0.0
  lim = np.log(n * 2e15) / a + 1       # P(any |noise| > lim) < 1e-15
  if np.abs(x).max() > lim:
    return 0.0
  k = max(2, min(bins, n // 60))
  # integer cut points at quantiles
  qs = np.arange(1, k) / k
  cuts = np.unique(np.where(qs < .5, np.ceil(np.log(np.maximum(qs * (1 + np.exp(-a)), 1e-300)) / a),
                            -np.ceil(np.log(np.maximum((1 - qs) * (1 + np.exp(-a)), 1e-300)) / a)))
  edges = dlap_cdf(a, cuts)
  p = np.diff(np.concatenate([[0], edges, [1]]))
  obs = np.bincount(np.searchsorted(cuts, x, side='left'), minlength=len(p))
  keep = p * n >= 20
  if keep.sum() < len(p):
    p = np.append(p[keep], p[~keep].sum())
    obs = np.append(obs[keep], obs[~keep].sum())
    if len(p) < 2:
      return 1.0
    if p[-1] * n < 20:
      if p[-1] * n < 1e-9 and obs[-1] == 0:
        p, obs = p[:-1], obs[:-1]
      elif obs[-1] and stats.binom.sf(obs[-1] - 1, n, p[-1]) < 1e-12:
        return 0.0
      else:
        p[-2] += p[-1]; obs[-2] += obs[-1]
        p, obs = p[:-1], obs[:-1]
  if len(p) < 2:
    return 1.0
  stat = float(((obs - p * n) ** 2 / (p * n)).sum())
  return float(stats.chi2.sf(stat, len(p) - 1))


def gauss_gof(z):
  """p-values of several tests that z is standard normal and independent in order."""
  z = np.asarray(z, dtype=float).ravel()
  n = len(z)
  out = {}
  if n == 0:
    return out
  if not np.all(np.isfinite(z)):
    return {'finite': 0.0}
  s = float((z ** 2).sum())
  out['variance'] = 2 * min(stats.chi2.cdf(s, n), stats.chi2.sf(s, n))
  out['mean'] = 2 * stats.norm.sf(abs(z.sum()) / np.sqrt(n))
  if n >= 20:
    out['shape'] = float(stats.kstest(z, 'norm').pvalue)
  if np.abs(z).max() > 0:
    out['max'] = min(1.0, 2 * n * stats.norm.sf(np.abs(z).max()))
  return out


class Tap:
  """Records the draws of the noise sources while installed; the draws themselves are untouched."""

  def __init__(self):
    self.counts, self.normals = [], []

  @contextlib.contextmanager
  def on(self):
    rvs, normal = stats.dlaplace.rvs, np.random.normal

    def t_rvs(*a, **k):
      v = rvs(*a, **k)
      self.counts.append((a[0] if a else k.get('a'), v))
      return v

    def t_normal(*a, **k):
      v = normal(*a, **k)
      nm = dict(zip(('loc', 'scale', 'size'), a))
      nm.update(k)
      self.normals.append((nm.get('loc', 0.0), nm.get('scale', 1.0), np.array(v)))
      return v
    stats.dlaplace.rvs, np.random.normal = t_rvs, t_normal
    try:
      yield self
    finally:
      del stats.dlaplace.rvs          # instance attribute shadowing the method
      np.random.normal = normal


class Trees:
  """Captures every tree built while installed."""

  def __init__(self, M):
    self.M, self.trees = M, []

  @contextlib.contextmanager
  def on(self):
    cls = self.M['tree'].LshTree
    init = cls.__init__

    def wrapped(obj, *a, **k):
      init(obj, *a, **k)
      self.trees.append(obj)
    cls.__init__ = wrapped
    try:
      yield self
    finally:
      cls.__init__ = init


def dataset(r, n=None, dim=None, kind=None):
  """(points, radius, kind)"""
  n = int(r.integers(0, 400)) if n is None else n
  dim = int(r.integers(1, 7)) if dim is None else dim
  kind = kind or ['blobs', 'same', 'outside', 'lattice', 'tiny', 'origin', 'line', 'ints', 'mixed', 'far'][int(r.integers(10))]
  rad = float(np.exp(r.uniform(-3, 4)))
  if kind == 'same':
    x = np.repeat(r.normal(size=(1, dim)), n, axis=0) * rad / 3
  elif kind == 'outside':
    x = r.normal(size=(n, dim))
    x *= rad * r.uniform(1.0, 50, size=(n, 1)) / np.maximum(np.linalg.norm(x, axis=1, keepdims=True), 1e-12)
  elif kind == 'lattice':
    x = r.integers(-1, 2, size=(n, dim)) * rad / np.sqrt(dim)
  elif kind == 'tiny':
    x = r.normal(size=(n, dim)) * rad * 1e-9
  elif kind == 'origin':
    x = np.zeros((n, dim))
  elif kind == 'line':
    x = np.outer(r.uniform(-1, 1, size=n), np.eye(dim)[0]) * rad * 1.3
  elif kind == 'ints':
    x = r.integers(-20, 21, size=(n, dim))
  elif kind == 'mixed':
    x = r.normal(size=(n, dim)) * rad * np.exp(r.uniform(-6, 3, size=(n, 1)))
  elif kind == 'far':
    x = r.normal(size=(n, dim)) * rad * 10.0 ** r.integers(-3, 9, size=(n, 1))
  else:
    c = r.normal(size=(4, dim)) * rad * .5
    x = c[r.integers(0, 4, size=n)] + r.normal(size=(n, dim)) * rad * .05
  return x, rad, kind


def clip(x, rad):
  """Independent clipping to the ball of the given radius."""
  x = np.asarray(x, dtype=float)
  nr = np.sqrt((x ** 2).sum(axis=1)) if len(x) else np.zeros(0)
  f = np.ones(len(x))
  f[nr > rad] = rad / nr[nr > rad]
  return x * f[:, None]
