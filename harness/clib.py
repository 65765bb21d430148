"""Imports the clustering library with a recording stand-in for scikit-learn (not installed here)."""
import sys
import types

import numpy as np

import boot


class KMeans:
  """Deterministic stand-in: the centers are the heaviest points it was given."""
  log = []

  def __init__(self, n_clusters=8, init='k-means++', **kw):
    self.n_clusters, self.init = n_clusters, init

  def fit(self, X, y=None, sample_weight=None):
    X = np.asarray(X)
    w = np.ones(len(X)) if sample_weight is None else np.asarray(sample_weight)
    KMeans.log.append(dict(k=self.n_clusters, points=X.copy(), weights=w.copy()))
    if self.n_clusters > len(X):
      raise ValueError('n_samples should be >= n_clusters')
    order = np.argsort(-w, kind='stable')[:self.n_clusters]
    self.cluster_centers_ = X[order].astype(float)
    self.labels_ = np.zeros(len(X), dtype=int)
    return self


def _install():
  pkg = types.ModuleType('sklearn')
  sub = types.ModuleType('sklearn.cluster')
  sub.KMeans = KMeans
  pkg.cluster = sub
  pkg.__path__ = []
  sys.modules['sklearn'] = pkg
  sys.modules['sklearn.cluster'] = sub


_install()

from clustering import central_privacy_utils as CPU      # noqa: E402
from clustering import clustering_algorithm as ALG       # noqa: E402
from clustering import clustering_params as CP           # noqa: E402
from clustering import coreset_params as CORE            # noqa: E402
from clustering import default_clustering_params as DEF  # noqa: E402
from clustering import lsh as LSH                        # noqa: E402
from clustering import lsh_tree as TREE                  # noqa: E402
from clustering import privacy_calculator as PC          # noqa: E402
boot.check_origin(ALG)
boot.check_origin(PC)


class Recorder:
  """Replaces the two functions that draw noise and records what they are given.

  counts: one answer of the noisy count per call (a number added to the true
  count when relative, the answer itself otherwise).
  """

  def __init__(self, counts, relative, averages=None):
    self.counts, self.relative, self.averages = list(counts), relative, averages
    self.count_calls, self.average_calls, self.overrun = [], [], False

  def _count(self, nonprivate_count, count_privacy_param):
    i = len(self.count_calls)
    self.overrun |= i >= len(self.counts)
    x = self.counts[i % len(self.counts)] if self.relative or i < len(self.counts) else 0
    out = int(nonprivate_count) + x if self.relative else x
    self.count_calls.append(dict(n=nonprivate_count, param=count_privacy_param, out=out))
    return out

  def _average(self, nonprivate_points, private_count, average_privacy_param, dim):
    i = len(self.average_calls)
    if self.averages is None:
      out = _real_average(nonprivate_points, private_count, average_privacy_param, dim)
    else:
      out = np.array([self.averages[(i + j) % len(self.averages)] for j in range(dim)], dtype=float)
    self.average_calls.append(dict(points=np.array(nonprivate_points), count=private_count, param=average_privacy_param, dim=dim, out=np.array(out)))
    return out

  def __enter__(self):
    self.saved = []
    for mod in (CPU, TREE, DEF, ALG):
      for name, real, new in (('get_private_count', _real_count, self._count), ('get_private_average', _real_average, self._average)):
        if getattr(mod, name, None) is real:
          self.saved.append((mod, name, real))
          setattr(mod, name, new)
    return self

  def __exit__(self, *a):
    for mod, name, real in self.saved:
      setattr(mod, name, real)


_real_count = CPU.get_private_count
_real_average = CPU.get_private_average
