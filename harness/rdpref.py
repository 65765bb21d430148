"""Reference Renyi divergences (independent of the code under test)."""
import functools
import math

import numpy as np
from scipy.special import logsumexp

import oracle

INF = math.inf


def eff_sigma(s):
  """Effective noise multiplier of a (nested) composition of Gaussian events, as spec."""
  t = s['t']
  if t == 'gaussian':
    return s['z']
  if t == 'self':
    return eff_sigma(s['e']) / math.sqrt(s['n'])
  if t == 'comp':
    v = 0.0
    for e in s['es']:
      z = eff_sigma(e)
      if z == 0:
        return 0.0
      v += z ** -2
    return v ** -0.5 if v else INF
  raise ValueError(t)


def laplace(eps, a):
  if a == INF:
    return eps
  return float(np.logaddexp(math.log(a / (2 * a - 1)) + (a - 1) * eps,
                            math.log((a - 1) / (2 * a - 1)) - a * eps)) / (a - 1)


@functools.lru_cache(maxsize=4096)
def poisson_gaussian(q, z, a, direction='remove'):
  """Renyi divergence of order a between N(0,z^2) and its mixture with N(1,z^2), numerically.

  remove: D(mix || N0); add: D(N0 || mix).
  """
  if q == 0 or z == INF:
    return 0.0
  if z == 0 or a == INF:
    return INF
  if q == 1:
    return a / (2 * z * z)
  lq, l1 = math.log(q), math.log1p(-q)

  def logf(x):
    l0 = -x * x / (2 * z * z)
    lm = np.logaddexp(l1 + l0, lq - (x - 1) ** 2 / (2 * z * z))
    return a * lm + (1 - a) * l0 if direction == 'remove' else a * l0 + (1 - a) * lm
  # the integrand is a mixture of bumps at 0..a (remove) or stays near 0 (add)
  lo, hi = -14 * z - 1, (a + 1 if direction == 'remove' else 2) + 14 * z
  if direction == 'add':
    lo -= (a - 1) * 0
  n = int(min(400001, max(4001, (hi - lo) / z * 60)))
  v = oracle.trapz_log(logf, lo, hi, n) - math.log(z) - 0.5 * math.log(2 * math.pi)
  return max(0.0, v / (a - 1))


def rr(p, k, relation, a):
  if k == 1 or p == 1:
    return 0.0
  if p == 0:
    return INF
  P, Q = oracle.rr_pair(p, k, relation)
  return max(oracle.renyi_finite(P, Q, a), oracle.renyi_finite(Q, P, a))


def leaf(s, a, relation):
  """True Renyi divergence (worse direction) of a leaf event."""
  t = s['t']
  if t == 'noop':
    return 0.0
  if t == 'nonprivate':
    return INF
  if t == 'gaussian':
    return INF if s['z'] == 0 else a / (2 * s['z'] ** 2)
  if t == 'laplace':
    return INF if s['z'] == 0 else laplace(1 / s['z'], a)
  if t == 'rr':
    return rr(s['p'], s['k'], relation, a)
  if t == 'poisson':
    z = eff_sigma(s['e'])
    if s['q'] in (0, 1) or z in (0, INF):
      return poisson_gaussian(s['q'], z, a)
    return max(poisson_gaussian(s['q'], z, a, 'remove'), poisson_gaussian(s['q'], z, a, 'add'))
  raise ValueError(t)
