"""Independent reference values: true output distributions and divergences.

Nothing here imports the code under test.
Directions: 'remove' and 'add' as in the library's documentation.
"""
import math

import numpy as np
from scipy import optimize
from scipy.special import log_ndtr, ndtr

INF = math.inf


def exp_clip(x):
  return math.exp(x) if x < 709 else INF


# ------------------------------------------------------------------ hockey sticks
def gaussian_delta0(eps, ratio):
  """H_{e^eps}(N(ratio,1) || N(0,1)), ratio = sensitivity / sd."""
  a = ratio / 2 - eps / ratio
  b = -ratio / 2 - eps / ratio
  return max(0.0, float(ndtr(a)) - exp_clip(eps + float(log_ndtr(b))))


def laplace_delta0(eps, ratio):
  """ratio = sensitivity / scale."""
  if eps >= ratio:
    return 0.0
  if eps <= -ratio:
    return -math.expm1(eps)
  return -math.expm1((eps - ratio) / 2)


def sub_remove(d0, q, eps):
  """upper = q P + (1-q) Q, lower = Q; d0(eps) = H_{e^eps}(P||Q)."""
  if q == 1:
    return d0(eps)
  y = math.exp(eps) if eps < 700 else None
  if y is None:
    return q * d0(eps - math.log(q))
  z = math.expm1(eps) / q
  if y <= 1 - q or z <= -1:
    return -math.expm1(eps)
  return q * d0(math.log1p(z))


def sub_add(d0, q, eps):
  """upper = P, lower = q P' + (1-q) P where d0(eps) = H_{e^eps}(P || P')."""
  if q == 1:
    return d0(eps)
  y = math.exp(min(eps, 700))
  c = 1 - y * (1 - q)
  if eps > 0:
    c = q - math.expm1(min(eps, 700)) * (1 - q)
  if c <= 0:
    return 0.0
  return c * d0(eps + math.log(q) - math.log(c))


def hs(p, q, eps):
  """Hockey-stick divergence of finite distributions (arrays of masses)."""
  if eps == INF:
    return float(np.sum(p[q == 0]))
  e = exp_clip(eps)
  with np.errstate(invalid='ignore', over='ignore'):
    v = p - np.where(q > 0, e * q, 0.0)
  return float(np.sum(v[v > 0]))


# ------------------------------------------------------------------ mechanisms
def dlaplace_pmf(a, sens, q, direction, cut=42.0):
  """(upper, lower, xs) arrays over the integers; tails beyond carry < e^-cut."""
  n = int(math.ceil(cut / a)) + 2
  xs = np.arange(-n - sens, n + sens + 1)
  logc = math.log(math.tanh(a / 2)) if a < 700 else 0.0
  mu = lambda x: np.exp(logc - a * np.abs(x))
  return _mix(mu, xs, sens, q, direction) + (xs,)


def dgauss_pmf(sigma, sens, trunc, q, direction):
  n = trunc
  xs = np.arange(-n - sens, n + sens + 1)
  sup = np.arange(-n, n + 1)
  z = np.sum(np.exp(-0.5 * sup.astype(float) ** 2 / sigma ** 2))
  mu = lambda x: np.where(np.abs(x) <= n, np.exp(-0.5 * x.astype(float) ** 2 / sigma ** 2) / z, 0.0)
  return _mix(mu, xs, sens, q, direction) + (xs,)


def _mix(mu, xs, sens, q, direction):
  if direction == 'remove':
    return q * mu(xs + sens) + (1 - q) * mu(xs), mu(xs)
  return mu(xs), q * mu(xs - sens) + (1 - q) * mu(xs)


class Mech:
  """True privacy curve of a mechanism given by a JSON spec."""

  def __init__(self, spec):
    self.s = spec
    self.kind = spec['kind']
    self.q = spec.get('q', 1.0)
    self._tab = {}
    if self.kind in ('dlaplace', 'dgauss'):
      for d in ('remove', 'add'):
        if self.kind == 'dlaplace':
          self._tab[d] = dlaplace_pmf(spec['par'], spec['sens'], self.q, d)[:2]
        else:
          t = spec['trunc'] if spec.get('trunc') is not None else max(math.ceil(11.6 * spec['par']), (spec['sens'] + 1) // 2)
          self._tab[d] = dgauss_pmf(spec['par'], spec['sens'], t, self.q, d)[:2]
    if self.kind == 'mog':
      keep = [(c, p) for c, p in zip(spec['sens'], spec['probs']) if p > 0]
      self.c = np.array([x for x, _ in keep], dtype=float)
      self.p = np.array([x for _, x in keep], dtype=float)

  # true hockey-stick divergence at eps for one direction
  def delta(self, eps, direction):
    s = self.s
    if eps == INF:
      if self.kind in ('dgauss',):
        return hs(*self._tab[direction], eps)
      return 0.0
    if self.kind in ('gaussian', 'laplace'):
      f = gaussian_delta0 if self.kind == 'gaussian' else laplace_delta0
      ratio = s['sens'] / s['par']
      d0 = lambda e: f(e, ratio)
      return (sub_remove if direction == 'remove' else sub_add)(d0, self.q, eps)
    if self.kind in ('dlaplace', 'dgauss'):
      return hs(*self._tab[direction], eps)
    if self.kind == 'mog':
      return self._mog(eps, direction)
    raise ValueError(self.kind)

  def worst(self, eps):
    return max(self.delta(eps, 'remove'), self.delta(eps, 'add'))

  def _mog(self, eps, direction):
    sd = self.s['par']
    c, p = self.c, self.p
    lp = np.log(p)

    def loss(x):
      if direction == 'remove':
        return float(np.logaddexp.reduce(lp - c * (2 * x + c) / (2 * sd * sd)))
      return -float(np.logaddexp.reduce(lp + c * (2 * x - c) / (2 * sd * sd)))
    lo, hi = -45 * sd - float(c.max()), 45 * sd + float(c.max())
    if loss(lo) <= eps:
      x = None if direction == 'add' else lo
      if x is None:
        return 0.0
    elif loss(hi) >= eps:
      return max(0.0, -math.expm1(eps))
    else:
      x = optimize.brentq(lambda x: loss(x) - eps, lo, hi, xtol=1e-12 * max(1.0, sd), rtol=1e-14, maxiter=500)
    if direction == 'remove':
      up = float(np.sum(p * ndtr((x + c) / sd)))
      low = exp_clip(eps + float(log_ndtr(x / sd)))
    else:
      up = float(ndtr(x / sd))
      low = float(np.sum(p * np.exp(np.minimum(700, eps + log_ndtr((x - c) / sd)))))
    return max(0.0, up - low)


def rr_pair(p, k, relation):
  """(P, Q) of k-ary randomized response on neighbouring inputs."""
  P = np.full(k, p / k)
  P[0] = 1 - p + p / k
  if relation == 'REPLACE_ONE':
    Q = np.full(k, p / k)
    Q[1] = 1 - p + p / k
  else:
    Q = np.full(k, 1.0 / k)
  return P, Q


def renyi_finite(p, q, a):
  """Renyi divergence of order a (1 < a <= inf) of finite distributions."""
  p = np.asarray(p, float)
  q = np.asarray(q, float)
  if np.any((p > 0) & (q == 0)):
    return INF
  m = p > 0
  r = np.log(p[m]) - np.log(q[m])
  if a == INF:
    return float(np.max(r))
  if a == 1:
    return float(np.sum(p[m] * r))
  z = a * np.log(p[m]) + (1 - a) * np.log(q[m])
  mx = np.max(z)
  return max(0.0, float((mx + np.log(np.sum(np.exp(z - mx)))) / (a - 1)))


def trapz_log(logf, lo, hi, n):
  """log of the integral of exp(logf) over [lo, hi] (trapezoid, log space)."""
  x = np.linspace(lo, hi, n)
  v = logf(x)
  m = np.max(v)
  if not np.isfinite(m):
    return m
  w = np.exp(v - m)
  s = (np.sum(w) - 0.5 * (w[0] + w[-1])) * (x[1] - x[0])
  return float(m + np.log(s))
