"""Independent discretised privacy loss distributions that bracket the truth.

For a mechanism leaf and direction, G(l) = P_upper(loss > l) in closed form; the
losses are rounded up (sound) or down (optimistic) to a grid and composed by
FFT convolution, giving a lower and an upper bound on the true privacy curve.
"""
import math

import numpy as np
from scipy import optimize
from scipy import signal
from scipy.special import ndtr

import oracle

INF = math.inf
CUT = 1e-16


def _sub_inv(l, q, direction):
  """Loss l of the subsampled pair -> loss of the base pair (None: -inf, INF: beyond)."""
  if q == 1:
    return l
  if direction == 'remove':       # l = log(1-q+q e^b)
    y = math.expm1(l) / q
    return -INF if y <= -1 else (math.log1p(y) if l < 700 else l - math.log(q))
  y = math.expm1(-l) / q          # l = -log(1-q+q e^-b)
  return INF if y <= -1 else (-math.log1p(y) if -l < 700 else l + math.log(q))


def tail(leaf, direction):
  """(G, lo, hi): survival function of the loss under the upper distribution and its useful range."""
  t = leaf['t']
  if t == 'poisson':
    q, base = leaf['q'], leaf['e']
  else:
    q, base = 1.0, leaf
  if base['t'] == 'gaussian':
    r = 1.0 / base['z']
    # base loss under P ~ N(r^2/2, r^2); under Q ~ N(-r^2/2, r^2)
    up = lambda b: float(ndtr((r * r / 2 - b) / r))
    lw = lambda b: float(ndtr((-r * r / 2 - b) / r))
    lo, hi = -r * r / 2 - 9.0 * r, r * r / 2 + 9.0 * r
  elif base['t'] == 'laplace':
    r = 1.0 / base['z']

    def up(b):       # P: loss = r w.p. 1/2 (x<=0), between: r - 2x/s
      if b >= r:
        return 0.0
      if b < -r:
        return 1.0
      return 1 - 0.5 * math.exp((b - r) / 2)     # P(loss <= b) = 0.5 e^{-(r-b)/2}

    def lw(b):       # loss under Q: at -r w.p. 1/2
      if b >= r:
        return 0.0
      if b < -r:
        return 1.0
      return 0.5 * math.exp(-(b + r) / 2)
    lo, hi = -r, r
  elif base['t'] == 'mog':
    return _mog_tail(base, direction)
  else:
    raise ValueError(base['t'])
  if q == 1:
    return up, lo, hi
  if direction == 'remove':
    G = lambda l: (lambda b: 1.0 if b == -INF else q * up(b) + (1 - q) * lw(b))(_sub_inv(l, q, direction))
    f = lambda b: math.log1p(q * math.expm1(b)) if b < 600 else b + math.log(q)
  else:
    G = lambda l: (lambda b: 0.0 if b == INF else up(b))(_sub_inv(l, q, direction))
    f = lambda b: -(math.log1p(q * math.expm1(-b)) if -b < 600 else -b + math.log(q))
  return G, f(lo) - 1e-12, f(hi) + 1e-12


def _mog_tail(s, direction):
  sd = s['sd']
  c = np.array([x for x, p in zip(s['sens'], s['probs']) if p > 0], float)
  p = np.array([p for p in s['probs'] if p > 0], float)
  lp = np.log(p)
  A = 9.0 * sd

  def loss(x):
    if direction == 'remove':
      return float(np.logaddexp.reduce(lp - c * (2 * x + c) / (2 * sd * sd)))
    return -float(np.logaddexp.reduce(lp + c * (2 * x - c) / (2 * sd * sd)))
  xl, xh = -A - float(c.max()), A + float(c.max())

  def G(l):
    # loss decreasing in x; loss > l <=> x < x0
    if loss(xl) <= l:
      x0 = xl
    elif loss(xh) > l:
      x0 = xh
    else:
      x0 = optimize.brentq(lambda x: loss(x) - l, xl, xh, xtol=1e-13 * max(1, sd), rtol=1e-14)
    if x0 <= xl:
      return 0.0
    if x0 >= xh:
      return 1.0
    if direction == 'remove':
      return float(np.sum(p * ndtr((x0 + c) / sd)))
    return float(ndtr(x0 / sd))
  return G, loss(xh), loss(xl)


def grid(leaf, direction, h):
  """((start, masses, inf) rounded down, same rounded up)."""
  if leaf['t'] == 'rr':
    P, Q = oracle.rr_pair(leaf['p'], leaf['k'], leaf['relation'])
    if direction == 'add':
      P, Q = Q, P
    ls = np.log(P / Q)
    out = []
    for fn, sgn in ((np.floor, -1), (np.ceil, 1)):
      ks = fn(ls / h + sgn * 1e-12).astype(int)
      a = np.zeros(ks.max() - ks.min() + 1)
      np.add.at(a, ks - ks.min(), P)
      out.append((int(ks.min()), a, 0.0))
    return out
  G, lo, hi = tail(leaf, direction)
  k0, k1 = math.floor(lo / h) - 1, math.ceil(hi / h) + 1
  # survival just above grid points: mass of (k h, (k+1) h]
  g = np.array([G(k * h) for k in range(k0, k1 + 1)])
  g = np.minimum.accumulate(g)
  m = g[:-1] - g[1:]
  top = g[-1]
  bot = 1.0 - g[0]
  down = m.copy()
  down = np.concatenate([[bot], down])          # mass of (k0+i, k0+i+1] placed at k0+i; the rest one lower
  up = np.concatenate([[bot], m])               # at k0 + i
  return ((k0 - 1, down, 0.0), (k0, up, max(0.0, float(top)) + 1e-18))


def conv(x, y):
  if min(len(x[1]), len(y[1])) < 40:
    a = np.convolve(x[1], y[1])
  else:
    a = np.maximum(0, signal.fftconvolve(x[1], y[1]))
  return x[0] + y[0], a, 1 - (1 - x[2]) * (1 - y[2])


def conv_power(x, n):
  out = None
  while n:
    if n & 1:
      out = x if out is None else conv(out, x)
    n >>= 1
    if n:
      x = conv(x, x)
  return out


def trim(x, eps=1e-18):
  a = x[1]
  nz = np.nonzero(a > eps)[0]
  if len(nz) == 0:
    return x
  return x[0] + int(nz[0]), a[nz[0]:nz[-1] + 1], x[2]


def delta(x, h, e):
  l = (x[0] + np.arange(len(x[1]))) * h
  i = l > e
  return x[2] + float(np.dot(-np.expm1(e - l[i]), x[1][i]))


class Bracket:
  """Lower / upper bounds on the privacy curve of a multiset of leaves [(leaf, count)]."""

  def __init__(self, parts, h):
    self.h = h
    self.dirs = {}
    self.steps = sum(n for _, n in parts)
    for d in ('remove', 'add'):
      acc = [(0, np.ones(1), 0.0), (0, np.ones(1), 0.0)]
      # Gaussians combine exactly
      g = sum(n / leaf['z'] ** 2 for leaf, n in parts if leaf['t'] == 'gaussian')
      ps = [(l, n) for l, n in parts if l['t'] != 'gaussian']
      if g:
        ps.append((dict(t='gaussian', z=g ** -0.5), 1))
      for leaf, n in ps:
        for i, x in enumerate(grid(leaf, d, h)):
          acc[i] = conv(acc[i], conv_power(trim(x), n))
      self.dirs[d] = acc

  def low(self, e):
    return max(delta(a[0], self.h, e) for a in self.dirs.values())

  def up(self, e):
    return max(delta(a[1], self.h, e) for a in self.dirs.values())
