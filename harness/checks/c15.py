"""C15: noise chosen for a privacy target satisfies it and is not wasteful."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
import oracle
import plref
from pldlib import MECH, PLD, common, INF
from dp_accounting.pld import accountant

ASSUMPTIONS = [
    'epsilon at least 0.05 and at most 150; for composed subsampled Gaussians delta at most half the sampling probability; delta zero (where allowed) or at least 1e-9; true divergences of compositions are '
    'bracketed by an independent discretisation; minimality is judged up to the search tolerance 1e-7 and, for compositions of '
    'continuous noise, up to the discretisation of the search (a tenth of epsilon)']
sub = core.Registry()
DP = common.DifferentialPrivacyParameters
REMOVE, ADD = MECH.AdjacencyType.REMOVE, MECH.AdjacencyType.ADD
TOL = 1e-7

eps_ = st.one_of(gen.logf(0.05, 10), st.sampled_from([0.1, 0.5, 1.0, 2.0, 3.0, math.log(3)]))
delta_ = st.one_of(gen.logf(1e-9, 0.999), st.sampled_from([1e-9, 1e-6, 1e-5, 0.1, 0.5, 0.9]))
delta0_ = st.one_of(delta_, st.just(0.0))


def over(true, delta):
  return true > delta * (1 + 1e-7) + 1e-12


def under(true, delta):
  """Certainly still within the target."""
  return true < delta * (1 - 1e-7) - 1e-12


@st.composite
def gauss(draw):
  return dict(eps=draw(st.one_of(eps_, gen.logf(0.001, 150))), delta=draw(delta_), n=draw(st.one_of(st.integers(1, 5), st.integers(1, 5000))),
              sens=draw(st.one_of(st.sampled_from([1.0, 1, 2]), gen.logf(0.01, 100), gen.logf(1e-9, 1e11))))


@sub('gaussian', gauss(), quick=2000, thorough=100000,
     rule='smallest Gaussian noise for n queries: exact divergence of the composition; non-trivial: more than one query')
def gaussian(case, ctx):
  e, d, n, s = case['eps'], case['delta'], case['n'], case['sens']
  z = accountant.get_smallest_gaussian_noise(DP(e, d), n, s)
  r = s * math.sqrt(n)
  true = oracle.gaussian_delta0(e, r / z)
  require(not over(true, d), 'noise %r gives delta %r above %r', z, true, d)
  tol = 1.5 * TOL * min(1.0, r)
  if z > 60 * tol:
    less = oracle.gaussian_delta0(e, r / (z - tol - 1e-12 * z))
    require(not under(less, d), 'noise %r is not minimal: %r less still gives delta %r', z, tol, less)
  ctx.nontrivial(n > 1)


@st.composite
def guarantee(draw):
  kind = draw(st.sampled_from(['gaussian', 'laplace', 'dlaplace', 'dgauss', 'gaussian', 'dgauss']))
  big = kind in ('gaussian', 'laplace', 'dlaplace')
  return dict(kind=kind, q=draw(gen.prob(1e-3)), eps=draw(st.one_of(eps_, gen.logf(0.1, 150) if not big else gen.logf(0.002, 150))),
              delta=draw(delta_ if kind in ('gaussian', 'dgauss') else delta0_),
              sens=draw(st.one_of(st.just(1), st.integers(1, 6), st.integers(1, 30))) if kind[0] == 'd' else draw(
                  st.one_of(st.just(1.0), gen.logf(0.01, 100))),
              adj=draw(st.booleans()))


def true_worst(kind, par, sens, q, e):
  return oracle.Mech(dict(kind=kind, par=par, sens=sens, q=q, trunc=None)).worst(e)


def sigma_of(m):
  """The scale of a discrete Gaussian, from its distribution where the attribute does not show it."""
  if hasattr(m, '_sigma'):
    return m._sigma  # pylint: disable=protected-access
  k = max(1, round(3 * m.standard_deviation()))
  p0 = m.noise_cdf(0) - m.noise_cdf(-1)
  pk = m.noise_cdf(-k) - m.noise_cdf(-k - 1)
  return k / math.sqrt(2 * math.log(p0 / pk))


@sub('constructors', guarantee(), quick=4000, thorough=80000,
     rule='mechanisms made from a privacy guarantee, with and without subsampling: true divergence in both directions at most '
          'delta, noise minimal (for Laplace noise: of the documented size); non-trivial: subsampled')
def constructors(case, ctx):
  k, q, e, d, s = case['kind'], case['q'], case['eps'], case['delta'], case['sens']
  cls = dict(gaussian=MECH.GaussianPrivacyLoss, laplace=MECH.LaplacePrivacyLoss, dlaplace=MECH.DiscreteLaplacePrivacyLoss,
             dgauss=MECH.DiscreteGaussianPrivacyLoss)[k]
  m = cls.from_privacy_guarantee(DP(e, d), sensitivity=s, sampling_prob=q, adjacency_type=ADD if case['adj'] else REMOVE)
  ctx.label(k)
  ctx.nontrivial(q < 1)
  require(m.sensitivity == s and m.sampling_prob == q, 'sensitivity %r, sampling %r', m.sensitivity, m.sampling_prob)
  require(m.adjacency_type == (ADD if case['adj'] else REMOVE), 'adjacency type %r', m.adjacency_type)
  if k == 'laplace':
    par = m.parameter
  elif k == 'dlaplace':
    par = m.parameter
  elif k == 'gaussian':
    par = m.standard_deviation
  else:
    par = sigma_of(m)
  require(par > 0 and math.isfinite(par), 'parameter %r', par)
  true = true_worst(k, par, s, q, e)
  require(not over(true, d), '%s with parameter %r has delta %r above %r', k, par, true, d)
  if k in ('laplace', 'dlaplace'):
    want = math.log1p(math.expm1(e) / q)
    got = s / par if k == 'laplace' else s * par
    require(core.close(got, want, 1e-8), 'largest loss %r of the unsampled mechanism, documented %r', got, want)
    if e < 100:
      less = true_worst(k, par / (1 + 1e-6) if k == 'laplace' else par * (1 + 1e-6), s, q, e)
      require(less > 0, 'less noise still has delta zero')
  elif par > 100 * TOL:
    p = par - 1.5 * TOL - 1e-12 * par
    if False:
      return
    less = true_worst(k, p, s, q, e)
    require(not under(less, d), '%s noise %r is not minimal: %r has delta %r', k, par, p, less)


@st.composite
def dlap(draw):
  return dict(eps=draw(eps_), delta=draw(delta0_), n=draw(st.one_of(st.just(1), st.integers(1, 6), st.integers(1, 30))),
              sens=draw(st.one_of(st.just(1), st.integers(1, 5), st.integers(1, 30))))


def dlap_composed(a, s, n, e):
  """Exact delta of n discrete Laplace mechanisms (losses are multiples of a)."""
  if a * s > 600:
    return 1.0 - 0 if e < a * s else 0.0
  P, Q, xs = oracle.dlaplace_pmf(a, s, 1.0, 'remove')
  k = np.abs(xs) - np.abs(xs + s)          # P is centred at -s: loss = a (|x| - |x+s|)
  m = np.zeros(2 * s + 1)
  np.add.at(m, k + s, P)
  acc = np.ones(1)
  for _ in range(n):
    acc = np.convolve(acc, m)
  l = a * (np.arange(len(acc)) - s * n)
  i = l > e
  return float(np.dot(-np.expm1(e - l[i]), acc[i]))


@sub('discrete_laplace', dlap(), quick=600, thorough=12000,
     rule='smallest discrete Laplace noise for n queries: exact composed divergence on the lattice of losses; non-trivial: several queries')
def discrete_laplace(case, ctx):
  e, d, n, s = case['eps'], case['delta'], case['n'], case['sens']
  a = accountant.get_smallest_discrete_laplace_noise(DP(e, d), n, s)
  require(a > 0, 'parameter %r', a)
  true = dlap_composed(a, s, n, e)
  require(not over(true, d), 'parameter %r gives delta %r above %r', a, true, d)
  inv = 1 / a
  ctx.nontrivial(n > 1 and d > 0)
  if inv > 100 * TOL and d < 0.99:
    less = dlap_composed(1 / (inv - 1.5 * TOL - 1e-12 * inv), s, n, e)
    require(not under(less, d), 'parameter %r is not optimal: less noise still gives delta %r', a, less)
    if d == 0:
      require(core.close(a, e / (n * s), 1e-6), 'pure parameter %r, expected %r', a, e / (n * s))


@st.composite
def lap(draw):
  return dict(eps=draw(eps_), delta=draw(delta0_), n=draw(st.sampled_from([1, 1, 2, 3, 5, 10, 20, 40, 80, 150])),
              sens=draw(st.one_of(st.just(1.0), gen.logf(0.05, 20))))


@sub('laplace', lap(), quick=500, thorough=8000,
     rule='smallest Laplace noise for n queries; non-trivial: several queries and delta positive')
def laplace(case, ctx):
  e, d, n, s = case['eps'], case['delta'], case['n'], case['sens']
  b = accountant.get_smallest_laplace_noise(DP(e, d), n, s)
  require(b > 0, 'scale %r', b)
  p = b - 1.5 * TOL - 1e-12 * b
  if d == 0:
    require(core.close(b, n * s / e, 1e-9, 1.5e-7 + 1e-9 * s), 'scale %r for a pure guarantee, expected %r', b, n * s / e)
    return
  ctx.nontrivial(n > 1)
  if n == 1:
    true = oracle.laplace_delta0(e, s / b)
    require(not over(true, d), 'scale %r gives delta %r above %r', b, true, d)
    if b > 100 * TOL:
      less = oracle.laplace_delta0(e, s / p)
      require(not under(less, d), 'scale %r is not minimal: %r gives %r', b, p, less)
    return
  h = e / 100 / n
  if s / b / h > 4e4:
    return
  true = plref.Bracket([(dict(t='laplace', z=b / s), n)], h).low(e)
  require(not over(true, d), 'scale %r gives delta at least %r above %r', b, true, d)
  if b > 100 * TOL:
    less = plref.Bracket([(dict(t='laplace', z=p / s), n)], h).up(e * 0.9)
    require(not under(less, d), 'scale %r is wasteful: %r gives at most %r even at epsilon %r', b, p, less, e * 0.9)


@st.composite
def subg(draw):
  q = draw(st.one_of(gen.prob(0.02), st.just(1.0)))
  return dict(eps=draw(gen.logf(0.3, 5)), delta=draw(gen.logf(1e-7, 0.5 * q)), n=draw(st.sampled_from([1, 1, 2, 5, 15])),
              sens=draw(st.sampled_from([1, 1.0, 0.5, 3])), q=q)


@sub('subsampled_gaussian', subg(), quick=96, thorough=1600,
     rule='smallest subsampled Gaussian noise for n queries; non-trivial: subsampled')
def subsampled_gaussian(case, ctx):
  e, d, n, s, q = case['eps'], case['delta'], case['n'], case['sens'], case['q']
  z = accountant.get_smallest_subsampled_gaussian_noise(DP(e, d), n, s, q)
  require(z > 0, 'noise %r', z)
  ctx.nontrivial(q < 1)
  p = z - 1.5 * TOL - 1e-12 * z
  if n == 1 or q == 1:
    f = lambda x, e: true_worst('gaussian', x / math.sqrt(n), s, q, e)
    lo = up = f
  else:
    h = min(0.002, e / 50 / n)
    br = lambda x: plref.Bracket([(dict(t='poisson', q=q, e=dict(t='gaussian', z=x / s)), n)], h)
    lo = lambda x, e: br(x).low(e)
    up = lambda x, e: br(x).up(e)
  true = lo(z, e)
  require(not over(true, d), 'noise %r gives delta at least %r above %r', z, true, d)
  if z > 100 * TOL:
    e2 = e - n * min(0.001, 0.1 * e / n)
    less = up(p, max(e2, 0.0))
    require(not under(less, d), 'noise %r is wasteful: %r gives at most delta %r even at epsilon %r', z, p, less, e2)


def times(name, f):
  def change(c):
    c[name] *= f
    return c
  return change


def more(name):
  def change(c):
    c[name] += 1
    return c
  return change


def toggled(c):
  c['adj'] = not c['adj']
  return c


def scaled_sensitivity(c):
  c['sens'] = c['sens'] + 1 if c['kind'][0] == 'd' else c['sens'] * 1.25
  return c


TARGET = dict(epsilon=times('eps', 0.8), delta=times('delta', 0.5))
sub.related('gaussian', dict(TARGET, queries=more('n'), sensitivity=times('sens', 1.25)), quick=160, thorough=4000)
sub.related('constructors', dict(TARGET, sensitivity=scaled_sensitivity, direction=toggled, probability=times('q', 0.7)), quick=320, thorough=6000)
sub.related('discrete_laplace', dict(TARGET, queries=more('n'), sensitivity=more('sens')), quick=80, thorough=1600)
sub.related('laplace', dict(TARGET, queries=more('n'), sensitivity=times('sens', 1.25)), quick=64, thorough=1200)


def less_often(c):
  c['q'] *= 0.7
  c['delta'] = min(c['delta'], 0.5 * c['q'])
  return c


sub.related('subsampled_gaussian', dict(epsilon=times('eps', 0.9), delta=times('delta', 0.5), queries=more('n'), sensitivity=times('sens', 1.25),
                                        probability=less_often), quick=24, thorough=400)
