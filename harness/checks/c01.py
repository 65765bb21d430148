"""C01: pessimistic privacy loss never understates an unsubsampled mechanism."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
import oracle
import pldlib
from pldlib import PLD, REL, common

ASSUMPTIONS = [
    'reference divergences are computed in double precision from closed forms or explicit probability tables; '
    'the comparison allows 1e-12 absolute slack for rounding',
    'discretisation intervals are chosen so that at most a few thousand buckets are needed']
sub = core.Registry()
TOL = 1e-12


def check_curve(pld, true_delta, epss, dls, ctx, tol=TOL):
  """Soundness of the delta curve and of epsilons, against a true curve."""
  biggest = 0.0
  vec = pld.get_delta_for_epsilon(sorted(epss))
  for e, v in zip(sorted(epss), np.asarray(vec)):
    t = true_delta(e)
    d = pld.get_delta_for_epsilon(e)
    require(d >= t - tol, 'delta(%r) reported %r, the mechanism has %r', e, d, t)
    require(v >= t - tol - 1e-9 * abs(t), 'array query: delta(%r) reported %r, the mechanism has %r', e, v, t)
    require(not math.isnan(d), 'delta(%r) = %r', e, d)
    if 1e-9 < t < 1:
      biggest = max(biggest, t)
  for dl in dls:
    e = pld.get_epsilon_for_delta(dl)
    require(e >= 0 and not math.isnan(e), 'epsilon(%r) = %r', dl, e)
    if e < 650:
      t = true_delta(e)
      require(t <= dl + tol, 'epsilon(%r) reported %r, but the mechanism has delta %r there', dl, e, t)
  ctx.nontrivial(biggest > 0)


@st.composite
def additive_case(draw):
  spec = draw(pldlib.additive())
  return dict(spec=spec, h=draw(pldlib.interval(spec)), dots=draw(st.booleans()), fracs=draw(pldlib.fracs),
              deltas=draw(pldlib.deltas))


@sub('additive', additive_case(), quick=1600, thorough=40000,
     rule='random additive mechanism, sensitivity, interval and method; non-trivial: some queried true delta in (1e-9, 1)')
def additive(case, ctx):
  spec = case['spec']
  m = oracle.Mech(spec)
  pld = pldlib.build(spec, case['h'], True, case['dots'])
  ctx.label(spec['kind'], 'dots' if case['dots'] else 'buckets')
  check_curve(pld, m.worst, pldlib.eps_points(spec, case['h'], case['fracs']), case['deltas'], ctx)


@st.composite
def default_case(draw):
  spec = draw(pldlib.additive())
  spec.pop('logtrunc', None)
  return dict(spec=spec, h=draw(pldlib.interval(spec)), pess=draw(st.booleans()), fracs=draw(pldlib.fracs))


@sub('method_form', default_case(), quick=160, thorough=4000,
     rule='same mechanism through the class methods and the module functions with default method')
def method_form(case, ctx):
  """The constructors offered on the class describe the same mechanism as the module functions."""
  s, h, p = case['spec'], case['h'], case['pess']
  C = PLD.PrivacyLossDistribution
  k = s['kind']
  if k == 'gaussian':
    a = C.from_gaussian_mechanism(s['par'], s['sens'], p, h)
    lt = -50.0
  elif k == 'laplace':
    a = C.from_laplace_mechanism(s['par'], s['sens'], p, h)
  elif k == 'dlaplace':
    a = C.from_discrete_laplace_mechanism(s['par'], s['sens'], p, h)
  else:
    a = C.from_discrete_gaussian_mechanism(s['par'], s['sens'], s['trunc'], p, h)
  m = oracle.Mech(s)
  for e in pldlib.eps_points(s, h, case['fracs']):
    t = m.worst(e)
    d = a.get_delta_for_epsilon(e)
    if p:
      require(d >= t - TOL, 'class method %s: delta(%r) = %r < true %r', k, e, d, t)
    else:
      require(d <= t + TOL, 'class method %s (optimistic): delta(%r) = %r > true %r', k, e, d, t)
    ctx.nontrivial(1e-9 < t < 1)


@st.composite
def pair_case(draw):
  n = draw(st.integers(1, 7))
  up = draw(st.lists(st.one_of(st.integers(0, 20), st.integers(0, 10 ** 6)), min_size=n, max_size=n))
  lo = draw(st.lists(st.one_of(st.integers(0, 20), st.integers(0, 10 ** 6)), min_size=n, max_size=n))
  # there must be an outcome both distributions give
  j = draw(st.integers(0, n - 1))
  up[j], lo[j] = max(1, up[j]), max(1, lo[j])
  perm = draw(st.permutations(range(n)))
  return dict(up=up, lo=lo, order=list(perm), symmetric=draw(st.booleans()),
              zero_as_missing=draw(st.booleans()), h=draw(gen.logf(1e-3, 1.5)),
              logtrunc=draw(st.sampled_from([None, None, -30.0, -8.0, -3.0])),
              fracs=draw(st.lists(st.floats(-1.2, 1.2), min_size=2, max_size=6)), deltas=draw(pldlib.deltas),
              classmethod=draw(st.booleans()))


def pair_pld(case, pess=True):
  up, lo = np.array(case['up'], float), np.array(case['lo'], float)
  up, lo = up / up.sum(), lo / lo.sum()
  lu, ll = {}, {}
  for i in case['order']:
    if up[i] > 0 or not case['zero_as_missing']:
      lu['o%d' % i] = math.log(up[i]) if up[i] > 0 else -math.inf
  for i in range(len(lo)):
    if lo[i] > 0 or not case['zero_as_missing']:
      ll['o%d' % i] = math.log(lo[i]) if lo[i] > 0 else -math.inf
  lt = -math.inf if case['logtrunc'] is None else case['logtrunc']
  if case['classmethod'] and case['symmetric']:
    pld = PLD.PrivacyLossDistribution.from_two_probability_mass_functions(ll, lu, pess, case['h'], lt)
  else:
    pld = PLD.from_two_probability_mass_functions(ll, lu, pess, case['h'], lt, symmetric=case['symmetric'])
  if case['symmetric']:
    true = lambda e: oracle.hs(up, lo, e)
  else:
    true = lambda e: max(oracle.hs(up, lo, e), oracle.hs(lo, up, e))
  m = (up > 0) & (lo > 0)
  losses = np.abs(np.log(up[m] / lo[m]))
  return pld, true, up, lo, float(losses.max())


def pair_eps(case, lmax):
  pts = [0.0, lmax, -lmax]
  for f in case['fracs']:
    e = f * max(lmax, case['h'])
    pts += [e, round(e / case['h']) * case['h']]
  return sorted(pts)


@sub('finite_pair', pair_case(), quick=2400, thorough=60000,
     rule='random pairs of finite distributions with zeros on either side; non-trivial: a queried true delta in (1e-9, 1)')
def finite_pair(case, ctx):
  pld, true, up, lo, lmax = pair_pld(case)
  if np.any((up > 0) & (lo == 0)):
    ctx.label('disjoint outcome')
  check_curve(pld, true, pair_eps(case, lmax), case['deltas'], ctx)
  require(pld.get_delta_for_epsilon(math.inf) >= true(math.inf) - TOL, 'delta(inf) %r, true %r',
          pld.get_delta_for_epsilon(math.inf), true(math.inf))


@st.composite
def rr_case(draw):
  p = draw(st.one_of(gen.logf(1e-6, 0.999), st.floats(1e-3, 0.999)))
  k = draw(st.one_of(st.integers(2, 6), st.integers(2, 2000)))
  return dict(p=p, k=k, rel=draw(st.sampled_from(['REPLACE_ONE', 'REPLACE_SPECIAL'])),
              frac_h=draw(gen.logf(0.002, 3)), fracs=draw(pldlib.fracs), deltas=draw(pldlib.deltas),
              classmethod=draw(st.booleans()))


def rr_pld(case, pess=True):
  P, Q = oracle.rr_pair(case['p'], case['k'], case['rel'])
  lmax = float(np.max(np.abs(np.log(P / Q))))
  h = max(case['frac_h'] * max(lmax, 1e-3), 1e-5)
  if case['classmethod'] and case['rel'] == 'REPLACE_ONE':
    pld = PLD.PrivacyLossDistribution.from_randomized_response(case['p'], case['k'], pess, h)
  else:
    pld = PLD.from_randomized_response(case['p'], case['k'], pess, h, neighboring_relation=REL[case['rel']])
  true = lambda e: max(oracle.hs(P, Q, e), oracle.hs(Q, P, e))
  return pld, true, lmax, h


@sub('randomized_response', rr_case(), quick=800, thorough=20000,
     rule='random flip probability, bucket count and neighbouring relation')
def randomized_response(case, ctx):
  pld, true, lmax, h = rr_pld(case)
  ctx.label(case['rel'])
  check_curve(pld, true, [f * lmax for f in case['fracs']] + [lmax, -lmax, 0.0], case['deltas'], ctx)


@st.composite
def dp_case(draw):
  eps = draw(st.one_of(st.just(0.0), gen.logf(1e-3, 20)))
  return dict(eps=eps, delta=draw(st.one_of(st.just(0.0), gen.logf(1e-12, 1.0))),
              h=draw(st.one_of(gen.logf(1e-4, 2), st.just(eps if eps > 0 else 0.1))),
              fracs=draw(pldlib.fracs), deltas=draw(pldlib.deltas), classmethod=draw(st.booleans()))


@sub('dp_guarantee', dp_case(), quick=800, thorough=20000, rule='random (epsilon, delta) guarantees')
def dp_guarantee(case, ctx):
  """The worst mechanism with the guarantee has P=(d, (1-d)e/(1+e), (1-d)/(1+e), 0) against its mirror image."""
  e, d = case['eps'], case['delta']
  f = (PLD.PrivacyLossDistribution if case['classmethod'] else PLD).from_privacy_parameters
  pld = f(common.DifferentialPrivacyParameters(e, d), case['h'])
  a, b = (1 - d) / (1 + math.exp(-e)), (1 - d) / (1 + math.exp(e))
  P, Q = np.array([d, a, b, 0]), np.array([0, b, a, d])
  check_curve(pld, lambda x: oracle.hs(P, Q, x), [f * max(e, 0.1) for f in case['fracs']] + [0.0, e, -e],
              case['deltas'], ctx)


@st.composite
def cdf_case(draw):
  return dict(ratio=draw(gen.logf(0.05, 3)), kind=draw(st.sampled_from(['gaussian', 'laplace'])),
              hf=draw(gen.logf(0.004, 0.5)), tail=draw(st.sampled_from([1e-15, 1e-10, 1e-6, 1e-3])),
              fracs=draw(pldlib.fracs), deltas=draw(pldlib.deltas), classmethod=draw(st.booleans()))


def cdf_pld(case, pess=True):
  """PLD from the distribution function of the loss (Gaussian: normal; Laplace: point masses and an exponential)."""
  r = case['ratio']
  if case['kind'] == 'gaussian':
    from scipy.special import ndtr
    cdf = lambda x: float(ndtr((x - r * r / 2) / r))
    spec = dict(kind='gaussian', par=1.0, sens=r, q=1.0)
  else:
    # P(loss <= x): loss = -r w.p. e^-r/2, r w.p. 1/2, density e^{(x-r)/2}/4 between
    cdf = lambda x: 0.0 if x < -r else (1.0 if x >= r else 0.5 * math.exp((x - r) / 2))
    spec = dict(kind='laplace', par=1.0, sens=r, q=1.0)
  h = max(pldlib.max_loss(spec) * case['hf'], 1e-3)
  f = (PLD.PrivacyLossDistribution if case['classmethod'] else PLD).create_from_cdf
  return f(cdf, pess, h, case['tail']), oracle.Mech(spec), spec, h


@sub('from_cdf', cdf_case(), quick=320, thorough=6000, rule='loss distribution given by its distribution function')
def from_cdf(case, ctx):
  pld, m, spec, h = cdf_pld(case)
  ctx.label(case['kind'])
  check_curve(pld, lambda e: m.delta(e, 'remove'), pldlib.eps_points(spec, h, case['fracs']), case['deltas'], ctx)


def scaled_spec(f):
  def change(c):
    c['spec']['par'] *= f
    return c
  return change


def scaled_sens(c):
  s = c['spec']
  if s['kind'] not in ('gaussian', 'laplace'):
    return None
  s['sens'] *= 1.25
  return c


def scaled_interval(c):
  c['h'] = min(2.0, c['h'] * 1.3)
  return c


def other_method(c):
  c['dots'] = not c['dots']
  return c


def other_truncation(c):
  if 'logtrunc' not in c['spec']:
    return None
  c['spec']['logtrunc'] = -25.0
  return c


def integer_sens(c):
  s = c['spec']
  if s['kind'] not in ('dlaplace', 'dgauss') or s.get('trunc') is not None:
    return None
  s['sens'] += 1
  return c


sub.related('additive', dict(scale=scaled_spec(1.2), sensitivity=scaled_sens, interval=scaled_interval, method=other_method,
                             truncation=other_truncation, steps=integer_sens), quick=240, thorough=5000)
