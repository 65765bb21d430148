"""Builders and generators for privacy loss distributions (C01-C06, C27)."""
import math

from hypothesis import strategies as st
import numpy as np

import gen
import oracle
from dp_accounting import privacy_accountant
from dp_accounting.pld import common
from dp_accounting.pld import privacy_loss_distribution as PLD
from dp_accounting.pld import privacy_loss_mechanism as MECH
import boot
boot.check_origin(PLD)
boot.check_origin(MECH)

REL = privacy_accountant.NeighboringRelation
INF = math.inf


def build(spec, h, pess=True, dots=True):
  """The library's privacy loss distribution for an additive / mixture spec."""
  k = spec['kind']
  kw = dict(pessimistic_estimate=pess, value_discretization_interval=h, use_connect_dots=dots)
  if k == 'mog':
    return PLD.from_mixture_gaussian_mechanism(
        spec['par'], spec['sens'], spec['probs'], log_mass_truncation_bound=spec['logtrunc'], **kw)
  if spec.get('form') == 'class' and dots == (k in ('gaussian', 'laplace')):
    # The class methods have the same parameters, in the documented order, and the default method.
    c, q = PLD.PrivacyLossDistribution, spec.get('q', 1.0)
    if k == 'gaussian':
      return c.from_gaussian_mechanism(spec['par'], spec['sens'], pess, h, spec['logtrunc'], q)
    if k == 'dgauss':
      return c.from_discrete_gaussian_mechanism(spec['par'], spec['sens'], spec['trunc'], pess, h, q)
    f = c.from_laplace_mechanism if k == 'laplace' else c.from_discrete_laplace_mechanism
    return f(spec['par'], spec['sens'], pess, h, q)
  kw['sampling_prob'] = spec.get('q', 1.0)
  if k == 'gaussian':
    return PLD.from_gaussian_mechanism(spec['par'], spec['sens'],
                                       log_mass_truncation_bound=spec['logtrunc'], **kw)
  if k == 'laplace':
    return PLD.from_laplace_mechanism(spec['par'], spec['sens'], **kw)
  if k == 'dlaplace':
    return PLD.from_discrete_laplace_mechanism(spec['par'], spec['sens'], **kw)
  if k == 'dgauss':
    return PLD.from_discrete_gaussian_mechanism(spec['par'], spec['sens'], spec['trunc'], **kw)
  raise ValueError(k)


def trunc_mass(spec):
  """Probability mass a construction may move to infinity (pessimistic) or drop."""
  if spec['kind'] in ('gaussian', 'mog'):
    # half of exp(logtrunc) per tail; the mixture's cut-off is found numerically
    return math.exp(spec['logtrunc']) * 1.01
  return 0.0


def max_loss(spec):
  """A loss value around the top of the interesting range."""
  k = spec['kind']
  if k == 'laplace':
    l = spec['sens'] / spec['par']
  elif k == 'gaussian':
    r = spec['sens'] / spec['par']
    l = r * r / 2 + 8 * r
  elif k == 'mog':
    r = max(spec['sens']) / spec['par']
    l = r * r / 2 + 8 * r
  elif k == 'dlaplace':
    l = spec['sens'] * spec['par']
  else:
    r = spec['sens'] / spec['par']
    l = r * r / 2 + 8 * r
    if spec['trunc'] is not None:
      l = min(l, r * (spec['trunc'] + spec['sens']) / spec['par'])
  q = spec.get('q', 1.0)
  if q < 1 and l < 600:
    l = math.log1p(q * math.expm1(l))
  return max(l, 1e-6)


@st.composite
def additive(draw, kinds=('gaussian', 'laplace', 'dlaplace', 'dgauss'), sub=False):
  kind = draw(st.sampled_from(kinds))
  q = draw(gen.prob(1e-3, one=False)) if sub else 1.0
  s = dict(kind=kind, q=q, form=draw(st.sampled_from(['function', 'function', 'class'])))
  if kind == 'gaussian':
    s['sens'] = draw(st.one_of(st.sampled_from([1.0, 2.0, 0.5]), gen.logf(0.01, 100)))
    s['par'] = s['sens'] / draw(gen.logf(0.02, 8))
    s['logtrunc'] = draw(st.sampled_from([-50.0, -50.0, -30.0, -20.0, -10.0, -5.0]))
  elif kind == 'laplace':
    s['sens'] = draw(st.one_of(st.sampled_from([1.0, 2.0, 0.5]), gen.logf(0.01, 100)))
    s['par'] = s['sens'] / draw(gen.logf(0.01, 20))
  elif kind == 'dlaplace':
    s['sens'] = draw(st.one_of(st.integers(1, 6), st.integers(1, 60)))
    s['par'] = draw(gen.logf(0.02, 8)) / draw(st.sampled_from([1, s['sens']]))
  else:
    s['sens'] = draw(st.one_of(st.integers(1, 4), st.integers(1, 20), st.integers(1, 200)))
    s['par'] = draw(gen.logf(0.3, 30))
    lo = (s['sens'] + 1) // 2
    if draw(st.booleans()):
      s['trunc'] = draw(st.one_of(st.integers(lo, lo + 10), st.integers(lo, lo + 200)))
    else:
      s['trunc'] = None
  return s


@st.composite
def mixture(draw):
  n = draw(st.integers(1, 6))
  sens = draw(st.lists(st.one_of(st.just(0.0), st.sampled_from([1.0, 2.0, 3.0, 0.5]), gen.logf(0.05, 5)),
                       min_size=n, max_size=n))
  if max(sens) == 0:
    sens[draw(st.integers(0, n - 1))] = 1.0
  w = draw(st.lists(st.one_of(st.integers(1, 20), st.integers(1, 2000)), min_size=n, max_size=n))
  if n > 1 and draw(st.integers(0, 5)) == 0:
    j = draw(st.integers(0, n - 1))
    if any(sens[i] > 0 for i in range(n) if i != j):
      w[j] = 0
  t = sum(w)
  if draw(st.integers(0, 3)) == 0:     # the same mechanism in other units
    scale = draw(st.one_of(gen.logf(1e-6, 1e4), st.sampled_from([1e-6, 1e-6, 1e-5, 1e-5, 1e-4, 1000.0])))
    sens = [x * scale for x in sens]
  return dict(kind='mog', sens=sens, probs=[x / t for x in w], par=max(sens) / draw(gen.logf(0.05, 6)),
              logtrunc=draw(st.sampled_from([-50.0, -50.0, -30.0, -15.0])))


@st.composite
def interval(draw, spec, max_buckets=1500):
  """A discretisation interval: nice values, and awkward fractions of the loss range."""
  l = max_loss(spec)
  span = 2 * l
  if spec['kind'] in ('gaussian', 'mog', 'dgauss'):
    span *= 1.6
  lo = span / max_buckets
  c = draw(st.integers(0, 5))
  if c == 0:       # divides the largest loss exactly
    h = l / draw(st.integers(1, 40))
  elif c == 1:
    h = l * draw(st.floats(0.3, 3.0))
  elif c == 2:
    h = draw(st.sampled_from([1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0, 0.05, 0.25, 1, 2]))
    if spec['kind'] == 'mog':
      h = float(h)    # integer intervals: see C02/mixture_integer
  else:
    h = l * draw(gen.logf(1.0 / 500, 1.0))
  return h if lo <= h <= 2 else min(2.0, max(h, lo))


def eps_points(spec, h, fracs):
  """Query epsilons derived from fractions in [-1.2, 1.2] of the largest loss."""
  l = max_loss(spec)
  pts = []
  for f in fracs:
    e = f * l
    k = round(e / h)
    pts += [e, k * h, k * h + 1e-9, k * h - 1e-9, (k + 0.5) * h]
  pts += [0.0, l, -l, h, -h, l + h, l - h]
  q = spec.get('q', 1.0)
  if q < 1:
    b = -math.log1p(-q)
    pts += [b, b - h / 3, b + h / 3, -b]
  return sorted(x for x in pts if -650 < x < 650)


fracs = st.lists(st.floats(-1.2, 1.2), min_size=2, max_size=6)
deltas = st.lists(st.one_of(gen.logf(1e-12, 1.0), st.sampled_from([0.0, 1e-10, 1e-6, 0.5, 1.0])), min_size=1,
                  max_size=4)


def compact(spec):
  return {k: v for k, v in spec.items()}
