"""C19: private clustering never spends more than its privacy budget."""
import math

from hypothesis import strategies as st
import numpy as np
from scipy import stats

import core
from core import require
import gen
import oracle
import plref
from clib import CP, PC, CPU
from dp_accounting import dp_event

ASSUMPTIONS = [
    'epsilon from 0.01 to 12 (more in the thorough tier), delta from 1e-9 to 0.5, depth up to 80, count noise at least 0.05 and at '
    'most 3000 times the sum noise; neighbouring datasets differ by one record: each level has one count that changes by one and '
    'one leaf sum changes by the radius; the exact divergence of the Gaussian part composed with the count noise is computed in closed '
    'form for the discrete Laplace noise that is drawn, and bracketed numerically for the continuous Laplace noise that is accounted']
sub = core.Registry()


def discrete_delta(eps, ratio, a, k):
  """Divergence of a Gaussian (sensitivity over deviation: ratio) and k discrete Laplace counts of parameter a."""
  if a == math.inf:
    return 1.0
  p = 1 / (1 + math.exp(-a))
  i = np.arange(k + 1)
  w = stats.binom.pmf(i, k, 1 - p)
  if ratio == math.inf:
    return 1.0
  return float(sum(wi * oracle.gaussian_delta0(eps - a * (k - 2 * j), ratio) for j, wi in zip(i, w) if wi > 0))


def bracket(ratio, a, k, h):
  return plref.Bracket([(dict(t='gaussian', z=1 / ratio), 1), (dict(t='laplace', z=1 / a), k)], h)


def judge_budget(eps, delta, r, depth, calc, ctx):
  sd, a = calc.average_privacy_param.gaussian_standard_deviation, calc.count_privacy_param.laplace_param
  require(sd > 0 and math.isfinite(sd), 'standard deviation %r for a private target', sd)
  require(0 < a < math.inf, 'Laplace parameter %r for a private target', a)
  require(calc.average_privacy_param.sensitivity == r, 'sensitivity %r for radius %r', calc.average_privacy_param.sensitivity, r)
  ratio = r / sd
  k = depth + 1
  exact = discrete_delta(eps, ratio, a, k)
  if exact > delta * (1 + 1e-6):
    # The accounting is of continuous Laplace noise, the noise that is drawn is discrete; is it right for the former?
    h = min(0.02, max(a * k, 4 * ratio) / 300)
    low = bracket(ratio, a, k, h).low(eps)
    require(low <= delta * (1 + 1e-6), 'deviation %r and Laplace parameter %r at %d levels: delta is at least %r at epsilon %r, budget %r',
            sd, a, k, low, eps, delta)
    raise core.Known('discrete-laplace-as-continuous', 'deviation %r, Laplace parameter %r at %d levels: delta %r at epsilon %r, budget %r' % (
        sd, a, k, exact, eps, delta))


@st.composite
def target(draw, hi=12):
  eps = draw(st.one_of(gen.logf(0.01, 3), gen.logf(0.01, 3), gen.logf(0.3, hi), st.sampled_from([1.0, 0.5, 1, 2])))
  return dict(eps=eps, delta=draw(st.one_of(gen.logf(1e-9, 0.5), st.sampled_from([1e-6, 1e-9, 1e-2]))),
              depth=draw(st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(1, 25), st.just(20), st.integers(26, 80))),
              r=draw(st.one_of(st.sampled_from([1.0, 1, 10]), gen.logf(1e-6, 1e6))))


def charges(event, count=1):
  """Sums of squared inverse Gaussian and of inverse Laplace multipliers of an event."""
  if isinstance(event, dp_event.NonPrivateDpEvent):
    return math.inf, math.inf
  if isinstance(event, dp_event.GaussianDpEvent):
    return count / event.noise_multiplier ** 2, 0.0
  if isinstance(event, dp_event.LaplaceDpEvent):
    return 0.0, count / event.noise_multiplier
  if isinstance(event, dp_event.SelfComposedDpEvent):
    return charges(event.event, count * event.count)
  if isinstance(event, dp_event.ComposedDpEvent):
    parts = [charges(e, count) for e in event.events]
    return sum(g for g, _ in parts), sum(l for _, l in parts)
  if isinstance(event, dp_event.NoOpDpEvent):
    return 0.0, 0.0
  raise core.Violation('unexpected event %r' % (event,))


@sub('event', st.fixed_dictionaries(dict(
    sd=st.one_of(gen.logf(1e-3, 1e3), st.just(0.0)), a=st.one_of(gen.logf(1e-3, 1e3), st.just(math.inf)), sens=gen.logf(1e-3, 1e3),
    depth=st.one_of(st.integers(0, 40), st.integers(0, 10 ** 6)))), quick=1000, thorough=20000,
     rule='the accounted event charges one sum and one count per level; non-trivial: both are noisy')
def event(case, ctx):
  e = PC.make_clustering_event(case['sd'], case['a'], case['sens'], case['depth'])
  g, l = charges(e)
  want_g = (case['sens'] / case['sd']) ** 2 if case['sd'] else math.inf
  want_l = case['a'] * (case['depth'] + 1)
  if math.inf in (want_g, want_l):
    require(max(g, l) == math.inf, 'an event without noise is charged as %r', e)
    return
  require(core.close(g, want_g, 1e-9), 'charges %r of a sum, its cost is %r: %r', g, want_g, e)
  require(core.close(l, want_l, 1e-9), 'charges %r of counts at depth %d, their cost is %r: %r', l, case['depth'], want_l, e)
  ctx.nontrivial()


@st.composite
def calc_case(draw):
  c = draw(target())
  gm = draw(st.one_of(st.just(1.0), gen.logf(0.01, 100)))
  # The cost of counts grows with the depth: bound the work of the accountant.
  ratio = draw(st.one_of(st.just(20.0), gen.logf(0.05 if c['eps'] < 3 and c['depth'] < 10 else 2.0 if c['depth'] < 30 else 10.0, 3000)))
  return dict(c, gm=gm, lm=gm * ratio)


@sub('calculator', calc_case(), quick=120, thorough=5000,
     rule='calibrated noise against the exact cost of one sum and one count per level; non-trivial: the cost is above half the budget')
def calculator(case, ctx):
  p = CP.DifferentialPrivacyParam(case['eps'], case['delta'])
  m = CP.PrivacyCalculatorMultiplier(case['gm'], case['lm'])
  calc = PC.PrivacyCalculator(p, case['r'], case['depth'], m)
  sd, a = calc.average_privacy_param.gaussian_standard_deviation, calc.count_privacy_param.laplace_param
  try:
    calc.validate_accounting(p, case['depth'])
  except ValueError as e:
    raise core.Violation('validation rejects the calibrated noise: %s' % e)
  x, y = sd / case['r'] / case['gm'], 1 / a / case['lm']
  require(core.close(x, y, 1e-9), 'noise is not in the ratio of the multipliers: %r, %r', x, y)
  cost = discrete_delta(case['eps'], case['r'] / sd, a, case['depth'] + 1)
  ctx.nontrivial(cost > case['delta'] / 2)
  judge_budget(case['eps'], case['delta'], case['r'], case['depth'], calc, ctx)


@st.composite
def reject_case(draw):
  c = draw(target(hi=4))
  how = draw(st.sampled_from(['eps', 'delta', 'depth', 'sd', 'laplace', 'no_sd', 'no_laplace', 'sens']))
  return dict(c, how=how, by=draw(st.floats(0.02, 0.9)), more=draw(st.integers(1, 12)))


@sub('validation', reject_case(), quick=120, thorough=5000,
     rule='validation of noise that is clearly too small for the budget; non-trivial: the noise is clearly too small')
def validation(case, ctx):
  """Noise calibrated for a target, then reduced, or charged to a smaller target."""
  eps, delta, depth, r = case['eps'], case['delta'], case['depth'], case['r']
  calc = PC.PrivacyCalculator(CP.DifferentialPrivacyParam(eps, delta), r, depth, CP.PrivacyCalculatorMultiplier())
  f = 1 - case['by']
  avg, cnt = calc.average_privacy_param, calc.count_privacy_param
  sd, a, sens = avg.gaussian_standard_deviation, cnt.laplace_param, r
  how = case['how']
  if how == 'eps':
    eps *= f
  elif how == 'delta':
    delta *= f
  elif how == 'depth':
    depth += case['more']
  elif how == 'sd':
    sd *= f
  elif how == 'laplace':
    a /= f
  elif how == 'no_sd':
    sd = 0
  elif how == 'no_laplace':
    a = math.inf
  else:
    sens = r / f
  calc.average_privacy_param = CPU.AveragePrivacyParam(sd, sens)
  calc.count_privacy_param = CPU.CountPrivacyParam(a)
  if sd == 0 or a == math.inf:
    low = 1.0
  else:
    ratio, k = sens / sd, depth + 1
    low = bracket(ratio, a, k, min(0.02, max(a * k, 4 * ratio) / 300)).low(eps)
  clearly = low > delta * (1 + 1e-3) + 1e-11
  ctx.label(how, 'clear' if clearly else 'unclear')
  try:
    calc.validate_accounting(CP.DifferentialPrivacyParam(eps, delta), depth)
  except ValueError:
    return
  finally:
    ctx.nontrivial(clearly)
  require(not clearly, 'validation accepts deviation %r, Laplace parameter %r at depth %d, whose delta is at least %r at epsilon %r, '
          'budget %r', sd, a, depth, low, eps, delta)


@st.composite
def non_private(draw):
  eps, delta = draw(st.sampled_from([(math.inf, 1e-6), (1.0, 1.0), (math.inf, 1.0), (0.1, 1), (math.inf, 0.5), (math.inf, 0.0), (1.0, 2)]))
  return dict(eps=eps, delta=delta, depth=draw(st.integers(0, 30)), r=draw(gen.logf(1e-6, 1e6)), gm=draw(gen.logf(0.01, 100)),
              lm=draw(gen.logf(0.01, 100)), other=draw(target(hi=2)))


@sub('non_private', non_private(), quick=200, thorough=4000,
     rule='non-private targets have no noise and validate; the same noise never validates for a private target; non-trivial: all')
def non_private_targets(case, ctx):
  p = CP.DifferentialPrivacyParam(case['eps'], case['delta'])
  calc = PC.PrivacyCalculator(p, case['r'], case['depth'], CP.PrivacyCalculatorMultiplier(case['gm'], case['lm']))
  calc.validate_accounting(p, case['depth'])
  require(calc.average_privacy_param.gaussian_standard_deviation == 0 and calc.count_privacy_param.laplace_param == math.inf,
          'noise for a non-private target')
  o = case['other']
  try:
    calc.validate_accounting(CP.DifferentialPrivacyParam(o['eps'], o['delta']), o['depth'])
  except ValueError:
    ctx.nontrivial()
    return
  raise core.Violation('validation of a private target accepts no noise')


@st.composite
def mult_case(draw):
  return dict(gm=draw(gen.logf(1e-6, 1e6)), lm=draw(gen.logf(1e-6, 1e6)), alpha=draw(gen.logf(1e-9, 1e9)), s=draw(gen.logf(1e-6, 1e6)))


@sub('multipliers', mult_case(), quick=400, thorough=10000,
     rule='noise parameters from the calibrated factor and back; non-trivial: all')
def multipliers(case, ctx):
  m = CP.PrivacyCalculatorMultiplier(case['gm'], case['lm'])
  a, s = case['alpha'], case['s']
  sd = m.get_gaussian_std_dev(a, s)
  require(core.close(sd, a * s * case['gm'], 1e-12), 'deviation %r', sd)
  require(core.close(m.get_alpha(sd, s), a, 1e-12), 'factor %r recovered from %r', m.get_alpha(sd, s), a)
  require(core.close(m.get_laplace_param(a), 1 / (a * case['lm']), 1e-12), 'Laplace parameter %r', m.get_laplace_param(a))
  ctx.nontrivial()


def times(name, f):
  def change(c):
    c[name] *= f
    return c
  return change


def deeper(c):
  c['depth'] += 1
  return c


sub.related('calculator', dict(epsilon=times('eps', 0.8), delta=times('delta', 0.5), radius=times('r', 2), depth=deeper,
                               gaussian=times('gm', 0.8), laplace=times('lm', 1.2)), quick=32, thorough=1000)
sub.related('validation', dict(epsilon=times('eps', 0.8), delta=times('delta', 0.5), radius=times('r', 2), depth=deeper,
                               amount=times('by', 0.5)), quick=16, thorough=500)
