"""C16: advanced composition is the exact optimal composition."""
import math

from hypothesis import strategies as st
import mpmath as mp

import core
from core import require
import gen
from pldlib import PLD, common
from dp_accounting.pld import accountant

ASSUMPTIONS = ['at most 2500 queries (300 for the reverse search); deltas zero or at least 1e-20; comparisons of delta up to a '
               'relative 1e-9, of the reverse search up to twice its tolerance']
sub = core.Registry()
DP = common.DifferentialPrivacyParameters


def optimal_delta(e, d, k, total_e):
  """Delta at total_e of the k-fold optimal composition of (e, d)-DP (Kairouz, Oh, Viswanath)."""
  with mp.workdps(40):
    e, d, total_e = mp.mpf(e), mp.mpf(d), mp.mpf(total_e)
    denom = k * mp.log1p(mp.exp(-e))
    s, logb = mp.mpf(0), mp.mpf(0)
    for l in range(k + 1):
      loss = e * (k - 2 * l)
      if loss <= total_e:
        break
      s += mp.exp(logb - denom - e * l) * -mp.expm1(total_e - loss)
      logb += mp.log(k - l) - mp.log(l + 1)
    base = mp.mpf(1) if d == 1 else -mp.expm1(k * mp.log1p(-d))
    return s + (1 - s) * base


def at_most(a, b):
  return a <= mp.mpf(b) * (1 + mp.mpf('1e-9')) + mp.mpf('1e-300')


def surely_below(a, b):
  return a < mp.mpf(b) * (1 - mp.mpf('1e-9'))


@st.composite
def comp(draw, kmax=2500):
  k = draw(st.one_of(st.integers(1, 8), st.integers(1, 80), st.integers(1, kmax)))
  e = draw(st.one_of(st.just(0.0), gen.logf(1e-3, 30), gen.logf(1e-3, 3), st.sampled_from([0.1, 1.0, 1, 2, 0.5])))
  d = draw(st.one_of(st.just(0.0), gen.logf(1e-20, 1), st.sampled_from([1e-9, 1e-5, 0.01, 1.0])))
  base = -math.expm1(k * math.log1p(-d)) if d < 1 else 1.0
  how = draw(st.sampled_from(['above', 'above', 'free', 'near', 'zero', 'optimal']))
  if how == 'above':
    t = base + (1 - base) * draw(gen.logf(1e-20, 1))
  elif how == 'free':
    t = draw(gen.logf(1e-20, 1))
  elif how == 'near':
    t = base * draw(st.sampled_from([0.999999, 1.000001, 0.5, 2.0]))
  elif how == 'zero':
    t = 0.0
  else:
    i = draw(st.integers(0, k // 2))
    t = float(optimal_delta(e, d, k, e * (k - 2 * i))) * draw(st.sampled_from([1.0, 1 + 1e-6, 1 - 1e-6]))
  return dict(e=e, d=d, k=k, t=min(max(t, 0.0), 1.0))


@sub('forward', comp(), quick=5000, thorough=120000,
     rule='advanced_composition against the exact optimal composition; non-trivial: a guarantee strictly better than basic composition')
def forward(case, ctx):
  e, d, k, t = case['e'], case['d'], case['k'], case['t']
  r = accountant.advanced_composition(DP(e, d), k, t)
  floor = optimal_delta(0, d, k, 0)
  if r is None:
    ctx.label('unattainable')
    require(not surely_below(floor, t), 'no epsilon although total delta %r exceeds the least possible %s', t, floor)
    return
  require(at_most(floor, t), 'epsilon %r for an unattainable total delta %r, least possible %s', r, t, floor)
  require(math.isfinite(r) and -1e-9 <= r <= e * k * (1 + 1e-9), 'epsilon %r is worse than basic composition %r', r, e * k)
  true = optimal_delta(e, d, k, r * (1 + 1e-12))
  require(at_most(true, t), 'epsilon %r has delta %s above the total %r', r, true, t)
  if e > 0:
    i = (k - r / e) / 2
    require(abs(i - round(i)) < 1e-6, 'epsilon %r is not a multiple of the granularity', r)
    lower = e * (k - 2 * (round(i) + 1))
    if lower >= 0:
      ctx.label('not the smallest')
      dl = optimal_delta(e, d, k, lower * (1 - 1e-12))
      require(not surely_below(dl, t), 'epsilon %r is not optimal: %r already has delta %s <= %r', r, lower, dl, t)
  ctx.nontrivial(e > 0 and r < e * k * (1 - 1e-9))


@st.composite
def reverse_case(draw):
  c = draw(comp(kmax=300))
  c['e'] = draw(st.one_of(gen.logf(1e-3, 100), st.sampled_from([0.0, 0.1, 0.3, 0.7, 1.0, 1, 5])))
  return c


def accepts(e, d, k, total_e, total_d, slack):
  """Whether some grid epsilon up to total_e of the optimal composition has delta at most total_d."""
  if e == 0:
    return True
  i = math.floor((k - total_e * (1 + slack) / e) / 2)
  while e * (k - 2 * i) > total_e * (1 + slack):
    i += 1
  i = max(i, 0)
  if i > k // 2:
    return False
  dl = optimal_delta(e, d, k, e * (k - 2 * i))
  return at_most(dl, total_d) if slack > 0 else surely_below(dl, total_d)


@sub('reverse', reverse_case(), quick=2500, thorough=50000,
     rule='get_smallest_epsilon_from_advanced_composition: sound and largest; non-trivial: strictly better than basic composition')
def reverse(case, ctx):
  e, d, k, t = case['e'], case['d'], case['k'], case['t']
  r = accountant.get_smallest_epsilon_from_advanced_composition(DP(e, t), k, d)
  floor = optimal_delta(0, d, k, 0)
  if r is None:
    ctx.label('unattainable')
    require(d > 0, 'no epsilon although queries without delta have a least total delta of zero')
    require(not surely_below(floor, t), 'no epsilon although total delta %r exceeds the least possible %s', t, floor)
    return
  require(at_most(floor, t), 'epsilon %r for an unattainable total delta %r, least possible %s', r, t, floor)
  require(e / k * (1 - 1e-9) <= r <= e * (1 + 1e-9), 'epsilon %r outside of [%r, %r]', r, e / k, e)
  true = optimal_delta(r, d, k, e * (1 + 1e-9))
  require(at_most(true, t), 'composing %d queries of epsilon %r has delta %s above %r at %r', k, r, true, t, e)
  more = r + 2e-7
  if more < e:
    require(not accepts(more, d, k, e, t, -1e-9), '%r is not the largest: %r satisfies the guarantee too', r, more)
  ctx.nontrivial(k > 1 and r > e / k * (1 + 1e-6))


@st.composite
def pld_case(draw):
  k = draw(st.integers(1, 60))
  return dict(e=draw(gen.logf(0.01, 5)), d=draw(st.one_of(st.just(0.0), gen.logf(1e-9, 0.3))), k=k, i=draw(st.integers(0, k // 2)))


@sub('pld', pld_case(), quick=400, thorough=8000,
     rule='composing the distribution of an (epsilon, delta) guarantee gives the optimal composition too; non-trivial: k > 1')
def pld(case, ctx):
  e, d, k = case['e'], case['d'], case['k']
  x = e * (k - 2 * case['i'])
  p = PLD.from_privacy_parameters(DP(e, d), value_discretization_interval=e)
  got = p.self_compose(k).get_delta_for_epsilon(x)
  want = float(optimal_delta(e, d, k, x))
  require(abs(got - want) <= 1e-9 + 1e-9 * want, 'composed distribution has delta %r at %r, optimal is %r', got, x, want)
  r = accountant.advanced_composition(DP(e, d), k, min(1.0, want * (1 + 1e-6) + 1e-18))
  require(r is not None and r <= x * (1 + 1e-9) + 1e-9, 'advanced composition returns %r where epsilon %r suffices', r, x)
  ctx.nontrivial(k > 1)


def times(name, f):
  def change(c):
    c[name] *= f
    return c
  return change


def one_more(c):
  c['k'] += 1
  return c


RELATED = dict(epsilon=times('e', 1.1), delta=times('d', 0.5), queries=one_more, total=times('t', 0.9))
sub.related('forward', RELATED, quick=400, thorough=8000)
sub.related('reverse', RELATED, quick=240, thorough=5000)
