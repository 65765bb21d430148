"""C22: clustering noise has the distribution the accounting assumes."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
import stat_tests as T
from clib import CORE, CPU, LSH, TREE

ASSUMPTIONS = [
    'each statistical test compares thousands of draws, seeded through the global NumPy generator, with the exact distribution; it '
    'alarms at a probability of 1e-12, so that differences of distribution functions below about 0.03 and of scales below about 7 % '
    'are not seen in one case; Laplace parameters from 1e-5 to 30; not-a-number parameters are not judged']
sub = core.Registry()


def dl_cdf(a):
  z = 1 + math.exp(-a)

  def f(x):
    x = np.floor(np.asarray(x, dtype=float))
    return np.where(x < 0, np.exp(np.minimum(0, a * x)) / z, 1 - np.exp(-a * (np.maximum(x, 0) + 1)) / z)
  return f


@st.composite
def count_case(draw):
  return dict(a=draw(st.one_of(gen.logf(0.01, 3), gen.logf(1e-5, 30), st.sampled_from([1, 1.0, 0.5]))),
              n=draw(st.one_of(st.integers(0, 100), st.integers(0, 10 ** 9), st.just(0))), seed=draw(st.integers(0, 2 ** 31)))


@sub('counts', count_case(), quick=64, thorough=2500,
     rule='20000 private counts of one true count and Laplace parameter: distribution, integrality, independence; non-trivial: the noise is not '
          'almost always zero')
def counts(case, ctx):
  n, a, N = case['n'], case['a'], 20000
  np.random.seed(case['seed'])
  p = CPU.CountPrivacyParam(a)
  out = [CPU.get_private_count(n, p) for _ in range(N)]
  require(p.laplace_param == a, 'the parameter changed')
  require(all(float(x) == int(x) for x in out), 'private count %r is no integer', next((x for x in out if float(x) != int(x)), None))
  x = np.array([int(v) - n for v in out])
  T.check_cdf(x, dl_cdf(a), 'noise of private counts, parameter %r' % a)
  t = math.tanh(a / 2)
  T.check_binomial(int(np.sum(x == 0)), N, t, 'zero noise in private counts, parameter %r' % a)
  T.check_binomial(int(np.sum(x > 0)), N, (1 - t) / 2, 'positive noise in private counts, parameter %r' % a)
  T.check_lags(x, 'private counts, parameter %r' % a)
  # Difference of two independent draws: P(X = Y) = sum of squares.
  u = math.exp(-a)
  T.check_binomial(int(np.sum(x[0::2] == x[1::2])), N // 2, t * t * (1 + u * u) / (1 - u * u), 'equal consecutive noise')
  # Two-sided geometric: the mean size is 2u/(1-u^2).
  T.check_mean(np.abs(x), 2 * u / (1 - u * u), 2 * u / (1 - u) ** 2 - (2 * u / (1 - u * u)) ** 2, 'size of the noise of private counts, parameter %r' % a)
  ctx.nontrivial(t < 0.999)


@st.composite
def avg_case(draw):
  d = draw(st.integers(1, 6))
  if draw(st.integers(0, 5)) == 5:
    d = draw(st.integers(20, 150))
  sd = draw(st.one_of(gen.logf(1e-3, 1e3), st.just(1.0)))
  n = draw(st.integers(0, 12 if d < 10 else 2))
  return dict(d=d, sd=sd, m=draw(st.one_of(st.integers(1, 20), st.integers(1, 10 ** 6))), sens=draw(gen.logf(1e-2, 1e2)),
              pts=draw(st.lists(st.lists(st.one_of(st.floats(-100, 100), st.integers(-5, 5).map(float)), min_size=d, max_size=d), min_size=n, max_size=n)),
              seed=draw(st.integers(0, 2 ** 31)), as_int=draw(st.integers(0, 5)) == 0)


def array(case):
  x = np.array(case['pts'], dtype=float).reshape(len(case['pts']), case['d'])
  return np.round(x).astype(int) if case['as_int'] else x


def sums(x):
  return np.array([math.fsum(c) for c in x.T]) if len(x) else np.zeros(x.shape[1])


@sub('averages', avg_case(), quick=200, thorough=2500,
     rule='6000 private averages of one set of points: distribution of the noise per coordinate, independence of coordinates and draws; non-trivial: all')
def averages(case, ctx):
  d, sd, m = case['d'], case['sd'], case['m']
  N = 6000 if d < 10 else 600
  pts = array(case)
  before = pts.copy()
  np.random.seed(case['seed'])
  p = CPU.AveragePrivacyParam(sd, case['sens'])
  out = np.array([CPU.get_private_average(pts, m, p, d) for _ in range(N)])
  require(out.shape == (N, d), 'shape %r', out.shape[1:])
  require(np.array_equal(pts, before), 'the points were changed')
  z = (out * m - sums(pts)) / sd
  for j in range(d):
    T.check_normal(z[:, j], 'noise of coordinate %d, deviation %r' % (j, sd))
  T.check_normal(z.reshape(-1), 'noise of all coordinates, deviation %r' % sd)
  T.check_binomial(int(np.sum(z[0::2] * z[1::2] > 0)), N // 2 * d, 0.5, 'noise of consecutive averages of the same sign')
  T.check_fresh(z, 'noise of averages')
  T.check_lags(z.reshape(-1), 'averages')
  for a, b in ((0, -1), (d // 2, d // 2 + 1)) if d > 2 else ((0, -1),) if d > 1 else ():
    T.check_binomial(int(np.sum(z[:, a] * z[:, b] > 0)), N, 0.5, 'noise of coordinates %d and %d of the same sign' % (a, b))
  if d > 1:
    T.check_normal((z[:, 0] + z[:, -1]) / math.sqrt(2),
                   'sum of the noise of two coordinates')
    T.check_normal((z[:, 0] - z[:, -1]) / math.sqrt(2), 'difference of the noise of two coordinates')
  ctx.label('integers' if case['as_int'] else 'floats', 'empty' if not case['pts'] else 'points')
  ctx.nontrivial()


@st.composite
def exact_case(draw):
  c = draw(avg_case())
  return dict(c, n=draw(st.integers(0, 10 ** 12)), bad_m=draw(st.sampled_from([0, -1, -100, 0.5, 0.0])),
              bad=draw(st.sampled_from([['sd', -1.0], ['sd', -1e-9], ['sens', 0.0], ['sens', -1.0], ['sens', 0], ['a', 0.0], ['a', -1.0], ['a', -math.inf], ['sd', -math.inf]])))


@sub('exact', exact_case(), quick=1500, thorough=40000,
     rule='noise turned off is exactly none, invalid noise parameters and private counts are refused; non-trivial: all')
def exact(case, ctx):
  d, m, n = case['d'], case['m'], case['n']
  pts = array(case)
  state = case['seed']
  np.random.seed(state)
  require(CPU.get_private_count(n, CPU.CountPrivacyParam(math.inf)) == n, 'noise in a count with infinite parameter')
  got = CPU.get_private_average(pts, m, CPU.AveragePrivacyParam(0.0, case['sens']), d)
  want = sums(pts) / m
  scale = 1e-13 * (1 + float(np.sum(np.abs(pts)))) / m
  require(np.shape(got) == (d,) and np.all(np.abs(got - want) <= scale), 'average %r without noise, expected %r', got, want)
  for what, call in [('private count %r' % case['bad_m'], lambda: CPU.get_private_average(pts, case['bad_m'], CPU.AveragePrivacyParam(1.0, 1.0), d)),
                     ('parameter %r' % case['bad'], lambda: dict(sd=lambda v: CPU.AveragePrivacyParam(v, 1.0), sens=lambda v: CPU.AveragePrivacyParam(1.0, v),
                                                                 a=lambda v: CPU.CountPrivacyParam(v))[case['bad'][0]](case['bad'][1]))]:
    try:
      call()
    except ValueError:
      continue
    raise core.Violation('%s was accepted' % what)
  ctx.nontrivial()


class Pcalc:

  def __init__(self, sd, a):
    self.average_privacy_param = CPU.AveragePrivacyParam(sd, 1.0)
    self.count_privacy_param = CPU.CountPrivacyParam(a)


@st.composite
def node_case(draw):
  c = draw(avg_case())
  return dict(c, a=draw(gen.logf(0.01, 2)))


@sub('nodes', node_case(), quick=48, thorough=1500,
     rule='3000 tree nodes with the same points: each has its own fresh noise, which it keeps; non-trivial: all')
def nodes(case, ctx):
  d, sd, a, N = case['d'], case['sd'], case['a'], 3000
  pts = array(case)
  np.random.seed(case['seed'])
  cp = CORE.CoresetParam(Pcalc(sd, a), None, 'x', 1.0)
  h = LSH.SimHash(d, 3)
  ns = [TREE.LshTreeNode('', pts, cp, h) for _ in range(N)]
  x = np.array([int(v.private_count) - len(pts) for v in ns])
  T.check_cdf(x, dl_cdf(a), 'noise of the counts of nodes, parameter %r' % a)
  for v in ns:
    v.private_count = max(1, v.private_count)
  out = np.array([v.get_private_average() for v in ns])
  again = np.array([v.get_private_average() for v in ns])
  require(np.array_equal(out, again), 'a second private average of the same node has other noise')
  m = np.array([v.private_count for v in ns]).reshape(-1, 1)
  z = (out * m - sums(pts)) / sd
  T.check_normal(z.reshape(-1), 'noise of the averages of nodes, deviation %r' % sd)
  T.check_binomial(int(np.sum(z[0::2] * z[1::2] > 0)), N // 2 * d, 0.5, 'noise of two nodes of the same sign')
  T.check_fresh(z, 'noise of the averages of nodes')
  T.check_lags(z.reshape(-1), 'averages of nodes')
  T.check_lags(x, 'counts of nodes')
  # Noise of the sum does not follow the noise of the count.
  big = x > np.median(x)
  if 100 < big.sum() < N - 100:
    T.check_binomial(int(np.sum(z[big][:, 0] > 0)), int(big.sum()), 0.5, 'sum noise where the count noise is high')
  ctx.nontrivial()


@st.composite
def stream_case(draw):
  def stream():
    if draw(st.booleans()):
      return dict(t='count', a=draw(gen.logf(0.02, 2)), n=draw(st.sampled_from([0, 1, 7, 10 ** 6])))
    d, k = draw(st.integers(1, 5)), draw(st.integers(0, 4))
    return dict(t='average', d=d, sd=draw(gen.logf(0.01, 100)), m=draw(st.sampled_from([1, 2, 10, 1000])), sens=draw(st.sampled_from([1.0, 0.5, 3.0])),
                pts=draw(st.lists(st.lists(st.integers(-5, 5).map(float), min_size=d, max_size=d), min_size=k, max_size=k)), as_int=False)
  streams = [stream() for _ in range(draw(st.integers(1, 2)))]
  for _ in range(draw(st.integers(1, 2))):
    # like one of the others but for one number
    s = dict(draw(st.sampled_from(streams)))
    f = draw(st.sampled_from([0.5, 2.0, 3.0]))
    if s['t'] == 'count':
      if draw(st.booleans()):
        s['a'] *= f
      else:
        s['n'] += 5
    else:
      key = draw(st.sampled_from(['sd', 'm', 'sens', 'pts', 'd']))
      if key == 'pts':
        s['pts'] = s['pts'] + [[1.0] * s['d']]
      elif key == 'd':
        s['d'] += 1
        s['pts'] = [p + [1.0] for p in s['pts']]
      else:
        s[key] = s[key] * f if key != 'm' else s['m'] + 3
    streams.append(s)
  return dict(streams=streams, seed=draw(st.integers(0, 2 ** 31)), fresh=draw(st.booleans()))


@sub('interleaved', stream_case(), quick=120, thorough=3000,
     rule='counts and averages with several parameters drawn in a random order: each has its own distribution, whatever was drawn before, and consecutive '
          'draws are independent; non-trivial: all')
def interleaved(case, ctx):
  N = 4000
  np.random.seed(case['seed'])
  ss = case['streams']
  pick = np.random.default_rng(case['seed']).integers(0, len(ss), N * len(ss))
  make = lambda s: CPU.CountPrivacyParam(s['a']) if s['t'] == 'count' else CPU.AveragePrivacyParam(s['sd'], s['sens'])
  par, pts = [make(s) for s in ss], [array(s) if s['t'] == 'average' else None for s in ss]
  out, order = [[] for _ in ss], []
  for i in pick:
    s = ss[i]
    p = make(s) if case['fresh'] else par[i]
    if s['t'] == 'count':
      v = float(int(CPU.get_private_count(s['n'], p)) - s['n'])
      order.append((i, v))
    else:
      v = (np.asarray(CPU.get_private_average(pts[i], s['m'], p, s['d'])) * s['m'] - sums(pts[i])) / s['sd']
      order.append((i, float(v[0])))
    out[i].append(v)
  for s, v in zip(ss, out):
    ctx.label(s['t'])
    if s['t'] == 'count':
      x, t = np.array(v), math.tanh(s['a'] / 2)
      T.check_cdf(x, dl_cdf(s['a']), 'noise of interleaved private counts, parameter %r' % s['a'])
      T.check_binomial(int(np.sum(x == 0)), len(x), t, 'zero noise in interleaved private counts, parameter %r' % s['a'])
    else:
      z = np.array(v)
      for j in range(s['d']):
        T.check_normal(z[:, j], 'noise of coordinate %d of interleaved averages, deviation %r' % (j, s['sd']))
      if s['d'] > 1:
        T.check_normal((z[:, 0] - z[:, -1]) / math.sqrt(2), 'difference of the noise of two coordinates')
  zs = [np.array(v).reshape(-1) for s, v in zip(ss, out) if s['t'] == 'average']
  if zs:
    T.check_fresh(np.concatenate(zs), 'noise of interleaved averages')
  # Consecutive draws, of the same kind or not: the signs of those that are not zero agree half of the time.
  for i in range(len(ss)):
    for j in range(len(ss)):
      both = [(a[1] > 0) == (b[1] > 0) for a, b in zip(order[0::2], order[1::2]) if a[0] == i and b[0] == j and a[1] != 0 and b[1] != 0]
      if len(both) > 100:
        T.check_binomial(sum(both), len(both), 0.5, 'noise of consecutive draws of the same sign')
  ctx.nontrivial()
