"""C24: auditing mechanisms sample the distributions they document."""
import itertools
import math

from hypothesis import strategies as st
import numpy as np
from scipy import stats

import core
from core import require
import gen
from alib import AGG, MC, MEAN, MU, NOISY, PP, PDP, SVT, new_pipeline
import alib
from stat_tests import P_ALARM, check_binomial, check_cdf

ASSUMPTIONS = [
    'datasets are one-dimensional arrays of finite numbers, bounds are ordered, epsilon is positive, delta in [0, 1); a mean without noisy '
    'counts has at least one record; numpy draws the noise it is asked for',
    'PipelineDP is replaced by an engine that records what it is asked to aggregate; its records are read in the documented order']
sub = core.Registry()
N = 120000
M = 20000
GRID = (np.arange(M) + 0.5) / M


def slack_binomial(k, n, p, slack, what):
  """As check_binomial, for a probability known up to slack."""
  lo, hi = max(0.0, p - slack), min(1.0, p + slack)
  if k < n * p:
    check_binomial(k, n, min(lo, 1.0), what) if k < n * lo else None
  else:
    check_binomial(k, n, max(hi, 0.0), what) if k > n * hi else None


def check_band(x, cdf, slack, what):
  """Massart band around a distribution function known up to slack, on a grid of sample quantiles."""
  x = np.sort(np.asarray(x, dtype=float))
  require(not np.any(np.isnan(x)), '%s: not a number', what)
  n = len(x)
  band = math.sqrt(math.log(2 / P_ALARM) / (2 * n)) + slack
  idx = np.unique(np.linspace(0, n - 1, 60).astype(int))
  for i in idx:
    t = x[i]
    right = np.searchsorted(x, t, side='right') / n
    f = cdf(t)
    require(abs(right - f) <= band, '%s: a share %.4f of the draws is at most %r, expected %.4f (+-%.4f)', what, right, float(t), f, band)


# --- noisy max ---


@st.composite
def max_case(draw):
  k = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 8]))
  data = draw(st.lists(st.integers(0, k - 1), max_size=30))
  if draw(st.booleans()) and data:
    data = data + [data[0]] * draw(st.one_of(st.integers(0, 30), st.integers(0, 600)))
  return dict(k=k, data=data, eps=draw(st.one_of(gen.logf(1e-3, 50), gen.logf(0.03, 1))), array=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)), n=draw(st.sampled_from([0, 1, 7] + [N] * 9)))


@sub('noisy-max', max_case(), quick=1000, thorough=2500,
     rule='noisy max against the exact law of the exponential mechanism, every element; non-trivial: two elements have a chance between 1e-3 and 1')
def noisy_max(case, ctx):
  data = np.array(case['data'], dtype=int) if case['array'] else case['data']
  before = list(case['data'])
  mech = NOISY.NoisyMaxMechanism(MC.NoisyMaxMechanismConfig(epsilon=case['eps'], num_elements=case['k']), np.random.default_rng(case['seed']))
  out = np.asarray(mech(data, case['n']))
  require(out.shape == (case['n'],), 'shape %r for %d samples', out.shape, case['n'])
  require(list(data) == before, 'the data was changed')
  require(np.all((out >= 0) & (out < case['k'])), 'an element outside the range')
  u = np.array([before.count(i) for i in range(case['k'])]) * case['eps'] / 2
  p = np.exp(u - np.max(u))
  p /= p.sum()
  if case['n']:
    for i in range(case['k']):
      check_binomial(int(np.sum(out == i)), case['n'], float(p[i]), 'element %d of %r at epsilon %r' % (i, before, case['eps']))
  if case['n'] > 1000:
    a, b = out[:-1:2], out[1::2]
    i = int(np.argmax(p))
    check_binomial(int(np.sum((a == i) & (b == i))), len(b), float(p[i]) ** 2, 'two samples in a row')
  ctx.nontrivial(case['n'] == N and np.sum((p > 1e-3) & (p < 1)) > 1)


# --- mean ---


@st.composite
def mean_case(draw):
  lo = draw(st.floats(-5, 5))
  hi = lo + draw(st.one_of(st.just(0.0), gen.logf(1e-3, 100)))
  name = draw(st.sampled_from(['private_mean', 'non_private_mean_v1', 'non_private_mean_v2', None]))
  noisy_mean, noisy_scale = dict(private_mean=(True, True), non_private_mean_v1=(False, False), non_private_mean_v2=(False, True)).get(
      name, (draw(st.booleans()), draw(st.booleans())))
  if name:
    lo, hi = 0.0, 1.0
  size = draw(st.sampled_from([1, 2, 3, 10, 100, 1000] + ([0] if noisy_mean and noisy_scale else [])))
  values = draw(st.lists(st.floats(-10, 10), min_size=1, max_size=5))
  return dict(lo=lo, hi=hi, name=name, ints=draw(st.integers(0, 4)) == 4, noisy_mean=noisy_mean, noisy_scale=noisy_scale, values=values, size=size,
              eps=draw(gen.logf(1e-2, 50)), delta=draw(st.one_of(st.just(0.0), st.just(0), gen.logf(1e-12, 0.999))),
              seed=draw(st.integers(0, 10 ** 6)), n=draw(st.sampled_from([0, 1, 5] + [N] * 9)))


@sub('mean', mean_case(), quick=900, thorough=2000,
     rule='the mean mechanism against the law it documents, integrated over the noisy count; non-trivial: a count is noisy')
def mean(case, ctx):
  data = np.array([case['values'][i % len(case['values'])] for i in range(case['size'])])
  if case['ints']:
    data = np.round(data).astype(int)
  before = data.copy()
  eps, delta = case['eps'], case['delta']
  if case['name']:
    config = MU.default_mean_mechanism_config_generator(case['name'], epsilon=eps, delta=delta)
    require((config.epsilon, config.delta, config.use_noised_counts_for_calculating_mean, config.use_noised_counts_for_calculating_noise_scale) ==
            (eps, delta, case['noisy_mean'], case['noisy_scale']), 'configuration of %r: %r', case['name'], config)
    lo, hi = config.min_value, config.max_value
  else:
    lo, hi = case['lo'], case['hi']
    config = MC.MeanMechanismConfig(epsilon=eps, delta=delta, use_noised_counts_for_calculating_mean=case['noisy_mean'],
                                    use_noised_counts_for_calculating_noise_scale=case['noisy_scale'], max_value=hi, min_value=lo)
  mech = MEAN.MeanMechanism(config, np.random.default_rng(case['seed']))
  out = np.asarray(mech(data, case['n']))
  require(out.shape == (case['n'], 1), 'shape %r for %d samples', out.shape, case['n'])
  require(np.array_equal(data, before), 'the data was changed')
  if case['n'] < 1000:
    return
  x = out[:, 0]
  budget = 0.5 if case['noisy_mean'] or case['noisy_scale'] else 1.0
  total = float(np.sum(np.minimum(np.maximum(before, lo), hi)))
  count = case['size']
  noisy = count + stats.laplace.ppf(GRID) / (budget * eps) if case['noisy_mean'] or case['noisy_scale'] else np.array([float(count)])
  factor = 1.0 if delta == 0 else math.sqrt(2 * math.log(1.25 / delta))
  scale = np.maximum(1e-12, factor * abs(hi - lo) / (budget * eps) / (noisy if case['noisy_scale'] else count))
  center = total / (noisy if case['noisy_mean'] else count)
  law = stats.laplace if delta == 0 else stats.norm
  # At the scale floor, values are the centre up to rounding: widen the law by the rounding of the data.
  scale = np.maximum(scale, 1e-12)
  tiny = np.maximum(np.abs(center), 1.0) * 1e-13
  if len(noisy) == 1 and float(scale.max() if hasattr(scale, 'max') else scale) < 1e-9:
    require(np.all(np.abs(x - center) <= 50 * scale + tiny), 'mean %r, expected %r', float(x[0]), float(np.ravel(center)[0]))
    return
  check_band(x, lambda t: float(np.mean(law.cdf((t - center) / scale))), 5e-4, 'mean of %d records' % count)
  m = float(np.median(x))
  if np.sum(x == m) < 3:
    check_binomial(int(np.sum((x[:-1:2] < m) & (x[1::2] < m))), len(x) // 2, 0.25, 'two samples in a row')
  # The tail of the noise decides its scale: compare the 1 % quantiles on both sides.
  ctx.nontrivial(len(noisy) > 1)


# --- sparse vector technique ---

VARIANTS = dict(SVT1=(lambda c: 4 * c, lambda c: 2), SVT2=(lambda c: 4 * c, lambda c: 2 * c), SVT3=(lambda c: 2 * c, lambda c: 2),
                SVT4=(lambda c: 4 / 3, lambda c: 4), SVT5=(lambda c: 0, lambda c: 2), SVT6=(lambda c: 2, lambda c: 2))
V = MC.DataValues


@st.composite
def svt_case(draw, small=True):
  lo = draw(st.floats(-2, 2))
  hi = lo + draw(st.one_of(gen.logf(0.05, 10), gen.logf(0.05, 1000)))
  kind = draw(st.sampled_from(['sum', 'reveal']))
  m = draw(st.integers(1, 5)) if small else draw(st.integers(1, 40))
  eps = draw(gen.logf(0.05, 30))
  data = draw(st.lists(st.floats(-5, 5), min_size=2 if kind == 'reveal' else 0, max_size=8))
  v = np.clip(np.array(data, dtype=float), lo, hi)
  center = float(np.sum(v)) if kind == 'sum' else float(v[-1])
  # Thresholds near the queries, measured in noise scales, so that both answers occur.
  off = draw(st.sampled_from([0.0, 1.0, -1.0, 0.3, -0.3, 0.6, 2.0, -2.0])) * draw(gen.logf(0.3, 1.5))
  return dict(variant=draw(st.sampled_from(sorted(VARIANTS))), lo=lo, hi=hi, kind=kind, m=m, eps=eps, data=data, c=draw(st.integers(1, m + 1)),
              thr=center + off * 4 * (hi - lo) / eps, seed=draw(st.integers(0, 10 ** 6)), array=draw(st.booleans()))


def make_svt(case):
  config = MC.SVTMechanismConfig(epsilon=case['eps'], max_value=case['hi'], min_value=case['lo'], num_queries=case['m'], threshold=case['thr'],
                                 max_answered_queries=case['c'],
                                 query_type=MC.QueryType.QUERY_TYPE_SUM if case['kind'] == 'sum' else MC.QueryType.QUERY_TYPE_REVEAL_RECORDS)
  return getattr(SVT, case['variant'])(config, np.random.default_rng(case['seed']))


def queries(case):
  v = [min(max(x, case['lo']), case['hi']) for x in case['data']]
  if case['kind'] == 'sum':
    return np.full(case['m'], math.fsum(v))
  return np.array([v[-1]] * (case['m'] - 1) + [v[-2]])


def transcript(out, case):
  """Above and no-response masks of the transcripts; their form is checked on the way."""
  n, m = out.shape
  none, below = out == V.SVT_NO_RESPONSE, out == V.SVT_BELOW_THRESHOLD
  if case['variant'] == 'SVT3':
    above = ~none & ~below
    vals = out[above]
    require(all(isinstance(x, (float, np.floating)) for x in vals), 'an answer that is neither a number nor a known marker')
  else:
    above = out == V.SVT_ABOVE_THRESHOLD
    require(np.all(above | none | below), 'an answer that is not a known marker')
  prior = np.cumsum(above, axis=1) - above
  bad = none != (prior >= case['c'])
  if np.any(bad):
    i = int(np.argmax(np.any(bad, axis=1)))
    raise core.Violation('transcript %r with at most %d answers' % (list(out[i]), case['c']))
  return above, none


def sf_above(case, q, thresholds):
  """P(noisy query >= threshold) for each query (rows) and threshold (columns)."""
  delta = case['hi'] - case['lo']
  scale = VARIANTS[case['variant']][0](case['c']) * delta / case['eps']
  d = thresholds[None, :] - q[:, None]
  return (d <= 0).astype(float) if scale == 0 else stats.laplace.sf(d / scale)


@sub('svt', svt_case(), quick=900, thorough=1600,
     rule='each sparse-vector variant: every transcript pattern against its exact probability, integrated over the shared threshold noise; '
          'non-trivial: three patterns have a chance above 1 %')
def svt(case, ctx):
  n, m, c = N // 2, case['m'], case['c']
  data = np.array(case['data']) if case['array'] else list(case['data'])
  out = np.asarray(make_svt(case)(data, n))
  require(out.shape == (n, m), 'shape %r for %d samples of %d queries', out.shape, n, m)
  require(list(data) == case['data'], 'the data was changed')
  above, none = transcript(out, case)
  q = queries(case)
  delta = case['hi'] - case['lo']
  thr_scale = VARIANTS[case['variant']][1](c) * delta / case['eps']
  thr = case['thr'] + thr_scale * stats.laplace.ppf(GRID)
  if np.any(np.abs(q - case['thr']) < 1e-9 * (1 + abs(case['thr']))):
    ctx.label('threshold at the query')
  sf = sf_above(case, q, thr)
  code = np.zeros(n, dtype=np.int64)
  for j in range(m):
    code = code * 3 + np.where(none[:, j], 2, above[:, j].astype(int))
  got = dict(zip(*[a.tolist() for a in np.unique(code, return_counts=True)]))
  total, big = 0.0, 0
  for pat in itertools.product((0, 1), repeat=m):
    cc, p, key, done = 0, np.ones(M), 0, False
    for j, b in enumerate(pat):
      if cc >= c:
        if b:
          done = True
          break
        key = key * 3 + 2
        continue
      p = p * (sf[j] if b else 1 - sf[j])
      key = key * 3 + b
      cc += b
    if done:
      continue
    pr = float(np.mean(p))
    total += pr
    big += pr > 0.01
    slack_binomial(got.pop(key, 0), n, pr, 2e-4, 'pattern %r of %s (epsilon %r, cut-off %d, queries %r, threshold %r)' % (pat, case['variant'], case['eps'], c, q.tolist(), case['thr']))
  require(not got, 'patterns that are no transcript: %r', got)
  if case['variant'] == 'SVT3':
    released(case, out, above, q, thr, sf, n)
  ctx.label(case['variant'])
  ctx.nontrivial(big >= 3)


def released(case, out, above, q, thr, sf, n):
  """Law of the released values: first query; second query after an answer below."""
  scale = 2 * case['c'] * (case['hi'] - case['lo']) / case['eps']
  rows = [(0, np.ones(n, dtype=bool), np.ones(M))]
  if case['m'] > 1:
    rows.append((1, ~above[:, 0], 1 - sf[0]))
  for j, sel, weight in rows:
    for t in q[j] + scale * np.array([-2.0, -0.5, 0.0, 0.5, 2.0, 5.0]):
      hit = sel & above[:, j]
      vals = out[hit, j].astype(float)
      inside = np.maximum(stats.laplace.cdf((t - q[j]) / scale) - stats.laplace.cdf((thr - q[j]) / scale), 0)
      slack_binomial(int(np.sum(vals <= t)), n, float(np.mean(inside * weight)), 2e-4, 'query %d released at most %r' % (j, float(t)))
    if hit.sum() > 100:
      require(len(np.unique(vals)) > hit.sum() - 3, 'released values of different samples coincide')


@sub('svt-transcript', svt_case(small=False), quick=1200, thorough=8000,
     rule='transcripts of long query sequences: answers up to the cut-off, no response after it, any number of samples; '
          'non-trivial: some transcript is cut off before its end')
def svt_transcript(case, ctx):
  for n in (0, 1, 50, 2000 if case['seed'] % 8 == 0 else 300):
    out = np.asarray(make_svt(case)(np.array(case['data']), n))
    require(out.shape == (n, case['m']), 'shape %r for %d samples of %d queries', out.shape, n, case['m'])
    above, none = transcript(out, case)
  if case['variant'] != 'SVT5':
    ctx.nontrivial(bool(np.any(none)))
    return
  # Without query noise all equal queries are answered alike.
  m = case['m'] if case['kind'] == 'sum' else case['m'] - 1
  first = above[:, :min(m, case['c'])]
  require(np.all(first == first[:, :1]) if m else True, 'queries without noise and with equal values are answered differently')
  ctx.nontrivial(bool(np.any(none)))


@st.composite
def bad_svt(draw):
  c = draw(svt_case())
  c['mode'] = draw(st.sampled_from(['unspecified', '2d', 'few', 'name']))
  return c


@sub('refused', bad_svt(), quick=200, thorough=2000, rule='invalid queries, data and configuration names are refused; non-trivial: the refusal needs the data')
def refused(case, ctx):
  mode = case['mode']
  ctx.nontrivial(mode in ('2d', 'few'))
  try:
    if mode == 'unspecified':
      config = MC.SVTMechanismConfig(epsilon=case['eps'], max_value=case['hi'], min_value=case['lo'], num_queries=case['m'], threshold=case['thr'],
                                     max_answered_queries=case['c'], query_type=MC.QueryType.QUERY_TYPE_UNSPECIFIED)
      getattr(SVT, case['variant'])(config, np.random.default_rng(0))
    elif mode == '2d':
      make_svt(case)(np.array([case['data'], case['data']]), 3)
    elif mode == 'few':
      case = dict(case, kind='reveal', data=case['data'][:case['seed'] % 2])
      make_svt(case)(np.array(case['data']), 3)
    else:
      MU.default_mean_mechanism_config_generator('mean' + str(case['seed']), 1.0)
  except ValueError:
    require(mode != 'name', 'an unknown name raises ValueError')
    return
  except AttributeError:
    require(mode == 'name', 'not refused with a ValueError')
    return
  raise core.Violation('not refused: %s' % mode)


# --- PipelineDP wrapper ---


@st.composite
def agg_case(draw):
  rows = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.floats(-5, 5)), max_size=10))
  return dict(rows=[list(r) for r in rows], n=draw(st.integers(0, 5)), eps=draw(gen.logf(1e-2, 100)), delta=draw(st.sampled_from([0.0, 1e-6, 0.5])),
              parts=draw(st.one_of(st.none(), st.lists(st.integers(0, 5), unique=True, min_size=1, max_size=4))), metrics=draw(st.integers(1, 3)),
              form=draw(st.sampled_from(['array', 'list', 'tuples'])))


@sub('pipeline', agg_case(), quick=500, thorough=10000,
     rule='the PipelineDP wrapper: one aggregation of all records with the whole budget per sample, all metrics of all partitions returned in '
          'order; non-trivial: two samples or more of two partitions or more')
def pipeline(case, ctx):
  rows = [tuple(r) for r in case['rows']]
  parts = case['parts'] if case['parts'] is not None else sorted({r[0] for r in rows}) or [0]
  pdp = new_pipeline(lambda call: [(p, tuple(1000.0 * call['index'] + 10 * p + k for k in range(case['metrics']))) for p in parts])
  params = alib.AggregateParams(metrics=case['metrics'])
  mech = AGG.AggregationMechanism(config=params, tested_privacy_property=PP.ApproximateDp(epsilon=case['eps'], delta=case['delta']), public_partitions=case['parts'])
  data = np.array(case['rows'], dtype=float).reshape(-1, 3) if case['form'] == 'array' else case['rows'] if case['form'] == 'list' else rows
  out = np.asarray(mech(data, case['n']))
  require(not pdp.problems, '%s', pdp.problems[:1])
  require(len(out) == case['n'], '%d samples for %d', len(out), case['n'])
  require(len(pdp.calls) == case['n'], '%d aggregations for %d samples', len(pdp.calls), case['n'])
  require(len({id(c['accountant']) for c in pdp.calls}) == case['n'], 'aggregations share a budget')
  for i, call in enumerate(pdp.calls):
    require((call['accountant'].epsilon, call['accountant'].delta) == (case['eps'], case['delta']), 'budget %r %r', call['accountant'].epsilon, call['accountant'].delta)
    require(call['params'] is params and call['public'] == case['parts'], 'other parameters')
    require([tuple(map(float, r)) for r in call['rows']] == [tuple(map(float, r)) for r in rows], 'other records')
    for r, row in zip(call['rows'], rows):
      got = (call['ex'].partition_extractor(r), call['ex'].privacy_id_extractor(r), call['ex'].value_extractor(r))
      require(got == row, 'record %r is read as %r', row, got)
    require([float(x) for x in out[i]] == [1000.0 * i + 10 * p + k for p in parts for k in range(case['metrics'])], 'sample %d: %r', i, out[i])
  ctx.nontrivial(case['n'] > 1 and len(parts) > 1)
