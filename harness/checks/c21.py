"""C21: private clustering touches each record within its accounted sensitivity."""
import contextlib
import inspect
import math
import types

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
from clib import ALG, CP, CPU, DEF, KMeans, PC, Recorder

ASSUMPTIONS = [
    'scikit-learn is not installed: a deterministic stand-in for k-means records the coreset it is given; noise is taken at the '
    'interface of central_privacy_utils and replaced by the same scripted values in the runs on both neighbouring datasets; '
    'coordinates are finite and at most 1e100; the projections are drawn from the global NumPy generator, seeded alike in both runs']
sub = core.Registry()


_memo = {}


@contextlib.contextmanager
def accounted(log, memo):
  """Records what private clustering accounts for; calibrates each set of parameters only once if memo is set."""
  real, real_validate = PC.PrivacyCalculator.__init__, PC.PrivacyCalculator.validate_accounting
  sig, vsig = inspect.signature(real), inspect.signature(real_validate)

  def init(self, *a, **kw):
    args = sig.bind(self, *a, **kw).arguments
    log.append(args)
    key = repr([v for k, v in args.items() if k != 'self'])
    if memo and key in _memo:
      self.__dict__.update(_memo[key])
      return
    real(self, *a, **kw)
    if memo:
      _memo[key] = dict(self.__dict__)

  def validate(self, *a, **kw):
    args = vsig.bind(self, *a, **kw).arguments
    key = 'validate' + repr([v for k, v in args.items() if k != 'self']) + repr(sorted(self.__dict__.items()))
    if memo and key in _memo:
      return
    real_validate(self, *a, **kw)
    if memo:
      _memo[key] = True
  PC.PrivacyCalculator.__init__, PC.PrivacyCalculator.validate_accounting = init, validate
  try:
    yield
  finally:
    PC.PrivacyCalculator.__init__, PC.PrivacyCalculator.validate_accounting = real, real_validate


def run(points, case, dim, averages=True, relative=False, privacy=None, memo=False):
  extra = [np.array([int(abs(x) * 7) % 3 if abs(x) < 1e9 else 3 for x, *_ in points])] if case.get('labelled') else []
  data = CP.Data(np.array(points, dtype=float).reshape(len(points), dim), case['radius'], *extra)
  before = data.datapoints.copy()
  np.random.seed(case['seed'])
  KMeans.log.clear()
  tp = CP.TreeParam(case['hi'], case['lo'], case['depth']) if case['depth'] is not None else None
  rec = Recorder(case['counts'], relative, case['avgs'] if averages else None)
  acc = []
  with rec, accounted(acc, memo):
    res = ALG.private_lsh_clustering(case['k'], data, privacy or CP.DifferentialPrivacyParam(math.inf, 1e-6), tree_param=tp,
                                     **case.get('kw', {}))
  require(np.array_equal(before, data.datapoints), 'the data was changed')
  require(len(KMeans.log) == 1, '%d k-means runs', len(KMeans.log))
  return res, rec, acc, KMeans.log[0], data


@st.composite
def points(draw, n=25):
  d = draw(st.integers(1, 3))
  r = draw(st.one_of(st.sampled_from([1.0, 10.0, 0.5]), gen.logf(1e-6, 1e6)))
  far = draw(st.sampled_from([1.0, 1.0, 2.0, 1e6, 1e90]))
  pool = draw(st.sampled_from(['float', 'zero', 'grid']))
  c = dict(float=st.floats(-1, 1), zero=st.sampled_from([0.0, 0.0, 0.0, 1.0, -1.0]), grid=st.sampled_from([-1.0, -0.5, 0.0, 0.5, 1.0]))[pool]
  pts = draw(st.lists(st.tuples(st.lists(c, min_size=d, max_size=d), st.sampled_from([1.0, 1.0, far])), min_size=1, max_size=n))
  return d, r, [[x * s * r for x in p] for p, s in pts]


@st.composite
def case_neighbours(draw):
  d, r, pts = draw(points())
  c = dict(dim=d, radius=r, pts=pts, labelled=draw(st.booleans()), drop=draw(st.integers(0, len(pts) - 1)), k=draw(st.integers(1, 6)), seed=draw(st.integers(0, 2 ** 31)),
           avgs=[x * r for x in draw(st.lists(st.one_of(st.floats(-1.5, 1.5), st.floats(-1e3, 1e3)), min_size=3, max_size=8))])
  if draw(st.booleans()):
    c['depth'] = draw(st.integers(0, 6))
    c['lo'] = draw(st.integers(1, 5))
    c['hi'] = c['lo'] + draw(st.integers(0, 5))
    c['counts'] = draw(st.lists(st.one_of(st.integers(-3, 14), st.sampled_from([c['lo'] - 1, c['lo'], c['hi'] - 1, c['hi']])), min_size=3, max_size=40))
    c['private'] = False
  elif draw(st.booleans()):
    # Default tree whose thresholds come from the noise and the private count.
    c['depth'] = c['lo'] = c['hi'] = None
    c['private'] = True
    if draw(st.integers(0, 3)):
      c['pts'] = (pts * 40)[:draw(st.integers(1, 60))]
      c['drop'] = len(c['pts']) - 1
    f = c['radius']
    c['radius'], c['pts'] = 1.0, [[x / f for x in p] for p in c['pts']]
    c['avgs'] = [x / f for x in c['avgs']]
    c['counts'] = [draw(st.one_of(st.sampled_from([0, -3, 1, 7, 30]), st.integers(1, 80)))] + draw(
        st.lists(st.one_of(st.integers(-3, 90), st.integers(0, 25), st.just(200)), min_size=1, max_size=24))
  else:
    # Default tree: at most one child of each pair branches, so that the tree is a chain.
    c['private'] = False
    c['depth'] = c['lo'] = c['hi'] = None
    one = st.sampled_from([(7, 0), (7, 1), (7, 2), (0, 7), (2, 7), (7, -4)])
    pairs = draw(st.one_of(st.just([(7, 0)] * 20), st.lists(one, min_size=1, max_size=6).map(lambda l: (l * 20)[:20]),
                           st.lists(st.one_of(one, one, st.just((1, 2))), min_size=20, max_size=20)))
    c['counts'] = [draw(st.sampled_from([0, -3, 1, 7, 30]))] + [x for p in pairs for x in p]
  return c


def norm(v):
  return math.hypot(*v) if len(v) else 0.0


@sub('neighbours', case_neighbours(), quick=6000, thorough=80000,
     rule='the whole pipeline on two datasets that differ in one record, with the same scripted noise: what the noise is added to, and what '
          'is released; non-trivial: the record is counted at two levels or more, or is outside the radius')
def neighbours(case, ctx):
  d, r = case['dim'], case['radius']
  x = case['pts'][case['drop']]
  other = case['pts'][:case['drop']] + case['pts'][case['drop'] + 1:]
  p = CP.DifferentialPrivacyParam(2.0, 1e-6) if case['private'] else None
  res1, rec1, acc1, km1, _ = run(case['pts'], case, d, privacy=p, memo=True)
  res2, rec2, acc2, km2, _ = run(other, case, d, privacy=p, memo=True)
  depth = case['depth']
  if acc1 and acc2:
    require(len(acc1) == len(acc2) == 1, 'accounted %d times', len(acc1))
    a, b = acc1[0], acc2[0]
    require(a.get('max_depth') == b.get('max_depth') and a.get('radius') == b.get('radius') == r, 'accounted for radius %r, data has %r', a.get('radius'), r)
    require(depth is None or a.get('max_depth') == depth, 'accounted for depth %r, the tree has %r', a.get('max_depth'), depth)
    depth = a.get('max_depth')
  depth = 20 if depth is None else depth
  n1, n2 = [c['n'] for c in rec1.count_calls], [c['n'] for c in rec2.count_calls]
  require(len(n1) == len(n2), 'the number of counts differs between neighbours: %d, %d', len(n1), len(n2))
  diffs = [abs(a - b) for a, b in zip(n1, n2)]
  require(max(diffs) <= 1, 'one record changes a count by %r', max(diffs))
  require(sum(diffs) <= depth + 1, 'one record changes %d counts, accounted for depth %d', sum(diffs), depth)
  outs = [c['out'] for c in rec1.count_calls]
  outs[0] = max(1, outs[0])
  branching = sum(o >= (3 if case['hi'] is None else case['hi']) for o in outs)
  require(len(outs) <= 1 + 2 * branching, '%d counts were drawn although at most %d nodes reach the threshold', len(outs), branching)
  require(sum(diffs) >= 1, 'the number of records is never counted')
  # Sums.
  require(len(rec1.average_calls) == len(rec2.average_calls), 'the number of sums differs between neighbours')
  changed = 0
  for a, b in zip(rec1.average_calls, rec2.average_calls):
    for p in list(a['points']) + list(b['points']):
      require(norm(p) <= r * (1 + 1e-9), 'a record of norm %r enters a sum, radius %r', norm(p), r)
    delta = [math.fsum([p[j] for p in a['points']] + [-p[j] for p in b['points']]) for j in range(d)]
    if any(delta) or len(a['points']) != len(b['points']):
      changed += 1
      require(norm(delta) <= r * (1 + 1e-9), 'one record changes a sum by %r, radius %r', norm(delta), r)
      nx = norm(x)
      want = [c * min(1.0, r / nx) if nx else 0.0 for c in x]
      require(all(abs(u - w) <= 1e-9 * r for u, w in zip(delta, want)), 'record %r contributes %r to the sum, radius %r', x, delta, r)
    require(a['count'] == b['count'] and a['count'] >= 1, 'counts %r, %r of a sum', a['count'], b['count'])
    require(a['dim'] == b['dim'] == d, 'dimension %r of the noise', a['dim'])
  require(changed <= 1, 'one record is in %d sums', changed)
  # Released values: functions of the scripted noise alone.
  require(np.array_equal(km1['points'], km2['points']) and np.array_equal(km1['weights'], km2['weights']) and km1['k'] == km2['k'],
          'the coreset depends on the data beyond the noisy values')
  require(np.array_equal(res1.centers, res2.centers), 'the centers depend on the data beyond the noisy values')
  require(len(res1.labels) == len(case['pts']) and len(res2.labels) == len(other), 'labels missing')
  # The coreset.
  want = []
  for c in rec1.average_calls:
    n = norm(c['out'])
    want.append([float(v) * min(1.0, r / n) if n else 0.0 for v in c['out']])
  require(km1['points'].shape == (len(want), d), 'coreset of shape %r from %d leaves', km1['points'].shape, len(want))
  require(all(norm(p) <= r * (1 + 1e-9) for p in km1['points']), 'coreset point of norm %r beyond radius %r', max(norm(p) for p in km1['points']), r)
  require(np.allclose(km1['points'], np.array(want), rtol=0, atol=1e-9 * r), 'coreset %r is not the clipped averages %r', km1['points'].tolist(), want)
  require(list(km1['weights']) == [c['count'] for c in rec1.average_calls], 'weights %r', list(km1['weights']))
  drawn = [c['out'] for c in rec1.count_calls]
  root = max(1, drawn[0])
  for w in km1['weights']:
    require(w == root or w in drawn, 'weight %r is no private count %r', w, drawn)
  require(km1['k'] == min(case['k'], len(want)), 'k-means with k = %r for k = %r and %d points', km1['k'], case['k'], len(want))
  ctx.label(('default tree, private' if case['private'] else 'default tree') if case['depth'] is None else 'given tree', 'levels %d' % min(9, sum(diffs)))
  ctx.nontrivial(sum(diffs) >= 2 or norm(x) > r)


@st.composite
def default_case(draw):
  return dict(k=draw(st.integers(1, 12)), dim=draw(st.integers(1, 40)), n=draw(st.one_of(st.integers(0, 5), st.integers(0, 400))), more=draw(
      st.one_of(st.just(1), st.integers(1, 300))), count=draw(st.one_of(st.integers(-5, 5), st.integers(-5, 500), st.integers(-5, 10 ** 9))),
              sd=draw(gen.logf(1e-2, 1e3)), sens=draw(gen.logf(1e-2, 1e2)), a=draw(gen.logf(1e-2, 10)), depth=draw(st.integers(0, 40)),
              x=draw(st.floats(-2, 2)))


@sub('default_parameters', default_case(), quick=2000, thorough=40000,
     rule='the default tree of two datasets with the same private count is the same; non-trivial: a threshold above one')
def default_parameters(case, ctx):
  got = []
  pcalc = types.SimpleNamespace(average_privacy_param=CPU.AveragePrivacyParam(case['sd'], case['sens']),
                                count_privacy_param=CPU.CountPrivacyParam(case['a']))
  for n in (case['n'], case['n'] + case['more']):
    data = CP.Data(np.full((n, case['dim']), case['x'] * (n - case['n'] - 1)), case['sens'])
    with Recorder([case['count']], False) as rec:
      got.append(DEF.default_tree_param(case['k'], data, pcalc, case['depth']))
    require(len(rec.count_calls) == 1 and rec.count_calls[0]['n'] == n, 'counts %r of %d records', [c['n'] for c in rec.count_calls], n)
    require(rec.count_calls[0]['param'].laplace_param == case['a'], 'another noise parameter')
  require(got[0] == got[1], 'default trees %r and %r for the same private count', *got)
  t, count = got[0]
  require(count == case['count'], 'private count %r, drawn %r', count, case['count'])
  require(t.max_depth == case['depth'] and 1 <= t.min_num_points_in_node <= t.min_num_points_in_branching_node, 'tree %r', t)
  ctx.nontrivial(t.min_num_points_in_node > 1)


@st.composite
def case_private(draw):
  d, r, pts = draw(points())
  depth = draw(st.sampled_from([None, 0, 1, 3, 5, 8]))
  kw = {}
  c = dict(dim=d, radius=r, labelled=draw(st.booleans()), pts=pts * draw(st.integers(1, 20)), k=draw(st.integers(1, 4)), seed=draw(st.integers(0, 2 ** 31)), depth=depth, lo=None, hi=None,
           counts=draw(st.lists(st.integers(-2, 2), min_size=1, max_size=9)), avgs=[0.0], eps=draw(st.sampled_from([0.5, 1.0, 3.0, 8.0])),
           delta=draw(st.sampled_from([1e-6, 1e-3, 1e-8])), mult=draw(st.one_of(st.none(), st.tuples(st.just(1.0), st.floats(2, 60)))))
  if depth is not None:
    c['lo'] = draw(st.integers(1, 5))
    c['hi'] = c['lo'] * draw(st.integers(1, 3))
  return c


@sub('private', case_private(), quick=40, thorough=1500,
     rule='the pipeline with a private target uses the calibrated noise everywhere, once per level and leaf; non-trivial: more than one level')
def private(case, ctx):
  m = CP.PrivacyCalculatorMultiplier(*case['mult']) if case['mult'] else None
  p = CP.DifferentialPrivacyParam(case['eps'], case['delta'])
  kw = dict(multipliers=m) if m else {}
  res, rec, acc, km, data = run(case['pts'], dict(case, kw=kw), case['dim'], averages=False, relative=True, privacy=p)
  depth = case['depth']
  if depth is None:
    depth = acc[0].get('max_depth', 20) if acc else 20
  calc = PC.PrivacyCalculator(p, case['radius'], depth, m or CP.PrivacyCalculatorMultiplier())
  sd, a = calc.average_privacy_param.gaussian_standard_deviation, calc.count_privacy_param.laplace_param
  for c in rec.count_calls:
    require(core.close(c['param'].laplace_param, a, 1e-6), 'count with Laplace parameter %r, calibrated %r', c['param'].laplace_param, a)
  for c in rec.average_calls:
    require(core.close(c['param'].gaussian_standard_deviation, sd, 1e-6), 'sum with deviation %r, calibrated %r', c['param'].gaussian_standard_deviation, sd)
  require(rec.count_calls[0]['n'] == len(case['pts']), 'the first count is of %r records, there are %d', rec.count_calls[0]['n'], len(case['pts']))
  inside = sum(len(c['points']) for c in rec.average_calls)
  require(inside <= len(case['pts']), '%d records in the sums, there are %d', inside, len(case['pts']))
  require(len(km['points']) == len(rec.average_calls), 'coreset of %d points from %d leaves', len(km['points']), len(rec.average_calls))
  require(all(norm(q) <= case['radius'] * (1 + 1e-9) for q in km['points']), 'coreset point beyond the radius')
  require(list(km['weights']) == [c['count'] for c in rec.average_calls], 'weights')
  require(np.array_equal(res.data.datapoints, data.datapoints), 'the result describes other data')
  ctx.label('default tree' if case['depth'] is None else 'given tree')
  ctx.nontrivial(len(rec.count_calls) > 1)
