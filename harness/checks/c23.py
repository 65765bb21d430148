"""C23: clustering results and metrics describe the data correctly."""
import collections
from fractions import Fraction
import itertools
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
from clib import ALG, CP, KMeans, Recorder

ASSUMPTIONS = [
    'coordinates are finite floats (at most 1e100) or signed integers, the radius is positive, ground truth labels are non-negative '
    'integers; centres whose distances differ by rounding only are equally near; fractions over no pairs are not judged']
sub = core.Registry()


@st.composite
def result_case(draw):
  d = draw(st.integers(1, 5))
  kind = draw(st.sampled_from(['int', 'int', 'float', 'scaled', 'far']))
  off = draw(st.sampled_from([1e4, 1e6, -1e8, 1e11])) if kind == 'far' else 0.0
  c = dict(far=st.one_of(st.integers(-4, 4), st.floats(-3, 3)).map(lambda x: x + off), int=st.integers(-4, 4), float=st.floats(-10, 10), scaled=st.tuples(st.floats(-1, 1), st.sampled_from([1.0, 1e-8, 1e8, 1e60])).map(lambda t: t[0] * t[1]))[kind]
  vec = st.lists(c, min_size=d, max_size=d)
  pts, centers = draw(st.lists(vec, max_size=20)), draw(st.lists(vec, min_size=1, max_size=6))
  if pts and draw(st.booleans()):
    centers = centers + [pts[0]]
  return dict(dim=d, kind=kind, pts=pts, centers=centers, ints=kind == 'int' and draw(st.booleans()), radius=draw(gen.logf(1e-3, 1e3)))


def arr(x, d, ints=False):
  return np.array(x, dtype=int if ints else float).reshape(len(x), d)


@sub('result', result_case(), quick=8000, thorough=200000,
     rule='labels and loss of a result computed from centres, against exact rational distances; non-trivial: two centres or more are used')
def result(case, ctx):
  d, k = case['dim'], len(case['centers'])
  data = CP.Data(arr(case['pts'], d, case['ints']), case['radius'])
  centers = arr(case['centers'], d, case['ints'])
  before = centers.copy()
  res = ALG.ClusteringResult(data, centers)
  require(np.array_equal(centers, before) and np.array_equal(res.centers, before), 'the centers were changed')
  require(res.data is data or np.array_equal(res.data.datapoints, data.datapoints), 'the result has other data')
  require(len(res.labels) == len(case['pts']), '%d labels for %d points', len(res.labels), len(case['pts']))
  total = Fraction(0)
  for p, lab in zip(data.datapoints.tolist(), res.labels):
    require(0 <= lab < k and lab == int(lab), 'label %r of %d centers', lab, k)
    dist = [sum((Fraction(a) - Fraction(b)) ** 2 for a, b in zip(p, c)) for c in before.tolist()]
    best = min(dist)
    # Differences are rounded relative to themselves, so far from the origin distances are as exact as near it.
    require(dist[int(lab)] <= best * (1 + Fraction(1, 10 ** 12)) + Fraction(1e-290), 'point %r is labelled %r at squared distance %r, nearest %r', p, int(lab), float(dist[int(lab)]), float(best))
    total += dist[int(lab)]
  require(abs(float(res.loss) - float(total)) <= 1e-11 * float(total) + 1e-290, 'loss %r, expected %r', float(res.loss), float(total))
  if case['kind'] == 'int':
    require(res.loss == total, 'loss %r of integer data, expected %r', res.loss, total)
  ctx.nontrivial(len(set(map(int, res.labels))) > 1)


@st.composite
def release_case(draw):
  d = draw(st.integers(1, 3))
  c = st.one_of(st.floats(-1, 1), st.sampled_from([0.0, 3.0, -7.0, 0.5]))
  pts = draw(st.lists(st.lists(c, min_size=d, max_size=d), min_size=1, max_size=30))
  pts = pts * draw(st.sampled_from([1, 1, 2, 4]))
  lo = draw(st.integers(1, 3))
  return dict(dim=d, pts=pts, radius=draw(st.sampled_from([1.0, 0.5, 2.0])), k=draw(st.integers(1, 5)), seed=draw(st.integers(0, 2 ** 31)), lo=lo,
              hi=lo + draw(st.integers(0, 3)), depth=draw(st.integers(0, 4)), counts=draw(st.lists(st.integers(-2, 2), min_size=1, max_size=9)),
              labels=draw(st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=len(pts), max_size=len(pts)))),
              eps=draw(st.sampled_from([math.inf] * 39 + [3.0])))


@sub('release', release_case(), quick=1200, thorough=30000,
     rule='the result of the whole private clustering describes the data as it was given, with its labels, at the released centres; '
          'non-trivial: a point lies beyond the radius and two centres are used')
def release(case, ctx):
  d = case['dim']
  labels = None if case['labels'] is None else np.array(case['labels'])
  data = CP.Data(arr(case['pts'], d), case['radius'], labels)
  np.random.seed(case['seed'])
  KMeans.log.clear()
  with Recorder(case['counts'], True):
    res = ALG.private_lsh_clustering(case['k'], data, CP.DifferentialPrivacyParam(case['eps'], 1e-6),
                                     tree_param=CP.TreeParam(case['hi'], case['lo'], case['depth']))
  require(data.datapoints.tolist() == arr(case['pts'], d).tolist(), 'the given data was changed')
  require(res.data.datapoints.tolist() == data.datapoints.tolist(), 'the result describes %r, given %r', res.data.datapoints.tolist(), case['pts'])
  require((res.data.labels is None) == (labels is None) and (labels is None or list(res.data.labels) == case['labels']), 'the result has other true labels')
  require(res.data.radius == case['radius'], 'the result has radius %r', res.data.radius)
  cs = res.centers.tolist()
  total = 0.0
  for p, lab in zip(case['pts'], res.labels):
    ds = [sum((a - b) ** 2 for a, b in zip(p, c)) for c in cs]
    require(ds[int(lab)] <= min(ds) * (1 + 1e-9) + 1e-12, 'point %r is labelled %r, squared distances %r', p, int(lab), ds)
    total += min(ds)
  require(len(res.labels) == len(case['pts']), 'labels missing')
  require(core.close(float(res.loss), total, 1e-9, 1e-12), 'loss %r, expected %r', float(res.loss), total)
  if labels is not None:
    h = res.cross_label_histogram()
    cnt = collections.Counter(zip(map(int, res.labels), case['labels']))
    require(int(h.sum()) == len(case['pts']) and all(h[i, j] == v for (i, j), v in cnt.items()), 'histogram %r, expected %r', h.tolist(), cnt)
  ctx.nontrivial(any(math.hypot(*p) > case['radius'] for p in case['pts']) and len(set(map(int, res.labels))) > 1)


@st.composite
def label_case(draw):
  n, k = draw(st.integers(1, 30)), draw(st.integers(1, 6))
  t = draw(st.integers(1, 6))
  off = draw(st.sampled_from([0, 0, 0, 1, 3]))
  lab = st.integers(0, k - 1)
  return dict(k=k, pred=draw(st.lists(lab, min_size=n, max_size=n)), off=off,
              true=draw(st.lists(st.integers(0, t - 1).map(lambda x: x + off), min_size=n, max_size=n)))


@sub('metrics', label_case(), quick=8000, thorough=200000,
     rule='label histogram and metrics of two labelings against counting points and pairs; non-trivial: both kinds of pairs are split')
def metrics(case, ctx):
  pred, true, k = case['pred'], case['true'], case['k']
  n = len(pred)
  data = CP.Data(np.zeros((n, 2)), 1.0, np.array(true))
  res = ALG.ClusteringResult(data, np.zeros((k, 2)), np.array(pred), 1.5)
  require(list(res.labels) == pred and res.loss == 1.5, 'given labels or loss were replaced')
  h = res.cross_label_histogram()
  cnt = collections.Counter(zip(pred, true))
  require(h.shape[0] > max(pred) and h.shape[1] > max(true), 'histogram of shape %r', h.shape)
  require(h.shape[0] <= k and h.shape[1] == max(true) + 1, 'histogram of shape %r for %d clusters', h.shape, k)
  for i in range(h.shape[0]):
    for j in range(h.shape[1]):
      require(h[i, j] == cnt[i, j], 'histogram has %r at (%d, %d), expected %d', h[i, j], i, j, cnt[i, j])
  tp = fp = nonmatch = match = 0
  for a, b in itertools.combinations(range(n), 2):
    if true[a] == true[b]:
      tp += 1
      nonmatch += pred[a] != pred[b]
    else:
      fp += 1
      match += pred[a] == pred[b]
  dom = sum(max(collections.Counter(t for p, t in zip(pred, true) if p == c).values()) for c in set(pred))
  for m in (res.get_clustering_metrics(), ALG.ClusteringMetrics(h)):
    want = dict(num_points=n, dominant_label_correct_count=dom, true_pairs=tp, true_nonmatch_count=nonmatch, false_pairs=fp, false_match_count=match)
    for name, v in want.items():
      require(getattr(m, name) == v, '%s is %r, expected %r', name, getattr(m, name), v)
    require(core.close(m.dominant_label_accuracy, dom / n, 1e-12), 'accuracy %r, expected %r', m.dominant_label_accuracy, dom / n)
    require(tp == 0 or core.close(m.true_nonmatch_frac, nonmatch / tp, 1e-12), 'non-match fraction %r, expected %r', m.true_nonmatch_frac, nonmatch / max(1, tp))
    require(fp == 0 or core.close(m.false_match_frac, match / fp, 1e-12), 'false match fraction %r, expected %r', m.false_match_frac, match / max(1, fp))
    require(np.array_equal(m.cross_label_histogram, h), 'histogram of the metrics')
  ctx.nontrivial(nonmatch and match)


@st.composite
def big_case(draw):
  r, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
  e = st.one_of(st.integers(0, 5), st.integers(0, 10 ** 6), st.integers(0, 3 * 10 ** 8))
  return draw(st.lists(st.lists(e, min_size=c, max_size=c), min_size=r, max_size=r).filter(lambda h: sum(map(sum, h)) > 1))


@sub('counts', big_case(), quick=3000, thorough=60000,
     rule='metrics of histograms of up to a thousand million points against exact integer formulas; non-trivial: more than a thousand points')
def counts(case, ctx):
  h = np.array(case)
  m = ALG.ClusteringMetrics(h)
  pairs = lambda x: x * (x - 1) // 2
  n = sum(map(sum, case))
  cols = [sum(r[j] for r in case) for j in range(len(case[0]))]
  cells = sum(pairs(x) for r in case for x in r)
  tp = sum(map(pairs, cols))
  same = sum(pairs(sum(r)) for r in case)
  fp = pairs(n) - tp
  for name, v in dict(num_points=n, dominant_label_correct_count=sum(max(r) for r in case), true_pairs=tp, true_nonmatch_count=tp - cells,
                      false_pairs=fp, false_match_count=same - cells).items():
    require(core.close(getattr(m, name), v, 1e-9, 1e-9 * pairs(n) if 'false' in name else 0), '%s is %r, expected %r', name, getattr(m, name), v)
  for name, a, b in (('dominant_label_accuracy', sum(max(r) for r in case), n), ('true_nonmatch_frac', tp - cells, tp)):
    require(b == 0 or core.close(getattr(m, name), a / b, 1e-9, 1e-9), '%s is %r, expected %r', name, getattr(m, name), a / max(1, b))
  require(fp < 1e-6 * pairs(n) or core.close(m.false_match_frac, (same - cells) / fp, 1e-6, 1e-6), 'false_match_frac is %r', m.false_match_frac)
  require(np.array_equal(h, np.array(case)), 'the histogram was changed')
  ctx.nontrivial(n > 1000)


@st.composite
def clip_case(draw):
  d = draw(st.integers(1, 5))
  r = draw(st.one_of(gen.logf(1e-6, 1e6), st.sampled_from([1.0, 5, 1, 0.5])))
  e = st.one_of(st.floats(-2, 2), st.sampled_from([0.0, 1.0, -1.0, 0.6, 0.8, 3.0, 4.0]), st.floats(-1, 1).map(lambda x: x * 1e50), st.floats(-1, 1).map(lambda x: x * 1e-50))
  ints = draw(st.integers(0, 4)) == 0
  if ints:
    return dict(dim=d, radius=r, ints=True, pts=draw(st.lists(st.lists(st.integers(-10, 10), min_size=d, max_size=d), max_size=12)), arg=draw(st.booleans()))
  return dict(dim=d, radius=r, ints=False, pts=[[x * r for x in p] for p in draw(st.lists(st.lists(e, min_size=d, max_size=d), max_size=12))], arg=draw(st.booleans()))


@sub('clipping', clip_case(), quick=8000, thorough=200000,
     rule='points clipped to the radius against the definition; non-trivial: points on both sides of the radius')
def clipping(case, ctx):
  d, r = case['dim'], case['radius']
  pts = arr(case['pts'], d, case['ints'])
  before = pts.copy()
  if case['arg']:
    data = CP.Data(np.full((2, d), 7.0 * r), r)
    got = data.clip_by_radius(pts)
    require(np.array_equal(data.datapoints, np.full((2, d), 7.0 * r)), 'the data was changed')
  else:
    data = CP.Data(pts, r)
    got = data.clip_by_radius()
  require(np.array_equal(pts, before), 'the points were changed')
  require(got.shape == before.shape, 'shape %r of %r clipped', got.shape, before.shape)
  inside = outside = 0
  for p, q in zip(before.tolist(), got.tolist()):
    n = math.hypot(*p)
    if n <= r * (1 - 1e-12):
      inside += 1
      require(p == q, 'point %r of norm %r was changed to %r, radius %r', p, n, q, r)
    else:
      outside += n > r
      want = [x / n * r for x in p]
      require(all(abs(a - b) <= 1e-12 * r for a, b in zip(q, want)), 'point %r clipped to %r, expected %r', p, q, want)
  ctx.nontrivial(inside and outside)


@st.composite
def invalid_case(draw):
  return dict(how=draw(st.sampled_from(['labels_len', 'only_labels', 'only_loss', 'dim', 'dim_no_labels', 'label_high', 'label_neg', 'label_frac', 'true_len', 'data_1d', 'no_truth',
                                        'tree_min', 'tree_order', 'split', 'valid'])), n=draw(st.integers(1, 8)), k=draw(st.integers(1, 5)), d=draw(st.integers(1, 4)), j=draw(st.integers(0, 7)),
              by=draw(st.integers(1, 5)))


@sub('validation', invalid_case(), quick=1500, thorough=30000,
     rule='inconsistent results, data, trees and budget splits are refused, consistent ones are not; non-trivial: an inconsistent one')
def validation(case, ctx):
  how, n, k, d, by = case['how'], case['n'], case['k'], case['d'], case['by']
  j = case['j'] % n
  data = CP.Data(np.zeros((n, d)), 1.0, np.arange(n))
  labels = np.arange(n) % k
  centers = np.ones((k, d))

  def with_label(v):
    x = labels.astype(float) if v != int(v) else labels.copy()
    x[j] = v
    return x
  R = ALG.ClusteringResult
  calls = dict(
      labels_len=lambda: R(data, centers, np.arange(n + by) % k, 1.0), only_labels=lambda: R(data, centers, labels), only_loss=lambda: R(data, centers, None, 0.0),
      dim=lambda: R(data, np.ones((k, d + by)), labels, 1.0), dim_no_labels=lambda: R(data, np.ones((k, d + by))),
      label_high=lambda: R(data, centers, with_label(k + by - 1), 1.0), label_neg=lambda: R(data, centers, with_label(-by), 1.0),
      label_frac=lambda: R(data, centers, with_label(0.1 * by - 0.05 if by < 5 else 0.5), 1.0),
      true_len=lambda: CP.Data(np.zeros((n, d)), 1.0, np.arange(n + by)), data_1d=lambda: CP.Data(np.zeros(n), 1.0),
      no_truth=lambda: R(CP.Data(np.zeros((n, d)), 1.0), centers, labels, 1.0).cross_label_histogram(),
      tree_min=lambda: CP.TreeParam(by, 1 - by, n), tree_order=lambda: CP.TreeParam(by, by + n, k), split=lambda: CP.PrivacyBudgetSplit(0.1 * n + 0.2, 0.71 + by))
  if how == 'valid':
    R(data, centers, labels, 0.0)
    R(data, centers, labels, float(by)).get_clustering_metrics()
    CP.TreeParam(by, by, 0)
    CP.TreeParam(by + n, by, n)
    CP.PrivacyBudgetSplit(0.5, 0.5)
    return
  try:
    calls[how]()
  except ValueError:
    ctx.nontrivial()
    return
  raise core.Violation('accepted: %s' % how)
