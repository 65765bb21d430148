"""C20: the clustering tree partitions the data and respects its thresholds."""
import collections
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
from clib import ALG, CORE, CP, CPU, LSH, PC, TREE, Recorder

ASSUMPTIONS = [
    'projections and points are integers of moderate size, so that the sign of every projection is exact, except for the trees whose '
    'projections are drawn by the code itself, where the sign of a projection within rounding of zero is not judged; noisy counts are '
    'scripted, and are taken at the interface central_privacy_utils.get_private_count']
sub = core.Registry()


class Pcalc:
  """Just the two noise parameters that the tree needs."""

  def __init__(self, sd, a, radius):
    self.average_privacy_param = CPU.AveragePrivacyParam(sd, radius)
    self.count_privacy_param = CPU.CountPrivacyParam(a)


@st.composite
def dataset(draw, dims=(1, 4), n=40):
  d = draw(st.integers(*dims))
  coord = draw(st.sampled_from([st.integers(-3, 3), st.integers(-1, 1), st.integers(-1000, 1000), st.integers(0, 2)]))
  pts = draw(st.lists(st.lists(coord, min_size=d, max_size=d), min_size=draw(st.sampled_from([0, 0, n // 8, n // 3])), max_size=n))
  if pts and draw(st.integers(0, 3)) == 0:
    pts = pts + [pts[0]] * draw(st.integers(1, 10))
  return d, pts


@st.composite
def hash_case(draw):
  d, pts = draw(dataset())
  depth = draw(st.one_of(st.integers(1, 6), st.integers(0, 6)))
  return dict(dim=d, pts=pts, proj=draw(st.lists(st.lists(st.integers(-4, 4), min_size=d, max_size=d), min_size=depth, max_size=depth)),
              prefix=draw(st.text('01', max_size=7 if draw(st.integers(0, 5)) == 0 else max(0, depth - 1))), as_int=draw(st.booleans()),
              scale=draw(st.sampled_from([0, 0, 0, -1, -30, -45, -60, -200, 40, 200])))


def rows(a):
  return collections.Counter(tuple(r) for r in np.asarray(a).tolist())


def arr(pts, d, as_int=False):
  return np.array(pts, dtype=int if as_int else float).reshape(len(pts), d)


@sub('hash', hash_case(), quick=6000, thorough=100000,
     rule='one split by given projections against exact signs; non-trivial: both groups have points, or a point on the hyperplane')
def hash_split(case, ctx):
  d, depth, prefix = case['dim'], len(case['proj']), case['prefix']
  h = LSH.SimHash(d, depth, projection_vectors=np.array(case['proj'], dtype=float).reshape(depth, d))
  unit = 2.0 ** case.get('scale', 0)  # exact: no projection of any point is rounded
  pts = arr(case['pts'], d, case['as_int']) if unit == 1 else arr(case['pts'], d) * unit
  before = pts.copy()
  try:
    got = h.group_by_next_hash(pts, prefix) if prefix else h.group_by_next_hash(pts)
  except ValueError:
    require(len(prefix) >= depth, 'refused a prefix of length %d of %d', len(prefix), depth)
    ctx.label('refused')
    return
  require(len(prefix) < depth, 'split by a prefix of length %d of %d', len(prefix), depth)
  require(np.array_equal(pts, before), 'the datapoints were changed')
  require(set(got) == {'0', '1'}, 'groups %r', sorted(got))
  v = case['proj'][len(prefix)]
  want = {'0': [], '1': []}
  tie = False
  for p in case['pts']:
    s = sum(a * b for a, b in zip(p, v))
    tie |= s == 0
    want['0' if s >= 0 else '1'].append(tuple(x * unit for x in p))
  for c in '01':
    require(rows(got[c]) == collections.Counter(want[c]), 'group %s is %r, expected %r', c, dict(rows(got[c])), want[c])
    require(np.asarray(got[c]).shape == (len(want[c]), d), 'shape %r of group %s', np.asarray(got[c]).shape, c)
  ctx.nontrivial(tie or (want['0'] and want['1']))


@st.composite
def tree_case(draw):
  d, pts = draw(dataset())
  depth = draw(st.one_of(st.integers(1, 6), st.integers(0, 6)))
  lo = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 12)))
  kind = draw(st.sampled_from(['exact', 'noise', 'noise', 'absolute']))
  noise = draw(st.lists(st.integers(-6, 6) if kind == 'noise' else st.one_of(st.integers(-2, 12), st.integers(lo - 1, lo + 3)),
                        min_size=1, max_size=14))
  proj = None
  if draw(st.integers(0, 3)):
    proj = draw(st.lists(st.lists(st.integers(-4, 4), min_size=d, max_size=d), min_size=depth, max_size=depth))
  if pts and draw(st.integers(0, 60)) == 60:
    pts = (pts * 2500)[:draw(st.integers(200, 2500))]
  return dict(dim=d, pts=pts, depth=depth, lo=lo, hi=lo + draw(st.one_of(st.integers(0, 3), st.integers(0, 12), st.just(2 * lo))), kind=kind,
              noise=noise, proj=proj, seed=draw(st.integers(0, 2 ** 31)), tagged=draw(st.booleans()),
              root=draw(st.one_of(st.none(), st.none(), st.none(), st.none(), st.integers(-2, 30))))


def side(p, v, exact):
  """'0', '1' or None when rounding may decide."""
  s = math.fsum(a * b for a, b in zip(p, v))
  if not exact and abs(s) <= 1e-12 * math.fsum(abs(a * b) for a, b in zip(p, v)) and any(p):
    return None
  return '0' if s >= 0 else '1'


@sub('tree', tree_case(), quick=14000, thorough=160000,
     rule='a whole tree grown with scripted noisy counts against the partition model; non-trivial: at least one node was expanded')
def tree(case, ctx):
  d, depth, lo, hi = case['dim'], case['depth'], case['lo'], case['hi']
  pts, proj = [list(map(float, p)) for p in case['pts']], case['proj']
  if case['tagged']:  # a record number that no projection sees makes every record distinct
    d += 1
    pts = [p + [float(i)] for i, p in enumerate(pts)]
    proj = proj and [v + [0] for v in proj]
  a = math.inf if case['kind'] == 'exact' else 0.5
  cp = CORE.CoresetParam(Pcalc(1.0, a, 5000.0), CP.TreeParam(hi, lo, depth), 'x', 5000.0)
  data = arr(pts, d)
  before = data.copy()
  np.random.seed(case['seed'])
  counts = [0] if case['kind'] == 'exact' else case['noise']
  rec = Recorder(counts, case['kind'] != 'absolute')
  with rec:
    if proj is not None:
      root = TREE.LshTreeNode('', data, cp, LSH.SimHash(d, depth, np.array(proj, dtype=float).reshape(depth, d)), private_count=case['root'])
    else:
      root = TREE.root_node(CP.Data(data, 5000.0), cp, case['root'])
    if case['root'] is None:
      require(len(rec.count_calls) == 1, '%d counts of the root', len(rec.count_calls))
      require(root.private_count == rec.count_calls[0]['out'], 'root count %r', root.private_count)
    else:
      require(not rec.count_calls and root.private_count == case['root'], 'the given count of the root is not used')
    root_count = root.private_count
    before_calls = len(rec.count_calls)
    require(root.get_private_count() == root_count and len(rec.count_calls) == before_calls, 'asking for the count of the root again drew a new one')
    try:
      t = TREE.LshTree(root)
    except ValueError:
      require(root_count < 1, 'refused a root of count %r', root_count)
      ctx.label('refused')
      return
    drawn = len(rec.count_calls)
    for n in [n for lev in t.tree.values() for n in lev]:
      c = n.private_count
      require(n.get_private_count() == c and len(rec.count_calls) == drawn, 'asking for the count of node %r again drew a new one', n.hash_prefix)
  require(root_count >= 1, 'accepted a root of count %r', root_count)
  require(np.array_equal(data, before), 'the data was changed')
  vectors = root.sim_hash.projection_vectors
  require(np.shape(vectors) == (depth, d), 'shape %r of the projections', np.shape(vectors))
  exact = proj is not None
  levels = t.tree
  require(sorted(levels) == list(range(len(levels))) and len(levels) <= depth + 1, 'levels %r at depth %d', sorted(levels), depth)
  require(len(levels[0]) == 1 and levels[0][0].hash_prefix == '' and rows(levels[0][0].nonprivate_points) == rows(data), 'wrong root')
  require(levels[0][0].private_count == root_count, 'the root count changed')
  sizes, dropped_sizes, kept_counts = collections.Counter(), collections.Counter(), collections.Counter()
  if case['root'] is None:
    sizes[len(data)] += 1
    kept_counts[(len(data), root_count)] += 1
  expanded = 0
  for lev in range(len(levels)):
    nxt = {}
    for n in levels.get(lev + 1, []):
      require(n.hash_prefix not in nxt, 'two nodes %r', n.hash_prefix)
      require(len(n.hash_prefix) == lev + 1, 'node %r at level %d', n.hash_prefix, lev + 1)
      nxt[n.hash_prefix] = n
    for n in levels[lev]:
      require(n.coreset_param is cp or n.coreset_param == cp, 'node %r has other parameters', n.hash_prefix)
      if lev:
        require(n.private_count >= lo, 'node %r has private count %r below %d', n.hash_prefix, n.private_count, lo)
      branches = n.private_count >= hi and lev < depth
      groups = {'0': [], '1': [], None: []}
      if branches:
        expanded += 1
        for p in np.asarray(n.nonprivate_points).tolist():
          groups[side(p, vectors[lev], exact)].append(tuple(p))
      if groups[None]:
        ctx.label('rounding')
        return
      for c in '01':
        child = nxt.pop(n.hash_prefix + c, None)
        if not branches:
          require(child is None, 'node %r with private count %r at depth %d was expanded (threshold %d)', n.hash_prefix, n.private_count, depth, hi)
          continue
        g = groups[c]
        sizes[len(g)] += 1
        if child is None:
          dropped_sizes[len(g)] += 1
          continue
        require(rows(child.nonprivate_points) == collections.Counter(g), 'node %r has points %r, expected %r', child.hash_prefix,
                np.asarray(child.nonprivate_points).tolist(), g)
        kept_counts[(len(g), child.private_count)] += 1
    require(not nxt, 'nodes %r have no parent that branches', sorted(nxt))
  log = collections.Counter((c['n'], c['out']) for c in rec.count_calls)
  require(all(c['param'].laplace_param == a for c in rec.count_calls), 'counts with another noise parameter')
  require(collections.Counter(c['n'] for c in rec.count_calls) == sizes, 'groups of sizes %r were counted, expected one count each of %r',
          sorted(c['n'] for c in rec.count_calls), sorted(sizes.elements()))
  require(not kept_counts - log, 'private counts of nodes %r are not those drawn for groups of their size %r', kept_counts - log, log)
  rest = log - kept_counts
  require(all(out < lo for _, out in rest), 'a child with private count %r was dropped, threshold %d', max([o for _, o in rest], default=None), lo)
  # Leaves are the childless nodes.
  nodes = [n for lev in levels.values() for n in lev]
  pref = [n.hash_prefix for n in nodes]
  childless = sorted(p for p in pref if p + '0' not in pref and p + '1' not in pref)
  require(sorted(n.hash_prefix for n in t.leaves) == childless, 'leaves %r, expected %r', sorted(n.hash_prefix for n in t.leaves), childless)
  by = {n.hash_prefix: n for n in nodes}
  total = collections.Counter()
  for n in t.leaves:
    m = by[n.hash_prefix]
    require(n.private_count == m.private_count and rows(n.nonprivate_points) == rows(m.nonprivate_points), 'leaf %r is not its node', n.hash_prefix)
    total += rows(n.nonprivate_points)
  require(not total - rows(data), 'records in two leaves: %r', total - rows(data))
  if len(levels) - 1 < depth:
    require(expanded == 0 or all(n.private_count < hi for n in levels[len(levels) - 1]) or rest, 'the tree ends early')
  ctx.label(case['kind'], 'drops' if rest else 'no drops', 'levels %d' % len(levels))
  ctx.nontrivial(expanded)


@st.composite
def proj_case(draw):
  return dict(dim=draw(st.integers(2, 8)), depth=draw(st.integers(2, 20)), seed=draw(st.integers(0, 2 ** 31)))


@sub('projections', proj_case(), quick=200, thorough=4000,
     rule='projections drawn by the code are one vector per level, distinct and fixed; non-trivial: all')
def projections(case, ctx):
  np.random.seed(case['seed'])
  h = LSH.SimHash(case['dim'], case['depth'])
  v = np.array(h.projection_vectors)
  require(v.shape == (case['depth'], case['dim']), 'shape %r', v.shape)
  require(len(np.unique(v)) == v.size, 'repeated coordinates')
  pts = np.random.normal(size=(50, case['dim']))
  for L in range(case['depth']):
    for prefix in ('0' * L, '1' * L):
      g = h.group_by_next_hash(pts, prefix)
      want = pts @ v[L] >= 0
      require(np.array_equal(np.sort(g['0'], axis=0), np.sort(pts[want], axis=0)) and len(g['1']) == 50 - want.sum(), 'level %d', L)
  require(np.array_equal(h.projection_vectors, v), 'the projections changed')
  ctx.nontrivial()
