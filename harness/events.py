"""Privacy events as plain JSON, their generator and their expansion into leaves (C06-C13, C27)."""
import math

from hypothesis import strategies as st

import gen
from dp_accounting import dp_event as E

INF = math.inf
NOISE_FREE = dict(gaussian='z', laplace='z')


def to_event(s):
  """JSON spec -> DpEvent."""
  t = s['t']
  if t == 'noop':
    return E.NoOpDpEvent()
  if t == 'nonprivate':
    return E.NonPrivateDpEvent()
  if t == 'unsupported':
    return E.UnsupportedDpEvent()
  if t == 'gaussian':
    return E.GaussianDpEvent(s['z'])
  if t == 'laplace':
    return E.LaplaceDpEvent(s['z'])
  if t == 'rr':
    return E.RandomizedResponseDpEvent(s['p'], s['k'])
  if t == 'mog':
    return E.MixtureOfGaussiansDpEvent(s['sd'], s['sens'], s['probs'])
  if t == 'poisson':
    return E.PoissonSampledDpEvent(s['q'], to_event(s['e']))
  if t == 'wor':
    return E.SampledWithoutReplacementDpEvent(s['n'], s['m'], to_event(s['e']))
  if t == 'wr':
    return E.SampledWithReplacementDpEvent(s['n'], s['m'], to_event(s['e']))
  if t == 'tree':
    return E.SingleEpochTreeAggregationDpEvent(s['z'], s['steps'])
  if t == 'ras':
    return E.RepeatAndSelectDpEvent(to_event(s['e']), s['mean'], s['shape'])
  if t == 'self':
    return E.SelfComposedDpEvent(to_event(s['e']), s['n'])
  if t == 'comp':
    return E.ComposedDpEvent([to_event(e) for e in s['es']])
  raise ValueError(t)


def leaves(s, n=1):
  """Flattens repetition and composition: yields (leaf spec, count), in order."""
  if s['t'] == 'self':
    yield from leaves(s['e'], n * s['n'])
  elif s['t'] == 'comp':
    for e in s['es']:
      yield from leaves(e, n)
  else:
    yield s, n


def sequence(s):
  """Flattened elementary sequence in order, NoOps dropped: list of leaf specs with repetition unrolled."""
  if s['t'] == 'noop':
    return []
  if s['t'] == 'self':
    return sequence(s['e']) * s['n']
  if s['t'] == 'comp':
    return [x for e in s['es'] for x in sequence(e)]
  return [s]


def seq_of_event(e):
  """The same for a DpEvent object (elements are the events themselves)."""
  if isinstance(e, E.NoOpDpEvent):
    return []
  if isinstance(e, E.SelfComposedDpEvent):
    return seq_of_event(e.event) * e.count
  if isinstance(e, E.ComposedDpEvent):
    return [x for c in e.events for x in seq_of_event(c)]
  return [e]


def node_count(s):
  if s['t'] in ('self', 'poisson', 'wor', 'wr', 'ras'):
    return 1 + node_count(s['e'])
  if s['t'] == 'comp':
    return 1 + sum(node_count(e) for e in s['es'])
  return 1


@st.composite
def nest(draw, leaf, depth=3, counts=(1, 2, 3, 5), max_items=3):
  """A random composition tree over the given leaf strategy."""
  if depth == 0:
    return draw(leaf)
  c = draw(st.integers(0, 5))
  if c <= 2:
    return draw(leaf)
  if c == 3:
    return dict(t='self', e=draw(nest(leaf, depth - 1, counts, max_items)), n=draw(st.sampled_from(counts)))
  k = draw(st.integers(0, max_items))
  return dict(t='comp', es=[draw(nest(leaf, depth - 1, counts, max_items)) for _ in range(k)])


@st.composite
def many_gaussians(draw, lo, hi):
  """Many weak Gaussians (quiet alone, not together): long compositions, huge repetition counts, or both."""
  z = draw(gen.logf(lo, hi))
  parts = draw(st.integers(1, 3))
  es = []
  for _ in range(parts):
    kind = draw(st.sampled_from(['repeat', 'wide', 'nested']))
    k = draw(st.integers(5, 40)) if kind == 'wide' else 1
    n = 1 if kind == 'wide' else draw(st.one_of(gen.logf(1e2, 1e10).map(int), st.sampled_from([10**4, 10**6, 10**8])))
    f = draw(st.lists(st.floats(0.8, 1.5), min_size=k, max_size=k))
    g = [dict(t='gaussian', z=z * math.sqrt(parts * k * n) * x) for x in f]
    if kind == 'wide':
      es.append(dict(t='comp', es=g))
    elif kind == 'repeat':
      es.append(dict(t='self', e=g[0], n=n))
    else:
      r = math.isqrt(n)
      es.append(dict(t='self', n=r, e=dict(t='comp', es=[dict(t='self', e=g[0], n=n // r)])))
  return es[0] if parts == 1 else dict(t='comp', es=es)


gaussian = gen.logf(0.3, 30).map(lambda z: dict(t='gaussian', z=z))
laplace = gen.logf(0.1, 30).map(lambda z: dict(t='laplace', z=z))
rr = st.tuples(gen.prob(0.01, one=False), st.integers(2, 8)).map(lambda x: dict(t='rr', p=x[0], k=x[1]))
noop = st.just(dict(t='noop'))
nonprivate = st.sampled_from([dict(t='nonprivate'), dict(t='gaussian', z=0.0), dict(t='laplace', z=0.0)])


@st.composite
def mog(draw):
  n = draw(st.integers(1, 4))
  sens = draw(st.lists(st.sampled_from([0.0, 0.5, 1.0, 2.0, 1.5]), min_size=n, max_size=n))
  if max(sens) == 0:
    sens[0] = 1.0
  w = draw(st.lists(st.integers(1, 20), min_size=n, max_size=n))
  return dict(t='mog', sd=max(sens) / draw(gen.logf(0.1, 3)), sens=sens, probs=[x / sum(w) for x in w])


def poisson(e, lo=1e-3):
  return st.tuples(gen.prob(lo), e).map(lambda x: dict(t='poisson', q=x[0], e=x[1]))


def each_leaf(change):
  """A function that applies `change` to every event of a history case (None if nothing changes)."""
  def walk(x):
    if isinstance(x, dict):
      y = {k: walk(v) for k, v in x.items()}
      return change(y)
    if isinstance(x, list):
      return [walk(v) for v in x]
    return x

  def apply(c):
    evs = walk(c['evs'])
    if evs == c['evs']:
      return None
    c['evs'] = evs
    return c
  return apply
