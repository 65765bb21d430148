"""C13: the event builder records exactly the composed multiset in order."""
import math

from hypothesis import strategies as st

import core
from core import require
import events as ev
from dp_accounting import dp_event as E
from dp_accounting import dp_event_builder

ASSUMPTIONS = ['events compare by value; counts are Python integers']
sub = core.Registry()

small = st.one_of(
    st.sampled_from([dict(t='gaussian', z=1.0), dict(t='gaussian', z=2.0), dict(t='laplace', z=1.0)]),
    st.sampled_from([dict(t='gaussian', z=1.0), dict(t='noop'), dict(t='nonprivate'), dict(t='unsupported'), dict(t='rr', p=0.5, k=3),
                     dict(t='mog', sd=1.0, sens=[0.0, 1.0], probs=[0.5, 0.5]), dict(t='tree', z=1.0, steps=[1, 2]),
                     dict(t='poisson', q=0.5, e=dict(t='gaussian', z=1.0)), dict(t='wor', n=5, m=2, e=dict(t='gaussian', z=1.0)),
                     dict(t='poisson', q=0.5, e=dict(t='self', e=dict(t='gaussian', z=1.0), n=2)),
                     dict(t='ras', e=dict(t='comp', es=[dict(t='gaussian', z=1.0), dict(t='noop')]), mean=2.0, shape=1.0)]))
tree = ev.nest(small, 3, counts=(1, 2, 3, 7))
op = st.one_of(
    st.tuples(st.just('compose'), small, st.sampled_from([1, 1, 2, 3, 10])),
    st.tuples(st.just('compose'), tree, st.sampled_from([1, 1, 2, 3])),
    st.tuples(st.just('default'), tree, st.just(1)),
    st.tuples(st.just('build'), st.integers(1, 2), st.none()),
    st.tuples(st.just('bad'), st.integers(0, 11), st.none())).map(list)
history = st.lists(op, min_size=1, max_size=10)


def expand(events):
  return [x for e in events for x in ev.seq_of_event(e)]


def bad_call(b, k):
  g = E.GaussianDpEvent(1.0)
  calls = [lambda: b.compose(g, 0), lambda: b.compose(g, -3), lambda: b.compose(g, 1.0), lambda: b.compose(g, '2'), lambda: b.compose('g'),
           lambda: b.compose(None), lambda: b.compose(E.GaussianDpEvent), lambda: b.compose([g]), lambda: b.compose(g.to_named_tuple()),
           lambda: b.compose(E.SelfComposedDpEvent(g, 0)), lambda: b.compose(g, None), lambda: b.compose(E.SelfComposedDpEvent(g, -1), 2)]
  try:
    calls[k]()
  except (TypeError, ValueError):
    return
  raise core.Violation('invalid compose call %d was accepted' % k)


@sub('model', history, quick=16000, thorough=400000,
     rule='histories of compose, build and refused calls against a list model; non-trivial: something composed after a build')
def model(case, ctx):
  b = dp_event_builder.DpEventBuilder()
  want, built = [], []
  after_build = False
  for kind, x, n in case:
    if kind == 'build':
      for _ in range(x):
        e = b.build()
        built.append((e, repr(e), list(want)))
      continue
    if kind == 'bad':
      before = b.build()
      bad_call(b, x)
      require(b.build() == before, 'a refused call changed the builder from %r to %r', before, b.build())
      continue
    e = ev.to_event(x)
    if kind == 'default':
      b.compose(e)
    else:
      b.compose(e, n)
    require(e == ev.to_event(x), 'composing changed the event into %r', e)
    want += ev.seq_of_event(e) * n
    after_build = after_build or bool(built)
  final = b.build()
  require(isinstance(final, E.DpEvent), 'built %r', final)
  got = ev.seq_of_event(final)
  require(got == want, 'built %r, which expands to %r and not to %r', final, got, want)
  require(b.build() == final, 'building twice gives %r and %r', final, b.build())
  for e, r, w in built:
    require(repr(e) == r, 'an event built earlier changed from %s to %r', r, e)
    require(ev.seq_of_event(e) == w, 'an earlier build gave %r instead of %r', e, w)
  ctx.nontrivial(after_build and len(case) > 2)


@sub('shape', history, quick=8000, thorough=200000,
     rule='the same histories: adjacent equal events become one repetition, a single event stays itself, nothing is the no-cost event')
def shape(case, ctx):
  b = dp_event_builder.DpEventBuilder()
  items = []
  for kind, x, n in case:
    if kind == 'build':
      b.build()
    if kind not in ('compose', 'default'):
      continue
    e = ev.to_event(x)
    b.compose(e, n)
    while isinstance(e, E.SelfComposedDpEvent):
      e, n = e.event, n * e.count
    if isinstance(e, E.NoOpDpEvent):
      continue
    if items and items[-1][0] == e:
      items[-1][1] += n
    else:
      items.append([e, n])
  got = b.build()
  want = [e if n == 1 else E.SelfComposedDpEvent(e, n) for e, n in items]
  if not want:
    require(got == E.NoOpDpEvent(), 'nothing composed gives %r', got)
  elif len(want) == 1:
    require(got == want[0], 'composing %r gives %r', want[0], got)
  else:
    require(got == E.ComposedDpEvent(want), 'composing %r gives %r', want, got)
  ctx.nontrivial(len(items) > 1 and any(n > 1 for _, n in items))
