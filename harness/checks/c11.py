"""C11: unsupported or failing compositions are refused without losing privacy loss."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import events as ev
import gen
from pldlib import REL, INF
from dp_accounting import privacy_accountant
from dp_accounting.pld import pld_privacy_accountant
from dp_accounting.rdp import rdp_privacy_accountant
from checks import c10

ASSUMPTIONS = ['numerical parameters within the documented domain for the support question; invalid ones only for failures']
sub = core.Registry()
Unsupported = privacy_accountant.UnsupportedEventError

g = gen.logf(0.5, 20).map(lambda z: dict(t='gaussian', z=z))
lap = gen.logf(0.5, 20).map(lambda z: dict(t='laplace', z=z))
base = st.one_of(g, lap, ev.rr, st.just(dict(t='noop')), st.just(dict(t='nonprivate')), st.just(dict(t='unsupported')), ev.mog(), g,
                 st.tuples(gen.logf(0.5, 20), st.one_of(st.integers(1, 50), st.lists(st.integers(1, 9), min_size=1, max_size=3))).map(
                     lambda x: dict(t='tree', z=x[0], steps=x[1])))


@st.composite
def any_event(draw, depth=3):
  """Any event type around any other, supported or not."""
  if depth == 0:
    return draw(base)
  c = draw(st.integers(0, 9))
  sub_ = any_event(depth - 1)
  if c <= 3:
    return draw(base)
  if c == 4:
    return dict(t='poisson', q=draw(gen.prob(0.01)), e=draw(st.one_of(g, lap, sub_, ev.nest(g, 1))))
  if c == 5:
    n = draw(st.integers(2, 30))
    return dict(t=draw(st.sampled_from(['wor', 'wor', 'wr'])), n=n, m=draw(st.integers(1, n)), e=draw(st.one_of(g, sub_, ev.nest(g, 2))))
  if c == 6:
    return dict(t='ras', e=draw(sub_), mean=draw(st.sampled_from([1.0, 3.0, 10.0])), shape=draw(st.sampled_from([0.0, 1.0, 0.5, INF])))
  if c == 7:
    return dict(t='self', e=draw(sub_), n=draw(st.sampled_from([1, 2, 3, 1, 2, 3, 2, 0, -1])))
  return dict(t='comp', es=[draw(sub_) for _ in range(draw(st.integers(0, 3)))])


SETUPS = [(k, r) for k in ('pld', 'rdp') for r in c10.RELS]


def leaves(s):
  if 'es' in s:
    return sum(map(leaves, s['es']))
  return leaves(s['e']) if 'e' in s else 1


def swap(s, i, new):
  """s with its i-th leaf replaced."""
  if 'es' in s:
    out = []
    for e in s['es']:
      n = leaves(e)
      out.append(swap(e, i, new) if 0 <= i < n else e)
      i -= n
    return dict(s, es=out)
  if 'e' in s:
    return dict(s, e=swap(s['e'], i, new))
  return new if i == 0 else s


@st.composite
def asked(draw, e):
  """Events that the accountant is asked about before: others, and ones of the same structure."""
  out = []
  for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
    n = leaves(e)
    if n and draw(st.integers(0, 3)):
      a = swap(e, draw(st.integers(0, n - 1)), draw(base))
      out.append(dict(t='self', e=a, n=2) if draw(st.integers(0, 5)) == 0 else a)
    else:
      out.append(draw(any_event(2)))
  return out


@st.composite
def case_(draw):
  kind, rel = draw(st.sampled_from(SETUPS))
  e = draw(any_event())
  return dict(kind=kind, rel=rel, h=0.05, pre=draw(st.lists(st.tuples(c10.leaf(kind, rel), st.integers(1, 3)), min_size=0, max_size=2)),
              asked=draw(asked(e)), e=e, n=draw(st.sampled_from([1, 1, 2, 5])))


def expect_supported(s, kind, rel):
  """Support by the documentation of the accountants."""
  t = s['t']
  if t in ('noop', 'nonprivate', 'gaussian', 'laplace'):
    return True
  if t == 'unsupported':
    return False
  if t == 'self':
    return expect_supported(s['e'], kind, rel)
  if t == 'comp':
    return all(expect_supported(e, kind, rel) for e in s['es'])
  return None


def bad_count(s):
  return (s['t'] == 'self' and s['n'] < 1) or ('e' in s and bad_count(s['e'])) or any(bad_count(e) for e in s.get('es', []))


def state(acc):
  return repr(acc.ledger), c10.guarantee(acc)


def setup(case):
  acc = c10.fresh(case)
  for s, n in case['pre']:
    acc.compose(ev.to_event(s), n)
  return acc


def gauss_only(s):
  return s['t'] == 'gaussian' or (s['t'] == 'self' and gauss_only(s['e'])) or (
      s['t'] == 'comp' and all(gauss_only(e) for e in s['es']))


def clearly(s, kind, rel):
  """True / False where the documentation settles it, None otherwise."""
  t = s['t']
  d = expect_supported(s, kind, rel) if t not in ('self', 'comp') else None
  if t == 'self':
    return clearly(s['e'], kind, rel)
  if t == 'comp':
    r = [clearly(e, kind, rel) for e in s['es']]
    return False if False in r else (None if None in r else True)
  if d is not None:
    return d
  if t == 'rr':
    return rel != 'ADD_OR_REMOVE_ONE'
  if t == 'mog':
    return kind == 'pld'
  if t == 'poisson':
    if rel == 'REPLACE_ONE':
      return False
    if kind == 'rdp':
      return gauss_only(s['e'])
    return s['e']['t'] in ('gaussian', 'laplace')
  if t == 'wr':
    return False
  if t == 'wor':
    return kind == 'rdp' and rel == 'REPLACE_ONE' and gauss_only(s['e'])
  if t == 'tree':
    return kind == 'rdp' and rel == 'REPLACE_SPECIAL'
  if t == 'ras':
    return kind == 'rdp' and clearly(s['e'], kind, rel)
  return None


@sub('support', case_(), quick=4000, thorough=100000,
     rule='any event type nested in any other, for both accountants and all relations: supports() agrees with compose(), '
          'refused events change nothing; non-trivial: an unsupported part at depth two or more')
def support(case, ctx):
  acc = setup(case)
  before = state(acc)
  for a in case.get('asked', []):
    try:
      s = acc.supports(ev.to_event(a))
    except (ValueError, ZeroDivisionError, OverflowError, TypeError) as x:
      require(bad_count(a), 'supports() raised %r', x)
      continue
    w = clearly(a, case['kind'], case['rel'])
    if w is not None and not bad_count(a):
      require(s == w, 'supports() is %r for an event that the accountant %s account for under %s', s, 'can' if w else 'cannot', case['rel'])
  e = ev.to_event(case['e'])
  valid = not bad_count(case['e'])
  try:
    s = acc.supports(e)
  except (ValueError, ZeroDivisionError, OverflowError, TypeError) as x:
    require(not valid, 'supports() raised %r', x)
    s = None
  require(s in (True, False, None), 'supports returned %r', s)
  require(state(acc) == before, 'supports() changed the accountant')
  ctx.label('%s %s %s' % (case['kind'], case['rel'], 'supported' if s else 'unsupported'))
  w = clearly(case['e'], case['kind'], case['rel'])
  if w is not None and s is not None:
    require(s == w, 'supports() is %r for an event that the accountant %s account for under %s', s,
            'can' if w else 'cannot', case['rel'])
  try:
    acc.compose(e, case['n'])
  except Unsupported:
    require(not s, 'compose refuses an event that supports() accepts')
    require(s is not None, 'supports() failed on an event that compose() refuses')
    require(state(acc) == before, 'a refused composition changed the accountant from %r to %r', before, state(acc))
    ctx.nontrivial(ev.node_count(case['e']) >= 3)
    # the accountant still works
    acc.compose(ev.to_event(dict(t='gaussian', z=3.0)))
    return
  except (ValueError, ZeroDivisionError, OverflowError, TypeError) as x:
    require(not valid, 'composing raised %r', x)
    require(s is not False, 'an event that supports() denies raised %r instead of being reported as unsupported', x)
    require(repr(acc.ledger) == before[0] or s is not None, 'a failed support question let the event into the ledger')
    ctx.label('invalid count')
    return
  require(s or (s is None and not valid), 'compose accepts an event that supports() denies')
  if not valid:
    ctx.label('invalid count accepted')
    return
  after = state(acc)
  for k in before[1]:
    for a, b in zip(before[1][k], after[1][k]):
      require(core.not_less(b, a), '%s dropped from %r to %r', k, before[1][k], after[1][k])
  ctx.nontrivial(ev.node_count(case['e']) >= 3)


@sub('not_events', case_(), quick=600, thorough=10000,
     rule='things that are not events and invalid counts are refused and change nothing')
def not_events(case, ctx):
  acc = setup(case)
  before = state(acc)
  ok = ev.to_event(dict(t='gaussian', z=2.0))
  e = ev.to_event(case['e'])
  calls = [lambda: acc.compose('GaussianDpEvent'), lambda: acc.compose(None), lambda: acc.compose(type(ok)),
           lambda: acc.compose([ok]), lambda: acc.compose(ok.to_named_tuple()), lambda: acc.compose(1.0),
           lambda: acc.compose(ok, 0), lambda: acc.compose(ok, -1), lambda: acc.compose(ok, 1.5), lambda: acc.compose(ok, '2'),
           lambda: acc.compose(ok, None), lambda: acc.compose(e, 0), lambda: acc.compose(e, -3), lambda: acc.compose(e, 2.5),
           lambda: acc.compose(ev.to_event(dict(t='self', e=dict(t='gaussian', z=1.0), n=0))),
           lambda: acc.compose(ev.to_event(dict(t='self', e=dict(t='gaussian', z=1.0), n=-2))),
           lambda: acc.compose(ev.to_event(dict(t='self', e=dict(t='self', e=dict(t='laplace', z=1.0), n=0), n=2)))]
  for i, f in enumerate(calls):
    try:
      f()
    except (TypeError, ValueError, Unsupported):
      require(state(acc) == before, 'refused call %d changed the accountant from %r to %r', i, before, state(acc))
      continue
    raise core.Violation('call %d (not an event, or an invalid count) was accepted' % i)
  ctx.nontrivial(bool(case['pre']))


bad_leaf = st.sampled_from([
    dict(t='gaussian', z=-1.0), dict(t='laplace', z=-1.0), dict(t='rr', p=-0.5, k=3), dict(t='rr', p=1.5, k=3), dict(t='rr', p=0.5, k=0),
    dict(t='poisson', q=-0.1, e=dict(t='gaussian', z=1.0)), dict(t='poisson', q=1.5, e=dict(t='gaussian', z=1.0)),
    dict(t='poisson', q=0.5, e=dict(t='gaussian', z=-1.0)), dict(t='poisson', q=2.0, e=dict(t='laplace', z=1.0)),
    dict(t='mog', sd=-1.0, sens=[1.0], probs=[1.0]), dict(t='mog', sd=1.0, sens=[1.0, 2.0], probs=[0.5, 0.2]),
    dict(t='mog', sd=1.0, sens=[-1.0], probs=[1.0]), dict(t='wor', n=3, m=5, e=dict(t='gaussian', z=1.0)),
    dict(t='wor', n=0, m=0, e=dict(t='gaussian', z=1.0)), dict(t='tree', z=-1.0, steps=3), dict(t='tree', z=1.0, steps=-3),
    dict(t='tree', z=1.0, steps=[2, -1]), dict(t='tree', z=1.0, steps=0), dict(t='ras', e=dict(t='gaussian', z=1.0), mean=0.5, shape=1.0),
    dict(t='ras', e=dict(t='gaussian', z=1.0), mean=2.0, shape=-1.0), dict(t='ras', e=dict(t='laplace', z=-1.0), mean=2.0, shape=1.0),
    dict(t='self', e=dict(t='laplace', z=1.0), n=0), dict(t='laplace', z=math.nan), dict(t='ras', e=dict(t='tree', z=-1.0, steps=2), mean=2.0, shape=INF)])


@st.composite
def fail_case(draw):
  kind, rel = draw(st.sampled_from(SETUPS))
  good = c10.leaf(kind, rel)
  bad = draw(bad_leaf)
  w = draw(st.integers(0, 4))
  if w == 1:
    bad = dict(t='comp', es=[draw(good), bad])
  elif w == 2:
    bad = dict(t='comp', es=[bad, draw(good)])
  elif w == 3:
    bad = dict(t='self', e=dict(t='comp', es=[draw(good), dict(t='comp', es=[bad])]), n=2)
  elif w == 4:
    bad = dict(t='ras', e=dict(t='comp', es=[draw(good), bad]), mean=2.0, shape=draw(st.sampled_from([1.0, INF])))
  return dict(kind=kind, rel=rel, h=0.05, pre=draw(st.lists(st.tuples(good, st.integers(1, 3)), min_size=1, max_size=2)), e=bad,
              n=draw(st.sampled_from([1, 2])), post=draw(good))


@sub('failures', fail_case(), quick=1600, thorough=40000,
     rule='events whose parameters make the accounting itself fail, alone or inside others: the loss reported for what was '
          'composed before never drops; non-trivial: the composition raised')
def failures(case, ctx):
  acc = setup(case)
  before = state(acc)
  try:
    acc.compose(ev.to_event(case['e']), case['n'])
  except Unsupported:
    require(state(acc) == before, 'a refused composition changed the accountant')
    return
  except Exception as e:  # pylint: disable=broad-except
    ctx.label(type(e).__name__)
    ctx.nontrivial()
  else:
    ctx.label('accepted')
    return
  after = state(acc)
  for k in before[1]:
    for a, b in zip(before[1][k], after[1][k]):
      require(core.not_less(b, a), '%s dropped from %r to %r when a composition failed', k, before[1][k], after[1][k])
  acc.compose(ev.to_event(case['post']))
  ref = c10.fresh(case)
  for s, n in case['pre']:
    ref.compose(ev.to_event(s), n)
  ref.compose(ev.to_event(case['post']))
  x, y = c10.guarantee(acc), c10.guarantee(ref)
  for k in x:
    for a, b in zip(x[k], y[k]):
      require(core.not_less(a, b), 'after a failed composition and another event %s is %r, without the failure %r', k, x[k], y[k])
