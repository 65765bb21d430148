"""C10: accountants depend only on what was composed, not on how."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import events as ev
import gen
from pldlib import REL, INF
from dp_accounting.pld import pld_privacy_accountant
from dp_accounting.rdp import rdp_privacy_accountant

ASSUMPTIONS = [
    'Renyi values compared to a relative 1e-9; privacy-loss-distribution accountants to one interval of epsilon per '
    'composed leaf (repetition as a count is discretised once, separate calls each time) and 1e-9 of delta']
sub = core.Registry()
RELS = ['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL']
ORDERS = [1.5, 2, 3.25, 8, 33, 64, INF]


def leaf(kind, rel):
  ls = [gen.logf(0.5, 20).map(lambda z: dict(t='gaussian', z=z)), gen.logf(0.5, 20).map(lambda z: dict(t='laplace', z=z)),
        st.sampled_from([dict(t='gaussian', z=1.0), dict(t='gaussian', z=2.0), dict(t='laplace', z=1.0)])]
  if rel != 'ADD_OR_REMOVE_ONE':
    ls.append(ev.rr)
  if rel != 'REPLACE_ONE':
    ls.append(ev.poisson(gen.logf(0.5, 20).map(lambda z: dict(t='gaussian', z=z)), 0.01))
    if kind == 'pld':
      ls.append(ev.poisson(gen.logf(0.5, 20).map(lambda z: dict(t='laplace', z=z)), 0.01))
  if kind == 'pld':
    ls.append(ev.mog())
  else:
    g = gen.logf(0.5, 20).map(lambda z: dict(t='gaussian', z=z))
    ls.append(st.tuples(st.one_of(g, ls[1]), st.sampled_from([1.0, 2.0, 10.5]), st.sampled_from([0.0, 0.5, 1.0, INF])).map(
        lambda x: dict(t='ras', e=x[0], mean=x[1], shape=x[2])))
    if rel == 'REPLACE_ONE':
      ls.append(st.tuples(st.integers(2, 50), g).flatmap(
          lambda x: st.integers(1, x[0]).map(lambda m: dict(t='wor', n=x[0], m=m, e=x[1]))))
    if rel == 'REPLACE_SPECIAL':
      ls.append(st.tuples(gen.logf(0.5, 20), st.integers(1, 100)).map(lambda x: dict(t='tree', z=x[0], steps=x[1])))
  return st.one_of(ls)


def free(kind, rel):
  ls = [dict(t='noop'), dict(t='comp', es=[]), dict(t='self', e=dict(t='noop'), n=3),
        dict(t='comp', es=[dict(t='noop'), dict(t='comp', es=[])])]
  if rel != 'REPLACE_ONE':
    ls.append(dict(t='poisson', q=0.0, e=dict(t='gaussian', z=1.0)))
  if rel != 'ADD_OR_REMOVE_ONE':
    ls.append(dict(t='rr', p=0.25, k=1))
    ls.append(dict(t='rr', p=1.0, k=3))
  if kind == 'pld':
    ls.append(dict(t='mog', sd=1.0, sens=[0.0], probs=[1.0]))
  return st.sampled_from(ls)


@st.composite
def arrangement(draw, items):
  """A random way of composing the multiset `items` [(leaf, count)]: list of ops."""
  units = []
  for l, n in items:
    while n > 0:            # split the count
      k = draw(st.integers(1, n))
      units.append((l, k))
      n -= k
  units = draw(st.permutations(units))
  ops, i = [], 0
  while i < len(units):
    c = draw(st.integers(0, 5))
    l, k = units[i]
    if c == 0:
      ops.append([l, k])
      i += 1
    elif c == 1:
      ops.append([dict(t='self', e=l, n=k), 1])
      i += 1
    elif c == 2 and k <= 6:
      ops += [[l, 1]] * k
      i += 1
    elif c == 3:
      a = draw(st.sampled_from([d for d in range(1, k + 1) if k % d == 0]))
      ops.append([dict(t='self', e=dict(t='comp', es=[dict(t='self', e=l, n=a)]), n=k // a), 1])
      i += 1
    elif c == 4:
      a = draw(st.sampled_from([d for d in range(1, k + 1) if k % d == 0]))
      ops.append([dict(t='self', e=l, n=a), k // a])
      i += 1
    else:
      j = min(len(units), i + draw(st.integers(1, 3)))
      es = []
      for l, k in units[i:j]:
        es.append(l if k == 1 else dict(t='self', e=l, n=k))
      ops.append([dict(t='comp', es=es), 1])
      i = j
  return ops


@st.composite
def history(draw):
  kind = draw(st.sampled_from(['pld', 'rdp', 'rdp', 'rdp']))
  rel = draw(st.sampled_from(RELS))
  items = draw(st.lists(st.tuples(leaf(kind, rel), st.sampled_from([1, 1, 2, 3, 4, 6, 12])), min_size=1, max_size=4))
  a, b = draw(arrangement(items)), draw(arrangement(items))
  for ops in (a, b):
    for _ in range(draw(st.integers(0, 2))):
      ops.insert(draw(st.integers(0, len(ops))), [draw(free(kind, rel)), draw(st.integers(1, 3))])
    for _ in range(draw(st.integers(0, 2))):
      ops.insert(draw(st.integers(0, len(ops))), ['query', draw(st.integers(0, 6))])
  return dict(kind=kind, rel=rel, items=[list(x) for x in items], a=a, b=b, h=draw(st.sampled_from([0.02, 0.05])),
              other=draw(st.booleans()))


def fresh(case):
  if case['kind'] == 'pld':
    return pld_privacy_accountant.PLDAccountant(REL[case['rel']], value_discretization_interval=case['h'])
  orders = np.array(ORDERS) if case.get('other') else list(ORDERS)
  acc = rdp_privacy_accountant.RdpAccountant(orders, REL[case['rel']])
  if case.get('other'):
    scribble(orders)
  else:
    orders[:] = [0.25] * len(orders)
  return acc


def scribble(a):
  try:
    a[...] = 0.25
  except ValueError:      # handed out read-only
    pass


def query(acc, k):
  if k == 0:
    acc.get_epsilon(1e-5)
  elif k == 1:
    acc.get_delta(1.0)
  elif k == 2:
    acc.ledger  # pylint: disable=pointless-statement
  elif k == 4:      # a caller may do what it likes with what it was given
    for name in ('rdp', 'orders'):
      if hasattr(acc, name):
        scribble(getattr(acc, name))
  elif k == 5 and hasattr(acc, 'get_epsilon_and_optimal_order'):
    acc.get_epsilon_and_optimal_order(1e-5)
    acc.get_delta_and_optimal_order(1.0)
  else:
    acc.supports(ev.to_event(dict(t='comp', es=[dict(t='gaussian', z=1.0), dict(t='unsupported')])))


def run(acc, ops, other=None):
  for s, n in ops:
    if s == 'query':
      query(acc, n)
      continue
    r = acc.compose(ev.to_event(s), n)
    require(r is acc, 'compose returned %r', r)
    if other is not None:
      other.compose(ev.to_event(dict(t='gaussian', z=0.7)), 2)
  return acc


def guarantee(acc):
  es, ds = (0.0, 0.5, 2.0, 8.0), (1e-8, 1e-5, 0.01, 0.3)
  out = dict(delta=[float(acc.get_delta(e)) for e in es], eps=[float(acc.get_epsilon(d)) for d in ds])
  if hasattr(acc, 'rdp'):
    out['rdp'] = [float(x) for x in acc.rdp]
  return out


def span(l):
  if l['t'] in ('poisson',):
    return span(l['e'])
  return 0


def same(case, A, B, steps, what):
  x, y = guarantee(A), guarantee(B)
  if case['kind'] == 'rdp':
    for a, b in zip(x['rdp'], y['rdp']):
      require(a == b or abs(a - b) <= 1e-9 * max(a, b) + 1e-14, '%s: Renyi divergences %r and %r', what, x['rdp'], y['rdp'])
    for k in ('eps', 'delta'):
      for a, b in zip(x[k], y[k]):
        require(a == b or abs(a - b) <= 1e-7 * max(a, b) + 1e-9, '%s: %s %r and %r', what, k, x[k], y[k])
    return
  tol = steps * case['h'] * 1.01 + 1e-6
  for P, Q, p in ((A, B, x), (B, A, y)):
    for e, d in zip((0.0, 0.5, 2.0, 8.0), p['delta']):
      o = Q.get_delta(e - tol)
      require(d <= o + 1e-8, '%s: delta(%r) is %r in one and %r in the other, at %r less', what, e, d, o, tol)
    for d, e in zip((1e-8, 1e-5, 0.01, 0.3), p['eps']):
      o = Q.get_epsilon(d * (1 - 1e-6) - 1e-9 if d > 1e-8 else 0.9 * d)
      require(e <= o + tol, '%s: epsilon(%r) is %r in one and %r in the other', what, d, e, o)


@sub('arrangement', history(), quick=700, thorough=20000,
     rule='one multiset of events composed in two random ways (order, counts, repetition nodes, groups, free events, '
          'interleaved queries, answers and arguments overwritten by the caller, a second accountant in between); non-trivial: at least two units')
def arrangement_check(case, ctx):
  total = sum(n for _, n in case['items'])
  A = run(fresh(case), case['a'])
  other = fresh(case) if case['other'] else None
  B = run(fresh(case), case['b'], other)
  ctx.label(case['kind'], case['rel'], *['leaf ' + l['t'] for l, _ in case['items']])
  same(case, A, B, total, 'two arrangements of the same events')
  x = guarantee(A)
  y = guarantee(A)
  require(x == y, 'repeated queries differ: %r and %r', x, y)
  C = fresh(case)
  led = A.ledger
  C.compose(led)
  same(case, A, C, total, 'composing the recorded ledger into a fresh accountant')
  require(guarantee(A) == x, 'an accountant changed while another was used')
  if other is not None:
    D = fresh(case)
    for s, _ in case['b']:
      if s != 'query':
        D.compose(ev.to_event(dict(t='gaussian', z=0.7)), 2)
    same(case, other, D, 0, 'an accountant used alongside another')
  got = sorted(map(repr, ev.seq_of_event(led)))
  paid = [x for x in case['a'] if x[0] != 'query']
  want = sorted(map(repr, [e for s, n in paid for e in map(ev.to_event, ev.sequence(s) * n)]))
  require(got == want, 'the ledger %r does not record what was composed', led)
  ctx.nontrivial(total > 1)


@sub('growth', history(), quick=400, thorough=12000,
     rule='reported epsilon and delta never decrease along a history; free events leave them unchanged')
def growth(case, ctx):
  acc = fresh(case)
  prev = guarantee(acc)
  require(prev['eps'] == [0] * 4 and prev['delta'] == [0] * 4, 'a fresh accountant reports %r', prev)
  for i, (s, n) in enumerate(case['a']):
    if s == 'query':
      query(acc, n)
    else:
      acc.compose(ev.to_event(s), n)
    cur = guarantee(acc)
    for k in prev:
      for a, b in zip(prev[k], cur[k]):
        require(core.not_less(b, a), '%s decreased from %r to %r at step %d', k, prev[k], cur[k], i)
    if s == 'query':
      require(cur == prev, 'a query changed the guarantee from %r to %r', prev, cur)
    elif all(l['t'] == 'noop' or l.get('q') == 0 or l.get('k') == 1 or l.get('p') == 1 or l.get('sens') == [0.0]
             for l, _ in ev.leaves(s)):
      for k in prev:
        for a, b in zip(prev[k], cur[k]):
          require(a == b or abs(a - b) <= 1e-9 * max(1, abs(a)), 'a free event changed %s from %r to %r', k, prev[k], cur[k])
    else:
      ctx.nontrivial(i > 0)
    prev = cur
