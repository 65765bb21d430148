"""C06: the PLD accountant reports valid, tight guarantees for any event history."""
import math

from hypothesis import strategies as st

import core
from core import require
import events as ev
import gen
import oracle
import pldlib
import plref
from pldlib import REL, INF
from dp_accounting.pld import pld_privacy_accountant

ASSUMPTIONS = [
    'the true composed curve is bracketed by an independent discretisation (losses rounded down / up, FFT)',
    'slack of one accountant interval of epsilon per composed leaf, 1e-9 absolute delta for truncation']
sub = core.Registry()
TOL = 2e-9
FREE = ('noop',)


def leaf_strategy(relation):
  ls = [ev.gaussian, ev.gaussian, ev.laplace, ev.mog(), ev.noop]
  if relation != 'ADD_OR_REMOVE_ONE':
    ls += [ev.rr, ev.rr]
  if relation != 'REPLACE_ONE':
    ls += [ev.poisson(ev.gaussian), ev.poisson(ev.gaussian), ev.poisson(ev.laplace)]
  return st.one_of(ls)


@st.composite
def history(draw):
  rel = draw(st.sampled_from(['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL']))
  leaf = leaf_strategy(rel)
  n = draw(st.integers(1, 3))
  evs = [[draw(ev.nest(leaf, 2, (1, 2, 3, 4))), draw(st.sampled_from([1, 1, 2, 3, 10, 40]))] for _ in range(n)]
  if draw(st.integers(0, 9)) == 0:
    evs.insert(draw(st.integers(0, n)), [draw(st.sampled_from([dict(t='poisson', q=0.0, e=dict(t='gaussian', z=1.0)),
                                                              dict(t='mog', sd=1.0, sens=[0.0], probs=[1.0])]
                                                             if rel != 'REPLACE_ONE' else
                                                             [dict(t='rr', p=0.3, k=1), dict(t='mog', sd=1.0, sens=[0.0], probs=[1.0])])), 2])
  return dict(rel=rel, evs=evs, h=draw(st.sampled_from([1e-3, 2e-3, 0.01, 0.03, 1e-4])),
              fr=draw(st.lists(st.floats(-0.5, 1.0), min_size=1, max_size=4)),
              ds=draw(st.lists(gen.logf(1e-8, 0.5), min_size=1, max_size=3)))


def parts_of(case):
  out = []
  for s, n in case['evs']:
    for l, c in ev.leaves(s, n):
      if l['t'] in FREE or (l['t'] == 'poisson' and l['q'] == 0) or (l['t'] == 'rr' and l['k'] == 1) or (
          l['t'] == 'mog' and l['sens'] == [0.0]):
        continue
      l = dict(l)
      if l['t'] == 'rr':
        l['relation'] = case['rel']
      out.append((l, c))
  return out


def leaf_span(l):
  if l['t'] == 'poisson':
    return leaf_span(l['e'])
  if l['t'] == 'gaussian':
    r = 1 / l['z']
  elif l['t'] == 'mog':
    r = max(l['sens']) / l['sd']
  elif l['t'] == 'laplace':
    return 2 / l['z']
  else:
    return 2 * math.log(l['k'] * (1 - l['p']) / l['p'] + 1)
  return r * r + 18 * r


@sub('history', history(), quick=300, thorough=10000,
     rule='random event trees and repetitions under each neighbouring relation; delta and epsilon against a bracketing '
          'reference of the true composed mechanism; non-trivial: at least two costly leaves and a true delta in (1e-8, 0.99)')
def history_check(case, ctx):
  parts = parts_of(case)
  total = sum(n for _, n in parts)
  spans = [leaf_span(l) for l, _ in parts]
  span = max(spans + [1e-3])
  full = sum(s * n for s, (_, n) in zip(spans, parts))
  if total > 400 or span > 100:
    ctx.label('skipped: too large')
    return
  h = case['h']
  while span / h > 8000 or full / h > 400000:
    h *= 3
  acc = pld_privacy_accountant.PLDAccountant(REL[case['rel']], value_discretization_interval=h)
  for s, n in case['evs']:
    acc.compose(ev.to_event(s), n)
  gk = [l for l, _ in parts]
  ctx.label(case['rel'], *['leaf ' + (l['t'] if l['t'] != 'poisson' else 'poisson ' + l['e']['t']) for l in gk])
  hr = h
  while span / hr > 2500 or full / hr > 100000:
    hr *= 1.5
  br = plref.Bracket(parts, hr)
  if not parts:
    for e in (0.0, 1.0):
      require(acc.get_delta(e) == 0, 'a history without cost reports delta(%r) = %r', e, acc.get_delta(e))
    for d in case['ds'] + [0.0]:
      require(acc.get_epsilon(d) == 0, 'a history without cost reports epsilon(%r) = %r', d, acc.get_epsilon(d))
    return
  # scale of the composed curve: where the upper bound gets small
  lo, hi = 0.0, 1.0
  while br.up(hi) > 1e-9 and hi < 500:
    hi *= 2
  for _ in range(12):
    m = (lo + hi) / 2
    lo, hi = (m, hi) if br.up(m) > 1e-9 else (lo, m)
  top = hi
  slack = total * h * (1 + 1e-9) + 1e-9
  for e in [0.0, top] + [f * top for f in case['fr']]:
    d = acc.get_delta(e)
    low = br.low(e)
    require(d >= low - TOL, 'get_delta(%r) = %r below the true delta (at least %r)', e, d, low)
    up = br.up(e - slack)
    require(d <= up + TOL, 'get_delta(%r) = %r above the true delta (at most %r, %d intervals lower)', e, d, up, total)
    ctx.nontrivial(total > 1 and 1e-8 < low and d < 0.99)
  for dl in case['ds']:
    e = acc.get_epsilon(dl)
    require(0 <= e, 'get_epsilon(%r) = %r', dl, e)
    low = br.low(e) if e < INF else 0.0
    require(low <= dl + TOL, 'get_epsilon(%r) = %r, but the true delta there is at least %r', dl, e, low)
    if e > slack:
      up = br.up(e - slack - 1e-6) if e < INF else br.dirs['remove'][1][2]
      require(up >= dl * (1 - 1e-6) - TOL, 'get_epsilon(%r) = %r is loose: true delta %r at %d intervals less', dl, e, up, total)


@st.composite
def np_case(draw):
  c = draw(history())
  rel = c['rel']
  opts = [dict(t='nonprivate'), dict(t='gaussian', z=0.0), dict(t='laplace', z=0.0),
          dict(t='mog', sd=0.0, sens=[0.0, 1.0], probs=[0.5, 0.5])]
  if rel != 'ADD_OR_REMOVE_ONE':
    opts.append(dict(t='rr', p=0.0, k=3))
  if rel != 'REPLACE_ONE':
    opts += [dict(t='poisson', q=0.5, e=dict(t='gaussian', z=0.0)), dict(t='poisson', q=0.5, e=dict(t='laplace', z=0.0))]
  bad = draw(st.sampled_from(opts))
  w = draw(st.integers(0, 3))
  if w == 1:
    bad = dict(t='self', e=bad, n=2)
  elif w == 2:
    bad = dict(t='comp', es=[dict(t='noop'), bad])
  elif w == 3:
    bad = dict(t='comp', es=[dict(t='self', e=dict(t='comp', es=[bad]), n=3), draw(leaf_strategy(rel))])
  c['evs'].insert(draw(st.integers(0, len(c['evs']))), [bad, draw(st.sampled_from([1, 2]))])
  c['h'] = 0.05
  return c


@sub('nonprivate', np_case(), quick=160, thorough=2500,
     rule='a non-private event anywhere in the history gives infinite epsilon and delta one')
def nonprivate(case, ctx):
  acc = pld_privacy_accountant.PLDAccountant(REL[case['rel']], value_discretization_interval=case['h'])
  for s, n in case['evs']:
    acc.compose(ev.to_event(s), n)
  for d in case['ds'] + [0.0]:
    require(acc.get_epsilon(d) == INF, 'a history with a non-private event reports epsilon(%r) = %r', d, acc.get_epsilon(d))
  for e in (0.0, 1.0, 50.0):
    require(acc.get_delta(e) == 1, 'a history with a non-private event reports delta(%r) = %r', e, acc.get_delta(e))
  ctx.nontrivial()


@st.composite
def gauss_case(draw):
  leaf = gen.logf(0.5, 20).map(lambda z: dict(t='gaussian', z=z))
  evs = [[draw(ev.nest(leaf, 3, (1, 2, 7, 25))), draw(st.sampled_from([1, 2, 5, 30, 200, 10**6, 12345678, 10**9]))] for _ in range(draw(st.integers(1, 4)))]
  return dict(rel=draw(st.sampled_from(['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL'])), evs=evs,
              h=draw(st.sampled_from([1e-3, 1e-2])), fr=draw(st.lists(st.floats(-1, 4), min_size=2, max_size=5)))


@sub('gaussians', gauss_case(), quick=200, thorough=5000,
     rule='histories of Gaussian events of any nesting equal one Gaussian with combined noise')
def gaussians(case, ctx):
  mu2 = sum(c / l['z'] ** 2 for s, n in case['evs'] for l, c in ev.leaves(s, n))
  steps = sum(1 for s, n in case['evs'] for _ in ev.leaves(s, n))
  if mu2 > 40:
    k = math.sqrt(mu2 / 20)
    scale = lambda s: dict(s, z=s['z'] * k) if s['t'] == 'gaussian' else (
        dict(s, e=scale(s['e'])) if s['t'] == 'self' else dict(s, es=[scale(x) for x in s['es']]))
    case = dict(case, evs=[[scale(s), n] for s, n in case['evs']])
    mu2 = sum(c / l['z'] ** 2 for s, n in case['evs'] for l, c in ev.leaves(s, n))
  acc = pld_privacy_accountant.PLDAccountant(REL[case['rel']], value_discretization_interval=case['h'])
  for s, n in case['evs']:
    acc.compose(ev.to_event(s), n)
  if mu2 == 0:
    require(acc.get_delta(0.0) == 0, 'nothing composed, delta %r', acc.get_delta(0.0))
    return
  mu = math.sqrt(mu2)
  for e in [mu2 / 2 + f * mu for f in case['fr']]:
    if e < -600:
      continue
    d, t = acc.get_delta(e), oracle.gaussian_delta0(e, mu)
    require(d >= t - 1e-10, 'get_delta(%r) = %r below the exact %r', e, d, t)
    hi = oracle.gaussian_delta0(e - steps * case['h'] * (1 + 1e-9), mu)
    require(d <= hi + 1e-9, 'get_delta(%r) = %r above the exact %r by more than %d intervals', e, d, t, steps)
    ctx.nontrivial(len(case['evs']) > 1 and 1e-9 < t < 1)


@st.composite
def rr_case(draw):
  return dict(p=draw(gen.prob(0.01, one=True)), k=draw(st.integers(2, 6)), n=draw(st.integers(1, 60)),
              rel=draw(st.sampled_from(['REPLACE_ONE', 'REPLACE_SPECIAL'])), h=draw(st.sampled_from([1e-3, 0.01])),
              fr=draw(st.lists(st.floats(0, 1), min_size=2, max_size=4)))


@sub('randomized_response', rr_case(), quick=200, thorough=4000,
     rule='repeated randomized response against the exact multinomial composition')
def randomized_response(case, ctx):
  p, k, n, h = case['p'], case['k'], case['n'], case['h']
  acc = pld_privacy_accountant.PLDAccountant(REL[case['rel']], value_discretization_interval=h)
  acc.compose(ev.to_event(dict(t='rr', p=p, k=k)), n)
  P, Q = oracle.rr_pair(p, k, case['rel'])
  if case['rel'] == 'REPLACE_ONE':
    L = math.log(P[0] / Q[0])
    # counts of the two special outcomes: loss (i - j) L
    from scipy.stats import binom
    rest = max(0.0, 1 - P[0] - P[1])
    ms = {}
    for t in range(n + 1):                # t special outcomes
      pt = binom.pmf(t, n, 1 - rest)
      for i, x in enumerate(binom.pmf(range(t + 1), t, P[0] / (P[0] + P[1]))):
        ms[2 * i - t] = ms.get(2 * i - t, 0.0) + pt * x
    curves = [[(m * L, x) for m, x in ms.items()]]
  else:
    from scipy.stats import binom
    curves = []
    for A, B in ((P, Q), (Q, P)):
      a, b = math.log(A[0] / B[0]), math.log(A[1] / B[1])
      curves.append([(i * a + (n - i) * b, x) for i, x in enumerate(binom.pmf(range(n + 1), n, A[0]))])
  true = lambda e: max(sum(-math.expm1(e - l) * x for l, x in c if l > e) for c in curves)
  top = max(l for c in curves for l, _ in c)
  for e in [f * top for f in case['fr']] + [0.0, top]:
    d = acc.get_delta(e)
    t = true(e)
    require(d >= t - 1e-10, 'get_delta(%r) = %r below the exact %r', e, d, t)
    hi = true(e - n * h * (1 + 1e-9) - 1e-9)
    require(d <= hi + 1e-9, 'get_delta(%r) = %r above the exact %r (%r at %d intervals less)', e, d, t, hi, n)
    ctx.nontrivial(n > 1 and 1e-9 < t < 1)


def other_relation(c):
  if any(l['t'] not in ('gaussian', 'laplace', 'mog', 'noop') for s, n in c['evs'] for l, _ in ev.leaves(s, n)):
    return None
  c['rel'] = dict(ADD_OR_REMOVE_ONE='REPLACE_SPECIAL', REPLACE_ONE='ADD_OR_REMOVE_ONE', REPLACE_SPECIAL='REPLACE_ONE')[c['rel']]
  return c


def other_interval(c):
  c['h'] *= 2
  return c


def other_counts(c):
  c['evs'] = [[s, n + 1] for s, n in c['evs']]
  return c


sub.related('history', dict(relation=other_relation, interval=other_interval, counts=other_counts, noise=ev.each_leaf(
    lambda x: dict(x, z=x['z'] * 1.3) if 'z' in x else dict(x, sd=x['sd'] * 1.3) if 'sd' in x else x), probability=ev.each_leaf(
        lambda x: dict(x, q=x['q'] * 0.6) if x.get('t') == 'poisson' and x['q'] < 1 else x), response=ev.each_leaf(
            lambda x: dict(x, p=x['p'] * 0.8) if x.get('t') == 'rr' and x['p'] > 0.02 else x), weights=ev.each_leaf(
                lambda x: dict(x, probs=x['probs'][::-1]) if x.get('t') == 'mog' and sum(
                    p for s, p in zip(x['sens'], x['probs'][::-1]) if s > 0) > 1e-6 else x)), quick=48, thorough=1200)
