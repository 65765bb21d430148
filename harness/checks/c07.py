"""C07: Renyi accounting matches the true Renyi divergence of basic mechanisms."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import events as ev
import gen
import oracle
import pldlib
import rdpref
from pldlib import REL, INF
from dp_accounting.rdp import rdp_privacy_accountant as R

ASSUMPTIONS = [
    'Renyi divergences of subsampled Gaussians by log-space trapezoid integration (relative error below 1e-8)',
    'orders in [1.05, 130], plus infinity; sampling probability at least 1e-4']
sub = core.Registry()
RELS = ['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL']

order = st.one_of(st.sampled_from([1.5, 2.0, 3.0, 4.0, 8.0, 16.0, 32.0, 64.0, 1.1, 1.25, 2.5, 10.5, 2, 5, 33]),
                  st.floats(1.05, 12.0).map(lambda x: round(x, 3)), st.integers(2, 100), gen.logf(1.05, 64))
orders = st.lists(st.one_of(order, st.just(INF)), min_size=1, max_size=4, unique=True)

plain_tree = ev.nest(st.one_of(gen.logf(0.4, 20).map(lambda z: dict(t='gaussian', z=z)),
                               gen.logf(0.4, 20).map(lambda z: dict(t='gaussian', z=z)),
                               st.just(dict(t='gaussian', z=1.0))), 2, (1, 2, 3, 4))
gauss_tree = st.one_of(plain_tree, plain_tree, ev.many_gaussians(0.4, 20))


def has_gauss(s):
  return any(True for _ in ev.leaves(s))


def leaf_strategy(rel):
  ls = [ev.gaussian, ev.laplace, ev.noop, ev.laplace, ev.many_gaussians(0.4, 20)]
  if rel != 'ADD_OR_REMOVE_ONE':
    ls += [ev.rr, st.tuples(st.sampled_from([0.5, 1.0, 0.0, 0.1]), st.integers(1, 4)).map(lambda x: dict(t='rr', p=x[0], k=x[1]))]
  if rel != 'REPLACE_ONE':
    ls += [ev.poisson(ev.gaussian, 1e-4), ev.poisson(gauss_tree, 1e-4), ev.poisson(ev.gaussian, 1e-3)]
  return st.one_of(ls)


@st.composite
def history(draw):
  rel = draw(st.sampled_from(RELS))
  n = draw(st.integers(1, 3))
  bad = draw(st.integers(0, 19)) == 0
  return dict(rel=rel, orders=draw(orders),
              evs=([[draw(ev.nonprivate), 1]] if bad else []) + [[draw(ev.nest(leaf_strategy(rel), 3, (1, 2, 3, 17))), draw(st.sampled_from([1, 1, 2, 5, 1000]))] for _ in range(n)],
              ds=draw(st.lists(gen.logf(1e-12, 0.9), min_size=1, max_size=3)), es=draw(st.lists(gen.logf(0.01, 50), min_size=1, max_size=3)),
              aslist=draw(st.booleans()))


def account(case, orders=None):
  o = case['orders'] if orders is None else orders
  acc = R.RdpAccountant(o if case['aslist'] else np.array(o, dtype=float), REL[case['rel']])
  for s, n in case['evs']:
    acc.compose(ev.to_event(s), n)
  return acc


def excluded(a, leaves):
  """Low fractional orders may be given up (documented: excluded with a warning) under Poisson sampling."""
  return a < 3 and fractional(a, leaves)


def fractional(a, leaves):
  return a < INF and not float(a).is_integer() and any(l['t'] == 'poisson' and 0 < l['q'] < 1 for l, _ in leaves)


def close(x, t, rel=1e-6, ab=1e-12):
  if t == INF or x == INF:
    return x == t
  return abs(x - t) <= rel * t + ab


@sub('history', history(), quick=6000, thorough=200000,
     rule='random event trees, repetitions, orders and relations: accumulated divergence at each order against the sum of '
          'the true divergences; non-trivial: finite positive total with at least one non-Gaussian leaf')
def history_check(case, ctx):
  acc = account(case)
  got = acc.rdp
  leaves = [(l, c) for s, n in case['evs'] for l, c in ev.leaves(s, n)]
  ctx.label(case['rel'], *['leaf ' + l['t'] for l, _ in leaves])
  require(len(got) == len(case['orders']), '%d values for %d orders', len(got), len(case['orders']))
  for a, x in zip(case['orders'], got):
    t = math.fsum(c * rdpref.leaf(l, a, case['rel']) for l, c in leaves) if leaves else 0.0
    n = sum(c for l, c in leaves)
    # rounding of log-space sums is absolute, of order 1e-15 per term, divided by (a - 1)
    ab = n * (1e-11 if a < 1.5 else 1e-12) + 1e-12
    require(not math.isnan(x), 'NaN at order %r', a)
    if x == INF and excluded(a, leaves):
      ctx.label('excluded order')
      continue
    require(x >= t * (1 - 1e-6) - ab, 'Renyi divergence %r at order %r below the true %r', float(x), a, t)
    if fractional(a, leaves):
      # the series of absolute terms is an upper bound (at most ~6% on the moment), not exact
      ab += 0.1 * sum(c for l, c in leaves if l['t'] == 'poisson') / (a - 1)
    require(close(x, t, 2e-6, ab), 'Renyi divergence %r at order %r, exact %r', float(x), a, t)
    ctx.nontrivial(0 < t < INF and any(l['t'] not in ('gaussian', 'noop') for l, _ in leaves))
  require(list(acc.orders) == [float(o) for o in case['orders']], 'orders changed: %r', acc.orders)


@sub('single_order', history(), quick=3200, thorough=100000,
     rule='epsilon and delta reported from one order follow from the true divergence at that order (published '
          'conversion), in both query directions')
def single_order(case, ctx):
  a = case['orders'][0]
  acc = account(case, [a])
  leaves = [(l, c) for s, n in case['evs'] for l, c in ev.leaves(s, n)]
  t = math.fsum(c * rdpref.leaf(l, a, case['rel']) for l, c in leaves) if leaves else 0.0
  slack = 1e-5 * t + 1e-9 if t < INF else 0
  if fractional(a, leaves):
    return
  for d in case['ds']:
    e, o = acc.get_epsilon_and_optimal_order(d)
    require(e == acc.get_epsilon(d), 'get_epsilon %r differs from get_epsilon_and_optimal_order %r', acc.get_epsilon(d), e)
    require(o == a or e in (0, INF), 'optimal order %r, only order %r', o, a)
    if t == INF:
      require(e == INF, 'epsilon(%r) = %r for an unbounded divergence', d, e)
      continue
    w = t if a == INF else t + math.log1p(-1 / a) - math.log(d * a) / (a - 1)
    if d * d + math.expm1(-t) > 0:
      w = min(w, 0.0)
    w = max(0.0, w)
    if abs(d * d + math.expm1(-t)) < 1e-6 + slack:
      continue
    require(e <= w + slack + 1e-5 / (a - 1), 'epsilon(%r) = %r at order %r, divergence %r gives %r', d, e, a, t, w)
    require(e >= w - slack - 1e-5 / (a - 1), 'epsilon(%r) = %r at order %r is below %r, what divergence %r gives', d, e, a, w, t)
    ctx.nontrivial(0 < e < INF)
  for e in case['es']:
    d, o = acc.get_delta_and_optimal_order(e)
    require(d == acc.get_delta(e), 'get_delta %r differs from get_delta_and_optimal_order %r', acc.get_delta(e), d)
    require(o == a, 'optimal order %r, only order %r', o, a)
    if t == INF:
      require(d == 1, 'delta(%r) = %r for an unbounded divergence', e, d)
      continue
    ls = [0.5 * math.log(-math.expm1(-t)) if t > 0 else -INF]
    if a == INF:
      ls.append(-INF if e > t else 0.0)
      if abs(e - t) < slack + 1e-6:
        continue
    elif a > 1.01:
      ls.append((a - 1) * (t - e + math.log1p(-1 / a)) - math.log(a))
    w = min(1.0, math.exp(min(0.0, min(ls))))
    tol = w * (a * slack + 1e-5 if a < INF else 1e-4) + 1e-5 * (t < 1e-9)
    require(abs(d - w) <= tol + 1e-15, 'delta(%r) = %r at order %r, divergence %r gives %r', e, d, a, t, w)
    ctx.nontrivial(0 < d < 1)


@st.composite
def default_case(draw):
  c = draw(history())
  c['evs'] = [[draw(st.one_of(ev.gaussian, ev.laplace, ev.rr if c['rel'] != 'ADD_OR_REMOVE_ONE' else ev.laplace,
                              ev.poisson(ev.gaussian, 1e-2) if c['rel'] != 'REPLACE_ONE' else ev.gaussian)), draw(st.integers(1, 4))]]
  return c


@sub('default_orders', default_case(), quick=640, thorough=16000,
     rule='with the default orders, reported epsilon and delta against the exact privacy curve of the mechanism')
def default_orders(case, ctx):
  import plref
  acc = R.RdpAccountant(neighboring_relation=REL[case['rel']])
  s, n = case['evs'][0]
  acc.compose(ev.to_event(s), n)
  s = dict(s)
  if s['t'] == 'rr':
    s['relation'] = case['rel']
  base = s['e'] if s['t'] == 'poisson' else s
  span = {'gaussian': lambda: base['z'] ** -2 + 18 / base['z'], 'laplace': lambda: 2 / base['z'],
          'rr': lambda: 2 * math.log(s['k'] * (1 - s['p']) / s['p'] + 1)}[base['t']]()
  br = plref.Bracket([(s, n)], max(1e-4, span / 1500))
  for d in case['ds']:
    e = acc.get_epsilon(d)
    if e < 600:
      low = br.low(e)
      require(low <= d * (1 + 1e-6) + 1e-11, 'epsilon(%r) = %r, but the true delta there is at least %r', d, e, low)
    ctx.nontrivial(0 < e < INF)
  for e in case['es']:
    d = acc.get_delta(e)
    low = br.low(e)
    require(d >= low * (1 - 1e-6) - 1e-11, 'delta(%r) = %r, true delta at least %r', e, d, low)


@st.composite
def near_case(draw):
  return dict(rel=draw(st.sampled_from(RELS)), orders=draw(st.lists(st.one_of(st.sampled_from([1, 1.0]), st.floats(1e-6, 0.2).map(lambda x: 1 + x),
                                                                            gen.logf(1e-5, 0.2).map(lambda x: 1 + x)), min_size=1, max_size=3)),
              evs=[[draw(ev.nest(st.one_of(ev.gaussian, gen.logf(0.02, 50).map(lambda z: dict(t='laplace', z=z))), 2, (1, 2, 3))),
                    draw(st.integers(1, 5))] for _ in range(draw(st.integers(1, 2)))], aslist=True)


@sub('near_one', near_case(), quick=1600, thorough=40000,
     rule='orders at and just above one (Kullback-Leibler limit) for Gaussian and Laplace events, high-precision reference; '
          'non-trivial: a Laplace event present')
def near_one(case, ctx):
  import mpmath as mp
  acc = account(case)
  leaves = [(l, c) for s, n in case['evs'] for l, c in ev.leaves(s, n)]
  for a, x in zip(case['orders'], acc.rdp):
    t = 0.0
    for l, c in leaves:
      if l['t'] == 'gaussian':
        t += c * a / (2 * l['z'] ** 2)
        continue
      e = mp.mpf(1) / mp.mpf(l['z'])
      with mp.workdps(50):
        if a == 1:
          v = e + mp.expm1(-e)
        else:
          A = mp.mpf(a)
          v = mp.log(A / (2 * A - 1) * mp.exp((A - 1) * e) + (A - 1) / (2 * A - 1) * mp.exp(-A * e)) / (A - 1)
        t += c * float(v)
      ctx.nontrivial()
    require(abs(x - t) <= 1e-8 * t + 1e-12, 'Renyi divergence %r at order %r, exact %r', float(x), a, t)


def other_orders(c):
  c['orders'] = [a if a == INF else round(a * 1.5, 3) if a != int(a) else a + 1 for a in c['orders']]
  return c


def other_relation(c):
  plain = all(l['t'] in ('gaussian', 'laplace', 'noop') for s, n in c['evs'] for l, _ in ev.leaves(s, n))
  if not plain:
    return None
  c['rel'] = RELS[(RELS.index(c['rel']) + 1) % 3]
  return c


def other_counts(c):
  c['evs'] = [[s, n + 1] for s, n in c['evs']]
  return c


def noisier(x):
  return dict(x, z=x['z'] * 1.3) if 'z' in x else x


def rarer(x):
  return dict(x, q=x['q'] * 0.6) if x.get('t') == 'poisson' and 1e-3 < x['q'] < 1 else x


def other_response(x):
  return dict(x, p=x['p'] * 0.8) if x.get('t') == 'rr' else x


sub.related('history', dict(orders=other_orders, relation=other_relation, counts=other_counts, noise=ev.each_leaf(noisier),
                            probability=ev.each_leaf(rarer), response=ev.each_leaf(other_response)), quick=400, thorough=10000)
