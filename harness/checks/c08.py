"""C08: converting Renyi guarantees to epsilon and delta is sound and monotone."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
import oracle
from pldlib import INF
from dp_accounting.rdp import rdp_privacy_accountant as R
from dp_accounting import dp_event

ASSUMPTIONS = [
    'the worst binary pair meeting all bounds is searched on a grid of 1500 log-spaced probabilities with bisection',
    'relative slack 1e-9 and absolute 1e-13 on delta for rounding']
sub = core.Registry()

order = st.one_of(st.sampled_from([1.1, 1.5, 2.0, 3.0, 8.0, 32.0, 128.0, 2, 4, 1.01, 1.005, 1.0, 1]), gen.logf(1.02, 300), gen.logf(1.001, 2))


@st.composite
def rdp_list(draw):
  os = draw(st.lists(st.one_of(order, order, order, st.just(INF)), min_size=1, max_size=6, unique=True))
  kind = draw(st.integers(0, 3))
  if kind == 0:       # Gaussian-like
    z = draw(gen.logf(0.05, 100))
    rs = [min(o / (2 * z * z), 1e9) for o in os]
  elif kind == 1:     # unrelated
    rs = [draw(st.one_of(gen.logf(1e-6, 50), st.just(0.0), gen.logf(1e-12, 1e-3), gen.logf(1, 2000))) for _ in os]
  elif kind == 2:     # pure
    e = draw(gen.logf(1e-3, 20))
    rs = [e for _ in os]
  else:
    rs = [draw(gen.logf(1e-4, 20)) for _ in os]
    if draw(st.booleans()):
      rs[draw(st.integers(0, len(os) - 1))] = INF
  return dict(os=os, rs=rs, form=draw(st.integers(0, 2)))


def call_delta(c, e, os=None, rs=None):
  os, rs = c['os'] if os is None else os, c['rs'] if rs is None else rs
  if c['form'] == 1:
    os, rs = np.array(os, float), np.array(rs, float)
  elif c['form'] == 2:
    os, rs = tuple(os), tuple(rs)
  return R.compute_delta(os, rs, e)


def call_eps(c, d, os=None, rs=None):
  os, rs = c['os'] if os is None else os, c['rs'] if rs is None else rs
  if c['form'] == 1:
    os, rs = np.array(os, float), np.array(rs, float)
  elif c['form'] == 2:
    os, rs = tuple(os), tuple(rs)
  return R.compute_epsilon(os, rs, d)


def renyi_binary(p, q, a):
  """D_a((p,1-p) || (q,1-q)) for arrays, 0 < q < p <= 1."""
  with np.errstate(divide='ignore', invalid='ignore'):
    lp, lq = np.log(p), np.log(q)
    lp1, lq1 = np.log1p(-p), np.log1p(-q)
    if a == INF:
      return lp - lq
    if a == 1:
      t = np.where(p < 1, (1 - p) * (lp1 - lq1), 0.0)
      return p * (lp - lq) + t
    x = a * lp + (1 - a) * lq
    y = np.where(p < 1, a * lp1 + (1 - a) * lq1, -INF)
    m = np.maximum(x, y)
    # log(e^x + e^y) with care for tiny divergences is not needed: 1e-13 slack below
    return (m + np.log(np.exp(x - m) + np.exp(y - m))) / (a - 1)


Q_GRID = np.concatenate([np.exp(np.linspace(-300, -1e-3, 1200)), np.linspace(0.01, 0.99, 300)])


def worst_pairs(os, rs):
  """(p, q) arrays: for each q the largest p meeting every divergence bound (a bit inside)."""
  q = Q_GRID
  if any(r == 0 for r in rs):
    return q, q
  lo, hi = q.copy(), np.ones_like(q)
  for _ in range(60):
    mid = np.where(lo > 0, np.sqrt(lo * hi), 0) if _ < 20 else (lo + hi) / 2
    ok = np.ones_like(q, dtype=bool)
    for a, r in zip(os, rs):
      if r == INF:
        continue
      ok &= renyi_binary(mid, q, a) <= r * (1 - 1e-9) - (2e-15 * (1 + np.abs(np.log(q))) / (a - 1) if 1 < a < INF else 1e-13)
    lo, hi = np.where(ok, mid, lo), np.where(ok, hi, mid)
  return lo, q


@st.composite
def sound_case(draw):
  c = draw(rdp_list())
  return dict(c=c, es=draw(st.lists(st.one_of(gen.logf(1e-3, 100), st.just(0.0), gen.logf(1, 3000)), min_size=1, max_size=4)),
              ds=draw(st.lists(st.one_of(gen.logf(1e-14, 1.0), st.just(1e-5), gen.logf(1e-100, 1)), min_size=1, max_size=4)),
              near=draw(st.floats(0.3, 3)))


@sub('worst_pair', sound_case(), quick=3000, thorough=100000,
     rule='random orders and bounds; the worst two-point pair meeting all the bounds must satisfy the reported delta and '
          'epsilon; non-trivial: the pair reaches at least 1e-12')
def worst_pair(case, ctx):
  c = case['c']
  p, q = worst_pairs(c['os'], c['rs'])

  def true(e):
    if e == INF:
      return 0.0
    with np.errstate(over='ignore', invalid='ignore'):
      t = p - np.exp(np.minimum(700, e) + np.log(q) + (e - min(700, e)))
    return max(0.0, float(np.max(t)))
  fin = [r for r in c['rs'] if r < INF]
  es = list(case['es']) + [r * case['near'] for r in fin[:2]]
  for e in es:
    d, o = call_delta(c, e)
    require(0 <= d <= 1, 'delta(%r) = %r', e, d)
    require(o in c['os'], 'optimal order %r is not one of the orders', o)
    t = true(e)
    require(t <= d * (1 + 1e-9) + 1e-13, 'delta(%r) = %r, but a pair meeting the bounds has %r', e, d, t)
    ctx.nontrivial(t > 1e-12)
  for d in case['ds']:
    e, o = call_eps(c, d)
    require(e >= 0 and not math.isnan(e), 'epsilon(%r) = %r', d, e)
    t = true(e)
    require(t <= d * (1 + 1e-6) + 1e-13, 'epsilon(%r) = %r, but a pair meeting the bounds has delta %r there', d, e, t)
    ctx.nontrivial(0 < e < INF)


@st.composite
def dist_case(draw):
  n = draw(st.integers(2, 6))
  w = lambda: draw(st.lists(st.one_of(st.integers(0, 20), st.integers(1, 10**6)), min_size=n, max_size=n))
  w1, w2 = w(), w()
  w2 = [max(1, x) if y else x for x, y in zip(w2, w1)]
  if sum(w1) == 0:
    w1[0] = 1
    w2[0] = max(1, w2[0])
  return dict(w1=w1, w2=w2, os=draw(st.lists(st.one_of(order, st.just(INF)), min_size=1, max_size=6, unique=True)),
              reps=draw(st.integers(1, 5)), es=draw(st.lists(gen.logf(1e-3, 20), min_size=1, max_size=4)),
              ds=draw(st.lists(gen.logf(1e-10, 0.9), min_size=1, max_size=4)))


@sub('distributions', dist_case(), quick=2400, thorough=60000,
     rule='random finite output distributions and their products with exactly computed divergences')
def distributions(case, ctx):
  P, Q = np.array(case['w1'], float), np.array(case['w2'], float)
  P, Q = P / P.sum(), Q / Q.sum()
  rs = [max(0.0, oracle.renyi_finite(P, Q, float(a))) * case['reps'] * (1 + 1e-10) + 1e-15 for a in case['os']]
  p, q = P, Q
  for _ in range(case['reps'] - 1):
    p, q = np.outer(p, P).ravel(), np.outer(q, Q).ravel()
  c = dict(os=case['os'], rs=rs, form=0)
  for e in case['es'] + [0.0]:
    d, _ = call_delta(c, e)
    t = oracle.hs(p, q, e)
    require(t <= d * (1 + 1e-9) + 1e-13, 'delta(%r) = %r, true hockey-stick divergence %r', e, d, t)
    ctx.nontrivial(1e-9 < t < 1)
  for dl in case['ds']:
    e, _ = call_eps(c, dl)
    t = oracle.hs(p, q, e) if e < 700 else 0.0
    require(t <= dl * (1 + 1e-9) + 1e-12, 'epsilon(%r) = %r, true hockey-stick divergence there %r', dl, e, t)


@st.composite
def mono_case(draw):
  c = draw(rdp_list())
  k = len(c['os'])
  return dict(c=c, grow=draw(st.lists(st.one_of(st.just(0.0), gen.logf(1e-6, 10)), min_size=k, max_size=k)),
              keep=draw(st.lists(st.booleans(), min_size=k, max_size=k)),
              es=sorted(draw(st.lists(st.one_of(gen.logf(1e-3, 300), st.just(0.0)), min_size=2, max_size=5))),
              ds=sorted(draw(st.lists(st.one_of(gen.logf(1e-14, 1.0), st.just(1.0), gen.logf(1e-200, 1)), min_size=2, max_size=5))))


@sub('monotone', mono_case(), quick=4000, thorough=120000,
     rule='larger bounds, fewer orders, larger delta / epsilon; conversion there and back; non-trivial: finite positive values')
def monotone(case, ctx):
  c = case['c']
  os, rs = c['os'], c['rs']
  more = [r + g * max(r, 1e-3) if r < INF else r for r, g in zip(rs, case['grow'])]
  idx = [i for i, k in enumerate(case['keep']) if k] or [0]
  o2, r2 = [os[i] for i in idx], [rs[i] for i in idx]
  le = lambda a, b: a <= b * (1 + 1e-9) + 1e-12
  prev = None
  for e in case['es']:
    d = call_delta(c, e)[0]
    require(0 <= d <= 1, 'delta(%r) = %r', e, d)
    require(prev is None or le(d, prev), 'delta grows from %r to %r with epsilon', prev, d)
    prev = d
    require(le(d, call_delta(c, e, None, more)[0]), 'delta(%r) improves from %r to %r when bounds grow', e, d,
            call_delta(c, e, None, more)[0])
    require(le(d, call_delta(c, e, o2, r2)[0]), 'delta(%r) improves from %r to %r when orders are removed', e, d,
            call_delta(c, e, o2, r2)[0])
    if 1e-200 < d < 1:
      e2 = call_eps(c, d * (1 + 1e-12))[0]
      ctx.nontrivial()
      # borderline of the total-variation bound: rounding decides, use a slightly larger delta
      e3 = call_eps(c, min(1.0, d * (1 + 1e-6)))[0]
      require(min(e2, e3) <= e + 1e-6 * (1 + e), 'epsilon(delta(%r) = %r) = %r', e, d, e2)
  prev = None
  for dl in case['ds']:
    e = call_eps(c, dl)[0]
    require(e >= 0, 'epsilon(%r) = %r', dl, e)
    require(prev is None or le(e, prev), 'epsilon grows from %r to %r with delta', prev, e)
    prev = e
    require(le(e, call_eps(c, dl, None, more)[0]), 'epsilon(%r) improves from %r to %r when bounds grow', dl, e,
            call_eps(c, dl, None, more)[0])
    require(le(e, call_eps(c, dl, o2, r2)[0]), 'epsilon(%r) improves from %r to %r when orders are removed', dl, e,
            call_eps(c, dl, o2, r2)[0])
    if e < INF:
      d2 = call_delta(c, e)[0]
      require(d2 <= dl * (1 + 1e-6) + 1e-300, 'delta(epsilon(%r) = %r) = %r', dl, e, d2)
  require(call_eps(c, 0.0)[0] == (0 if all(r == 0 for r in rs) else INF) or
          any(o == INF and r < INF for o, r in zip(os, rs)), 'epsilon(0) = %r', call_eps(c, 0.0)[0])


@sub('published', sound_case(), quick=2400, thorough=60000,
     rule='never looser than the published conversion of each single order')
def published(case, ctx):
  c = case['c']
  for e in case['es']:
    d = call_delta(c, e)[0]
    w = 1.0
    for a, r in zip(c['os'], c['rs']):
      if r == INF:
        continue
      if 1.01 < a < INF:
        w = min(w, math.exp(min(0.0, (a - 1) * (r - e + math.log1p(-1 / a)) - math.log(a))))
      if r > 0:
        w = min(w, math.sqrt(-math.expm1(-r)))
      else:
        w = 0.0
    require(d <= w * (1 + 1e-6) + 1e-300, 'delta(%r) = %r, the conversion gives %r', e, d, w)
    ctx.nontrivial(0 < w < 1)
  for dl in case['ds']:
    e = call_eps(c, dl)[0]
    w = INF
    for a, r in zip(c['os'], c['rs']):
      if r == INF:
        continue
      if dl * dl > -math.expm1(-r) * (1 + 1e-6):
        w = 0.0
      if a == INF:
        w = min(w, r)
      elif a > 1.01:
        w = min(w, max(0.0, r + math.log1p(-1 / a) - (math.log(dl) + math.log(a)) / (a - 1)))
    require(e <= w * (1 + 1e-6) + 1e-9, 'epsilon(%r) = %r, the conversion gives %r', dl, e, w)


@sub('invalid', rdp_list(), quick=240, thorough=3000, rule='negative epsilon or delta, order below one, unequal lengths are refused')
def invalid(c, ctx):
  os, rs = c['os'], c['rs']
  bad = [lambda: R.compute_delta(os, rs, -0.1), lambda: R.compute_epsilon(os, rs, -0.1),
         lambda: R.compute_delta(os + [2.0], rs, 1.0), lambda: R.compute_epsilon(os, rs + [1.0], 1e-3),
         lambda: R.compute_delta(os + [0.9], rs + [1.0], 1.0), lambda: R.compute_epsilon([0.5] + os, [1.0] + rs, 1e-3)]
  for i, f in enumerate(bad):
    try:
      f()
    except ValueError:
      continue
    raise core.Violation('invalid conversion arguments were accepted (%d)' % i)
  ctx.nontrivial()


def other_bounds(c):
  c['c']['rs'] = [r * 1.5 for r in c['c']['rs']]
  return c


def lifted_orders(c):
  c['c']['os'] = [a if a == INF else a * 1.25 for a in c['c']['os']]
  return c


sub.related('worst_pair', dict(bounds=other_bounds, orders=lifted_orders), quick=160, thorough=4000)
sub.related('published', dict(bounds=other_bounds, orders=lifted_orders), quick=160, thorough=4000)
