"""C09: Renyi accounting bounds structured mechanisms."""
import functools
import math

from hypothesis import strategies as st
import numpy as np
from scipy import optimize
from scipy.special import ndtr

import core
from core import require
import events as ev
import gen
import oracle
import rdpref
from pldlib import REL, INF
from dp_accounting.rdp import rdp_privacy_accountant as R

ASSUMPTIONS = [
    'worst neighbouring inputs for sampling without replacement are searched among one- and two-dimensional '
    'configurations with pairwise distance at most one',
    'numerical integration with relative error below 1e-7']
sub = core.Registry()

order = st.one_of(st.sampled_from([1.5, 2, 3, 4, 8, 16, 2.0, 32, 1.1, 2.5]), st.integers(2, 40), st.floats(1.05, 12).map(lambda x: round(x, 3)))


def single(events_counts, orders, rel):
  acc = R.RdpAccountant(orders, REL[rel])
  for e, n in events_counts:
    acc.compose(e, n)
  return acc.rdp


# --------------------------------------------------------------- without replacement

@functools.lru_cache(maxsize=2000)
def wor_lower(q, z, a):
  """max over configurations of the true divergence of (1-q) N(f0) + q N(f) from (1-q) N(f0) + q N(f')."""
  best = 0.0
  lq, l1 = math.log(q), (math.log1p(-q) if q < 1 else -INF)
  for f0, f, g in ((0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.5, 1.0, 0.0), (1.0, 1.0, 0.0), (1.0, 0.0, 1.0)):
    def logf(x):
      n = lambda c: -(x - c) ** 2 / (2 * z * z)
      A = np.logaddexp(l1 + n(f0), lq + n(f)) if q < 1 else n(f)
      B = np.logaddexp(l1 + n(f0), lq + n(g)) if q < 1 else n(g)
      return a * A + (1 - a) * B
    lo, hi = -a - 13 * z, a + 1 + 13 * z
    v = oracle.trapz_log(logf, lo, hi, int(min(200001, max(2001, (hi - lo) / z * 20))))
    best = max(best, (v - math.log(z) - 0.5 * math.log(2 * math.pi)) / (a - 1))
  # equilateral triangle in the plane
  if (2 * (a + 10 * z) / z * 5) ** 2 < 4e5:
    x = np.arange(-(a + 10 * z), a + 1 + 10 * z, z / 5)
    X, Y = np.meshgrid(x, x)
    n = lambda c: -((X - c[0]) ** 2 + (Y - c[1]) ** 2) / (2 * z * z)
    f0, f, g = (0.0, 0.0), (1.0, 0.0), (0.5, math.sqrt(0.75))
    A = np.logaddexp(l1 + n(f0), lq + n(f)) if q < 1 else n(f)
    B = np.logaddexp(l1 + n(f0), lq + n(g)) if q < 1 else n(g)
    L = a * A + (1 - a) * B
    m = L.max()
    v = m + math.log(np.exp(L - m).sum()) + 2 * math.log(z / 5) - 2 * math.log(z) - math.log(2 * math.pi)
    best = max(best, v / (a - 1))
  return best


@st.composite
def wor_case(draw):
  n = draw(st.one_of(st.integers(2, 20), st.integers(2, 10000)))
  m = draw(st.one_of(st.integers(1, n), st.just(n), st.integers(1, max(1, n // 10))))
  m = max(m, -(-n // 2000))
  plain = ev.nest(gen.logf(0.5, 10).map(lambda z: dict(t='gaussian', z=z)), 2, (1, 2, 3))
  tree = draw(st.one_of(plain, plain, plain, ev.many_gaussians(0.5, 10)))
  # at large orders another branch of the bound applies; almost complete samples make its last terms matter
  big = draw(st.integers(0, 3)) == 0
  if big:
    m = max(m, n - n // 20)
  os = st.one_of(st.integers(200, 1000), st.sampled_from([254, 255, 256, 257, 258]), st.floats(250, 270).map(lambda x: round(x, 2)))
  return dict(e=dict(t='wor', n=n, m=m, e=tree), reps=draw(st.sampled_from([1, 1, 3, 100])),
              orders=draw(st.lists(os if big else order, min_size=1, max_size=3, unique=True)),
              wrap=draw(st.integers(0, 2)))


def wrapped(case):
  e = case['e']
  if case['wrap'] == 1:
    e = dict(t='self', e=e, n=2)
  elif case['wrap'] == 2:
    e = dict(t='comp', es=[e, dict(t='noop'), e])
  return e, (2 if case['wrap'] else 1)


@sub('without_replacement', wor_case(), quick=2400, thorough=40000,
     rule='random population, sample size, nested Gaussian events and orders; numerical true divergence of extreme '
          'neighbouring inputs; non-trivial: sampling fraction strictly between 0 and 1')
def without_replacement(case, ctx):
  e, k = wrapped(case)
  z = rdpref.eff_sigma(case['e']['e'])
  q = case['e']['m'] / case['e']['n']
  got = single([(ev.to_event(e), case['reps'])], case['orders'], 'REPLACE_ONE')
  one = single([(ev.to_event(case['e']), 1)], case['orders'], 'REPLACE_ONE')
  for a, x, y in zip(case['orders'], got, one):
    require(not math.isnan(x) and x >= 0, 'Renyi divergence %r at order %r', x, a)
    require(abs(x - y * k * case['reps']) <= 1e-9 * x, 'repetition %d gives %r, once gives %r', k * case['reps'], x, y)
    if z == INF:
      require(x == 0, 'no Gaussian in the sampled event, yet divergence %r', x)
      continue
    if z < 0.15 or a * a / (z * z) > (1e5 if a < 200 else 1e7):
      continue
    t = wor_lower(q, z, float(a))
    require(y >= t * (1 - 1e-6) - 1e-11, 'Renyi divergence %r at order %r below the true %r (q=%r, noise %r)', y, a, t, q, z)
    if q == 1:
      require(abs(y - a / (2 * z * z)) <= 1e-9 * y, 'sampling everything gives %r, the plain Gaussian has %r', y, a / (2 * z * z))
    ctx.nontrivial(q < 1 and t > 1e-12)


# --------------------------------------------------------------- tree aggregation

def touched(n):
  """Largest number of complete dyadic nodes over n leaves that contain one leaf."""
  best = 0
  for i in (range(n) if n < 64 else list(range(0, 64)) + [n - 1, n // 2]):
    c, size = 0, 1
    while size <= n:
      b = i // size * size
      if b + size <= n:
        c += 1
      size *= 2
    best = max(best, c)
  return best


tree_case = st.fixed_dictionaries(dict(
    z=st.one_of(gen.logf(0.05, 100), st.just(0.0)),
    steps=st.one_of(st.integers(1, 40), st.integers(1, 100000), st.sampled_from([1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 1023, 1024]),
                    st.lists(st.one_of(st.integers(1, 40), st.integers(1, 3000)), min_size=1, max_size=5),
                    st.tuples(st.lists(st.integers(1, 40), min_size=30, max_size=200), st.integers(50, 3000), st.booleans()).map(
                        lambda x: x[0] + [x[1]] if x[2] else [x[1]] + x[0])),
    orders=st.lists(st.one_of(order, st.just(INF)), min_size=1, max_size=4, unique=True), reps=st.sampled_from([1, 1, 2, 7]),
    wrap=st.integers(0, 2)))


@sub('tree_aggregation', tree_case, quick=2400, thorough=40000,
     rule='step counts (one tree or a list of trees) against brute-force counting of the released nodes containing a leaf')
def tree_aggregation(case, ctx):
  e, k = wrapped(dict(e=dict(t='tree', z=case['z'], steps=case['steps']), wrap=case['wrap']))
  got = single([(ev.to_event(e), case['reps'])], case['orders'], 'REPLACE_SPECIAL')
  st_ = case['steps'] if isinstance(case['steps'], list) else [case['steps']]
  h = max(touched(n) for n in st_)
  for a, x in zip(case['orders'], got):
    t = INF if case['z'] == 0 else a * h / (2 * case['z'] ** 2) * k * case['reps']
    require(x == t or abs(x - t) <= 1e-9 * t, 'tree aggregation divergence %r at order %r, Gaussian cost of %d nodes is %r', x, a, h, t)
    ctx.nontrivial(h > 1 and case['z'] > 0)


# --------------------------------------------------------------- repeat and select

def pgf(mean, shape):
  """(G, G') of the number of repetitions, from the documented distributions."""
  if shape == INF:
    return (lambda t: np.exp(mean * (t - 1))), (lambda t: mean * np.exp(mean * (t - 1)))
  if mean == 1:
    return (lambda t: t), (lambda t: np.ones_like(t))
  if shape == 0:
    m = lambda g: (1 / g - 1) / -math.log(g)
  else:
    m = lambda g: shape * (1 / g - 1) / -math.expm1(shape * math.log(g))
  lg = optimize.brentq(lambda lg: math.log(m(math.exp(lg))) - math.log(mean), -80, -1e-9, xtol=1e-15, rtol=1e-14)
  g = math.exp(lg)
  u = -math.expm1(lg)
  if shape == 0:
    return (lambda t: np.log1p(-u * t) / lg), (lambda t: u / (1 - u * t) / -lg)
  c = math.expm1(-shape * lg)
  return (lambda t: np.expm1(-shape * np.log1p(-u * t)) / c), (lambda t: shape * u * (1 - u * t) ** (-shape - 1) / c)


ras_shape = st.one_of(st.sampled_from([INF, 0.0, 1.0, 0.5, 2.0, 1, 0]), gen.logf(0.01, 20))


@st.composite
def ras_case(draw):
  kind = draw(st.sampled_from(['rr', 'rr', 'gaussian', 'laplace', 'tree']))
  rel = draw(st.sampled_from(['REPLACE_ONE', 'REPLACE_SPECIAL']))
  if kind == 'rr':
    e = dict(t='rr', p=draw(gen.prob(0.02, one=False)), k=draw(st.integers(2, 5)))
  elif kind == 'tree':
    plain = ev.nest(gen.logf(0.4, 20).map(lambda z: dict(t='gaussian', z=z)), 2, (1, 2, 3))
    e = draw(st.one_of(plain, plain, ev.many_gaussians(0.4, 20)))
  else:
    e = dict(t=kind, z=draw(gen.logf(0.4, 20)))
  mean = draw(st.one_of(st.just(1.0), gen.logf(1.001, 1000).map(lambda x: max(x, 1.001)), st.sampled_from([2.0, 10.0, 1.5])))
  if draw(st.booleans()):
    os = [1 + x / 10.0 for x in range(1, 100, 3)] + list(range(11, 64, 4)) + [128, 256]
  else:
    os = draw(st.lists(order, min_size=1, max_size=6, unique=True))
  return dict(e=e, rel=rel, mean=mean, shape=draw(ras_shape), orders=os, perm=draw(st.permutations(list(range(e.get('k', 2))))),
              reps=draw(st.sampled_from([1, 1, 2, 5])))


def selected_pair(case, mu):
  """log densities/masses of the selected output for the two neighbours, plus log weights."""
  G, g = pgf(case['mean'], case['shape'])
  e = case['e']
  if e['t'] == 'rr':
    P, Q = oracle.rr_pair(e['p'], e['k'], case['rel'])
    out = []
    for A in (P, Q):
      cdf = np.concatenate([[0.0], np.cumsum(A[case['perm']])])
      cdf[-1] = 1.0
      m = np.diff(G(cdf))
      if case['shape'] == INF:
        m = np.concatenate([[math.exp(-case['mean'])], m])
      out.append(m)
    return out[0], out[1], None
  if e['t'] == 'laplace':
    z = e['z']
    x = np.linspace(-25 * z, 25 * z + 1, 40001)
    pdf = lambda c: np.exp(-np.abs(x - c) / z) / (2 * z)
    cdf = lambda c: np.where(x < c, 0.5 * np.exp(np.minimum(0, x - c) / z), 1 - 0.5 * np.exp(-np.maximum(0, x - c) / z))
  else:
    z = rdpref.eff_sigma(e)
    x = np.linspace(-9 * z, 9 * z + 1, 8001)
    pdf = lambda c: np.exp(-(x - c) ** 2 / (2 * z * z)) / (z * math.sqrt(2 * math.pi))
    cdf = lambda c: ndtr((x - c) / z)
  dx = x[1] - x[0]
  return pdf(0.0) * g(cdf(0.0)) * dx, pdf(1.0) * g(cdf(1.0)) * dx, (math.exp(-case['mean']) if case['shape'] == INF else 0.0)


@sub('repeat_and_select', ras_case(), quick=3200, thorough=40000,
     rule='random inner event (randomized response, Gaussian, Laplace), selection order and repetition distribution: '
          'exact divergence of the selected output against the accumulated bound; non-trivial: mean above one and a '
          'positive true divergence')
def repeat_and_select(case, ctx):
  s = dict(t='ras', e=case['e'], mean=case['mean'], shape=case['shape'])
  z = None if case['e']['t'] in ('rr', 'laplace') else rdpref.eff_sigma(case['e'])
  got = single([(ev.to_event(s), case['reps'])], case['orders'], case['rel'])
  one = single([(ev.to_event(s), 1)], case['orders'], case['rel'])
  ctx.label('shape %s' % (case['shape'] if case['shape'] in (0, 1, INF) else 'other'), case['e']['t'])
  for x, y in zip(got, one):
    require(not math.isnan(x) and x >= 0, 'Renyi divergence %r', x)
    require(x == y == INF or abs(x - case['reps'] * y) <= 1e-9 * x, 'repetition %d gives %r, once gives %r', case['reps'], x, y)
  if z == INF or (z is not None and z < 0.2):
    return
  P, Q, w0 = selected_pair(case, None)
  for a, y in zip(case['orders'], one):
    if y == INF or (z is not None and a > 3 * z + 2) or (case['e']['t'] == 'laplace' and a > 40):
      # numerical domain: the integrand of high orders peaks outside the tabulated range
      if case['e']['t'] != 'rr':
        continue
    if y == INF:
      continue
    a = float(a)
    for A, B in ((P, Q), (Q, P)):
      ok = (A > 0) & (B > 1e-290)
      if w0 is None:
        t = oracle.renyi_finite(A[ok], B[ok], a)
      else:
        L = a * np.log(A[ok]) + (1 - a) * np.log(B[ok])
        m = max(L.max(), -600.0)
        t = (m + math.log(np.exp(L - m).sum() + w0 * math.exp(min(-m, 600)))) / (a - 1)
      require(y >= t * (1 - 1e-5) - 2e-6 / (a - 1), 'Renyi divergence %r at order %r below the true %r', y, a, t)
      ctx.nontrivial(case['mean'] > 1 and t > 1e-4)


@sub('bounds_trivial', ras_case(), quick=300, thorough=4000,
     rule='repeat-and-select of nothing private costs infinity, of nothing costs at least zero; one certain repetition '
          'costs at least the inner event')
def bounds_trivial(case, ctx):
  mk = lambda e: ev.to_event(dict(t='ras', e=e, mean=case['mean'], shape=case['shape']))
  x = single([(mk(dict(t='nonprivate')), 1)], case['orders'], case['rel'])
  require(np.all(np.isinf(x)), 'selecting among non-private runs has finite divergence %r', list(x))
  x = single([(mk(dict(t='noop')), 1)], case['orders'], case['rel'])
  require(np.all(x >= 0), 'negative divergence %r', list(x))
  inner = single([(ev.to_event(case['e']), 1)], case['orders'], case['rel'])
  x = single([(mk(case['e']), 1)], case['orders'], case['rel'])
  for i, y in zip(inner, x):
    # the selection of K >= 1 runs cannot reveal less than is bounded for one run at the same order or above
    require(y >= min(inner) * (1 - 1e-9), 'selection bound %r below that of every single-run order %r', y, list(inner))
  # history before and after is kept
  y = single([(ev.to_event(dict(t='gaussian', z=2.0)), 3), (mk(case['e']), 1), (ev.to_event(dict(t='laplace', z=2.0)), 2)],
             case['orders'], case['rel'])
  for a, u, v in zip(case['orders'], x, y):
    t = u + 3 * a / 8 + 2 * rdpref.laplace(0.5, a)
    require(u == v == INF or abs(v - t) <= 1e-8 * t, 'history around the selection: %r instead of %r', v, t)
  ctx.nontrivial()


# --------------------------------------------------------------- published bounds
# A divergence bound below the published theorem is not justified by it, even where no concrete
# neighbouring inputs showing an understatement are found by the searches above.

def wor_theorem(q, z, a):
  """Theorem 27 of Wang, Balle, Kasiviswanathan (2019) for a Gaussian, in high precision."""
  import mpmath as mp
  with mp.workdps(60):
    v = 1 / (2 * mp.mpf(z) ** 2)
    f = [mp.mpf(1)] + [mp.exp((j - 1) * j * v) for j in range(1, a + 3)]
    d, B = f[:], []
    for _ in range(a + 2):
      B.append(d[0])
      d = [y - x for x, y in zip(d, d[1:])]
    tot = mp.mpf(1)
    for i in range(2, a + 1):
      if i == 2:
        t = min(4 * mp.expm1(2 * v), 2 * mp.exp(2 * v))
      else:
        t = min(4 * mp.sqrt(abs(B[2 * (i // 2)] * B[2 * ((i + 1) // 2)])), 2 * mp.exp((i - 1) * i * v))
      tot += mp.mpf(q) ** i * mp.binomial(a, i) * t
    return float(mp.log(tot))


wor_pub = st.fixed_dictionaries(dict(n=st.integers(2, 1000), f=st.floats(0.001, 1.0), z=gen.logf(0.3, 20),
                                     a=st.one_of(st.integers(2, 12), st.integers(2, 24), st.floats(1.05, 10).map(lambda x: round(x, 2)))))


@sub('wor_published', wor_pub, quick=2400, thorough=20000,
     rule='never below Theorem 27 of the cited paper (interpolated between integer orders); non-trivial: order above two')
def wor_published(case, ctx):
  m = max(1, min(case['n'] - 1, int(case['n'] * case['f'])))
  q, z, a = m / case['n'], case['z'], case['a']
  e = dict(t='wor', n=case['n'], m=m, e=dict(t='gaussian', z=z))
  y = float(single([(ev.to_event(e), 1)], [a], 'REPLACE_ONE')[0])
  lo, hi = math.floor(a), math.ceil(a)
  x = (0.0 if lo == 1 else wor_theorem(q, z, lo))
  w = x if lo == hi else (1 - (a - lo)) * x + (a - lo) * wor_theorem(q, z, hi)
  w /= a - 1
  require(y >= w * (1 - 1e-5) - 1e-12, 'Renyi divergence %r at order %r is below the theorem\'s %r (q=%r, noise %r)', y, a, w, q, z)
  ctx.nontrivial(a > 2)


@sub('ras_published', ras_case(), quick=2400, thorough=30000,
     rule='never below Theorems 2 and 6 of the cited paper with the best auxiliary order available; non-trivial: mean above one')
def ras_published(case, ctx):
  os = [float(a) for a in case['orders']]
  inner = [float(x) for x in single([(ev.to_event(case['e']), 1)], case['orders'], case['rel'])]
  s = dict(t='ras', e=case['e'], mean=case['mean'], shape=case['shape'])
  got = single([(ev.to_event(s), 1)], case['orders'], case['rel'])
  mean, eta = case['mean'], case['shape']
  raw = []
  if eta == INF:
    for a, r in zip(os, inner):
      e = math.log1p(1 / (a - 1))
      ld = 0.0
      for b, x in zip(os, inner):
        ld = min(ld, -INF if x == 0 else 0.5 * math.log(-math.expm1(-x)))
        if b > 1.01:
          ld = min(ld, (b - 1) * (x - e + math.log1p(-1 / b)) - math.log(b))
      raw.append(r + mean * math.exp(ld) + math.log(mean) / (a - 1))
    want = raw
  else:
    if mean == 1:
      lg = 0.0
    elif eta == 0:
      lg = optimize.brentq(lambda l: math.log(math.expm1(-l) / -l) - math.log(mean), -80, -1e-9, xtol=1e-15, rtol=1e-14)
    else:
      lg = optimize.brentq(lambda l: math.log(eta * math.expm1(-l) / -math.expm1(eta * l)) - math.log(mean), -80, -1e-9,
                           xtol=1e-15, rtol=1e-14)
    c = (1 + eta) * min((1 - 1 / b) * x - lg / b for b, x in zip(os, inner))
    raw = [r + c + math.log(mean) / (a - 1) for a, r in zip(os, inner)]
    want = raw
  # a bound at a higher order is a bound at a lower one
  want = [min(w for b, w in zip(os, want) if b >= a) for a in os]
  for a, y, w in zip(os, got, want):
    require(y >= w * (1 - 1e-6) - 1e-9, 'Renyi divergence %r at order %r is below the theorem\'s %r', float(y), a, w)
    ctx.nontrivial(mean > 1 and w < INF)


def wor_change(**kw):
  def change(c):
    e = c['e']
    if 'size' in kw:
      if e['n'] - e['m'] < 2:
        return None
      e['m'] += max(1, (e['n'] - e['m']) // 3)
    if 'population' in kw:
      e['n'] += max(1, e['n'] // 4)
      e['m'] = max(e['m'], -(-e['n'] // 2000))
    return c
  return change


def inner(change):
  def walk(x):
    if isinstance(x, dict):
      x = {k: walk(v) for k, v in x.items()}
      return dict(x, **change(x))
    return [walk(v) for v in x] if isinstance(x, list) else x

  def apply(c):
    c['e'] = walk(c['e'])
    return c
  return apply


def field(name, f):
  def change(c):
    v = f(c[name])
    if v is None:
      return None
    c[name] = v
    return c
  return change


next_orders = field('orders', lambda os: [a if a == INF else a + 1 for a in os])
louder = inner(lambda x: dict(z=x['z'] * 1.25) if 'z' in x else {})
sub.related('without_replacement', dict(size=wor_change(size=1), population=wor_change(population=1), noise=louder, orders=next_orders,
                                        repeats=field('reps', lambda n: n + 1)), quick=160, thorough=4000)
sub.related('tree_aggregation', dict(noise=field('z', lambda z: z * 1.25), orders=next_orders, steps=field(
    'steps', lambda s: [4 * x for x in s] if isinstance(s, list) else 4 * s)), quick=160, thorough=4000)
sub.related('repeat_and_select', dict(mean=field('mean', lambda m: m * 1.5), shape=field(
    'shape', lambda s: 1.0 if s == INF else INF), noise=louder, orders=next_orders,
                                      response=inner(lambda x: dict(p=x['p'] * 0.8) if x.get('t') == 'rr' else {})), quick=200, thorough=4000)
sub.related('ras_published', dict(mean=field('mean', lambda m: m * 1.5), shape=field('shape', lambda s: 1.0 if s == INF else INF),
                                  noise=louder, orders=next_orders), quick=160, thorough=4000)
