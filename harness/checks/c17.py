"""C17: numerical building blocks honour their contracts."""
import math

from hypothesis import strategies as st
import mpmath as mp
import numpy as np
from scipy import stats

import core
from core import require
import gen
from pldlib import common, INF

ASSUMPTIONS = [
    'arrays of up to 120 entries (self-convolutions of up to 20000 repetitions for two-point arrays), compared up to the rounding '
    'error of Fourier transforms, 1e-13 of the largest product of masses per repetition; inverted functions are monotone '
    'as computed and the initial guess, if any, lies within the bracket; discrete searches are judged to one integer']
sub = core.Registry()


# ---------------------------------------------------------------- inversion
def make(f):
  """A monotone function of a plain description."""
  kind, p, q, dec = f['kind'], f['p'], f['q'], f['dec']
  sgn = -1.0 if dec else 1.0

  def g(x):
    if kind == 'linear':
      v = p * x
    elif kind == 'cube':
      v = math.copysign(abs(x / p) ** 3, x)
    elif kind == 'step':
      v = q * math.floor(x / p)
    elif kind == 'sigmoid':
      v = 1 / (1 + math.exp(-max(-700.0, min(700.0, x / p))))
    elif kind == 'jump':
      v = 0.0 if x < p else 1.0
    elif kind == 'jump_after':
      v = 0.0 if x <= p else 1.0
    elif kind == 'infinite':
      v = x if x < p else INF
    else:
      v = 2.0
    return sgn * v
  return g


@st.composite
def inverse_case(draw):
  dec = draw(st.booleans())
  discrete = draw(st.integers(0, 3)) == 0
  kind = draw(st.sampled_from(['linear', 'cube', 'step', 'sigmoid', 'jump', 'jump_after', 'infinite', 'constant']))
  if discrete:
    lo = draw(st.integers(-1000, 1000))
    hi = lo + draw(st.one_of(st.integers(0, 5), st.integers(0, 100000)))
    p = draw(st.one_of(st.integers(1, 50), st.integers(lo, hi)).map(float))
  else:
    lo = draw(st.one_of(st.sampled_from([0.0, 0, 1.0, -1.0]), st.floats(-1000, 1000)))
    hi = lo + draw(st.one_of(st.just(0.0), gen.logf(1e-9, 1e12), gen.logf(0.1, 100)))
    p = draw(st.one_of(gen.logf(1e-3, 1e3), st.floats(lo, hi)))
  if draw(st.integers(0, 11)) == 11:
    # integers beyond the resolution of floats
    kind = draw(st.sampled_from(['jump', 'jump_after']))
    discrete = True
    lo = draw(st.sampled_from([0, 2**54, 2**60 + 1, 2**68, -2**66])) + draw(st.integers(-1000, 1000))
    hi = lo + draw(st.one_of(st.integers(0, 100), st.sampled_from([2**54, 2**60, 2**69]).map(lambda w: w + 1)))
    p = draw(st.one_of(st.integers(lo, hi), st.integers(max(lo, hi - 50), hi), st.integers(lo, min(hi, lo + 50))))
  if kind in ('linear', 'cube', 'step', 'sigmoid'):
    p = max(abs(p), 1e-3)
  f = dict(kind=kind, p=p, q=draw(st.sampled_from([1.0, 0.5, 3.0])), dec=dec)
  g = make(f)
  at = draw(st.sampled_from(['inside', 'inside', 'lo', 'hi', 'free']))
  x = {'lo': lo, 'hi': hi}.get(at)
  if x is None:
    x = draw(st.integers(lo, hi)) if discrete else draw(st.floats(lo, hi)) if hi > lo else lo
  v = g(x)
  if at == 'free':
    v = draw(st.one_of(st.floats(-10, 10), st.just(v + 1e-9), st.just(v - 1e-9)))
  if not math.isfinite(v):
    v = 1e300 if v > 0 else -1e300
  guess, inf_up = None, False
  if draw(st.integers(0, 2)) == 0 and hi >= 1e-6 and hi > lo:
    a = max(lo, 1 if discrete else 1e-6)
    if a < hi:
      guess = draw(st.integers(a, hi)) if discrete else draw(st.one_of(st.floats(a, hi), gen.logf(a, hi)))
      # An unbounded search is only meaningful when it ends.
      inf_up = (g(1e30) <= v if dec else g(1e30) > v) and draw(st.booleans())
  return dict(f=f, lo=lo, hi=hi, value=v, discrete=discrete, guess=guess, inf_up=inf_up,
              tol=None if discrete else draw(st.one_of(st.none(), gen.logf(1e-12, 1.0))))


@sub('inverse', inverse_case(), quick=6000, thorough=240000,
     rule='inverse_monotone_function: soundness and optimality; non-trivial: the function crosses the value inside the bracket')
def inverse(case, ctx):
  g, lo, v, dec = make(case['f']), case['lo'], case['value'], case['f']['dec']
  hi = INF if case['inf_up'] else case['hi']
  calls = []

  def func(x):
    calls.append(x)
    require(lo <= x <= hi, 'evaluated at %r outside of [%r, %r]', x, lo, hi)
    if case['discrete']:
      require(x == int(x), 'evaluated at %r in a search over integers', x)
    return g(x)
  kw = {} if case['tol'] is None else dict(tolerance=case['tol'])
  tol = 1.0 if case['discrete'] else (case['tol'] or 1e-7)
  r = common.inverse_monotone_function(
      func, v, common.BinarySearchParameters(lo, hi, initial_guess=case['guess'], discrete=case['discrete'], **kw),
      increasing=not dec)
  best_end = lo if not dec else hi
  attainable = (g(best_end) if best_end != INF else -INF) <= v
  if not attainable:
    require(r is None, 'returned %r although no argument attains %r', r, v)
    ctx.label('unattainable')
    return
  require(r is not None, 'no argument returned although %r attains %r', best_end, v)
  require(lo <= r <= hi, 'argument %r outside of [%r, %r]', r, lo, hi)
  require(g(r) <= v, 'value %r at %r exceeds %r', g(r), r, v)
  # Beyond the tolerance (or the resolution of floats) no better argument may attain the value.
  step = tol * (1 + 1e-6) + 4e-16 * max(abs(r), abs(lo), abs(case['hi'] if hi == INF else hi))
  better = r - step if dec else r + step
  if case['discrete']:
    require(r == int(r), 'integer search returned %r', r)
    better = r - 2 if dec else r + 2
  if lo <= better <= hi:
    require(g(better) > v, '%r is not within the tolerance of the best argument: %r attains %r too', r, better, v)
    ctx.nontrivial()
  require(len(calls) <= 5000, '%d evaluations', len(calls))


# ------------------------------------------------------------- dictionaries
masses = st.one_of(st.just(0.0), gen.logf(1e-12, 1.0), st.sampled_from([0.1, 0.2, 0.25, 0.5, 1.0]))
dictionary = st.dictionaries(st.one_of(st.integers(-10, 10), st.integers(-60, 60)), masses, max_size=14)


@sub('dictionaries', st.fixed_dictionaries(dict(
    d=dictionary.map(lambda d: sorted(d.items())), tail=st.one_of(st.just(0.0), gen.logf(1e-9, 3)))), quick=2500, thorough=60000,
     rule='dictionary to list and back; non-trivial: a gap between keys or truncated mass')
def dictionaries(case, ctx):
  d = {int(k): float(v) for k, v in case['d']}
  offset, lst = common.dictionary_to_list(d)
  require(len(lst) == (max(d) - min(d) + 1 if d else 0), 'list of %d entries for keys %r', len(lst), sorted(d))
  require(not d or offset == min(d), 'offset %r for keys %r', offset, sorted(d))
  for i, x in enumerate(lst):
    require(x == d.get(offset + i, 0), 'entry %d is %r, should be %r', i, x, d.get(offset + i, 0))
  back = common.list_to_dictionary(lst, offset)
  require(dict(back) == {k: v for k, v in d.items() if v > 0}, 'round trip gives %r for %r', back, d)
  tail = case['tail']
  cut = common.list_to_dictionary(lst, offset, tail)
  check_cut(d, cut, tail, 1e-15)
  ctx.nontrivial(len(lst) > len(d) or len(cut) < len(back))


def check_cut(full, cut, tail, err, least=None):
  """cut keeps full except for at most half the tail mass at either end, and no more than could be cut."""
  keys = sorted(k for k, v in full.items() if v > err)
  for k, v in cut.items():
    require(abs(v - full.get(k, 0)) <= err + 1e-13 * v, 'entry %r is %r, should be %r', k, v, full.get(k, 0))
  kept = sorted(cut)
  if kept:
    low = sum(full[k] for k in keys if k < kept[0])
    high = sum(full[k] for k in keys if k > kept[-1])
    mid = [k for k in keys if kept[0] <= k <= kept[-1] and k not in cut]
    require(not mid, 'entries %r inside of the kept range are lost', mid[:5])
    slack = err * (len(full) + 1)
    require(low <= tail / 2 * (1 + 1e-12) + slack, 'mass %r dropped below, of a tail mass %r', low, tail)
    require(high <= tail / 2 * (1 + 1e-12) + slack, 'mass %r dropped above, of a tail mass %r', high, tail)
  else:
    total = sum(full.values())
    require(total <= tail * (1 + 1e-12) + err * (len(full) + 1), 'all the mass %r dropped, of a tail mass %r', total, tail)


def exact_convolve(d1, d2):
  out = {}
  for k1, v1 in d1.items():
    for k2, v2 in d2.items():
      out.setdefault(k1 + k2, []).append(v1 * v2)
  return {k: math.fsum(v) for k, v in out.items()}


@sub('convolve', st.fixed_dictionaries(dict(
    a=dictionary.map(lambda d: sorted(d.items())), b=dictionary.map(lambda d: sorted(d.items())),
    tail=st.one_of(st.just(0.0), gen.logf(1e-9, 1)))), quick=2500, thorough=60000,
     rule='convolution of two dictionaries; non-trivial: at least two masses each')
def convolve(case, ctx):
  a = {int(k): float(v) for k, v in case['a']}
  b = {int(k): float(v) for k, v in case['b']}
  if not a or not b:
    ctx.label('empty')
    require(not common.convolve_dictionary(a, b), 'convolution with nothing is not empty')
    return
  got = common.convolve_dictionary(a, b, case['tail'])
  want = exact_convolve(a, b)
  err = 1e-14 * math.sqrt(sum(x * x for x in a.values()) * sum(x * x for x in b.values())) + 1e-300
  check_cut(want, got, case['tail'], err)
  ctx.nontrivial(sum(v > 0 for v in a.values()) > 1 and sum(v > 0 for v in b.values()) > 1)


@st.composite
def large_case(draw):
  return dict(seed=draw(st.integers(0, 2 ** 31)), a=draw(st.one_of(st.integers(100, 3000), st.integers(3000, 70000))), b=draw(st.integers(1, 25)),
              span=draw(st.one_of(st.integers(1, 100), st.integers(100, 70000))), shape=draw(st.sampled_from(['flat', 'geometric', 'normal', 'spikes'])),
              mass=draw(st.sampled_from([1.0, 0.999, 0.5])), tail=draw(st.one_of(st.just(0.0), st.just(1e-15), gen.logf(1e-12, 0.1))),
              swap=draw(st.booleans()), power=draw(st.sampled_from([0, 0, 2, 3])))


@sub('large', large_case(), quick=160, thorough=4000,
     rule='convolutions of dictionaries with up to 70000 keys, or keys up to 70000 apart; non-trivial: more than 20000 entries')
def large(case, ctx):
  rng, n, off = np.random.default_rng(case['seed']), case['a'], int(case['seed'] % 2000) - 1000
  keys_b = np.unique(rng.integers(0, case['span'] + 1, case['b']))
  mass_b = rng.exponential(size=len(keys_b)) ** 2 + 1e-6
  mass_b *= case['mass'] / mass_b.sum()
  b = {int(k) - 7: float(v) for k, v in zip(keys_b, mass_b)}
  if case['power']:
    # A few keys far apart, convolved with themselves: exactly by shifting.
    keys = sorted(b)[:6]
    d, m = {k: b[k] for k in keys}, case['power']
    want = {0: 1.0}
    for _ in range(m):
      want = exact_convolve(want, d)
    err = 1e-13 * m * math.fsum(d.values()) ** m
    got = common.self_convolve_dictionary(d, m, case['tail'])
    extra = 0.0
    for k, v in got.items():
      diff = v - want.get(k, 0.0)
      require(diff >= -err, 'mass at %d is %r, should be %r', k, v, want.get(k, 0.0))
      extra += max(0.0, diff - err)
    require(extra <= case['tail'] * (1 + 1e-9) + err, 'mass %r too much, tail mass %r', extra, case['tail'])
    dropped = math.fsum(v for k, v in want.items() if k not in got and v > err)
    require(dropped <= case['tail'] * (1 + 1e-9), 'mass %r dropped, tail mass %r', dropped, case['tail'])
    ctx.label('power')
    ctx.nontrivial(m * (max(d) - min(d)) > 20000)
    return
  i = np.arange(n)
  va = dict(flat=lambda: np.ones(n), geometric=lambda: np.exp(-i * (30.0 / n)), normal=lambda: np.exp(-0.5 * ((i - n / 2) / (n / 12)) ** 2),
            spikes=lambda: np.where(rng.random(n) < 0.001, 1.0, 1e-9))[case['shape']]()
  va *= case['mass'] / va.sum()
  a = {int(k) + off: float(v) for k, v in zip(i, va)}
  want = np.zeros(n + max(b) + 7, dtype=np.longdouble)
  for k, v in b.items():
    want[k + 7:k + 7 + n] += va.astype(np.longdouble) * v
  got = common.convolve_dictionary(b, a, case['tail']) if case['swap'] else common.convolve_dictionary(a, b, case['tail'])
  err = 1e-14 * math.sqrt(float((va ** 2).sum()) * sum(x * x for x in b.values())) * math.log2(len(want) + 2)
  keys = np.fromiter(got.keys(), dtype=np.int64, count=len(got)) - off + 7
  vals = np.fromiter(got.values(), dtype=float, count=len(got))
  stray = (keys < 0) | (keys >= len(want))
  require(not stray.any(), 'impossible keys')
  diff = np.abs(vals - want[keys]).astype(float)
  require(not len(diff) or diff.max() <= err, 'an entry of the convolution is off by %r, rounding explains %r (%d and %d keys)',
          float(diff.max()) if len(diff) else 0, err, len(a), len(b))
  kept = np.zeros(len(want), bool)
  kept[keys] = True
  gone = np.where(kept, 0, want)
  first, last = (int(keys.min()), int(keys.max())) if len(keys) else (len(want), len(want))
  slack = err * len(want)
  low, high = float(gone[:first].sum()), float(gone[last + 1:].sum())
  require(low <= case['tail'] / 2 * (1 + 1e-9) + slack or not len(keys), 'mass %r dropped below, of a tail mass %r', low, case['tail'])
  require(high <= case['tail'] / 2 * (1 + 1e-9) + slack, 'mass %r dropped above, of a tail mass %r', high, case['tail'])
  require(not len(keys) or float(gone[first:last + 1].max()) <= err, 'an entry %r inside of the kept range is lost', float(gone[first:last + 1].max()) if len(keys) else 0)
  require(len(keys) or float(want.sum()) <= case['tail'] * (1 + 1e-9) + slack, 'all the mass is dropped')
  ctx.label('convolve')
  ctx.nontrivial(len(a) + case['span'] > 20000)


# --------------------------------------------------------- self-convolution
def power(lst, n):
  """n-fold convolution by repeated squaring in extended precision (no cancellation)."""
  base = np.array(lst, dtype=np.longdouble)
  out = np.array([1], dtype=np.longdouble)
  while n:
    if n & 1:
      out = np.convolve(out, base)
    n >>= 1
    if n:
      base = np.convolve(base, base)
  return out


@st.composite
def list_case(draw):
  m = draw(st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(1, 120)))
  shape = draw(st.sampled_from(['any', 'flat', 'peak', 'ends', 'geometric']))
  if shape == 'any':
    xs = draw(st.lists(masses, min_size=m, max_size=m))
  elif shape == 'flat':
    xs = [1.0 / m] * m
  elif shape == 'peak':
    xs = [1e-6] * m
    xs[draw(st.integers(0, m - 1))] = 1.0
  elif shape == 'ends':
    xs = [0.0] * m
    xs[0] = draw(masses)
    xs[-1] = draw(masses)
  else:
    r = draw(gen.logf(0.1, 10))
    xs = [r ** (i - (m - 1 if r > 1 else 0)) for i in range(m)]
  total = sum(xs)
  if total == 0:
    xs[0] = total = 1.0
  norm = draw(st.sampled_from([1.0, 1.0, 0.9, 0.3, None]))
  if norm is not None:
    xs = [x / total * norm for x in xs]
  nmax = max(1, min(200, int(3000 / m)))
  return dict(x=xs, n=draw(st.one_of(st.integers(1, 5), st.integers(1, nmax))),
              tail=draw(st.one_of(st.just(0.0), gen.logf(1e-25, 0.5), st.sampled_from([1e-15, 1e-9, 0.1]))))


def check_self(x, n, tail, want, ctx):
  """self_convolve and its bounds against the exact convolution want (from index 0)."""
  s = math.fsum(x)
  err = 1e-13 * n * max(s ** n, 1e-280)
  lo, hi = common.compute_self_convolve_bounds(x, n, tail)
  lo, hi = int(lo), int(hi)
  idx = np.arange(len(want))
  outside = float(want[(idx < lo) | (idx > hi)].sum())
  require(outside <= tail * (1 + 1e-9) + 1e-290, 'mass %r outside of the bounds [%d, %d], tail mass %r', outside, lo, hi, tail)
  off, out = common.self_convolve(x, n, tail)
  out = np.asarray(out, dtype=float)
  off = int(off)
  got = np.zeros(len(want))
  keep = np.arange(len(out)) + off
  ok = (keep >= 0) & (keep < len(want))
  stray = float(np.abs(out[~ok]).sum())
  require(stray <= tail + err * (1 + len(out)), 'mass %r at impossible indices', stray)
  got[keep[ok]] = out[ok]
  diff = got - want.astype(float)
  inside = np.zeros(len(want), bool)
  inside[keep[ok]] = True
  low = float(diff[inside].min()) if inside.any() else 0.0
  require(low >= -err, 'an entry inside of the truncation bounds is %r too low', -low)
  dropped = float(want[~inside].sum())
  require(dropped <= tail * (1 + 1e-9) + 1e-290, 'mass %r dropped, tail mass %r', dropped, tail)
  if tail == 0:
    require(len(out) == len(want) and off == 0, 'without truncation: %d entries from %d instead of %d from 0', len(out), off, len(want))
    require(float(np.abs(diff).max()) <= err, 'entry off by %r', float(np.abs(diff).max()))
  else:
    extra = float(np.clip(diff[inside] - err, 0, None).sum()) if inside.any() else 0.0
    require(extra <= tail * (1 + 1e-9) + err, 'mass %r too much, tail mass %r', extra, tail)
  ctx.nontrivial(n > 1 and (want > 0).sum() > 2)
  if len(out) < len(want):
    ctx.label('truncated')
  return err


@sub('self_convolve', list_case(), quick=2500, thorough=60000,
     rule='self-convolution and its bounds against exact repeated convolution; non-trivial: more than one repetition and three outcomes')
def self_convolve(case, ctx):
  x, n, tail = case['x'], case['n'], case['tail']
  want = power(x, n)
  check_self(x, n, tail, want, ctx)


@st.composite
def binomial_case(draw):
  n = draw(st.one_of(st.integers(1, 300), st.integers(1, 20000)))
  return dict(n=n, p=draw(gen.prob(1e-6)), gap=draw(st.integers(1, 5 if n < 4000 else 2)), pad=draw(st.integers(0, 3)),
              s=draw(st.sampled_from([1.0, 1.0, 1 - 1e-6])),
              tail=draw(st.one_of(st.just(0.0), gen.logf(1e-25, 0.5), st.sampled_from([1e-15, 1e-10]))))


@sub('binomial', binomial_case(), quick=400, thorough=10000,
     rule='self-convolution of two-point arrays against the binomial distribution; non-trivial: more than one repetition')
def binomial(case, ctx):
  n, p, g = case['n'], case['p'], case['gap']
  x = [0.0] * (g + 1 + case['pad'])
  x[0] = (1 - p) * case['s']
  x[g] = p * case['s']
  want = np.zeros((len(x) - 1) * n + 1, dtype=np.longdouble)
  want[:g * n + 1:g] = stats.binom.pmf(np.arange(n + 1), n, p) * case['s'] ** n
  check_self(x, n, case['tail'], want, ctx)


@st.composite
def dict_power(draw):
  d = draw(st.dictionaries(st.integers(-25, 25), masses.filter(lambda v: v > 0), min_size=1, max_size=8))
  return dict(d=sorted(d.items()), n=draw(st.integers(1, 30)), tail=draw(st.one_of(st.just(0.0), gen.logf(1e-20, 0.1))))


@sub('self_convolve_dictionary', dict_power(), quick=1200, thorough=30000,
     rule='self-convolution of dictionaries: keys and masses; non-trivial: more than one repetition of more than one key')
def self_convolve_dictionary(case, ctx):
  d = {int(k): float(v) for k, v in case['d']}
  n, tail = case['n'], case['tail']
  got = common.self_convolve_dictionary(d, n, tail)
  lo, hi = min(d), max(d)
  want = power([d.get(k, 0.0) for k in range(lo, hi + 1)], n)
  full = {lo * n + i: float(v) for i, v in enumerate(want) if v > 0}
  err = 1e-13 * n * math.fsum(d.values()) ** n + 1e-280
  require(all(int(k) == k for k in got), 'keys are not integers')
  dropped = sum(v for k, v in full.items() if k not in got and v > err)
  require(dropped <= tail * (1 + 1e-9), 'mass %r dropped, tail mass %r', dropped, tail)
  extra = 0.0
  for k, v in got.items():
    diff = v - full.get(k, 0.0)
    require(diff >= -err, 'mass at %d is %r, should be %r', k, v, full.get(k, 0.0))
    extra += max(0.0, diff - err)
  require(extra <= tail * (1 + 1e-9) + err, 'mass %r too much, tail mass %r', extra, tail)
  ctx.nontrivial(n > 1 and len(d) > 1)


@st.composite
def orders_case(draw):
  c = draw(list_case())
  o = draw(st.lists(st.one_of(gen.logf(1e-3, 3), gen.logf(1e-3, 3).map(lambda x: -x)), min_size=1, max_size=6))
  c['orders'] = o
  c['tail'] = c['tail'] or 1e-9
  return c


@sub('bounds', orders_case(), quick=1200, thorough=30000,
     rule='Chernoff bounds at any orders contain all but the tail mass; non-trivial: tighter than the support')
def bounds(case, ctx):
  x, n, tail = case['x'], case['n'], case['tail']
  lo, hi = common.compute_self_convolve_bounds(x, n, tail, orders=case['orders'])
  want = power(x, n)
  require(0 <= lo and hi <= len(want) - 1, 'bounds [%r, %r] beyond the support', lo, hi)
  idx = np.arange(len(want))
  below, above = float(want[idx < lo].sum()), float(want[idx > hi].sum())
  require(below + above <= tail * (1 + 1e-9), 'mass %r outside of [%r, %r], tail mass %r', below + above, lo, hi, tail)
  if lo > 0 or hi < len(want) - 1:
    ctx.nontrivial()


# ------------------------------------------------------------- log-add
@st.composite
def log_case(draw):
  mag = st.one_of(gen.logf(1e-12, 1e6), st.sampled_from([1.0, 1, 0.5, 2.0]))
  a = draw(mag) * draw(st.sampled_from([1, 1, 0, -1]))
  b = draw(st.one_of(st.just(0.0), st.floats(-50, 50), st.floats(-800, 800)))
  la = (math.log(abs(a)) + b) if a else 0.0
  c = draw(mag) * draw(st.sampled_from([1, 1, 0, -1]))
  if draw(st.booleans()) and a and abs(la) < 700:
    c = draw(st.sampled_from([1, -1])) * math.exp(la) * draw(st.sampled_from([0.5, 0.999999, 1.000001, 2.0, 1e-5, 1e5]))
  return dict(a=a, b=b, c=c)


@sub('log', log_case(), quick=4000, thorough=100000,
     rule='log(a exp(b) + c) against 60-digit arithmetic; non-trivial: both terms count')
def log(case, ctx):
  a, b, c = case['a'], case['b'], case['c']
  with mp.workdps(60):
    t = mp.mpf(a) * mp.exp(mp.mpf(b))
    s = t + mp.mpf(c)
    if a == 0 and c <= 0:
      return
    cond = (abs(t) + abs(mp.mpf(c))) / abs(s) if s else mp.inf
    if cond > 1e12:
      return
    if s <= 0:
      try:
        r = common.log_a_times_exp_b_plus_c(a, b, c)
      except ValueError:
        ctx.label('refused')
        return
      if math.isnan(r):
        return
      raise core.Violation('logarithm of the negative %s is %r' % (mp.nstr(s, 8), r))
    want = mp.log(s)
    tol = 1e-15 * float(cond) * (abs(b) + abs(math.log(abs(a)) if a else 0) + abs(math.log(abs(c)) if c else 0) + 4)
    got = common.log_a_times_exp_b_plus_c(a, b, c)
    require(abs(mp.mpf(float(got)) - want) <= tol + 1e-15 * abs(want), 'log is %r, should be %s', got, mp.nstr(want, 17))
  ctx.nontrivial(a != 0 and c != 0)
