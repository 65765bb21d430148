"""C05: delta and epsilon queries describe one consistent privacy curve."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
import pldlib
from pldlib import PLD, INF
from dp_accounting.pld import pld_pmf

ASSUMPTIONS = [
    'stored probabilities are non-negative and sum with the infinity mass to one',
    'epsilons and losses within +-4000 (plus +-infinity)',
    'double-precision evaluation of the defining sum is the reference; 1e-12 slack']
sub = core.Registry()
TOL = 1e-12


@st.composite
def pmf_case(draw, big=True):
  """A stored distribution: integer keys, integer weights, infinity weight, storage form."""
  h = draw(st.one_of(st.sampled_from([1.0, 0.5, 0.1, 0.25, 1, 2]), gen.logf(1e-4, 5)))
  shape = draw(st.integers(0, 6))
  lim = max(2, int(500 / h))
  if shape == 0:
    keys = draw(st.lists(st.integers(-5, 5), min_size=1, max_size=6, unique=True))
  elif shape == 1:
    keys = draw(st.lists(st.integers(-min(40, lim), min(40, lim)), min_size=1, max_size=20, unique=True))
  elif shape == 2:
    keys = draw(st.lists(st.integers(-min(4000, lim), min(4000, lim)), min_size=1, max_size=12, unique=True))
  elif shape == 3:
    keys = draw(st.lists(st.integers(1, min(30, lim)), min_size=1, max_size=8, unique=True))
  elif shape == 4:
    keys = draw(st.lists(st.integers(-min(30, lim), 0), min_size=1, max_size=8, unique=True))
  elif shape == 6:     # losses whose exponentials overflow or underflow
    c = int(draw(st.sampled_from([-3000, -800, -700, 690, 720, 760, 2500])) / h)
    r = max(1, int(draw(st.sampled_from([2, 60, 900])) / h))
    ks = draw(st.lists(st.floats(-1, 1), min_size=1, max_size=8))
    keys = sorted(set(c + int(x * r) for x in ks))
  else:
    lo = draw(st.integers(-min(30, lim), min(30, lim)))
    keys = list(range(lo, min(lim, lo + draw(st.integers(1, 40)))))
    keys = keys or [0]
  ws = draw(st.lists(st.one_of(st.integers(0, 9), st.integers(1, 10**6)), min_size=len(keys), max_size=len(keys)))
  iw = draw(st.one_of(st.just(0), st.integers(0, 20), st.integers(1, 10**6)))
  if sum(ws) + iw == 0:
    iw = 1
  return dict(h=h, keys=keys, ws=ws, iw=iw, form=draw(st.sampled_from(['sparse', 'dense', 'pld', 'pld_asym'])),
              pess=draw(st.booleans()))


def probs_of(case):
  t = sum(case['ws']) + case['iw']
  return {k: w / t for k, w in zip(case['keys'], case['ws'])}, case['iw'] / t


def ref_delta(pm, inf, h, eps):
  return math.fsum([inf] + [p * -math.expm1(eps - k * h) for k, p in pm.items() if k * h > eps])


def build(case):
  pm, inf = probs_of(case)
  f, h = case['form'], case['h']
  if f == 'sparse':
    return pld_pmf.SparsePLDPmf(dict(pm), h, inf, case['pess'])
  if f == 'dense':
    lo, hi = min(pm), max(pm)
    if hi - lo > 200000:
      return pld_pmf.SparsePLDPmf(dict(pm), h, inf, case['pess'])
    a = np.zeros(hi - lo + 1)
    for k, p in pm.items():
      a[k - lo] = p
    return pld_pmf.DensePLDPmf(h, lo, a, inf, case['pess'])
  return PLD.PrivacyLossDistribution.create_from_rounded_probability(dict(pm), inf, h, case['pess'])


def eps_list(case, fr):
  h, keys = case['h'], sorted(case['keys'])
  lo, hi = keys[0] * h, keys[-1] * h
  out = [0.0, lo, hi, -h, h, lo - h, hi + h, lo - 1e-9, hi + 1e-9]
  for f in fr:
    k = keys[min(len(keys) - 1, int(abs(f) * len(keys)))]
    out += [k * h, k * h + h * 0.37, k * h - h * 0.5, math.nextafter(k * h, INF), math.nextafter(k * h, -INF), f * (hi - lo + 1)]
  return sorted(e for e in out if -4000 < e < 4000)


fr = st.lists(st.floats(-1, 1), min_size=1, max_size=5)


@st.composite
def delta_case(draw):
  c = draw(pmf_case())
  if c['form'] == 'pld_asym':
    o = draw(pmf_case())
    o['h'], o['form'], o['pess'] = c['h'], 'sparse', c['pess']
    lim = max(2, int(500 / c['h']))
    o['keys'] = [max(-lim, min(lim, k)) for k in o['keys']]
    o['keys'] = list(dict.fromkeys(o['keys']))
    o['ws'] = o['ws'][:len(o['keys'])]
    if sum(o['ws']) + o['iw'] == 0:
      o['iw'] = 1
    c['other'] = o
  return dict(pmf=c, fr=draw(fr), deltas=draw(pldlib.deltas), shuffle=draw(st.integers(0, 3)))


def objects(case):
  c = case['pmf']
  pm, inf = probs_of(c)
  refs = [(pm, inf)]
  if 'other' in c:
    pm2, inf2 = probs_of(c['other'])
    refs.append((pm2, inf2))
    obj = PLD.PrivacyLossDistribution.create_from_rounded_probability(
        dict(pm), inf, c['h'], c['pess'], dict(pm2), inf2, symmetric=False)
  else:
    obj = build(c)
  return obj, refs


def worst(refs, h, e):
  return max(ref_delta(pm, inf, h, e) for pm, inf in refs)


@sub('delta_curve', delta_case(), quick=2400, thorough=60000,
     rule='random stored distribution; scalar, list, tuple and array queries against the defining sum; non-trivial: '
          'some finite loss above and some below a queried epsilon')
def delta_curve(case, ctx):
  c = case['pmf']
  h = c['h']
  obj, refs = objects(case)
  es = eps_list(c, case['fr'])
  ctx.label(c['form'])
  want = [worst(refs, h, e) for e in es]
  prev = 1.0
  for e, w in zip(es, want):
    d = obj.get_delta_for_epsilon(e)
    require(abs(d - w) <= TOL, 'delta(%r) = %r, stored distribution gives %r', e, d, w)
    require(-1e-15 <= d <= 1 + 1e-12, 'delta(%r) = %r outside [0, 1]', e, d)
    require(d <= prev + TOL, 'delta increases to %r at %r', d, e)
    prev = d
  for form in (list(es), tuple(es), np.array(es)):
    ds = obj.get_delta_for_epsilon(form)
    require(len(ds) == len(es), '%d deltas for %d epsilons', len(ds), len(es))
    for e, w, d in zip(es, want, ds):
      require(abs(d - w) <= TOL, 'vector query: delta(%r) = %r, stored distribution gives %r', e, d, w)
  # infinities
  inf = max(r[1] for r in refs)
  d = obj.get_delta_for_epsilon(INF)
  require(abs(d - inf) <= TOL, 'delta(inf) = %r, infinity mass %r', d, inf)
  d = obj.get_delta_for_epsilon(-INF)
  require(abs(d - 1) <= 1e-12, 'delta(-inf) = %r', d)
  ds = obj.get_delta_for_epsilon([-INF] + es + [INF, INF])
  require(abs(ds[0] - 1) <= 1e-12 and abs(ds[-1] - inf) <= TOL and abs(ds[-2] - inf) <= TOL,
          'vector query at infinities: %r', list(ds))
  for w, d in zip(want, list(ds)[1:-2]):
    require(abs(d - w) <= TOL, 'vector query with infinities: %r instead of %r', d, w)
  ie = sorted({int(e) for e in es})
  ds = obj.get_delta_for_epsilon(ie)
  for e, d in zip(ie, ds):
    w = worst(refs, h, e)
    require(abs(d - w) <= TOL, 'integer vector query: delta(%r) = %r instead of %r', e, d, w)
  single = obj.get_delta_for_epsilon([es[0]])
  require(len(single) == 1 and abs(single[0] - want[0]) <= TOL, 'single-element query %r', single)
  ctx.nontrivial(any(inf + 1e-6 < w < 1 - 1e-6 for w in want))


@sub('epsilon_inverse', delta_case(), quick=3200, thorough=80000,
     rule='random stored distribution and delta (also exactly a value of the curve, the infinity mass, zero, one): the '
          'smallest non-negative epsilon meeting delta; non-trivial: finite positive epsilon')
def epsilon_inverse(case, ctx):
  c = case['pmf']
  h = c['h']
  obj, refs = objects(case)
  infm = max(r[1] for r in refs)
  ds = list(case['deltas']) + [infm, 0.0, 1.0]
  for e in eps_list(c, case['fr'])[:12]:
    if e >= 0:
      ds.append(min(1.0, max(0.0, worst(refs, h, e))))
  top = max([k * h for r in refs for k, p in r[0].items() if p > 0] + [0.0])
  for d in ds:
    e = obj.get_epsilon_for_delta(d)
    require(not math.isnan(e) and e >= 0, 'epsilon(%r) = %r', d, e)
    if infm > d:
      require(e == INF, 'epsilon(%r) = %r although the infinity mass is %r', d, e, infm)
      continue
    require(e < INF, 'epsilon(%r) is infinite although the infinity mass is only %r', d, infm)
    w = worst(refs, h, e)
    require(w <= d + 1e-11, 'delta at the reported epsilon(%r) = %r is %r', d, e, w)
    if e > 1e-9:
      require(e <= top * (1 + 1e-9) + 1e-9, 'epsilon(%r) = %r beyond the largest loss %r', d, e, top)
      # minimality: a slightly smaller epsilon does not meet delta; close to flat parts rounding of delta decides
      e2 = e - max(1e-9, 1e-9 * e)
      w2 = worst(refs, h, e2)
      if w2 - w > 1e-11:
        require(w2 > d, 'epsilon(%r) = %r is not minimal: delta(%r) = %r', d, e, e2, w2)
      e3 = e - 1e-3 * max(1, e)
      if e3 >= 0:
        require(worst(refs, h, e3) > d - 1e-11 and (d > 1e-9 or worst(refs, h, e3) > d),
                'epsilon(%r) = %r is far from minimal: delta(%r) = %r', d, e, e3, worst(refs, h, e3))
      ctx.nontrivial()


@sub('unsorted', st.tuples(pmf_case(), st.lists(st.floats(-5, 5), min_size=2, max_size=6)), quick=240, thorough=4000,
     rule='vector queries not in ascending order are refused or answered entry by entry')
def unsorted(case, ctx):
  c, es = case
  if c['form'] == 'pld_asym':
    c = dict(c, form='pld')
  obj = build(c)
  pm, inf = probs_of(c)
  try:
    ds = obj.get_delta_for_epsilon(es)
  except ValueError:
    require(any(b < a for a, b in zip(es, es[1:])), 'ascending epsilons %r refused', es)
    ctx.nontrivial()
    return
  for e, d in zip(es, ds):
    w = ref_delta(pm, inf, c['h'], e)
    require(abs(d - w) <= TOL, 'delta(%r) = %r instead of %r in query %r', e, d, w, es)


@st.composite
def real_case(draw):
  spec = draw(pldlib.additive(sub=draw(st.booleans())))
  return dict(spec=spec, h=draw(pldlib.interval(spec)), dots=draw(st.booleans()), pess=draw(st.booleans()),
              n=draw(st.sampled_from([1, 1, 2, 5])), fracs=draw(pldlib.fracs), deltas=draw(pldlib.deltas))


@sub('mechanism_curves', real_case(), quick=480, thorough=10000,
     rule='curve consistency of distributions built from mechanisms and composed: monotone, scalar equals vector, '
          'epsilon and delta invert each other')
def mechanism_curves(case, ctx):
  pld = pldlib.build(case['spec'], case['h'], case['pess'], case['dots'])
  if case['n'] > 1:
    pld = pld.self_compose(case['n'])
  es = pldlib.eps_points(case['spec'], case['h'], case['fracs'])
  vec = pld.get_delta_for_epsilon(es)
  prev = 1.0
  for e, v in zip(es, vec):
    d = pld.get_delta_for_epsilon(e)
    require(abs(d - v) <= 1e-11, 'delta(%r): %r scalar, %r vector', e, d, v)
    require(-1e-12 <= d <= 1 + 1e-11 and d <= prev + 1e-11, 'delta(%r) = %r after %r', e, d, prev)
    prev = d
    ctx.nontrivial(1e-9 < d < 1)
  top = pld.get_delta_for_epsilon(INF)
  last = None
  for dl in sorted(case['deltas']):
    e = pld.get_epsilon_for_delta(dl)
    require(e >= 0, 'epsilon(%r) = %r', dl, e)
    require(last is None or e <= last * (1 + 1e-9) + 1e-9, 'epsilon increases with delta: %r then %r', last, e)
    last = e
    if e == INF:
      require(top > dl, 'epsilon(%r) infinite, delta(inf) = %r', dl, top)
    elif dl > 1e-9:
      d = pld.get_delta_for_epsilon(e)
      require(d <= dl + 1e-11, 'delta(epsilon(%r) = %r) = %r', dl, e, d)
      if 1e-6 < e < 600:
        d = pld.get_delta_for_epsilon(e * (1 - 1e-7) - 1e-9)
        require(d >= dl - 1e-11, 'epsilon(%r) = %r not minimal: %r just below', dl, e, d)
