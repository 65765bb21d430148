"""C04: composing privacy losses equals running the mechanisms together."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
import oracle
import pldlib
from pldlib import PLD, INF
from dp_accounting.pld import pld_pmf

ASSUMPTIONS = [
    'reference compositions by direct convolution in double precision; 1e-11 slack for FFT rounding',
    'each composition step may move at most twice the requested tail mass']
sub = core.Registry()
TOL = 1e-11


# ---------------------------------------------------------------------------
# grid-level: random stored distributions against direct convolution

@st.composite
def table(draw, wide=True):
  """One stored distribution: start key, step, integer weights, infinity weight."""
  kind = draw(st.integers(0, 5 if wide else 2))
  if kind == 5:       # a constant loss: composing with it only moves the losses
    return dict(keys=[draw(st.sampled_from([0, 0, 1, -1, 7, -40]))], ws=[1], iw=draw(st.sampled_from([0, 0, 0, 5])))
  iw = draw(st.sampled_from([0, 0, 0, 0, None, None, None, None, -1]))
  iw = draw(st.integers(0, 30)) if iw is None else iw
  if kind == 3:       # long: forces the dense form
    n = draw(st.integers(1001, 1300))
    seed = draw(st.integers(0, 2**20))
    return dict(lo=draw(st.integers(-700, -100)), n=n, seed=seed, iw=iw)
  if kind == 4:       # sparse with large gaps
    keys = draw(st.lists(st.integers(-900, 900), min_size=1, max_size=5, unique=True))
  elif kind == 0:
    keys = draw(st.lists(st.integers(-4, 4), min_size=1, max_size=3, unique=True))
  else:
    keys = draw(st.lists(st.integers(-60, 60), min_size=1, max_size=40, unique=True))
  ws = draw(st.lists(st.one_of(st.integers(1, 9), st.integers(1, 10**5)), min_size=len(keys), max_size=len(keys)))
  return dict(keys=keys, ws=ws, iw=iw)


def expand(t):
  """-> dict key -> prob, infinity mass"""
  if t['iw'] < 0:      # all mass at infinity
    return {k: 0.0 for k in (t['keys'] if 'keys' in t else range(t['lo'], t['lo'] + t['n']))}, 1.0
  if 'keys' in t:
    tot = sum(t['ws']) + t['iw'] * max(1, sum(t['ws']) // 100)
    return {k: w / tot for k, w in zip(t['keys'], t['ws'])}, t['iw'] * max(1, sum(t['ws']) // 100) / tot
  r = np.random.RandomState(t['seed'])
  w = r.gamma(0.3, size=t['n'])
  tot = w.sum() * (1 + t['iw'] / 100)
  return {t['lo'] + i: float(x / tot) for i, x in enumerate(w)}, float(1 - w.sum() / tot)


def arr(t):
  pm, inf = expand(t)
  lo, hi = min(pm), max(pm)
  a = np.zeros(hi - lo + 1)
  for k, p in pm.items():
    a[k - lo] = p
  return lo, a, inf


def conv(x, y):
  return x[0] + y[0], np.convolve(x[1], y[1]), 1 - (1 - x[2]) * (1 - y[2])


def conv_power(x, n):
  out = None
  while n:
    if n & 1:
      out = x if out is None else conv(out, x)
    n >>= 1
    if n:
      x = conv(x, x)
  return out


def ref_delta(x, h, e):
  l = (x[0] + np.arange(len(x[1]))) * h
  i = l > e
  return x[2] + float(np.dot(-np.expm1(e - l[i]), x[1][i]))


FIXED = [-20.0, -3.0, -1.0, -0.3, -0.05, 0.0, 0.01, 0.1, 0.5, 1.0, 2.0, 5.0, 30.0]


@st.composite
def comp_case(draw):
  n = draw(st.integers(1, 4))
  ts = []
  for _ in range(n):
    t = dict(rem=draw(table()), rep=1)
    if draw(st.integers(0, 2)) == 0:
      t['add'] = draw(table())
    if draw(st.booleans()):
      long = 'seed' in t['rem'] or 'seed' in t.get('add', {}) or any(abs(k) > 100 for x in (t['rem'], t.get('add', t['rem'])) for k in x.get('keys', []))
      t['rep'] = draw(st.sampled_from([2, 3] if long else [2, 3, 4, 5, 7, 16, 33]))
    ts.append(t)
  return dict(h=draw(st.one_of(st.sampled_from([0.1, 0.01, 0.5, 1.0, 1]), gen.logf(1e-3, 1))), ts=ts,
              pess=draw(st.booleans()), order=draw(st.permutations(list(range(n)))),
              left=draw(st.booleans()), tail=draw(st.sampled_from([0.0, 1e-15, 1e-15, 1e-9, 1e-4, 0.01])),
              default_tail=draw(st.booleans()), fr=draw(st.lists(st.floats(-0.3, 1.1), min_size=1, max_size=5)),
              unrolled=draw(st.booleans()))


def make(t, h, pess):
  pm, inf = expand(t['rem'])
  if 'add' in t:
    pm2, inf2 = expand(t['add'])
    return PLD.PrivacyLossDistribution.create_from_rounded_probability(pm, inf, h, pess, pm2, inf2, symmetric=False)
  return PLD.PrivacyLossDistribution.create_from_rounded_probability(pm, inf, h, pess)


def reference(case):
  out = []
  for side in ('rem', 'add'):
    acc = None
    for t in case['ts']:
      x = conv_power(arr(t.get(side, t['rem'])), t['rep'])
      acc = x if acc is None else conv(acc, x)
    out.append(acc)
  return out


def query_points(refs, h, fr):
  lo = min(x[0] for x in refs) * h
  hi = max(x[0] + len(x[1]) - 1 for x in refs) * h
  sd = []
  for x in refs:
    l = (x[0] + np.arange(len(x[1]))) * h
    m = x[1].sum()
    if m > 0:
      mu = np.dot(l, x[1]) / m
      s = math.sqrt(max(0.0, np.dot((l - mu) ** 2, x[1]) / m))
      sd += [mu, mu + s, mu - s, mu + 3 * s]
  es = [0.0, lo, hi, hi + h, lo - h, hi - h / 2] + sd + [round(s / h) * h for s in sd]
  es += [lo + f * (hi - lo) for f in fr] + [sd[0] + f * 2 * (sd[1] - sd[0]) for f in fr if sd]
  return sorted(e for e in es if -600 < e < 600)


@sub('tables', comp_case(), quick=1600, thorough=40000,
     rule='random sequences of stored distributions (sparse, gapped, dense, asymmetric, infinity mass), random order, '
          'grouping, repetition and truncation mass, against direct convolution; non-trivial: at least two factors and '
          'a delta strictly between the infinity mass and one')
def tables(case, ctx):
  h, pess = case['h'], case['pess']
  tail = 1e-15 if case['default_tail'] else case['tail']
  kw = {} if case['default_tail'] else dict(tail_mass_truncation=tail)
  refs = reference(case)
  plds, steps, dense = [], 0, False
  for i in case['order']:
    t = case['ts'][i]
    p = make(t, h, pess)
    if t['rep'] > 1:
      if case['unrolled'] and t['rep'] <= 5:
        q = p
        for _ in range(t['rep'] - 1):
          q = q.compose(p, **kw)
          steps += 1
        p = q
      else:
        p = p.self_compose(t['rep'], **kw)
        steps += 1
    plds.append(p)
  own = [(p, p.get_delta_for_epsilon(FIXED)) for p in plds]
  ctx.label('n=%d' % len(plds), 'tail=%g' % tail, 'sym' if all('add' not in t for t in case['ts']) else 'asym')
  if case['left']:
    acc = plds[0]
    for p in plds[1:]:
      acc = acc.compose(p, **kw)
      steps += 1
  else:
    acc = plds[-1]
    for p in plds[-2::-1]:
      acc = p.compose(acc, **kw)
      steps += 1
  slack = 2 * tail * max(1, steps) * max(1, max(t['rep'] for t in case['ts']) if case['unrolled'] else 1)
  es = query_points(refs, h, case['fr'])
  vec = acc.get_delta_for_epsilon(es)
  for e, v in zip(es, vec):
    w = max(ref_delta(x, h, e) for x in refs)
    if pess:
      require(v >= w - TOL, 'composed delta(%r) = %r below the exact %r', e, v, w)
      require(v <= w + slack + TOL, 'composed delta(%r) = %r above the exact %r by more than %r', e, v, w, slack)
    else:
      require(abs(v - w) <= slack + TOL, 'composed delta(%r) = %r, exact %r, truncation %r', e, v, w, slack)
    ctx.nontrivial(steps > 0 and max(x[2] for x in refs) + 1e-6 < w < 1 - 1e-6)
  for p, d in own:
    require(list(p.get_delta_for_epsilon(FIXED)) == list(d), 'composing changed an argument')


@st.composite
def pair_case(draw):
  a = dict(rem=draw(table()), rep=1)
  b = dict(rem=draw(table()), rep=1)
  if draw(st.booleans()):
    a['add'] = draw(table())
  if draw(st.booleans()):
    b['add'] = draw(table())
  return dict(h=draw(st.one_of(st.sampled_from([0.1, 0.01, 0.5, 1.0]), gen.logf(1e-3, 1))), ts=[a, b],
              pess=draw(st.booleans()), fr=draw(st.lists(st.floats(-0.3, 1.1), min_size=1, max_size=6)))


@sub('shortcut', pair_case(), quick=1200, thorough=30000,
     rule='delta of a composition queried without building it equals the built composition and the direct convolution')
def shortcut(case, ctx):
  h, pess = case['h'], case['pess']
  refs = reference(case)
  a, b = make(case['ts'][0], h, pess), make(case['ts'][1], h, pess)
  built = a.compose(b, tail_mass_truncation=0)
  for e in query_points(refs, h, case['fr']):
    w = max(ref_delta(x, h, e) for x in refs)
    d = a.get_delta_for_epsilon_for_composed_pld(b, e)
    r = b.get_delta_for_epsilon_for_composed_pld(a, e)
    c = built.get_delta_for_epsilon(e)
    require(abs(d - w) <= TOL, 'shortcut delta(%r) = %r, exact composition %r', e, d, w)
    require(abs(r - w) <= TOL, 'shortcut delta(%r) with the factors swapped = %r, exact composition %r', e, r, w)
    require(abs(c - w) <= TOL, 'built composition delta(%r) = %r, exact %r', e, c, w)
    ctx.nontrivial(max(x[2] for x in refs) + 1e-6 < w < 1 - 1e-6)


@sub('storage', pair_case(), quick=600, thorough=12000,
     rule='the same distributions in sparse and dense storage compose to the same curve; a composition leaves its '
          'arguments unchanged')
def storage(case, ctx):
  h, pess = case['h'], case['pess']
  x, y = arr(case['ts'][0]['rem']), arr(case['ts'][1]['rem'])
  px, ix = expand(case['ts'][0]['rem'])
  py, iy = expand(case['ts'][1]['rem'])
  ref = conv(x, y)
  forms = []
  for f in ('ss', 'sd', 'ds', 'dd'):
    a = (pld_pmf.SparsePLDPmf(dict(px), h, ix, pess) if f[0] == 's' else
         pld_pmf.DensePLDPmf(h, x[0], x[1].copy(), ix, pess))
    b = (pld_pmf.SparsePLDPmf(dict(py), h, iy, pess) if f[1] == 's' else
         pld_pmf.DensePLDPmf(h, y[0], y[1].copy(), iy, pess))
    es = query_points([ref], h, case['fr'])
    before = [(a.get_delta_for_epsilon(e), b.get_delta_for_epsilon(e)) for e in es]
    for tail in (0.0, 1e-6, 0.02):
      c = pld_pmf.compose_pmfs(a, b, tail)
      for e in es:
        d = c.get_delta_for_epsilon(e)
        w = ref_delta(ref, h, e)
        require(abs(d - w) <= TOL + 2 * tail and (not pess or d >= w - TOL), '%s composed delta(%r) = %r, exact %r', f, e, d, w)
        ctx.nontrivial(ref[2] + 1e-6 < w < 1 - 1e-6)
    for n in (2, 3):
      if len(x[1]) * n > 4000:
        continue
      c = a.self_compose(n, 1e-12)
      r = conv_power(x, n)
      for e in query_points([r], h, case['fr']):
        d, w = c.get_delta_for_epsilon(e), ref_delta(r, h, e)
        require(abs(d - w) <= TOL + 4e-12 and (not pess or d >= w - TOL), '%s self-composed delta(%r) = %r, exact %r', f, e, d, w)
    after = [(a.get_delta_for_epsilon(e), b.get_delta_for_epsilon(e)) for e in es]
    require(before == after, 'composing changed its arguments')


@st.composite
def trunc_case(draw):
  k = draw(st.integers(2, 3))
  keys = draw(st.lists(st.integers(-30, 30), min_size=k, max_size=k, unique=True))
  ws = draw(st.lists(st.one_of(st.integers(1, 5), st.integers(1, 1000)), min_size=k, max_size=k))
  return dict(h=draw(st.sampled_from([0.1, 0.01, 0.5])), t=dict(keys=keys, ws=ws, iw=draw(st.sampled_from([0, 0, 3]))),
              n=draw(st.integers(2, 9 if k == 2 else 6)), tail=draw(gen.logf(1e-4, 0.5)), pess=draw(st.booleans()),
              fr=draw(st.lists(st.floats(-0.1, 1.1), min_size=1, max_size=5)))


@sub('truncation', trunc_case(), quick=1600, thorough=40000,
     rule='few-atom distributions repeated a few times with a large truncation mass: the repetition as a whole moves no more '
          'than that mass; non-trivial: the truncation changed the distribution')
def truncation(case, ctx):
  h, pess, tail, n = case['h'], case['pess'], case['tail'], case['n']
  r = conv_power(arr(case['t']), n)
  c = make(dict(rem=case['t']), h, pess).self_compose(n, tail)
  for e in query_points([r], h, case['fr']):
    d, w = c.get_delta_for_epsilon(e), ref_delta(r, h, e)
    require(abs(d - w) <= tail + TOL and (not pess or d >= w - TOL) and (pess or d <= w + TOL),
            '%d repetitions with truncation %r: delta(%r) = %r, exact %r', n, tail, e, d, w)
    ctx.nontrivial(abs(d - w) > 1e-9)


@sub('refused', st.tuples(table(False), table(False), st.booleans(), st.booleans(), st.one_of(st.floats(0.01, 1), gen.logf(1e-13, 0.01)), st.sampled_from([0, -1, -5])),
     quick=240, thorough=4000, rule='different interval, different estimate type or non-positive repetition count is refused')
def refused(case, ctx):
  a, b, p1, p2, f, n = case
  h = 0.1
  mk = lambda t, hh, p: make(dict(rem=t), hh, p)
  x = mk(a, h, p1)
  for y in ([mk(b, h * (1 + f), p1)] + ([mk(b, h, p2)] if p1 != p2 else [])):
    for call in (lambda: x.compose(y), lambda: y.compose(x), lambda: x.get_delta_for_epsilon_for_composed_pld(y, 0.5),
                 lambda: x.validate_composable(y)):
      try:
        call()
      except ValueError:
        ctx.nontrivial()
        continue
      raise core.Violation('distributions of different interval or estimate type were composed')
  try:
    x.self_compose(n)
  except ValueError:
    pass
  else:
    raise core.Violation('self_compose(%d) was accepted' % n)


# ---------------------------------------------------------------------------
# mechanism level: the composed pessimistic curve against the exact product mechanism

def atoms_finite(w1, w2):
  P = np.array(w1, float) / sum(w1)
  Q = np.array(w2, float) / sum(w2)
  return P, Q


@st.composite
def mech_case(draw):
  n = draw(st.integers(1, 3))
  parts = []
  for _ in range(n):
    k = draw(st.sampled_from(['pair', 'rr', 'dlaplace', 'pair']))
    if k == 'pair':
      m = draw(st.integers(2, 4))
      w1 = draw(st.lists(st.integers(0, 30), min_size=m, max_size=m))
      w2 = draw(st.lists(st.integers(0, 30), min_size=m, max_size=m))
      w1[0], w2[0] = max(1, w1[0]), max(1, w2[0])
      parts.append(dict(kind=k, w1=w1, w2=w2, rep=draw(st.integers(1, 4))))
    elif k == 'rr':
      parts.append(dict(kind=k, p=draw(st.floats(0.05, 0.95)), k=draw(st.integers(2, 6)), rep=draw(st.integers(1, 6))))
    else:
      parts.append(dict(kind=k, spec=dict(kind='dlaplace', q=1.0, sens=draw(st.integers(1, 3)), par=draw(gen.logf(0.05, 2))),
                        rep=draw(st.integers(1, 4))))
  return dict(parts=parts, h=draw(gen.logf(0.01, 0.5)), dots=draw(st.booleans()), order=draw(st.permutations(list(range(n)))),
              fr=draw(st.lists(st.floats(-0.5, 1.0), min_size=2, max_size=6)))


def pair_of(p):
  """Finite (P, Q) for a part; both directions are examined by the caller."""
  if p['kind'] == 'pair':
    return atoms_finite(p['w1'], p['w2'])
  if p['kind'] == 'rr':
    a = 1 - p['p'] + p['p'] / p['k']
    b = p['p'] / p['k']
    return (np.array([a, b] + ([1 - a - b] if p['k'] > 2 else [])), np.array([b, a] + ([1 - a - b] if p['k'] > 2 else [])))
  # discrete Laplace: losses are par * (|x - s| - |x|), masses of x <= 0, 0 < x < s, x >= s
  s, a = p['spec']['sens'], p['spec']['par']
  c = math.tanh(a / 2)
  tail = 1 / (1 + math.exp(-a))          # P(X <= 0)
  P = [tail] + [c * math.exp(-a * x) for x in range(1, s)] + [c * math.exp(-a * s) / -math.expm1(-a)]
  return np.array(P), np.array(P[::-1])


def losses(P, Q):
  """-> list of (loss, mass), infinity mass"""
  out, inf = {}, 0.0
  for x, y in zip(P, Q):
    if x > 0 and y > 0:
      l = round(math.log(x / y), 12)
      out[l] = out.get(l, 0.0) + x
    elif x > 0:
      inf += x
  return out, inf


def compose_losses(x, y):
  out = {}
  for a, p in x[0].items():
    for b, q in y[0].items():
      k = round(a + b, 10)
      out[k] = out.get(k, 0.0) + p * q
  return out, 1 - (1 - x[1]) * (1 - y[1])


@sub('mechanisms', mech_case(), quick=640, thorough=16000,
     rule='composed pessimistic distributions of real mechanisms against the exact product mechanism, lower and upper '
          'bound (n intervals lower epsilon); non-trivial: two or more factors, true delta in (1e-9, 1)')
def mechanisms(case, ctx):
  h = case['h']
  total, acc = 0, None
  ident = ({0.0: 1.0}, 0.0)
  ex = [ident, ident]
  built = {}
  for j, p in enumerate(case['parts']):
    P, Q = pair_of(p)
    for s, (A, B) in enumerate(((P, Q), (Q, P))):
      for _ in range(p['rep']):
        ex[s] = compose_losses(ex[s], losses(A, B))
        if len(ex[s][0]) > 30000:
          ctx.label('skipped: too many atoms')
          return
    total += p['rep']
    if p['kind'] == 'pair':
      lg = lambda v: {i: (math.log(x) if x > 0 else -INF) for i, x in enumerate(v)}
      pl = PLD.from_two_probability_mass_functions(lg(Q), lg(P), value_discretization_interval=h, symmetric=False)
    elif p['kind'] == 'rr':
      pl = PLD.from_randomized_response(p['p'], p['k'], value_discretization_interval=h)
    else:
      pl = PLD.from_discrete_laplace_mechanism(p['spec']['par'], p['spec']['sens'], value_discretization_interval=h,
                                               use_connect_dots=case['dots'])
    built[j] = pl.self_compose(p['rep']) if p['rep'] > 1 else pl
    ctx.label(p['kind'])
  for j in case['order']:
    acc = built[j] if acc is None else acc.compose(built[j])
  cur = []
  for x in ex:
    ls = np.array(sorted(x[0]))
    cur.append((ls, np.array([x[0][l] for l in ls]), x[1]))

  def true(e):
    return max(c[2] + float(np.dot(-np.expm1(np.minimum(0, e - c[0])), c[1])) for c in cur)

  top = max(c[0][-1] for c in cur)
  for e in sorted([0.0, top, top + h, -h] + [f * top for f in case['fr']]):
    d = acc.get_delta_for_epsilon(e)
    t = true(e)
    # losses above are rounded to 1e-10, which moves delta by at most that per step
    require(d >= t - 1e-9, 'composed delta(%r) = %r below the exact %r', e, d, t)
    hi = true(e - total * h * (1 + 1e-9))
    require(d <= hi + 1e-9, 'composed delta(%r) = %r above the exact %r at an epsilon lowered by %d intervals', e, d, hi, total)
    ctx.nontrivial(total > 1 and 1e-9 < t < 1)


@st.composite
def gauss_case(draw):
  n = draw(st.integers(1, 3))
  parts = [dict(r=draw(gen.logf(0.05, 1.5)), rep=draw(st.sampled_from([1, 2, 5, 20, 100, 500]))) for _ in range(n)]
  return dict(parts=parts, h=draw(st.sampled_from([1e-3, 5e-3, 0.02])), fr=draw(st.lists(st.floats(-0.5, 4), min_size=2, max_size=6)),
              dots=draw(st.booleans()))


@sub('gaussians', gauss_case(), quick=240, thorough=6000,
     rule='many composed Gaussian mechanisms equal one Gaussian of combined ratio')
def gaussians(case, ctx):
  h = case['h']
  tot, mu2, acc = 0, 0.0, None
  for p in case['parts']:
    rep = p['rep']
    while rep > 1 and (mu2 + rep * p['r'] ** 2 > 60 or 16 * p['r'] * rep / h > 2e6):
      rep //= 2
    x = PLD.from_gaussian_mechanism(1.0 / p['r'], value_discretization_interval=h, use_connect_dots=case['dots'])
    x = x.self_compose(rep)
    acc = x if acc is None else acc.compose(x)
    mu2 += rep * p['r'] ** 2
    tot += rep
  mu = math.sqrt(mu2)
  tol = 1e-9 + tot * 3e-22
  for e in [0.0, mu2 / 2] + [mu2 / 2 + f * mu for f in case['fr']]:
    d = acc.get_delta_for_epsilon(e)
    t = oracle.gaussian_delta0(e, mu)
    hi = oracle.gaussian_delta0(e - tot * h, mu)
    require(d >= t - 1e-10, 'composed Gaussian delta(%r) = %r below the exact %r', e, d, t)
    require(d <= hi + tol, 'composed Gaussian delta(%r) = %r, exact %r, %r at %d intervals lower', e, d, t, hi, tot)
    if tot * h * h < 0.05 and case['dots']:
      # independent rounding errors average out: the excess stays of order h, far below tot * h
      m = oracle.gaussian_delta0(e - 6 * h * max(1.0, math.sqrt(tot)) - tot * h * h, mu)
      require(d <= m + tol, 'composed Gaussian delta(%r) = %r is looser than %r', e, d, m)
    ctx.nontrivial(tot > 1 and 1e-9 < t < 1)


def method_changed(c):
  c['dots'] = not c['dots']
  return c


def interval_changed(c):
  c['h'] *= 1.3
  return c


def repeated_more(c):
  c['parts'][0]['rep'] += 1
  return c


def weaker(c):
  for p in c['parts']:
    if p['kind'] == 'rr':
      p['p'] *= 0.9
    elif p['kind'] == 'dlaplace':
      p['spec']['par'] *= 1.2
    else:
      p['w1'][0] += 1
  return c


sub.related('mechanisms', dict(method=method_changed, interval=interval_changed, repeats=repeated_more, parameters=weaker), quick=96, thorough=2000)
