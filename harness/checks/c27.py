"""C27: accountants return well-formed guarantees for every valid history, monotone and never below the exact loss."""
import copy
import math

from hypothesis import strategies as st

import core
from core import require
import events as ev
import gen
import oracle
import plref
from pldlib import REL, INF
from dp_accounting.pld import pld_privacy_accountant
from dp_accounting.rdp import rdp_privacy_accountant

ASSUMPTIONS = [
    'sampling probabilities at least 1e-4 and not within 1e-9 of one',
    'PLD intervals chosen so that one leaf spans at most 8e3 buckets and the composition at most 4e5',
    'monotonicity with relative slack 1e-6 (Renyi) or 2e-9 absolute on delta (PLD truncation)']
sub = core.Registry()

EPS = [0.0, 1e-300, 1e-12, 1e-6, 1e-3, 0.1, 1.0, 5.0, 30.0, 300.0, 700.0, 709.5, 710.0, 800.0, 1e6, 1e300, INF]
DELTAS = [0.0, 5e-324, 1e-300, 1e-100, 1e-30, 1e-15, 1e-9, 1e-5, 1e-2, 0.5, 0.9, 1 - 1e-9, 1.0]
big_count = st.one_of(st.sampled_from([1, 2, 10, 1000, 10**6]), gen.logf(1, 1e7).map(int))
rate = st.one_of(gen.prob(1e-4), st.sampled_from([1e-4, 1.0, 0.999, 0.5]))
zx = st.one_of(gen.logf(1e-2, 1e6), gen.logf(0.2, 10), st.sampled_from([0.0, 1e-3, 1e-8, 1e8, 1e100, 0.01, 1.0]))


# ------------------------------------------------------------------ Renyi, extremes
@st.composite
def rdp_leaf(draw, rel):
  opts = ['gaussian', 'laplace', 'noop']
  if rel != 'ADD_OR_REMOVE_ONE':
    opts.append('rr')
  if rel != 'REPLACE_ONE':
    opts += ['poisson', 'poisson']
  else:
    opts.append('wor')
  if rel == 'REPLACE_SPECIAL':
    opts.append('tree')
  k = draw(st.sampled_from(opts))
  if k == 'noop':
    return dict(t='noop')
  if k == 'gaussian':
    return dict(t='gaussian', z=draw(zx))
  if k == 'laplace':
    return dict(t='laplace', z=draw(zx))
  if k == 'rr':
    return dict(t='rr', p=draw(st.one_of(gen.prob(1e-12), st.sampled_from([0.0, 1.0, 1e-300, 1 - 1e-12]))),
                k=draw(st.one_of(st.integers(1, 5), gen.logf(2, 1e9).map(int))))
  if k == 'poisson':
    return dict(t='poisson', q=draw(st.one_of(rate, st.just(0.0))), e=dict(t='gaussian', z=draw(zx)))
  if k == 'wor':
    n = draw(gen.logf(1, 1e7).map(int))
    m = max(1, min(n, int(n * draw(gen.logf(1e-6, 1)))))
    return dict(t='wor', n=n, m=draw(st.sampled_from([m, m, n, 1])), e=dict(t='gaussian', z=draw(zx)))
  steps = draw(st.one_of(st.integers(1, 100), gen.logf(1, 1e6).map(int)))
  return dict(t='tree', z=draw(zx), steps=draw(st.sampled_from([steps, [steps, 1], [1, 7, steps]])))


@st.composite
def rdp_history(draw):
  rel = draw(st.sampled_from(['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL']))
  evs = []
  for _ in range(draw(st.integers(1, 3))):
    e = draw(rdp_leaf(rel))
    if draw(st.integers(0, 7)) == 0:
      e = dict(t='ras', e=e, mean=draw(st.one_of(gen.logf(1, 1e4), st.just(1.0))),
               shape=draw(st.sampled_from([0.0, 1.0, 0.5, 2.0, 100.0, INF])))
      if e['shape'] == INF:
        e['mean'] = max(e['mean'], 1.0)
      else:
        e['mean'] = e['mean'] + 1.0 if e['mean'] <= 1 else e['mean']
    evs.append([e, draw(big_count)])
  return dict(rel=rel, evs=evs, orders=draw(st.sampled_from([None, None, 'few', 'wide', 'inf'])),
              es=draw(st.lists(st.one_of(gen.logf(1e-6, 1e3)), max_size=3)),
              ds=draw(st.lists(st.one_of(gen.logf(1e-30, 1)), max_size=3)))


ORDERS = dict(whole=[2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 48, 64, 128, 256],
              few=[2.0, 8.0, 64.0], wide=[1.001, 1.01, 1.5, 3, 20, 1000, 1e5], inf=[1.5, 4, 32, INF])


def rdp_acc(rel, evs, orders=None):
  a = rdp_privacy_accountant.RdpAccountant(ORDERS.get(orders), REL[rel])
  for s, n in evs:
    a.compose(ev.to_event(s), n)
  return a


def wellformed(acc, case, ctx, rel_slack, abs_slack):
  es, ds = sorted(EPS + case['es']), sorted(DELTAS + case['ds'])
  last = None
  inside = False
  for e in es:
    d = acc.get_delta(e)
    require(isinstance(float(d), float) and 0 <= d <= 1, 'get_delta(%r) = %r', e, d)
    if last is not None:
      require(d <= last[1] * (1 + rel_slack) + abs_slack, 'delta increases with epsilon: get_delta%r, get_delta(%r) = %r', last, e, d)
    last = (e, float(d))
    inside |= 1e-30 < d < 1
  last = None
  for dl in ds:
    e = acc.get_epsilon(dl)
    require(0 <= e, 'get_epsilon(%r) = %r', dl, e)
    if last is not None:
      require(e <= last[1] * (1 + rel_slack) + abs_slack, 'epsilon increases with delta: get_epsilon%r, get_epsilon(%r) = %r', last, dl, e)
    last = (dl, float(e))
    inside |= 0 < e < INF
  # the two queries agree
  for dl in case['ds']:
    e = acc.get_epsilon(dl)
    if e < INF:
      d = acc.get_delta(e * (1 + 1e-9) + 1e-12)
      require(d <= dl * (1 + 1e-6) + abs_slack, 'get_epsilon(%r) = %r, but get_delta(%r) = %r', dl, e, e, d)
  ctx.nontrivial(inside)


@sub('wellformed_rdp', rdp_history(), quick=800, thorough=40000,
     rule='Renyi accountant over extreme histories (noise 0 to 1e100, counts to 1e7, rates from 1e-4, buckets to 1e9), '
          'queries from delta 0 to 1 and epsilon 0 to infinity; non-trivial: some query strictly inside its range')
def wellformed_rdp(case, ctx):
  acc = rdp_acc(case['rel'], case['evs'], case['orders'])
  ctx.label(case['rel'], *[e['t'] for e, _ in case['evs']])
  wellformed(acc, case, ctx, 1e-9, 1e-12)


# ------------------------------------------------------------------ PLD, extremes
pz = st.one_of(gen.logf(0.02, 1e6), gen.logf(0.2, 10), st.sampled_from([0.0, 1e8, 1.0, 0.02]))
lz = st.one_of(gen.logf(1e-3, 1e6), gen.logf(0.2, 10), st.sampled_from([0.0, 1e8, 1.0]))


@st.composite
def pld_leaf(draw, rel):
  opts = ['gaussian', 'laplace', 'noop', 'mog']
  if rel != 'ADD_OR_REMOVE_ONE':
    opts.append('rr')
  if rel != 'REPLACE_ONE':
    opts += ['pg', 'pl']
  k = draw(st.sampled_from(opts))
  if k == 'noop':
    return dict(t='noop')
  if k == 'gaussian':
    return dict(t='gaussian', z=draw(pz))
  if k == 'laplace':
    return dict(t='laplace', z=draw(lz))
  if k == 'mog':
    m = draw(ev.mog())
    m['sd'] = max(m['sens']) / draw(gen.logf(1e-4, 10))
    return m
  if k == 'rr':
    return dict(t='rr', p=draw(st.one_of(gen.prob(1e-12), st.sampled_from([0.0, 1.0]))),
                k=draw(st.one_of(st.integers(1, 5), gen.logf(2, 1e6).map(int))))
  return dict(t='poisson', q=draw(st.one_of(rate, st.just(0.0))),
              e=dict(t='gaussian', z=draw(pz)) if k == 'pg' else dict(t='laplace', z=draw(lz)))


def span_of(s):
  t = s['t']
  if t == 'poisson':
    return 0.0 if s['q'] == 0 else span_of(s['e'])
  if t == 'noop' or (t in ('gaussian', 'laplace') and s['z'] == 0):
    return 0.0
  if t == 'gaussian':
    r = 1 / s['z']
  elif t == 'mog':
    r = max(s['sens']) / s['sd']
  elif t == 'laplace':
    return 2 / s['z']
  else:
    return 0.0 if s['p'] in (0, 1) else 2 * math.log(s['k'] * (1 - s['p']) / s['p'] + 1)
  return r * r + 20 * r


@st.composite
def pld_history(draw):
  rel = draw(st.sampled_from(['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL']))
  evs = [[draw(pld_leaf(rel)), draw(st.one_of(st.sampled_from([1, 1, 2, 10, 100, 1000]), gen.logf(1, 3000).map(int)))]
         for _ in range(draw(st.integers(1, 3)))]
  return dict(rel=rel, evs=evs, h=draw(st.sampled_from([1e-4, 1e-4, 1e-3, 0.01, 0.1, 1e-5, 1.0])),
              es=draw(st.lists(gen.logf(1e-6, 1e3), max_size=3)),
              ds=draw(st.lists(gen.logf(1e-14, 1), max_size=3)))


def interval(evs, h):
  spans = [(span_of(s) * (math.sqrt(n) * math.sqrt(n) if s['t'] == 'gaussian' else 1), s, n) for s, n in evs]
  top = max(x for x, _, _ in spans)
  full = sum(x if s['t'] == 'gaussian' else x * n for x, s, n in spans)
  while top / h > 8e3 or full / h > 4e5:
    h *= 4
  return h


def pld_acc(rel, evs, h):
  a = pld_privacy_accountant.PLDAccountant(REL[rel], value_discretization_interval=h)
  for s, n in evs:
    a.compose(ev.to_event(s), n)
  return a


@sub('wellformed_pld', pld_history(), quick=240, thorough=15000,
     rule='PLD accountant over extreme histories (noise 0 to 1e8, thousands of repetitions, rates from 1e-4); '
          'same queries; non-trivial: some query strictly inside its range')
def wellformed_pld(case, ctx):
  h = interval(case['evs'], case['h'])
  ctx.label(case['rel'], *[e['t'] for e, _ in case['evs']])
  if h > 2:
    ctx.label('skipped: too large')
    return
  wellformed(pld_acc(case['rel'], case['evs'], h), case, ctx, 1e-9, 2e-9)


# ------------------------------------------------------------------ monotonicity
def reduce_loss(s, how, f):
  """The same leaf with less loss, or None."""
  s = copy.deepcopy(s)
  t = s['t']
  if t == 'ras':
    return None
  if t == 'poisson' and how == 'q':
    s['q'] *= f
    return s if s['q'] == 0 or s['q'] >= 1e-4 else None
  if t == 'poisson':
    s['e'] = reduce_loss(s['e'], how, f)
    return s
  if t == 'wor' and how == 'q':
    if s['m'] == s['n']:
      return None
    m = max(1, int(s['m'] * f))
    if m == s['m']:
      s['n'] = int(s['n'] / f) + 1
    s['m'] = m
    return s
  if t == 'wor':
    s['e'] = reduce_loss(s['e'], how, f)
    return s
  if t == 'tree' and how == 'q':
    st_ = s['steps']
    s['steps'] = [max(1, int(x * f)) for x in st_] if isinstance(st_, list) else max(1, int(st_ * f))
    return s
  if t in ('gaussian', 'laplace', 'tree'):
    s['z'] /= f
    return s
  if t == 'mog':
    if how == 'q':
      s['sens'] = [x * f for x in s['sens']]
    else:
      s['sd'] /= f
    return s
  if t == 'rr':
    s['p'] = 1 - (1 - s['p']) * f
    return s if s['p'] < 1 - 1e-9 else None
  return None


def mono(case, ctx, make, rel_slack, abs_slack, noise=0.0):
  evs = case['evs']
  i = case['i'] % len(evs)
  how = case['how']
  less = copy.deepcopy(evs)
  if how == 'n':
    less[i][1] = int(less[i][1] * case['f'])
    if less[i][1] == 0:
      less.pop(i)
  else:
    s = reduce_loss(less[i][0], how, case['f'])
    if s is None:
      return
    less[i][0] = s
  a, b = make(evs), make(less)
  ctx.label(how + ' ' + evs[i][0]['t'])
  differ = False
  for e in [0.0, 0.1, 1.0, 5.0, 30.0] + case['es']:
    da, db = float(a.get_delta(e)), float(b.get_delta(e))
    require(db <= da * (1 + rel_slack) + abs_slack,
            'less loss (%s of event %d times %r) has a larger delta at epsilon %r: %r > %r', how, i, case['f'], e, db, da)
    differ |= 1e-9 < da < 1 and db < da
  for dl in [1e-9, 1e-5, 0.1] + case['ds']:
    ea, eb = float(a.get_epsilon(dl)), float(b.get_epsilon(dl))
    require(eb <= ea * (1 + rel_slack) + abs_slack or (
        noise and float(b.get_epsilon(min(1.0, dl + noise))) <= ea * (1 + 1e-6) + 1e-9),
            'less loss (%s of event %d times %r) has a larger epsilon at delta %r: %r > %r', how, i, case['f'], dl, eb, ea)
  ctx.nontrivial(differ)


def with_change(base):
  return st.tuples(base, st.integers(0, 2), st.sampled_from(['n', 'z', 'q']),
                   st.one_of(st.sampled_from([0.5, 0.9, 0.999, 0.1]), st.floats(0.05, 0.999))).map(
                       lambda x: dict(x[0], i=x[1], how=x[2], f=x[3]))


@sub('monotone_rdp', with_change(rdp_history()), quick=800, thorough=40000,
     rule='one event of a history gets more noise, fewer repetitions or a smaller rate; no delta or epsilon may grow; '
          'non-trivial: some delta strictly inside (1e-9, 1) and changed')
def monotone_rdp(case, ctx):
  if any(e['t'] == 'poisson' or e['t'] == 'ras' and e['e']['t'] == 'poisson' for e, _ in case['evs']):
    # fractional orders of subsampled Gaussians may be given up (documented), which is not monotone
    case = dict(case, orders='whole')
  mono(case, ctx, lambda evs: rdp_acc(case['rel'], evs, case['orders']), 1e-6, 1e-9)


@sub('monotone_pld', with_change(pld_history()), quick=160, thorough=10000,
     rule='the same for the PLD accountant on one grid; non-trivial: some delta strictly inside (1e-9, 1) and changed')
def monotone_pld(case, ctx):
  h = interval(case['evs'], case['h'])
  if h > 0.5:
    ctx.label('skipped: too large')
    return
  mono(case, ctx, lambda evs: pld_acc(case['rel'], evs, h), 1e-7, 3e-9, noise=3e-9)


# ------------------------------------------------------------------ Renyi against the exact loss
@st.composite
def exact_case(draw):
  kind = draw(st.sampled_from(['gaussians', 'gaussians', 'laplace', 'rr', 'bracket', 'bracket']))
  c = dict(kind=kind, es=draw(st.lists(gen.logf(1e-3, 300), min_size=1, max_size=6)),
           ds=draw(st.lists(gen.logf(1e-15, 0.9), min_size=1, max_size=4)),
           orders=draw(st.sampled_from([None, None, 'few', 'wide', 'inf'])))
  c['rel'] = draw(st.sampled_from(['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL']))
  if kind == 'gaussians':
    c['evs'] = [[dict(t='gaussian', z=draw(gen.logf(0.05, 1e4))), draw(st.one_of(st.integers(1, 5), gen.logf(1, 1e6).map(int)))]
                for _ in range(draw(st.integers(1, 4)))]
  elif kind == 'laplace':
    c['evs'] = [[dict(t='laplace', z=draw(gen.logf(0.01, 1e3))), 1]]
  elif kind == 'rr':
    c['rel'] = draw(st.sampled_from(['REPLACE_ONE', 'REPLACE_SPECIAL']))
    c['evs'] = [[dict(t='rr', p=draw(gen.prob(1e-6, one=False)), k=draw(st.integers(2, 1000))), 1]]
  else:
    leaf = [ev.gaussian, ev.laplace]
    if c['rel'] != 'ADD_OR_REMOVE_ONE':
      leaf.append(ev.rr)
    if c['rel'] != 'REPLACE_ONE':
      leaf += [ev.poisson(ev.gaussian)] * 2
    c['evs'] = [[draw(st.one_of(leaf)), draw(st.sampled_from([1, 1, 2, 5, 30, 100]))] for _ in range(draw(st.integers(1, 3)))]
  return c


@sub('rdp_vs_exact', exact_case(), quick=900, thorough=25000,
     rule='reported delta and epsilon of the Renyi accountant against the exact curve (closed forms) or a lower bracket of '
          'the composed curve; non-trivial: an exact delta strictly inside (1e-15, 1)')
def rdp_vs_exact(case, ctx):
  acc = rdp_acc(case['rel'], case['evs'], case['orders'])
  kind = case['kind']
  ctx.label(kind)
  tol_r, tol_a = 1e-9, 1e-15
  if kind == 'gaussians':
    r = math.sqrt(math.fsum(n / s['z'] ** 2 for s, n in case['evs']))
    low = lambda e: oracle.gaussian_delta0(e, r) * (1 - 1e-7)
    tol_a = 1e-14
  elif kind == 'laplace':
    low = lambda e: oracle.laplace_delta0(e, 1 / case['evs'][0][0]['z'])
    tol_a = 1e-14
  elif kind == 'rr':
    s = case['evs'][0][0]
    p, q = oracle.rr_pair(s['p'], s['k'], case['rel'])
    low = lambda e: max(oracle.hs(p, q, e), oracle.hs(q, p, e))
    tol_a = 1e-14
  else:
    parts = []
    for s, n in case['evs']:
      s = dict(s)
      if s['t'] == 'rr':
        s['relation'] = case['rel']
      parts.append((s, n))
    full = sum(span_of(s) * n for s, n in parts)
    if full > 20000:
      ctx.label('skipped: too large')
      return
    br = plref.Bracket(parts, max(full / 150000, max(span_of(s) for s, _ in parts) / 4000, 1e-5))
    low = br.low
    tol_a = 2e-9
  inside = False
  for e in case['es'] + [0.0]:
    d, t = float(acc.get_delta(e)), low(e)
    require(d >= t * (1 - tol_r) - tol_a, 'get_delta(%r) = %r below the exact loss %r', e, d, t)
    inside |= 1e-15 < t < 1
  for dl in case['ds']:
    e = float(acc.get_epsilon(dl))
    t = low(e) if e < INF else 0.0
    require(t <= dl * (1 + 1e-9) + tol_a, 'get_epsilon(%r) = %r, where the exact delta is %r', dl, e, t)
    inside |= 0 < e < INF
  ctx.nontrivial(inside)
