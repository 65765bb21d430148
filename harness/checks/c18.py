"""C18: privacy-loss functions, their inverses and noise distributions agree."""
import math

from hypothesis import strategies as st
import mpmath as mp
import numpy as np

import core
from core import require
import gen
import oracle
import pldlib
from pldlib import MECH, INF

ASSUMPTIONS = [
    'losses are compared to 50-digit log ratios of densities up to 1e-9 relative; inverses are judged in terms of the loss at, '
    'just below and just above the returned outcome (1e-9 of the noise scale, 2.1e-6 of it, or 2.1e-6, for mixtures as documented by their '
    'precision); losses of magnitude up to 650; divergences up to 1e-10',
    'outcomes for discrete mechanisms are integers, as required by the interface']
sub = core.Registry()
DIRS = {'remove': MECH.AdjacencyType.REMOVE, 'add': MECH.AdjacencyType.ADD}


def mechanism(spec, d):
  k, a = spec['kind'], DIRS[d]
  if k == 'mog':
    return MECH.MixtureGaussianPrivacyLoss(spec['par'], spec['sens'], spec['probs'],
                                           log_mass_truncation_bound=spec['logtrunc'], adjacency_type=a)
  kw = dict(sampling_prob=spec['q'], adjacency_type=a)
  if k == 'gaussian':
    return MECH.GaussianPrivacyLoss(spec['par'], spec['sens'], log_mass_truncation_bound=spec['logtrunc'], **kw)
  if k == 'laplace':
    return MECH.LaplacePrivacyLoss(spec['par'], spec['sens'], **kw)
  if k == 'dlaplace':
    return MECH.DiscreteLaplacePrivacyLoss(spec['par'], spec['sens'], **kw)
  return MECH.DiscreteGaussianPrivacyLoss(spec['par'], spec['sens'], spec['trunc'], **kw)


def trunc_of(spec):
  return spec['trunc'] if spec.get('trunc') is not None else max(math.ceil(11.6 * spec['par']), (spec['sens'] + 1) // 2)


class Truth:
  """Densities (up to a common factor), loss and cumulative distributions from first principles."""

  def __init__(self, spec, d):
    self.s, self.d, self.k = spec, d, spec['kind']
    if self.k == 'mog':
      self.shifts = [(float(c), float(p)) for c, p in zip(spec['sens'], spec['probs']) if p > 0]
      self.scale = float(spec['par'])
    else:
      q, s = spec['q'], spec['sens']
      self.shifts = [(s, q)] + ([(0, None)] if q < 1 else [])
      self.scale = 1.0 / spec['par'] if self.k == 'dlaplace' else float(spec['par'])
    self.discrete = self.k in ('dlaplace', 'dgauss')
    self.smax = max(c for c, _ in self.shifts)
    if self.k == 'dgauss':
      self.t = trunc_of(spec)
      xs = np.arange(-self.t, self.t + 1, dtype=float)
      w = -0.5 * (xs / spec['par']) ** 2
      self.mass = np.exp(w) / math.fsum(np.exp(w))

  def log_noise(self, x):
    """log of the noise density at an mp number, up to a constant; None when zero."""
    p = mp.mpf(self.s['par'])
    if self.k == 'laplace':
      return -abs(x) / p
    if self.k == 'dlaplace':
      return -abs(x) * p
    if self.k == 'dgauss' and abs(x) > self.t:
      return None
    return -x * x / (2 * p * p)

  def _mixed(self, x, sgn):
    out = mp.mpf(0)
    for c, p in self.shifts:
      p = mp.mpf(p) if p is not None else 1 - mp.mpf(self.s['q'])
      l = self.log_noise(x + sgn * mp.mpf(c))
      if l is not None:
        out += p * mp.exp(l)
    return out

  def loss(self, x):
    """log ratio of densities at x; None where both vanish."""
    with mp.workdps(50):
      x = mp.mpf(x)
      l = self.log_noise(x)
      base = mp.mpf(0) if l is None else mp.exp(l)
      other = self._mixed(x, 1 if self.d == 'remove' else -1)
      up, low = (other, base) if self.d == 'remove' else (base, other)
      if up == 0 and low == 0:
        return None
      return INF if low == 0 else -INF if up == 0 else float(mp.log(up) - mp.log(low))

  def extended(self, x):
    """The loss, continued beyond the support in the direction of monotonicity."""
    l = self.loss(x)
    return l if l is not None else (INF if x < 0 else -INF)

  def noise_cdf(self, x):
    with mp.workdps(30):
      p = mp.mpf(self.s['par'])
      if self.discrete:
        x = mp.floor(x)
      x = mp.mpf(x)
      if self.k == 'laplace':
        return mp.exp(x / p) / 2 if x < 0 else 1 - mp.exp(-x / p) / 2
      if self.k == 'dlaplace':
        e = mp.exp(-p)
        return e ** -x / (1 + e) if x < 0 else 1 - e ** (x + 1) / (1 + e)
      if self.k == 'dgauss':
        if x < -self.t:
          return mp.mpf(0)
        return mp.mpf(math.fsum(self.mass[:int(min(x, self.t)) + self.t + 1]))
      return mp.ncdf(x / p)

  def cdfs(self, x):
    """(P_upper[X <= x], P_lower[X <= x])."""
    with mp.workdps(30):
      base = self.noise_cdf(x)
      other = mp.mpf(0)
      for c, p in self.shifts:
        p = mp.mpf(p) if p is not None else 1 - mp.mpf(self.s['q'])
        other += p * self.noise_cdf(mp.mpf(x) + (c if self.d == 'remove' else -c))
      return (other, base) if self.d == 'remove' else (base, other)

  def point(self, a, b):
    """An outcome: fraction a of the sensitivity plus b noise scales."""
    x = a * self.smax + b * self.scale
    if not self.discrete:
      return x
    x = int(round(x))
    if self.k == 'dgauss':
      # The union of the two supports.
      lo, hi = (-self.t - (self.s['sens'] if self.d == 'remove' else 0)), self.t + (self.s['sens'] if self.d == 'add' else 0)
      if self.s['q'] == 1 and self.d == 'remove':
        hi = self.t
      x = min(max(x, lo), hi)
    return x


positions = st.lists(st.tuples(st.sampled_from([-1.0, -0.5, 0.0, 0.5, 1.0]), st.one_of(
    st.floats(-6, 6), st.sampled_from([0.0, 1e-9, -1e-9, 1.0, -1.0]), st.floats(-14, 14))), min_size=3, max_size=8)


@st.composite
def mech_case(draw):
  if draw(st.integers(0, 3)) == 0:
    spec = draw(pldlib.mixture())
  else:
    spec = draw(pldlib.additive(sub=draw(st.booleans())))
  return dict(spec=spec, d=draw(st.sampled_from(['remove', 'add'])), at=[list(p) for p in draw(positions)], fracs=draw(pldlib.fracs))


def near(a, b, rel=1e-9):
  return a == b or abs(a - b) <= rel * (1 + abs(b))


@sub('loss', mech_case(), quick=3000, thorough=80000,
     rule='privacy loss at outcomes equals the log ratio of densities and never increases; non-trivial: two different finite losses')
def loss(case, ctx):
  spec, d = case['spec'], case['d']
  m, t = mechanism(spec, d), Truth(spec, d)
  ctx.label(spec['kind'], d, 'sampled' if spec.get('q', 1) < 1 else 'full')
  require(m.is_discrete == t.discrete, 'is_discrete is %r', m.is_discrete)
  prev, seen = INF, set()
  for x in sorted({t.point(a, b) for a, b in case['at']}):
    want = t.loss(x)
    if want is None:
      continue
    if abs(want) > 650 and math.isfinite(want):
      continue
    got = float(m.privacy_loss(x))
    require(near(got, want), 'privacy loss at %r is %r, log ratio of the densities is %r', x, got, want)
    require(got <= prev or got <= prev + 1e-9 * (1 + abs(got)), 'privacy loss increases to %r at %r', got, x)
    prev = got
    seen.add(round(want, 9) if math.isfinite(want) else want)
  ctx.nontrivial(len([s for s in seen if math.isfinite(s)]) > 1)


def loss_values(spec, t, case):
  """Losses to invert: fractions of the largest, those of outcomes, and around the extremes of sampling."""
  l = pldlib.max_loss(spec)
  out = [f * l for f in case['fracs']] + [0.0]
  for a, b in case['at'][:4]:
    v = t.loss(t.point(a, b))
    if v is not None and math.isfinite(v):
      out.append(v)
  z = sum(p for c, p in zip(spec['sens'], spec['probs']) if c > 0) if spec['kind'] == 'mog' else spec['q']
  if z < 1 - 1e-9:
    ext = -math.log1p(-z) if t.d == 'add' else math.log1p(-z)
    out += [ext * 0.9, ext * 0.999999, ext * 1.1, ext * 1.000001]
    return [v for v in out if abs(v) < 650], ext
  return [v for v in out if abs(v) < 650], None


@sub('inverse', mech_case(), quick=3000, thorough=80000,
     rule='inverse privacy loss is the boundary of the outcomes with at least that loss; non-trivial: a finite boundary')
def inverse(case, ctx):
  spec, d = case['spec'], case['d']
  m, t = mechanism(spec, d), Truth(spec, d)
  ctx.label(spec['kind'], d)
  values, ext = loss_values(spec, t, case)
  eta = (2.1e-6 * min(1.0, t.scale) + 1e-12 * t.smax if spec['kind'] == 'mog' else 0 if t.discrete
         else 1e-9 * (t.scale + t.smax))
  far = 1e4 * (t.scale + t.smax)
  for l in values:
    if ext is not None and abs(l - ext) <= 1e-7 * abs(ext):
      continue
    beyond = ext is not None and (l > ext if d == 'add' else l <= ext)
    if beyond:
      # No outcome (add) or every outcome (remove) has such a loss; the interface refuses it.
      try:
        r = m.inverse_privacy_loss(l)
      except ValueError:
        ctx.label('refused')
        continue
      raise core.Violation('inverse of the unattainable loss %r is %r' % (l, r))
    x = m.inverse_privacy_loss(l)
    tol = 1e-9 * (1 + abs(l))
    if t.discrete and math.isfinite(x):
      require(x == int(x), 'inverse %r is not an integer', x)
      x = int(x)
      below, above = x, x + 1
    elif x == -INF:
      below, above = None, (-int(far) if t.discrete else -far)
    elif x == INF:
      below, above = (int(far) if t.discrete else far), None
    else:
      below, above = x - eta, x + eta
      ctx.nontrivial()
    if below is not None:
      v = t.extended(below)
      require(v >= l - tol, 'loss %r at %r, below the inverse %r of %r', v, below, x, l)
    if above is not None and t.extended(above) is not None:
      v = t.extended(above)
      require(v <= l + tol, 'loss %r at %r, beyond the inverse %r of %r', v, above, x, l)
    if t.discrete:
      ctx.nontrivial(abs(x) < far)


@sub('cdf', mech_case(), quick=2000, thorough=60000,
     rule='distribution functions of noise and of both outputs; non-trivial: a probability strictly inside (1e-6, 1 - 1e-6)')
def cdf(case, ctx):
  spec, d = case['spec'], case['d']
  m, t = mechanism(spec, d), Truth(spec, d)
  ctx.label(spec['kind'], d)
  xs = sorted({t.point(a, b) for a, b in case['at']})
  if t.discrete:
    xs += [x + 0.5 for x in xs[:2]]
    xs.sort()
  up, low = np.asarray(m.mu_upper_cdf(np.array(xs))), np.asarray(m.mu_lower_log_cdf(np.array(xs)))
  nc, nl = np.asarray(m.noise_cdf(np.array(xs))), np.asarray(m.noise_log_cdf(np.array(xs)))
  require(up.shape == low.shape == nc.shape == nl.shape == (len(xs),), 'shapes of vector results differ')
  for i, x in enumerate(xs):
    u, l = t.cdfs(x)
    n = t.noise_cdf(x)
    floor = mp.mpf('1e-13') if t.discrete else mp.mpf(0)

    def ok(got, want):
      return abs(mp.mpf(float(got)) - want) <= mp.mpf('1e-9') * want + mp.mpf('1e-14')

    def ok_log(got, want):
      got = float(got)
      if want <= floor or (spec['kind'] == 'dgauss' and want < mp.mpf('1e-10')):
        return got == -INF or got < -20
      return abs(got - float(mp.log(want))) <= 1e-9 * (1 + abs(got))
    require(ok(up[i], u), 'upper distribution function at %r is %r, should be %s', x, up[i], mp.nstr(u, 12))
    require(ok(nc[i], n), 'noise distribution function at %r is %r, should be %s', x, nc[i], mp.nstr(n, 12))
    if float(mp.log(l)) > -600 if l > 0 else False:
      require(ok_log(low[i], l), 'log lower distribution function at %r is %r, should be %s', x, low[i], mp.nstr(mp.log(l), 12))
    if n > 0 and mp.log(n) > -600:
      require(ok_log(nl[i], n), 'log noise distribution function at %r is %r, should be %s', x, nl[i], mp.nstr(mp.log(n), 12))
    for name, vec in (('mu_upper_cdf', up), ('mu_lower_log_cdf', low), ('noise_cdf', nc), ('noise_log_cdf', nl)):
      one = float(getattr(m, name)(x))
      require(one == vec[i] or abs(one - vec[i]) <= 1e-12 * (1 + abs(one)), '%s(%r) is %r, in a list %r', name, x, one, vec[i])
    if i:
      for name, vec in (('mu_upper_cdf', up), ('mu_lower_log_cdf', low), ('noise_cdf', nc)):
        require(vec[i] >= vec[i - 1] or vec[i] >= vec[i - 1] - 1e-12 * (1 + abs(vec[i])), '%s decreases at %r', name, x)
    ctx.nontrivial(mp.mpf('1e-6') < u < 1 - mp.mpf('1e-6'))


@sub('divergence', mech_case(), quick=3000, thorough=80000,
     rule='divergence at epsilons, one by one and as a list, against the true one; non-trivial: strictly inside (1e-9, 1)')
def divergence(case, ctx):
  spec, d = case['spec'], case['d']
  m, t = mechanism(spec, d), Truth(spec, d)
  o = oracle.Mech(spec)
  values, ext = loss_values(spec, t, case)
  eps = sorted(v + dv for v in values for dv in (0.0,))
  if case['fracs'] and case['fracs'][0] > 0.6:
    eps += [700.0, 2000.0, 1e6]
  ctx.label(spec['kind'], d)
  many = m.get_delta_for_epsilon(eps)
  require(len(many) == len(eps), '%d deltas for %d epsilons', len(many), len(eps))
  for e, got in zip(eps, many):
    one = m.get_delta_for_epsilon(e)
    require(isinstance(one, float), 'delta of a number is %r', type(one))
    want = o.delta(e, d) if e < 650 else (o.delta(INF, d) if pldlib.max_loss(spec) < 600 else None)
    if want is None:
      continue
    # The direction in which the bounded loss is attained is ill-conditioned only in the outcome, not in delta; a loss
    # within a relative 1e-9 of the bound is taken for the bound.
    tol = 1e-10 + 1e-9 * want
    if ext is not None and abs(e - ext) <= 2e-9 * abs(ext):
      tol += 2e-9 * abs(ext)
    require(abs(one - want) <= tol, 'delta(%r) is %r, true divergence %r', e, one, want)
    require(abs(got - want) <= tol, 'delta(%r) in a list is %r, true divergence %r', e, got, want)
    ctx.nontrivial(1e-9 < want < 1 and spec['kind'] != '')


@sub('spread', pldlib.additive(sub=True), quick=400, thorough=8000,
     rule='the parameters a mechanism reports describe its noise (standard deviation of all of it); non-trivial: discrete noise')
def spread(spec, ctx):
  m = mechanism(spec, 'remove')
  k, p = spec['kind'], spec['par']
  ctx.label(k)
  if k in ('laplace', 'dlaplace'):
    require(m.parameter == p, 'parameter %r of noise with parameter %r', m.parameter, p)
  elif k == 'gaussian':
    require(m.standard_deviation == p, 'deviation %r of noise with deviation %r', m.standard_deviation, p)
  else:
    t = trunc_of(spec)
    xs = range(-t, t + 1)
    w = [math.exp(-0.5 * (x / p) ** 2) for x in xs]
    want = math.sqrt(math.fsum(x * x * v for x, v in zip(xs, w)) / math.fsum(w))
    if spec['trunc'] is not None:
      # the default truncation may be any that leaves out a negligible part
      require(core.close(m.standard_deviation(), want, 1e-9), 'deviation %r, that of the noise is %r', m.standard_deviation(), want)
    require(core.close(m.standard_deviation(), want, 1e-6), 'deviation %r, that of the noise is %r', m.standard_deviation(), want)
    ctx.nontrivial()


@st.composite
def int_case(draw):
  c = draw(mech_case())
  return dict(spec=c['spec'], d=c['d'], eps=sorted(draw(st.lists(st.integers(-4, 8), min_size=1, max_size=4))))


@sub('integers', int_case(), quick=800, thorough=20000,
     rule='divergence at integer-typed epsilons equals the one at the same numbers as floats; non-trivial: inside (1e-9, 1)')
def integers(case, ctx):
  spec, d = case['spec'], case['d']
  m, o = mechanism(spec, d), oracle.Mech(spec)
  ctx.label(spec['kind'], d)
  many = m.get_delta_for_epsilon(case['eps'])
  for e, listed in zip(case['eps'], many):
    want = o.delta(float(e), d)
    ctx.nontrivial(1e-9 < want < 1)
    tol = 1e-10 + 1e-9 * want
    got = m.get_delta_for_epsilon(e)
    require(abs(got - want) <= tol, 'delta(%r) is %r, true divergence %r', e, got, want)
    if abs(listed - want) > tol:
      if spec['kind'] == 'mog' and np.all(np.abs(m.get_delta_for_epsilon([float(x) for x in case['eps']]) - [
          o.delta(float(x), d) for x in case['eps']]) <= 1e-9):
        raise core.Known('mog-integer-epsilons', 'delta(%r) in a list of integers is %r, true divergence %r' % (e, listed, want))
      raise core.Violation('delta(%r) in a list of integers is %r, true divergence %r' % (e, listed, want))


@st.composite
def tie_case(draw):
  kind = draw(st.sampled_from(['laplace', 'dlaplace', 'dgauss']))
  par = 2.0 ** draw(st.integers(-2, 3))
  if kind == 'laplace':
    sens = 2.0 ** draw(st.integers(-2, 4))
  else:
    sens = draw(st.sampled_from([1, 2, 4, 8] if kind == 'dgauss' else [1, 2, 3, 4, 7, 16]))
  s = dict(kind=kind, q=1.0, par=par, sens=sens)
  if kind == 'dgauss':
    s['trunc'] = draw(st.integers((sens + 1) // 2, sens + 40))
  return dict(spec=s, d=draw(st.sampled_from(['remove', 'add'])), k=draw(st.integers(-40, 40)), n=draw(st.integers(-64, 64)))


@sub('ties', tie_case(), quick=3000, thorough=50000,
     rule='inverses of losses that are attained exactly (all quantities are dyadic, so exact); non-trivial: an attained loss')
def ties(case, ctx):
  spec, d, k = case['spec'], case['d'], case['k']
  m = mechanism(spec, d)
  s, p, kind = spec['sens'], spec['par'], spec['kind']

  def loss_at(x):
    """Exact loss for the pair where the sensitivity is at [0, s]."""
    if kind == 'laplace':
      return (abs(x - s) - abs(x)) / p
    if kind == 'dlaplace':
      return (abs(x - s) - abs(x)) * p
    t = spec['trunc']
    return INF if x < s - t else -INF if x > t else s * (s / 2 - x) / p ** 2
  step = 1.0 if kind != 'laplace' else s / 16
  l = loss_at(k * step) if case['n'] > -50 else loss_at(0) * case['n'] / 32
  if not math.isfinite(l):
    return
  x = m.inverse_privacy_loss(l)
  shift = 0 if d == 'add' else s
  # The largest outcome with at least this loss, by search over outcomes.
  if kind == 'laplace':
    top, bottom = s / p, -s / p
    want = -INF if l > top else INF if l <= bottom else (s - l * p) / 2
  else:
    lim = 200
    cand = [y for y in range(-lim, lim) if loss_at(y) >= l]
    if cand:
      want = INF if cand[-1] == lim - 1 else cand[-1]
    else:
      want = -INF
  require(x == want - shift, 'inverse of the loss %r is %r, should be %r', l, x, want - shift)
  ctx.nontrivial(math.isfinite(want))


def other_direction(c):
  c['d'] = 'add' if c['d'] == 'remove' else 'remove'
  return c


def rarer(c):
  if c['spec'].get('q', 1.0) == 1.0:
    return None
  c['spec']['q'] *= 0.7
  return c


def wider(c):
  c['spec']['par'] *= 1.2
  return c


RELATED = dict(direction=other_direction, probability=rarer, scale=wider)
for name_ in ('loss', 'inverse', 'cdf', 'divergence'):
  sub.related(name_, RELATED, quick=160, thorough=4000)
