"""C14: calibration returns an in-budget parameter close to the optimum."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
from pldlib import REL, INF
from dp_accounting import dp_event
from dp_accounting import mechanism_calibration as cal
from dp_accounting import privacy_accountant
from dp_accounting.pld import pld_privacy_accountant
from dp_accounting.rdp import rdp_privacy_accountant

ASSUMPTIONS = ['epsilon is a monotone function of the parameter on the bracket, evaluated exactly; positive epsilons and targets are at least 1e-12',
               'brackets of integers in discrete searches']
sub = core.Registry()


class OutsideError(Exception):
  """The event maker of the user does not accept this parameter."""


class Curve:
  """A monotone epsilon curve on the whole line, from JSON."""

  def __init__(self, s):
    self.s = s

  def __call__(self, x):
    s = self.s
    u = (x - s['x0']) / s['w']          # position in units of the width
    k = s['kind']
    if k == 'linear':
      y = 1 + u
    elif k == 'exp':
      y = math.exp(min(700.0, 3 * u))
    elif k == 'power':                  # singular at u = -1
      y = math.inf if u <= -1 else (1 + u) ** -s['p']
      y = 1 / y if y else math.inf      # increasing in u
      if u <= -1:
        y = 0.0
    elif k == 'logistic':
      y = 1 / (1 + math.exp(max(-700.0, min(700.0, -10 * u))))
    elif k == 'steps':
      y = 1 + math.floor(u * s['p']) / s['p']
    elif k == 'cliff':
      y = 0.2 if u < 0.1 else 3.0
    else:                               # zigzag-free mixture of flats and a steep part
      y = 1 + max(-0.5, min(0.5, u * s['p'] * 10))
    if s['inf'] is not None and u > s['inf']:
      y = math.inf
    return max(0.0, y * s['scale'])


def curve_value(s, x):
  """Epsilon at parameter x; `dec` mirrors the curve so that it decreases."""
  c = Curve(s)
  y = c(2 * s['x0'] - x) if s['dec'] else c(x)
  return y if y > 1e-12 else 0.0


class FakeAccountant(privacy_accountant.PrivacyAccountant):
  """An accountant whose epsilon is a prescribed function of the composed parameter."""

  def __init__(self, curve, log):
    super().__init__(privacy_accountant.NeighboringRelation.ADD_OR_REMOVE_ONE)
    self.curve, self.log, self.x = curve, log, None

  def _maybe_compose(self, event, count, do_compose):
    if do_compose and isinstance(event, dp_event.GaussianDpEvent):
      self.x = event.noise_multiplier
    return None

  def get_epsilon(self, target_delta):
    return curve_value(self.curve, self.x)


@st.composite
def problem(draw):
  discrete = draw(st.sampled_from([False, False, True]))
  dec = draw(st.booleans())
  kind = draw(st.sampled_from(['linear', 'exp', 'power', 'logistic', 'steps', 'cliff', 'flat']))
  if discrete:
    x0, w = draw(st.integers(-50, 200)), draw(st.sampled_from([1.0, 5.0, 30.0, 1000.0]))
  else:
    x0, w = draw(st.sampled_from([0.0, 1.0, 3.7, -2.0, 100.0, 0.01])), draw(st.sampled_from([1.0, 0.1, 7.3, 100.0, 0.01]))
  s = dict(kind=kind, dec=dec, x0=x0, w=w, p=draw(st.sampled_from([0.5, 1.0, 2.0, 3.0])), scale=draw(st.sampled_from([1.0, 0.3, 10.0])),
           inf=draw(st.sampled_from([None, None, None, 0.0, 0.3, 1.0])))
  u = st.one_of(st.floats(-1.5, 2.5), st.sampled_from([-1.0, 0.0, 0.3, 1.0, 2.0]))
  if discrete:
    pos = lambda: int(round(x0 + w * draw(u))) + draw(st.integers(-3, 3))
  else:
    pos = lambda: x0 + w * draw(u)
  b = draw(st.sampled_from(['explicit', 'explicit', 'guess', 'none']))
  if b == 'explicit':
    bracket = [pos(), pos()]
  elif b == 'guess':
    lo = pos()
    d = draw(st.integers(1, 5)) if discrete else w * draw(gen.logf(1e-3, 3))
    bracket = [lo, lo + d]
  else:
    bracket = None
  # the target is a value of the curve somewhere, exactly or not
  y = curve_value(s, pos())
  target = y if y < INF and draw(st.booleans()) else (0.0 if draw(st.integers(0, 9)) == 0 else s['scale'] * draw(st.floats(0.0, 3.0)))
  if target < 1e-9:
    target = 0.0
  tol = draw(st.one_of(st.none(), gen.logf(1e-7, 1.0).map(lambda t: t * w), gen.logf(1e-9, 10.0),
                       st.sampled_from([1e-30, 1e-20, 1e-17])))   # below the resolution of floats: as exact as floats allow
  return dict(curve=s, target=target, kind=b, bracket=bracket, discrete=discrete, tol=tol)


def boundary(ok, lo, hi, discrete):
  """Last point in budget between lo (in budget) and hi (out of budget): returns (point, error)."""
  if discrete:
    while abs(hi - lo) > 1:
      mid = (lo + hi) // 2
      lo, hi = (mid, hi) if ok(mid) else (lo, mid)
    return lo
  for _ in range(200):
    mid = (lo + hi) / 2
    if mid == lo or mid == hi:
      break
    lo, hi = (mid, hi) if ok(mid) else (lo, mid)
  return lo


def reference(case):
  """('value', best) or ('error', None) or ('any', None) when the whole range is exactly on the target."""
  s, t = case['curve'], case['target']
  gap = lambda x: curve_value(s, x) - t
  ok = lambda x: gap(x) <= 0
  if case['kind'] == 'explicit':
    a, b = sorted(case['bracket'])
  else:
    a, b = case['bracket'] or (0, 1)
    d = b - a
    n = 0
    while not (ok(a) != ok(b) or gap(a) == 0 or gap(b) == 0):
      n += 1
      if n > 30:
        return 'error', None, (a, b)
      d *= 2
      a, b = b, b + d
  hull = (a, b)
  if ok(a) and ok(b):
    # in budget at both ends: a solution only where the budget is exactly used up
    if gap(a) == 0 and gap(b) == 0:
      return 'any', None, hull
    if gap(a) == 0 or gap(b) == 0:
      return 'value', (a if s['dec'] else b) if gap(a if s['dec'] else b) == 0 else None, hull
    return 'error', None, hull
  if not ok(a) and not ok(b):
    return 'error', None, hull
  return 'value', (boundary(ok, a, b, case['discrete']) if ok(a) else boundary(ok, b, a, case['discrete'])), hull


@sub('curves', problem(), quick=24000, thorough=600000,
     rule='monotone epsilon curves (smooth, stepped, flat, cliffs, infinite), all bracket kinds and orders, continuous and '
          'discrete: in budget, within tolerance of the best parameter, errors exactly without a solution; parameters outside '
          'the searched interval are refused by the event maker; non-trivial: a solution strictly inside the bracket')
def curves(case, ctx):
  s, t = case['curve'], case['target']
  what, best, hull = reference(case)
  calls = []

  def make_event(x):
    calls.append(x)
    if case['discrete']:
      require(isinstance(x, (int, np.integer)) and not isinstance(x, bool), 'discrete search evaluated %r', x)
    if not (min(hull) <= x <= max(hull)) and not (case['kind'] != 'explicit' and min(case['bracket'] or (0, 1)) <= x):
      raise OutsideError('evaluated %r outside of the bracket %r' % (x, hull))
    return dp_event.GaussianDpEvent(x)

  br = None
  if case['kind'] == 'explicit':
    br = cal.ExplicitBracketInterval(*case['bracket'])
  elif case['kind'] == 'guess':
    br = cal.LowerEndpointAndGuess(*case['bracket'])
  try:
    x = cal.calibrate_dp_mechanism(lambda: FakeAccountant(s, calls), make_event, t, 1e-5, br, case['discrete'], case['tol'])
  except cal.NoBracketIntervalFoundError:
    require(what == 'error' and case['kind'] != 'explicit', 'no bracket found although %r solves it', best)
    ctx.label('no bracket')
    return
  except ValueError as e:
    require(what == 'error' and case['kind'] == 'explicit', 'ValueError (%s) although %r solves it', str(e)[:100], best)
    ctx.label('no solution')
    return
  except OutsideError as e:
    raise core.Violation(str(e))
  require(what != 'error', 'returned %r although the bracket %r contains no solution', x, hull)
  require(curve_value(s, x) <= t, 'parameter %r has epsilon %r above the target %r', x, curve_value(s, x), t)
  require(min(hull) <= x <= max(hull), 'parameter %r outside of the bracket %r', x, hull)
  if case['discrete']:
    require(isinstance(x, (int, np.integer)), 'discrete search returned %r', x)
  if best is not None:
    tol = case['tol']
    if case['discrete']:
      tol = 0.5 if tol is None else max(tol, 0.5)
    elif tol is None:
      tol = 1e-6
    ctx.label('discrete' if case['discrete'] else 'continuous', s['kind'])
    ctx.nontrivial(min(hull) < best < max(hull))
    off = abs(x - best) > tol * (1 + 1e-9) + 1e-12 * abs(best)
    if off and t > 0 and curve_value(s, x) == t == curve_value(s, best):
      raise core.Known('plateau-on-target', 'parameter %r is %r from the best one %r on a plateau of the target %r' % (
          x, abs(x - best), best, t))
    require(abs(x - best) <= tol * (1 + 1e-9) + 1e-12 * abs(best), 'parameter %r is %r from the best one %r, tolerance %r', x, abs(x - best), best, tol)


G = dp_event.GaussianDpEvent
FAMILIES = {
    # name: (event from parameter, discrete, direction: True when epsilon decreases, bracket)
    'gaussian noise': (lambda p: lambda z: G(z), False, True, [0.05, 60.0]),
    'gaussian noise, guess': (lambda p: lambda z: G(z), False, True, None),
    'composed gaussian noise': (lambda p: lambda z: dp_event.SelfComposedDpEvent(G(z), p['n']), False, True, [0.3, 300.0]),
    'laplace noise': (lambda p: lambda z: dp_event.LaplaceDpEvent(z), False, True, [0.05, 200.0]),
    'steps': (lambda p: lambda n: dp_event.SelfComposedDpEvent(G(p['z']), n), True, False, 'int'),
    'sampled steps': (lambda p: lambda n: dp_event.SelfComposedDpEvent(dp_event.PoissonSampledDpEvent(0.1, G(p['z'])), n), True, False,
                      'int'),
    'sampling rate': (lambda p: lambda q: dp_event.SelfComposedDpEvent(dp_event.PoissonSampledDpEvent(q, G(p['z'])), p['n']), False,
                      False, [0.0, 1.0]),
}


def real_acc(kind, case):
  if kind == 'pld':
    return pld_privacy_accountant.PLDAccountant(value_discretization_interval=case['h'])
  return rdp_privacy_accountant.RdpAccountant([1.5, 2, 3, 4, 6, 8, 16, 32, 64])


@st.composite
def real_case(draw):
  return dict(family=draw(st.sampled_from(sorted(FAMILIES))), kind=draw(st.sampled_from(['pld', 'rdp', 'rdp', 'rdp'])), h=0.02,
              eps=draw(st.one_of(gen.logf(0.05, 20), st.just(0.0))), delta=draw(st.sampled_from([1e-6, 1e-3, 0.1, 0.3])),
              z=draw(gen.logf(0.5, 20)), n=draw(st.integers(1, 20)), tol=draw(st.sampled_from([None, 0.01, 0.1, 0.5])),
              swap=draw(st.booleans()))


@sub('accountants', real_case(), quick=600, thorough=10000,
     rule='noise, step count and sampling rate calibrated with the real accountants: in budget, and one tolerance further is not')
def accountants(case, ctx):
  make, discrete, dec, br = FAMILIES[case['family']]
  make = make(case)
  if case['family'] == 'sampled steps' and case['kind'] == 'pld' and case['n'] > 5:
    case = dict(case, kind='rdp')

  def eps(x):
    return real_acc(case['kind'], case).compose(make(x)).get_epsilon(case['delta'])
  lo, hi = (1, 400) if br == 'int' else (br or (0, 1e6))
  bracket = None
  if br is not None:
    bracket = cal.ExplicitBracketInterval(hi, lo) if case['swap'] else cal.ExplicitBracketInterval(lo, hi)
  good, bad = (hi, lo) if dec else (lo, hi)
  t = case['eps']
  if br is not None:
    solvable = eps(good) <= t < eps(bad) or eps(good) == t or eps(bad) == t
  else:
    solvable = None
  try:
    x = cal.calibrate_dp_mechanism(lambda: real_acc(case['kind'], case), make, t, case['delta'], bracket, discrete, case['tol'])
  except (cal.NoBracketIntervalFoundError, ValueError) as e:
    if br is None:
      # the search runs up to noise 2**31
      require(isinstance(e, cal.NoBracketIntervalFoundError) and (eps(1e8) > t or eps(1e-9) <= t), 'no solution found: %r', e)
    else:
      require(isinstance(e, ValueError) and not solvable, 'no solution found: %s', str(e)[:200])
    ctx.label('no solution')
    return
  if br is not None:
    require(solvable, 'returned %r although the bracket has no solution', x)
    require(lo <= x <= hi, '%r is outside of the bracket', x)
  e = eps(x)
  require(e <= t, 'parameter %r has epsilon %r above the target %r', x, e, t)
  tol = 1 if discrete else (case['tol'] or 1e-6)
  y = x - tol * (1 + 1e-6) - 1e-9 if dec else x + tol * (1 + 1e-6) + 1e-9
  if discrete:
    y = x - tol if dec else x + tol
  ctx.nontrivial(lo < x < hi)
  ctx.label(case['family'])
  if br is not None and eps(good) == t == eps(bad):
    ctx.label('the whole bracket is on target')
  elif lo < y < hi:
    o = eps(y)
    if o == t == e and t > 0:
      raise core.Known('plateau-on-target', '%r and %r both have epsilon %r' % (x, y, t))
    require(o > t, 'parameter %r is a tolerance away from the best: %r still has epsilon %r within the target %r', x, y, o, t)


@st.composite
def args(draw):
  return dict(k=draw(st.integers(0, 8)), eps=draw(st.floats(0, 5)), delta=draw(st.floats(0, 1)), neg=-draw(gen.logf(1e-9, 10)),
              tol=draw(st.sampled_from([0.0, -1.0, -1e-9])), lo=draw(st.floats(-5, 5)))


@sub('arguments', args(), quick=400, thorough=4000,
     rule='invalid targets, tolerances, brackets, callables and used accountants are refused; non-trivial: all')
def arguments(case, ctx):
  s = dict(kind='linear', dec=False, x0=0.0, w=1.0, p=1.0, scale=1.0, inf=None)
  used = FakeAccountant(s, None)
  used.compose(G(1.0))
  mk = lambda: FakeAccountant(s, None)
  br = cal.ExplicitBracketInterval(-10.0, 10.0)
  lo, e, d = case['lo'], case['eps'], case['delta']
  calls = [(ValueError, lambda: cal.calibrate_dp_mechanism(mk, G, case['neg'], d, br)),
           (ValueError, lambda: cal.calibrate_dp_mechanism(mk, G, e, case['neg'], br)),
           (ValueError, lambda: cal.calibrate_dp_mechanism(mk, G, e, 1 - case['neg'], br)),
           (ValueError, lambda: cal.calibrate_dp_mechanism(mk, G, e, d, br, tol=case['tol'])),
           (ValueError, lambda: cal.calibrate_dp_mechanism(mk, G, e, d, cal.LowerEndpointAndGuess(lo, lo))),
           (ValueError, lambda: cal.calibrate_dp_mechanism(mk, G, e, d, cal.LowerEndpointAndGuess(lo, lo + case['neg']))),
           (cal.NonEmptyAccountantError, lambda: cal.calibrate_dp_mechanism(lambda: used, G, e, d, br)),
           (TypeError, lambda: cal.calibrate_dp_mechanism(mk, 3, e, d, br)),
           (TypeError, lambda: cal.calibrate_dp_mechanism(mk(), G, e, d, br))]
  want, f = calls[case['k']]
  ctx.nontrivial()
  try:
    x = f()
  except want:
    return
  raise core.Violation('invalid call %d returned %r' % (case['k'], x))
