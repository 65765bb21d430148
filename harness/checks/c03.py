"""C03: optimistic and pessimistic estimates bracket the truth tightly."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
import oracle
import pldlib
from pldlib import PLD, common
from checks import c01

ASSUMPTIONS = [
    'reference divergences in double precision; 1e-11 absolute slack for rounding',
    'the truncation mass is what the caller asked for (log_mass_truncation_bound, tail_mass_truncation)']
sub = core.Registry()
TOL = 1e-11


def bracket(pess, opt, true, h, tr_p, tr_o, epss, dls, ctx):
  for e in epss:
    t = true(e)
    lo, hi = true(e + h * (1 + 1e-9)), true(e - h * (1 + 1e-9))
    if pess is not None:
      d = pess.get_delta_for_epsilon(e)
      require(d <= hi + tr_p + TOL, 'pessimistic delta(%r) = %r, true one interval lower %r, truncation %r', e, d, hi, tr_p)
    if opt is not None:
      d = opt.get_delta_for_epsilon(e)
      require(d <= t + TOL, 'optimistic delta(%r) = %r, true %r', e, d, t)
      require(d >= lo - tr_o - TOL, 'optimistic delta(%r) = %r, true one interval higher %r, truncation %r', e, d, lo, tr_o)
    ctx.nontrivial(1e-9 < t < 1 and hi - lo > 1e-9)
  for dl in dls:
    if dl >= 1e-8:
      if pess is not None and dl - tr_p > 1e-9:
        e = pess.get_epsilon_for_delta(dl)
        require(e < math.inf, 'pessimistic epsilon(%r) infinite although the truncated mass is %r', dl, tr_p) if true(math.inf) < dl - tr_p - 1e-9 else None
        if 0 < e < 600:
          t = true(e - h * (1 + 1e-9) - 1e-6)
          require(t >= dl - tr_p - TOL, 'pessimistic epsilon(%r) = %r wastes: true delta one interval lower is only %r', dl, e, t)
      if opt is not None:
        e = opt.get_epsilon_for_delta(dl)
        if 1e-6 < e < 600:
          # the true epsilon is at least the optimistic one
          t = true(e - 1e-6)
          require(t >= dl - TOL, 'optimistic epsilon(%r) = %r is above the true one (true delta there %r)', dl, e, t)


@st.composite
def case_(draw):
  c = draw(st.integers(0, 3))
  if c == 0:
    spec = draw(pldlib.mixture())
  else:
    spec = draw(pldlib.additive(sub=c == 1))
  return dict(spec=spec, h=draw(pldlib.interval(spec, 600 if c == 0 else 1500)), dots=draw(st.booleans()),
              fracs=draw(pldlib.fracs), deltas=draw(pldlib.deltas))


@sub('mechanisms', case_(), quick=1600, thorough=40000,
     rule='random mechanism (also subsampled, mixtures), both estimate types; non-trivial: bracket of positive width')
def mechanisms(case, ctx):
  spec, h = case['spec'], case['h']
  m = oracle.Mech(spec)
  tr = pldlib.trunc_mass(spec)
  pess = pldlib.build(spec, h, True, case['dots'])
  opt = pldlib.build(spec, h, False, False)
  ctx.label(spec['kind'], 'dots' if case['dots'] else 'buckets')
  bracket(pess, opt, m.worst, h, tr, tr, pldlib.eps_points(spec, h, case['fracs']), case['deltas'], ctx)
  d, t = pess.get_delta_for_epsilon(math.inf), m.worst(math.inf)
  require(d <= tr + t + 1e-14, 'infinite loss has mass %r, true %r, truncation %r', d, t, tr)


@sub('grid_exact', case_(), quick=800, thorough=20000,
     rule='connect-the-dots delta at multiples of the interval equals the true divergence up to truncation mass')
def grid_exact(case, ctx):
  spec, h = case['spec'], case['h']
  m = oracle.Mech(spec)
  tr = pldlib.trunc_mass(spec)
  pld = pldlib.build(spec, h, True, True)
  l = pldlib.max_loss(spec)
  ctx.label(spec['kind'])
  # the mixture's inverse loss is located to 1e-6 only
  tol = 1e-10
  for f in case['fracs'] + [0.0, 1.0, -1.0]:
    e = round(f * l / h) * h
    if not -600 < e < 600:
      continue
    d, t = pld.get_delta_for_epsilon(e), m.worst(e)
    # a value 1 ulp off the grid point moves delta by at most the slope times the rounding of e
    slack = tr + tol + 1e-12 * abs(e)
    require(abs(d - t) <= slack, 'connect-the-dots delta(%r) = %r, true %r, truncation %r', e, d, t, tr)
    ctx.nontrivial(1e-9 < t < 1)


@sub('finite_pair', c01.pair_case(), quick=1200, thorough=30000, rule='random finite pairs, both estimate types')
def finite_pair(case, ctx):
  pess, true, up, lo, lmax = c01.pair_pld(case, True)
  opt = c01.pair_pld(case, False)[0]
  tr = 0.0
  if case['logtrunc'] is not None:
    # outcomes dropped: mass at most exp(bound) in the first distribution, judged per direction
    b = math.exp(case['logtrunc'])
    both = (up > 0) & (lo > 0)
    tr = max(up[both & (up <= b * (1 + 1e-9))].sum(), lo[both & (lo <= b * (1 + 1e-9))].sum())
    ctx.label('truncated' if tr > 0 else 'bound, nothing truncated')
  bracket(pess, opt, true, case['h'], tr, tr, c01.pair_eps(case, lmax), case['deltas'], ctx)


@sub('randomized_response', c01.rr_case(), quick=600, thorough=12000, rule='random randomized response, both estimate types')
def randomized_response(case, ctx):
  pess, true, lmax, h = c01.rr_pld(case, True)
  opt = c01.rr_pld(case, False)[0]
  bracket(pess, opt, true, h, 0.0, 0.0, [f * lmax for f in case['fracs']] + [lmax, -lmax, 0.0], case['deltas'], ctx)


@sub('dp_guarantee', c01.dp_case(), quick=400, thorough=10000, rule='random (epsilon, delta) guarantees, pessimistic')
def dp_guarantee(case, ctx):
  e, d = case['eps'], case['delta']
  pld = PLD.from_privacy_parameters(common.DifferentialPrivacyParameters(e, d), case['h'])
  a, b = (1 - d) / (1 + math.exp(-e)), (1 - d) / (1 + math.exp(e))
  P, Q = np.array([d, a, b, 0]), np.array([0, b, a, d])
  bracket(pld, None, lambda x: oracle.hs(P, Q, x), case['h'], 0.0, 0.0,
          [f * max(e, 0.1) for f in case['fracs']] + [0.0, e, -e], case['deltas'], ctx)


@sub('from_cdf', c01.cdf_case(), quick=240, thorough=5000, rule='loss distribution given by its distribution function')
def from_cdf(case, ctx):
  pess, m, spec, h = c01.cdf_pld(case, True)
  opt = c01.cdf_pld(case, False)[0]
  bracket(pess, opt, lambda e: m.delta(e, 'remove'), h, case['tail'], case['tail'],
          pldlib.eps_points(spec, h, case['fracs']), case['deltas'], ctx)


sub.related('mechanisms', dict(scale=c01.scaled_spec(1.2), sensitivity=c01.scaled_sens, interval=c01.scaled_interval,
                               method=c01.other_method, truncation=c01.other_truncation), quick=160, thorough=4000)
