"""C02: pessimistic privacy loss stays sound under subsampling and mixtures."""
import math

from hypothesis import strategies as st
import numpy as np

import core
from core import require
import gen
import oracle
import pldlib
from pldlib import PLD
from checks import c01
from checks.c01 import check_curve, TOL

ASSUMPTIONS = [
    'reference divergences from the exact subsampling identities and a numerically located optimal event, double '
    'precision, 1e-12 absolute slack',
    'sampling probabilities from 1e-6 up to 1 - 1e-9, and one',
    'losses within a relative 1e-9 of the largest or smallest attainable loss are treated as that loss']
sub = core.Registry()


@st.composite
def sub_case(draw):
  spec = draw(pldlib.additive(sub=True))
  if draw(st.integers(0, 9)) == 0:
    spec['q'] = draw(gen.logf(1e-6, 1e-3))
  return dict(spec=spec, h=draw(pldlib.interval(spec)), dots=draw(st.booleans()), fracs=draw(pldlib.fracs),
              deltas=draw(pldlib.deltas))


@sub('subsampled', sub_case(), quick=1600, thorough=40000,
     rule='random mechanism, sampling probability, interval, method; non-trivial: a queried true delta in (1e-9, 1)')
def subsampled(case, ctx):
  spec = case['spec']
  m = oracle.Mech(spec)
  pld = pldlib.build(spec, case['h'], True, case['dots'])
  ctx.label(spec['kind'], 'dots' if case['dots'] else 'buckets')
  check_curve(pld, m.worst, pldlib.eps_points(spec, case['h'], case['fracs']), case['deltas'], ctx)


@st.composite
def mog_case(draw):
  spec = draw(pldlib.mixture())
  h = draw(pldlib.interval(spec, 600))
  z = sum(p for c, p in zip(spec['sens'], spec['probs']) if c > 0)
  if 1e-3 < z < 1 - 1e-9 and draw(st.integers(0, 3)) == 0:
    # a grid point just inside (or at, or beyond) the bounded loss -log(1 - total sampling probability)
    h = -math.log1p(-z) / draw(st.integers(1, 9)) * (1 + draw(st.sampled_from([0.0, -1e-7, -3e-6, -8e-6, 1e-6])))
    h = max(h, 2 * pldlib.max_loss(spec) / 600)
  return dict(spec=spec, h=min(h, 2.0), dots=draw(st.booleans()),
              fracs=draw(pldlib.fracs), deltas=draw(pldlib.deltas))


@sub('mixture', mog_case(), quick=640, thorough=12000,
     rule='random mixture of Gaussians with zero and repeated sensitivities')
def mixture(case, ctx):
  spec = case['spec']
  m = oracle.Mech(spec)
  pld = pldlib.build(spec, case['h'], True, case['dots'])
  ctx.label('n=%d' % len(spec['sens']), 'zero sens' if 0 in spec['sens'] else 'pos', 'dots' if case['dots'] else 'buckets')
  pts = pldlib.eps_points(spec, case['h'], case['fracs'])
  z = sum(p for c, p in zip(spec['sens'], spec['probs']) if c > 0)
  if z < 1:
    b = -math.log1p(-z)
    pts = sorted(pts + [b * 0.99, b * 1.01, -b * 0.99, -b * 1.01])
  check_curve(pld, m.worst, pts, case['deltas'], ctx)


@st.composite
def mog_int_case(draw):
  c = draw(mog_case())
  c['h'] = draw(st.integers(1, 3))
  return c


@sub('mixture_integer', mog_int_case(), quick=80, thorough=1500,
     rule='random mixture of Gaussians with an integer (Python int) discretisation interval')
def mixture_integer(case, ctx):
  try:
    mixture(case, ctx)
  except core.Violation as v:
    # the integer-typed losses are truncated in the library; anything wrong with the interval as a float is new
    mixture(dict(case, h=float(case['h'])), core.Ctx())
    raise core.Known('mog-integer-interval', str(v)) from None


@st.composite
def amp_case(draw):
  spec = draw(pldlib.additive(sub=True))
  q2 = draw(st.one_of(st.just(1.0), st.floats(spec['q'], 1.0)))
  if q2 > 1 - 1e-9:
    q2 = 1.0
  return dict(spec=spec, q2=q2, h=draw(pldlib.interval(dict(spec, q=1.0))), dots=draw(st.booleans()),
              fracs=draw(pldlib.fracs))


@sub('amplification', amp_case(), quick=640, thorough=15000,
     rule='reported delta with the smaller sampling probability never exceeds the one with the larger')
def amplification(case, ctx):
  a = case['spec']
  b = dict(a, q=case['q2'])
  h = case['h']
  pa = pldlib.build(a, h, True, case['dots'])
  pb = pldlib.build(b, h, True, case['dots'])
  mb = oracle.Mech(b)
  tr = pldlib.trunc_mass(a)
  for e in pldlib.eps_points(b, h, case['fracs']):
    da, db = pa.get_delta_for_epsilon(e), pb.get_delta_for_epsilon(e)
    if case['dots']:
      require(da <= db + tr + 1e-10, 'delta(%r) with q=%r is %r, larger than %r with q=%r', e, a['q'], da, db, b['q'])
    else:
      t = mb.worst(e - h)
      require(da <= t + tr + 1e-10, 'delta(%r) with q=%r is %r, more than %r allowed by q=%r', e, a['q'], da, t, b['q'])
    ctx.nontrivial(1e-9 < da < db)


@st.composite
def one_case(draw):
  spec = draw(pldlib.additive())
  return dict(spec=spec, h=draw(pldlib.interval(spec)), pess=draw(st.booleans()), dots=draw(st.booleans()),
              fracs=draw(pldlib.fracs))


@sub('sampling_one', one_case(), quick=480, thorough=10000,
     rule='sampling probability one (as int and float) against the unsampled mechanism; mixture with one component '
          'and subsampling written as a mixture against the Gaussian')
def sampling_one(case, ctx):
  s, h = case['spec'], case['h']
  base = dict(s)
  base.pop('q')
  want = pldlib.build(base, h, case['pess'], case['dots'])
  m = oracle.Mech(base)
  plds = [pldlib.build(dict(s, q=1), h, case['pess'], case['dots']), pldlib.build(dict(s, q=1.0), h, case['pess'], case['dots'])]
  pts = pldlib.eps_points(s, h, case['fracs'])
  for e in pts:
    w = want.get_delta_for_epsilon(e)
    for p in plds:
      d = p.get_delta_for_epsilon(e)
      require(abs(d - w) <= 1e-11, 'q=1: delta(%r) = %r, unsampled %r', e, d, w)
    ctx.nontrivial(1e-9 < w < 1)
  if s['kind'] == 'gaussian':
    tr = pldlib.trunc_mass(s) + 1e-10
    for q in (1.0, 0.375):
      spec = dict(kind='mog', sens=[s['sens'], 0.0] if q < 1 else [s['sens']], probs=[q, 1 - q] if q < 1 else [1.0],
                  par=s['par'], logtrunc=s['logtrunc'])
      p = pldlib.build(spec, float(h), case['pess'], case['dots'])
      mm = oracle.Mech(dict(s, q=q))
      for e in pts:
        d = p.get_delta_for_epsilon(e)
        t = mm.worst(e)
        if case['pess']:
          require(t - TOL <= d <= mm.worst(e - h * 1.001) + tr, 'mixture form of Gaussian q=%r: delta(%r) = %r, true %r', q, e, d, t)
        else:
          require(d <= t + TOL, 'mixture form of Gaussian q=%r (optimistic): delta(%r) = %r, true %r', q, e, d, t)
    ctx.label('mixture form')


def other_probability(f):
  def change(c):
    if c['spec'].get('q', 1.0) == 1.0:
      return None
    c['spec']['q'] *= f
    return c
  return change


def reordered(c):
  s = c['spec']
  s['sens'], s['probs'] = s['sens'][::-1], s['probs'][::-1]
  return c


def exchanged(c):
  s = c['spec']
  if sum(p for x, p in zip(s['sens'], s['probs'][::-1]) if x > 0) < 1e-6:
    return None
  s['probs'] = s['probs'][::-1]
  return c


sub.related('subsampled', dict(probability=other_probability(0.7), scale=c01.scaled_spec(1.2), sensitivity=c01.scaled_sens,
                               interval=c01.scaled_interval, method=c01.other_method, truncation=c01.other_truncation),
            quick=240, thorough=5000)
sub.related('mixture', dict(scale=c01.scaled_spec(1.2), order=reordered, weights=exchanged, interval=c01.scaled_interval,
                            method=c01.other_method, truncation=c01.other_truncation), quick=96, thorough=2000)
