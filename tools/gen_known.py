"""Writes known_findings.json (run by hand; checks only read it)."""
import json, os, subprocess
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
def commit(subject):
  c = [l.split(' ', 1)[0] for l in log if subject in l]
  assert len(c) == 1, (subject, c)
  return c[0]
F = []
def fixed(prop, subject, what):
  c = commit(subject)
  F.append(dict(property=prop, status='fixed', commit=c, what=what, line='fixed: property=%s %s %s' % (prop, c, what)))
def known(prop, ident, sub, case, what):
  F.append(dict(property=prop, status='known', ident=ident, sub=sub, case=case, what=what))

fixed('C06', 'charges every repetition of a RandomizedResponse', 'PLDAccountant.compose(RandomizedResponseDpEvent, count=n) charged one repetition whatever n was')
fixed('C07', 'integer noise multipliers inside sampled', 'an integer noise multiplier inside a Poisson-sampled or without-replacement composition was returned as the effective noise of the whole composition, dropping the other events')
fixed('C27', 'sampled compositions with no noise or nothing composed', 'sampled events whose composition has zero noise or no event raised ZeroDivisionError in the RDP accountant (also from supports())')
fixed('C08', 'compute_delta does not fail for tiny', 'RDP compute_delta raised "math domain error" for Renyi divergences below about 1e-16')
fixed('C08', 'infinite Renyi orders', 'with an infinite order compute_epsilon took NaN as the minimum and returned epsilon 0; Laplace events refused infinite orders')
fixed('C27', 'treats a Laplace event without noise', 'RdpAccountant raised ZeroDivisionError for LaplaceDpEvent(0) instead of treating it as non-private')
fixed('C11', 'a failing RepeatAndSelectDpEvent', 'a RepeatAndSelectDpEvent that failed while being composed erased the Renyi divergence of everything composed before')
fixed('C01', 'Privacy Buckets keeps the mass', 'from_laplace_mechanism(use_connect_dots=False) produced a negative bucket and understated delta when rounding put interval*k just beyond the largest loss (e.g. sensitivity 30, parameter 782.6318658064955, interval 0.038332198458447965)')
fixed('C01', 'epsilon queries do not overflow', 'get_epsilon_for_delta raised OverflowError when the stored losses reach below -709')
fixed('C01', 'accepts deltas that increase by rounding', 'connect-the-dots constructors raised ValueError for valid mechanisms whose computed deltas increase by rounding errors (e.g. discrete Gaussian sigma 0.3, truncation 6, interval 2)')
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_more.py')).read())
json.dump(dict(findings=F), open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(F))
