"""Statistical tests with a fixed false-alarm probability (P_ALARM per comparison)."""
import math

import numpy as np
from scipy import stats

from core import Violation, require

P_ALARM = 1e-12


def check_cdf(x, cdf, what):
  """Massart's inequality: the empirical distribution function is within a fixed band (continuous or discrete)."""
  x = np.sort(np.asarray(x, dtype=float))
  n = len(x)
  require(not np.any(np.isnan(x)), '%s: not a number', what)
  v, idx = np.unique(x, return_index=True)
  f = cdf(v)
  last = np.append(idx[1:], n)
  right = last / n
  d = np.max(np.abs(right - f))
  # Left limits: for a continuous law the same value of F; for a discrete one F at the previous support point is covered by it.
  band = math.sqrt(math.log(2 / P_ALARM) / (2 * n))
  require(d <= band, '%s: empirical distribution function is off by %.4f, allowed %.4f (%d draws)', what, d, band, n)


def check_binomial(k, n, p, what):
  p = min(1.0, max(0.0, p))
  a, b = stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)
  require(min(a, b) >= P_ALARM, '%s: %d of %d, expected a proportion of %r', what, k, n, p)


def check_mean(x, mean, var, what):
  """Central limit with a heavy guard: ten deviations (the laws tested have exponential tails)."""
  n = len(x)
  m = float(np.mean(x))
  sd = math.sqrt(max(var, 0) / n)
  # Few expected events: a Poisson tail is longer than a normal one.
  guard = 10 * sd + 60 * max(1.0, math.sqrt(max(var, 0))) / n
  require(abs(m - mean) <= guard, '%s: mean %r, expected %r within %r (%d draws)', what, m, mean, guard, n)


def check_normal(z, what, mean=0.0, sd=1.0):
  z = (np.asarray(z, dtype=float) - mean) / sd
  check_cdf(z, stats.norm.cdf, what)
  n = len(z)
  q = float(np.sum(z * z))
  require(stats.chi2.cdf(q, n) >= P_ALARM and stats.chi2.sf(q, n) >= P_ALARM, '%s: variance %r, expected 1 (%d draws)', what, q / n, n)
  s = float(np.sum(z)) / math.sqrt(n)
  require(abs(s) <= 7.3, '%s: mean %r, expected 0 (%d draws)', what, s / math.sqrt(n), n)


def check_laplace(x, scale, what):
  x = np.asarray(x, dtype=float) / scale
  check_cdf(x, stats.laplace.cdf, what)
  n = len(x)
  q = 2 * float(np.sum(np.abs(x)))   # chi-square with 2n degrees of freedom
  require(stats.chi2.cdf(q, 2 * n) >= P_ALARM and stats.chi2.sf(q, 2 * n) >= P_ALARM, '%s: scale is off by a factor %r (%d draws)', what, q / 2 / n, n)
  check_binomial(int(np.sum(x > 0)), n, 0.5, what + ' (positive)')


def check_fresh(z, what):
  """Continuous noise (of unit scale) does not come back, not even negated: almost no two values agree in size to 1e-8."""
  z = np.sort(np.abs(np.asarray(z, dtype=float).reshape(-1)))
  n = len(z)
  again = int(np.sum(np.diff(z) < 1e-8 * np.maximum(1, z[1:])))
  require(again <= 0.01 * n + 20, '%s: %d of %d values repeat earlier ones', what, again, n)


def check_lags(x, what):
  """Signs of independent symmetric noise: no lag at which they agree too often (Azuma, all lags together)."""
  s = np.sign(np.asarray(x, dtype=float))
  n = len(s)
  m = 1 << (2 * n - 1).bit_length()
  f = np.fft.rfft(s, m)
  c = np.fft.irfft(f * np.conj(f), m)[1:n]
  bound = math.sqrt(2 * n * math.log(2 * n / P_ALARM)) + 1
  k = int(np.argmax(np.abs(c)))
  require(abs(c[k]) <= bound, '%s: signs of noise %d draws apart have correlation %r, allowed %r (%d draws)', what, k + 1, float(c[k]), bound, n)
