"""Hypothesis strategies shared by the checks (all cases are plain JSON)."""
import math

from hypothesis import strategies as st


def logf(lo, hi):
  """A positive float, uniform on the log scale, with the ends and round values favoured."""
  a, b = math.log10(lo), math.log10(hi)
  return st.one_of(
      st.floats(a, b).map(lambda e: min(hi, max(lo, 10.0 ** e))),
      st.floats(a, b).map(lambda e: min(hi, max(lo, float('%.1g' % 10.0 ** e)))))


def prob(lo=1e-4, one=True):
  opts = [logf(lo, 0.999), st.floats(0.01, 0.99), st.sampled_from([0.5, 0.25, 0.1, 0.01, 0.9, 0.75])]
  if one:
    opts.append(st.just(1.0))
  return st.one_of(*opts)


def weights(n):
  """n positive weights as small integers (exact rational probabilities downstream)."""
  return st.lists(st.integers(1, 50), min_size=n, max_size=n)
