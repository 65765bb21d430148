"""C25: privacy testers do not accuse private mechanisms."""
import math

from hypothesis import strategies as st
import numpy as np
from scipy import stats

import core
from core import require
import gen
import alib
from alib import HIST, HOCKEY, MMD, PP, RENYI, TC, UT
from stat_tests import P_ALARM, check_binomial

ASSUMPTIONS = [
    'samples are finite; failure probabilities are in (0, 0.3]; the model that a divergence tester trains is arbitrary (a scripted function '
    'stands for the trained network), its training is not judged; a bound equal to the tested parameter may be accepted or rejected',
    'the MMD bound is judged against the larger of the two one-sided divergences, as the definition of differential privacy uses both']
sub = core.Registry()


def same(got, want, rel, ab, what):
  require(core.close(float(got), float(want), rel, ab), '%s: %r, expected %r', what, float(got), float(want))


def adp(eps, delta):
  return PP.ApproximateDp(epsilon=eps, delta=delta)


def common(draw):
  return dict(eps=draw(gen.logf(1e-3, 5)), delta=draw(st.one_of(st.just(0.0), st.just(0), gen.logf(1e-9, 1))), fp=draw(gen.logf(1e-9, 0.3)))


def rejects(tester, bound, parameter):
  """The decision follows the bound; equality is not judged."""
  r = bool(tester.reject_property(bound))
  if bound > parameter:
    require(r, 'a bound of %r does not reject a parameter of %r', float(bound), parameter)
  if bound < parameter:
    require(not r, 'a bound of %r rejects a parameter of %r', float(bound), parameter)
  for x in (parameter + 0.1, parameter * 1.01 + 1e-6):
    require(tester.reject_property(x), 'a bound of %r does not reject a parameter of %r', x, parameter)
  for x in (parameter - 0.1, parameter * 0.99 - 1e-6, -math.inf):
    require(not tester.reject_property(x), 'a bound of %r rejects a parameter of %r', x, parameter)
  return r


# --- histogram tester ---


@st.composite
def hist_case(draw):
  case = common(draw)
  k = draw(st.sampled_from([1, 2, 2, 3, 5, 10, 40]))
  mode = draw(st.sampled_from(['discrete', 'continuous', 'continuous']))
  cells = st.lists(st.tuples(st.integers(0, k - 1), st.integers(1, 60)), min_size=1, max_size=6)
  case.update(k=k, mode=mode, s1=[list(x) for x in draw(cells)], s2=[list(x) for x in draw(cells)], orig=draw(st.booleans()), lo=draw(st.floats(-10, 10)),
              width=draw(gen.logf(1e-2, 100)), pos=draw(st.lists(st.floats(0.01, 0.99), min_size=1, max_size=5)), outside=draw(st.integers(0, 4)),
              times=draw(st.sampled_from([1, 1, 2, 30])))
  return case


def hist_samples(case, cells, perm):
  bins = np.repeat([c for c, _ in cells], [n for _, n in cells])
  bins = np.random.default_rng(perm).permutation(bins)
  if case['mode'] == 'discrete':
    return bins.copy(), bins
  w = case['width'] / case['k']
  pos = np.array([case['pos'][i % len(case['pos'])] for i in range(len(bins))])
  x = case['lo'] + w * (bins + pos)
  # Some values outside the range count in the outermost bins.
  o = case['outside']
  if o:
    low, high = np.arange(len(x)) % 7 == o, np.arange(len(x)) % 11 == o
    x[low], bins[low] = case['lo'] - case['width'] * (0.5 + pos[low]), 0
    x[high], bins[high] = case['lo'] + case['width'] * (1.5 + pos[high]), case['k'] - 1
    if o == 4:
      x[high], bins[high] = case['lo'] + case['width'], case['k'] - 1
    if o == 3:
      x[low], x[high] = -math.inf, math.inf
  return x, bins


def hist_formula(case, b1, b2, fp):
  p = [np.bincount(b, minlength=case['k']) / len(b) for b in (b1, b2)]
  n, e = min(len(b1), len(b2)), math.exp(case['eps'])
  est = float(np.sum(np.maximum(p[0] - e * p[1], 0)))
  t1 = 2 * (1 + e) * math.sqrt(case['k'] / n) if case['orig'] else 2 / math.sqrt(n) * float(np.sum(np.sqrt(p[0])) + e * np.sum(np.sqrt(p[1])))
  return est, est - t1 - 6 * (1 + e) * math.sqrt(math.log(4 / fp) / (2 * n))


def make_hist(case):
  return HIST.HistogramTester(TC.HistogramPropertyTesterConfig(
      test_discrete_mechanism=case['mode'] == 'discrete', histogram_size=case['k'], min_value=case['lo'], max_value=case['lo'] + case['width'],
      approximate_dp=adp(case['eps'], case['delta']), use_original_tester=case['orig']))


@sub('histogram', hist_case(), quick=3000, thorough=60000,
     rule='histogram bound against the documented estimator over exact counts; more samples and a larger failure probability give a larger '
          'bound; non-trivial: the estimate is positive')
def histogram(case, ctx):
  tester = make_hist(case)
  require(tester.privacy_property.approximate_dp == adp(case['eps'], case['delta']), 'privacy property %r', tester.privacy_property)
  x1, b1 = hist_samples(case, case['s1'], 1)
  x2, b2 = hist_samples(case, case['s2'], 2)
  keep = x1.copy(), x2.copy()
  if case['mode'] == 'continuous' and case['outside'] == 4 and case['lo'] + case['width'] <= case['lo']:
    return
  got = tester.estimate_lower_bound(x1, x2, case['fp'])
  require(np.array_equal(x1, keep[0]) and np.array_equal(x2, keep[1]), 'the samples were changed')
  est, want = hist_formula(case, b1, b2, case['fp'])
  same(got, want, 1e-9, 1e-9, 'histogram bound')
  require(got <= est + 1e-12, 'bound %r above the estimate %r', float(got), est)
  rejects(tester, got, case['delta'])
  ctx.nontrivial(est > 0)
  more = tester.estimate_lower_bound(np.tile(x1, 4), np.tile(x2, 4), case['fp'])
  require(more >= got - 1e-9, 'bound %r of four times the samples, %r of one', float(more), float(got))
  less = tester.estimate_lower_bound(x1, x2, case['fp'] / 10)
  require(less <= got + 1e-9, 'bound %r with a tenth of the failure probability, %r before', float(less), float(got))


@st.composite
def hist_bad_case(draw):
  c = draw(hist_case())
  c['bad'] = draw(st.sampled_from(['empty1', 'empty2', 'both', 'low', 'high']))
  return c


@sub('histogram-refused', hist_bad_case(), quick=600, thorough=6000,
     rule='empty samples and discrete samples outside the range are refused; non-trivial: a value is outside the range')
def histogram_refused(case, ctx):
  bad = case['bad']
  if bad in ('low', 'high'):
    case = dict(case, mode='discrete')
  tester = make_hist(case)
  x1, _ = hist_samples(case, case['s1'], 1)
  x2, _ = hist_samples(case, case['s2'], 2)
  if bad in ('empty1', 'both'):
    x1 = x1[:0]
  if bad in ('empty2', 'both'):
    x2 = x2[:0]
  which = x1 if case['orig'] else x2
  if bad == 'low':
    which[case['outside'] % len(which)] = -1 - case['outside']
  if bad == 'high':
    which[case['outside'] % len(which)] = case['k'] + case['outside']
  ctx.nontrivial(bad in ('low', 'high'))
  try:
    out = tester.estimate_lower_bound(x1, x2, case['fp'])
  except ValueError:
    return
  raise core.Violation('not refused (%s): %r' % (bad, out))


# --- MMD tester ---


@st.composite
def mmd_case(draw):
  case = common(draw)
  case['eps'] = draw(gen.logf(1e-3, 0.5))
  dim = draw(st.sampled_from([0, 0, 1, 2, 3]))
  n1 = draw(st.integers(2, 40))
  n2 = draw(st.one_of(st.just(n1), st.integers(2, 40)))
  case.update(dim=dim, n1=n1, n2=n2, seed=draw(st.integers(0, 10 ** 6)), kind=draw(st.sampled_from(['normal', 'far', 'far', 'far', 'equal', 'discrete', 'discrete'])),
              kernel=draw(st.sampled_from(['rbf', 'laplacian'])), bw=draw(gen.logf(1e-2, 10)), times=draw(st.sampled_from([1, 400, 2000])))
  return case


def mmd_samples(case):
  rng = np.random.default_rng(case['seed'])
  shape = lambda n: (n,) if case['dim'] == 0 else (n, case['dim'])
  x, y = rng.normal(size=shape(case['n1'])), rng.normal(size=shape(case['n2']))
  if case['kind'] == 'far':
    y = y + 50
  if case['kind'] == 'equal':
    x, y = np.zeros_like(x), np.zeros_like(y)
  if case['kind'] == 'discrete':
    x, y = np.round(x), np.round(y) + 1
  return x, y


def mmd_formula(case, x, y, fp):
  norm = (lambda u: np.sum(u * u, axis=1)) if case['kernel'] == 'rbf' else (lambda u: np.sum(np.abs(u), axis=1))
  k = lambda a, b: np.exp(-case['bw'] * norm(a - b))
  flat = lambda a: a.reshape(len(a), -1).astype(float)
  x, y = flat(x), flat(y)
  m = min(len(x) // 2, len(y) // 2)
  xa, xb, ya, yb = x[:len(x) // 2][:m], x[len(x) // 2:][:m], y[:len(y) // 2][:m], y[len(y) // 2:][:m]
  h = k(xa, xb) - 2 * k(xa, ya) + k(ya, yb)
  mean, var = float(np.mean(h)), max(0.0, float(np.mean(h * h) - np.mean(h) ** 2))
  tols = [math.sqrt(8 * math.log(1 / fp) / m), math.inf if m == 1 else math.sqrt(2 * var * math.log(2 / fp) / m) + 28 * math.log(2 / fp) / (3 * (m - 1))]
  return mean, max(mmd_delta(case['eps'], mean - t) for t in tols)


def mmd_delta(eps, mmd2):
  e = math.exp(eps)
  a, b, c = e - 1 / e, 1 + 1 / e, e - 1
  return (math.sqrt(max(0.0, a * a + b * (mmd2 - c * c))) - a) / b


def make_mmd(case):
  return MMD.MMDPropertyTester(TC.MMDPropertyTesterConfig(
      kernel=TC.Kernel.KERNEL_RBF if case['kernel'] == 'rbf' else TC.Kernel.KERNEL_LAPLACIAN, bandwidth=case['bw'], approximate_dp=adp(case['eps'], case['delta'])))


def tile_halves(x, t):
  """t times the samples, in an order that repeats the pairs of halves."""
  h = len(x) // 2
  return np.concatenate([x[:h]] * t + [x[h:2 * h]] * t)


@sub('mmd', mmd_case(), quick=1000, thorough=10000,
     rule='MMD bound against the documented estimator, tolerances and inversion; more samples and a larger failure probability give a larger '
          'bound; non-trivial: the bound is positive')
def mmd(case, ctx):
  tester = make_mmd(case)
  require(tester.privacy_property.approximate_dp == adp(case['eps'], case['delta']), 'privacy property %r', tester.privacy_property)
  x, y = mmd_samples(case)
  got = tester.estimate_lower_bound(x, y, case['fp'])
  mean, want = mmd_formula(case, x, y, case['fp'])
  same(got, want, 1e-6, 1e-7, 'MMD bound')
  require(got <= mmd_delta(case['eps'], mean) + 1e-7, 'bound %r above the estimate', float(got))
  rejects(tester, got, case['delta'])
  if case['times'] > 1:
    m = min(case['n1'], case['n2']) // 2 * 2
    t = max(1, case['times'] // m)
    big = tester.estimate_lower_bound(tile_halves(x[:m], t), tile_halves(y[:m], t), case['fp'])
    _, want = mmd_formula(case, tile_halves(x[:m], t), tile_halves(y[:m], t), case['fp'])
    same(big, want, 1e-6, 1e-7, 'MMD bound of more samples')
    if case['n1'] == case['n2'] == m:
      require(big >= got - 1e-7, 'bound %r of %d times the samples, %r of one', float(big), t, float(got))
    got = max(got, big)
  less = tester.estimate_lower_bound(x, y, case['fp'] / 10)
  require(less <= got + 1e-7, 'bound %r with a tenth of the failure probability, %r before', float(less), float(got))
  ctx.nontrivial(got > 0)


# --- validity: known distributions ---


@st.composite
def valid_case(draw):
  k = draw(st.integers(2, 6))
  kind = draw(st.sampled_from(['same', 'tight', 'tight', 'free']))
  return dict(k=k, kind=kind, p=draw(gen.weights(k)), q=draw(gen.weights(k)), eps=draw(gen.logf(0.02, 1.5)), fp=draw(st.sampled_from([0.01, 0.05, 0.2])),
              n=draw(st.sampled_from([20, 100, 400])), unequal=draw(st.sampled_from([1, 1, 2, 5])), seed=draw(st.integers(0, 10 ** 6)),
              tester=draw(st.sampled_from(['histogram', 'original', 'mmd', 'hockey', 'hockey', 'renyi'])), alpha=draw(st.sampled_from([1.1, 1.5, 2.0, 3.0])),
              bound=draw(st.sampled_from([0.1, 0.5])), kernel=draw(st.sampled_from(['rbf', 'laplacian'])), bw=draw(gen.logf(0.1, 5)))


def scripted(f):
  return alib.Sequential([alib.Fn(f)])


@sub('validity', valid_case(), quick=400, thorough=4000,
     rule='repeated estimates on samples of known distributions exceed the true divergence no more often than the failure probability; '
          'the classifier or witness function is the best one; non-trivial: the true divergence is positive')
def validity(case, ctx):
  p = np.array(case['p'])
  q = np.array(case['q'])
  p, q = p / p.sum(), q / q.sum()
  e = math.exp(case['eps'])
  if case['kind'] == 'same':
    q = p
  if case['kind'] == 'tight':
    # Ratios of exactly exp(+-epsilon), where epsilon-DP is tight.
    side = np.arange(case['k']) % 2 == 0
    u = np.where(side, e, 1.0)
    v = np.where(side, 1.0, e)
    p, q = u / u.sum(), v / v.sum()
  delta = float(np.sum(np.maximum(p - e * q, 0)))
  kind, reps = case['tester'], 40
  rng = np.random.default_rng(case['seed'])
  n1, n2 = case['n'], case['n'] * case['unequal']
  if kind in ('histogram', 'original'):
    tester = make_hist(dict(mode='discrete', k=case['k'], lo=0, width=1, eps=case['eps'], delta=0.0, orig=kind == 'original'))
    truth = delta
  elif kind == 'mmd':
    tester = make_mmd(dict(kernel=case['kernel'], bw=case['bw'], eps=case['eps'], delta=0.0))
    truth = max(delta, float(np.sum(np.maximum(q - e * p, 0))))
  elif kind == 'hockey':
    best = np.where(p > e * q, -1.0, 1.0)
    tester = make_hockey(dict(eps=case['eps'], delta=0.0), scripted(lambda x: best[np.asarray(x, dtype=int)]))
    truth = delta
    # The weights of the classes are rounded to whole samples.
    truth += (1 + e) / (min(n1, n2) // 2)
  else:
    witness = np.arctanh(np.clip(np.log(p / q) / case['bound'], -0.999, 0.999))
    tester = make_renyi(dict(alpha=case['alpha'], eps=case['eps'], bound=case['bound'], pure=False), scripted(lambda x: witness[np.asarray(x, dtype=int)]))
    truth = float(np.log(np.sum(p ** case['alpha'] * q ** (1 - case['alpha']))) / (case['alpha'] - 1))
  if kind in ('mmd',):
    reps = 15
  fails = 0
  for _ in range(reps):
    x, y = rng.choice(case['k'], size=n1, p=p), rng.choice(case['k'], size=n2, p=q)
    b = float(tester.estimate_lower_bound(x, y, case['fp']))
    require(not math.isnan(b), 'the bound is not a number')
    fails += b > truth + 1e-9
  if stats.binom.sf(fails - 1, reps, case['fp']) < P_ALARM:
    raise core.Violation('%s: %d of %d bounds exceed the divergence %r at failure probability %r' % (kind, fails, reps, truth, case['fp']))
  ctx.label(kind)
  ctx.nontrivial(truth > 1e-9)


# --- hockey-stick tester ---


def make_hockey(case, model):
  return HOCKEY.HockeyStickPropertyTester(
      config=TC.HockeyStickPropertyTesterConfig(approximate_dp=adp(case['eps'], case['delta']), training_config=HOCKEY.make_default_hs_training_config(),
                                                evaluation_batch_size=1000), base_model=model)


@st.composite
def hockey_case(draw):
  case = common(draw)
  n1 = draw(st.integers(2, 120))
  case.update(n1=n1, n2=draw(st.one_of(st.just(n1), st.just(n1), st.integers(2, 120))), seed=draw(st.integers(0, 10 ** 6)), dim=draw(st.sampled_from([0, 1, 3])),
              rule=draw(st.sampled_from(['zero', 'one', 'hash', 'truth', 'truth', 'mostly'])))
  return case


def ids(n, first, dim):
  """Samples that carry their own number in the first coordinate."""
  x = np.arange(n, dtype=float) + (0 if first else 1000)
  return x if dim == 0 else np.stack([x] + [np.zeros(n)] * (dim - 1), axis=1)


def ident(x):
  x = np.asarray(x)
  return (x if x.ndim == 1 else x.reshape(len(x), -1)[:, 0]).astype(int)


@sub('hockey-stick', hockey_case(), quick=1500, thorough=30000,
     rule='hockey-stick bound against accuracy minus its confidence term for arbitrary classifiers; training and test halves are disjoint, '
          'labels weighted by epsilon; a constant classifier proves nothing; non-trivial: the bound is positive or sizes differ')
def hockey(case, ctx):
  rule = case['rule']
  rng = np.random.default_rng(case['seed'])
  table = rng.random(2000) < 0.5
  answer = dict(zero=np.full(2000, False), one=np.full(2000, True), hash=table, truth=np.arange(2000) >= 1000,
                mostly=(np.arange(2000) >= 1000) ^ (rng.random(2000) < 0.1))[rule]
  alib.EVENTS.clear()
  tester = make_hockey(case, scripted(lambda x: np.where(answer[ident(x)], 3.0, -0.25)))
  require(tester.privacy_property.approximate_dp == adp(case['eps'], case['delta']), 'privacy property %r', tester.privacy_property)
  x, y = ids(case['n1'], True, case['dim']), ids(case['n2'], False, case['dim'])
  got = float(tester.estimate_lower_bound(x, y, case['fp']))
  e = math.exp(case['eps'])
  f = 1 / (1 + e)
  m1, m2 = case['n1'] - case['n1'] // 2, case['n2'] - case['n2'] // 2
  n = min(m1, m2)
  conf = math.sqrt(math.log(1 / case['fp']) / 2 / n)
  fits = [ev for ev in alib.EVENTS if ev[0] == 'fit']
  evals = [ev for ev in alib.EVENTS if ev[0] == 'evaluate']
  require(fits, 'no model is trained')
  for kind, _, feats, labels in fits + evals:
    i, lab = ident(feats), np.asarray(labels).reshape(-1)
    require(np.all((i >= 1000) == (lab > 0.5)), 'samples of one dataset labelled as the other')
    require(len(set(i.tolist())) == len(i), 'a sample is used twice')
    test = np.where(i < 1000, i >= case['n1'] // 2, i - 1000 >= case['n2'] // 2)
    require(np.all(test == (kind == 'evaluate')), '%s uses samples of the other half', kind)
    k0 = int(np.sum(lab < 0.5))
    require(abs(k0 - f * len(lab)) <= 1 + 1e-6, '%d of %d samples labelled 0, expected a share of %r', k0, len(lab), f)
  require(got <= 1 - conf * (1 + e) * (1 - 1e-6) + 1e-9, 'bound %r is above one minus its error', got)
  if case['n1'] == case['n2']:
    k0 = int(f * n)
    used = list(range(case['n1'] // 2, case['n1'] // 2 + k0)), list(range(1000 + case['n1'] // 2 + k0, 1000 + case['n1']))
    right = sum(not answer[i] for i in used[0]) + sum(bool(answer[i]) for i in used[1])
    want = (right / n - conf) * (1 + e) - e
    near = abs(f * n - round(f * n)) < 1e-9
    if not near:
      same(got, want, 1e-7, 1e-7, 'hockey-stick bound')
  if rule in ('zero', 'one'):
    require(got <= (1 + e) * (1.001 / n - conf * (1 - 1e-6)) + 1e-9, 'bound %r from a constant classifier, sizes %d and %d', got, case['n1'], case['n2'])
  if rule == 'truth':
    require(got >= 1 - conf * (1 + e) * (1 + 1e-6) - 1e-6, 'bound %r from a perfect classifier', got)
  rejects(tester, got, case['delta'])
  less = float(make_hockey(case, scripted(lambda x: np.where(answer[ident(x)], 3.0, -0.25))).estimate_lower_bound(x, y, case['fp'] / 10))
  require(less <= got + 1e-9, 'bound %r with a tenth of the failure probability, %r before', less, got)
  ctx.nontrivial(got > 0 or case['n1'] != case['n2'])


# --- Renyi tester ---


def training(bound):
  return TC.TrainingConfig(training_epochs=2, batch_size=10, optimizer_learning_rate=0.01, model_output_coordinate_bound=bound)


def make_renyi(case, model):
  prop = PP.PrivacyProperty(pure_dp=PP.PureDp(case['eps'])) if case['pure'] else PP.PrivacyProperty(renyi_dp=PP.RenyiDp(alpha=case['alpha'], epsilon=case['eps']))
  return RENYI.RenyiPropertyTester(TC.RenyiPropertyTesterConfig(alpha=case['alpha'], training_config=training(case['bound']), privacy_property=prop), base_model=model)


@st.composite
def renyi_case(draw):
  n1 = draw(st.sampled_from([2, 5, 20, 201, 900]))
  return dict(n1=n1, n2=draw(st.one_of(st.just(n1), st.sampled_from([2, 7, 33, 500]))), alpha=draw(st.one_of(st.sampled_from([1.5, 2.0, 2]), gen.logf(1.001, 8))),
              eps=draw(gen.logf(1e-3, 5)), bound=draw(gen.logf(1e-2, 3)), pure=draw(st.booleans()), fp=draw(gen.logf(1e-9, 0.3)), dim=draw(st.sampled_from([0, 1, 3])),
              seed=draw(st.integers(0, 10 ** 6)), spread=draw(gen.logf(0.01, 100)))


def renyi_error(n, fp, bound, alpha):
  g = max(math.sqrt(3 * math.log(2 / fp) * math.exp(2 * (alpha - 1) * bound) / n), math.sqrt(2 * math.log(2 / fp) * math.exp(2 * alpha * bound) / n))
  return math.inf if g >= 1 else math.log((1 + g) / (1 - g))


@sub('renyi', renyi_case(), quick=1500, thorough=30000,
     rule='Renyi bound against the variational estimate of an arbitrary witness function bounded as configured, minus its error, over the test '
          'half only; non-trivial: the error is finite')
def renyi(case, ctx):
  rng = np.random.default_rng(case['seed'])
  w = rng.normal(size=4000) * case['spread']
  alib.EVENTS.clear()
  tester = make_renyi(case, scripted(lambda x: w[ident(x)].reshape(-1, 1)))
  x, y = ids(case['n1'], True, case['dim']), ids(case['n2'], False, case['dim'])
  y = y if case['dim'] else y + 1000
  if case['dim']:
    y[:, 0] += 1000
  got = float(tester.estimate_lower_bound(x, y, case['fp']))
  for kind, _, a, b in alib.EVENTS:
    if kind == 'fit':
      require(np.all(ident(a) < case['n1'] // 2) and np.all(ident(b) < 2000 + case['n2'] // 2), 'training uses samples of the test half')
      require(set(ident(a)) == set(range(case['n1'] // 2)), 'training leaves samples out')
  a, c = case['alpha'], case['bound']
  gx = c * np.tanh(w[case['n1'] // 2:case['n1']])
  gy = c * np.tanh(w[2000 + case['n2'] // 2:2000 + case['n2']])
  est = a / (a - 1) * math.log(np.mean(np.exp((a - 1) * gx))) - math.log(np.mean(np.exp(a * gy)))
  err = renyi_error(min(len(gx), len(gy)), case['fp'], c, a)
  require(not math.isnan(got), 'the bound is not a number')
  require(got <= est + 1e-7 * (1 + abs(est)), 'bound %r above the estimate %r', got, est)
  if math.isinf(err):
    require(got <= -5, 'bound %r although the samples prove nothing', got)
  else:
    same(got, est - err, 1e-6, 1e-7 * a / (a - 1), 'Renyi bound')
  threshold = min(case['eps'], 2 * a * case['eps'] ** 2) if case['pure'] else case['eps']
  rejects(tester, got, threshold)
  p = tester.privacy_property
  require((p.pure_dp == PP.PureDp(case['eps']) and p.renyi_dp is None) if case['pure'] else p.renyi_dp == PP.RenyiDp(alpha=case['alpha'], epsilon=case['eps']), 'privacy property %r', p)
  ctx.nontrivial(math.isfinite(err))
  ctx.label('pure' if case['pure'] else 'renyi')


# --- splits and configurations ---


@sub('split', st.tuples(st.integers(0, 200), st.sampled_from([0, 1, 3])), quick=600, thorough=3000,
     rule='splits use every sample once, the first half one fewer when odd; fewer than two samples are refused; non-trivial: an odd number')
def split(case, ctx):
  n, dim = case
  x = ids(n, True, dim)
  try:
    a, b = UT.split_train_test_samples(x)
  except ValueError:
    require(n < 2, '%d samples are refused', n)
    return
  require(n >= 2, '%d samples are not refused', n)
  require((len(a), len(b)) == (n // 2, n - n // 2), 'halves of %d and %d samples of %d', len(a), len(b), n)
  require(np.array_equal(np.concatenate([a, b]), x), 'the halves are not the sample')
  ctx.nontrivial(n % 2 == 1)


@st.composite
def config_case(draw):
  value = st.sampled_from([None, 0, 0.0, -1e-9, -1.0, 1e-9, 0.5, 1.0, 1, 2.0, 50.0])
  return dict(tester=draw(st.sampled_from(['histogram', 'mmd', 'hockey', 'renyi', 'pure', 'renyi-approximate', 'renyi-mismatch', 'property', 'kernel'])),
              eps=draw(value), delta=draw(value), alpha=draw(value), epochs=draw(st.sampled_from([0, -1, 1, 5, 5])), batch=draw(st.sampled_from([0, -3, 1, 9, 9])),
              rate=draw(st.sampled_from([0.0, -0.1, 0.1, 0.1])), bound=draw(st.sampled_from([None, 0.0, -1.0, 1.0, 1.0])), which=draw(st.integers(0, 7)))


@sub('configurations', config_case(), quick=4000, thorough=15000,
     rule='testers accept exactly the valid privacy parameters and training options; non-trivial: accepted')
def configurations(case, ctx):
  k, eps, delta, alpha = case['tester'], case['eps'], case['delta'], case['alpha']
  tc = TC.TrainingConfig(training_epochs=case['epochs'], batch_size=case['batch'], optimizer_learning_rate=case['rate'], model_output_coordinate_bound=case['bound'])
  ok_eps = eps is not None and eps > 0
  ok_adp = ok_eps and delta is not None and delta >= 0
  ok_train = case['epochs'] > 0 and case['batch'] > 0 and case['rate'] > 0
  ok_bound = case['bound'] is not None and case['bound'] > 0
  model = scripted(lambda x: x)
  if k == 'histogram':
    ok, f = ok_adp, lambda: HIST.HistogramTester(TC.HistogramPropertyTesterConfig(True, 3, 0, 1, adp(eps, delta)))
  elif k == 'mmd':
    ok, f = ok_adp, lambda: MMD.MMDPropertyTester(TC.MMDPropertyTesterConfig(TC.Kernel.KERNEL_RBF, 1.0, adp(eps, delta)))
  elif k == 'kernel':
    ok, f = False, lambda: MMD.MMDPropertyTester(TC.MMDPropertyTesterConfig(TC.Kernel.KERNEL_UNSPECIFIED, 1.0, adp(1.0, 0.1)))
  elif k == 'hockey':
    # The bound on the outputs is overridden by the tester.
    ok, f = ok_adp and ok_train, lambda: HOCKEY.HockeyStickPropertyTester(TC.HockeyStickPropertyTesterConfig(tc, adp(eps, delta)), model)
  elif k == 'renyi':
    ok = ok_eps and alpha is not None and alpha > 1 and ok_train and ok_bound
    f = lambda: RENYI.RenyiPropertyTester(TC.RenyiPropertyTesterConfig(alpha, tc, PP.PrivacyProperty(renyi_dp=PP.RenyiDp(alpha=alpha, epsilon=eps))), model)
  elif k == 'pure':
    ok = ok_eps and ok_train and ok_bound
    f = lambda: RENYI.RenyiPropertyTester(TC.RenyiPropertyTesterConfig(2.0, tc, PP.PrivacyProperty(pure_dp=PP.PureDp(eps))), model)
  elif k == 'renyi-approximate':
    ok, f = False, lambda: RENYI.RenyiPropertyTester(TC.RenyiPropertyTesterConfig(2.0, training(1.0), PP.PrivacyProperty(approximate_dp=adp(1.0, 0.1))), model)
  elif k == 'renyi-mismatch':
    ok = False
    f = lambda: RENYI.RenyiPropertyTester(TC.RenyiPropertyTesterConfig(3.0, training(1.0), PP.PrivacyProperty(renyi_dp=PP.RenyiDp(alpha=2.0, epsilon=1.0))), model)
  else:
    w = case['which']
    ok = bin(w).count('1') == 1
    f = lambda: PP.PrivacyProperty(pure_dp=PP.PureDp(1.0) if w & 1 else None, renyi_dp=PP.RenyiDp(2.0, 1.0) if w & 2 else None,
                                   approximate_dp=adp(1.0, 0.1) if w & 4 else None)
  try:
    f()
  except ValueError:
    require(not ok, '%s: valid parameters are refused', k)
    return
  require(ok, '%s: invalid parameters are not refused', k)
  ctx.nontrivial(True)
