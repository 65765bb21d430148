"""C26: the audit runner examines neighbouring datasets and reports faithfully."""
import math

from hypothesis import strategies as st
import numpy as np
from scipy import special

import core
from core import require
import gen
import alib
from alib import DGC, GCL, GCO, GP, GV, PP, RC, RUN

ASSUMPTIONS = [
    'Vizier is replaced by a study with scripted suggestions that records what is reported to it; bounds returned by the tester are numbers or '
    'infinities (not NaN); post-processed samples are numeric',
    'PipelineDP records are (privacy id, partition, value) or (partition, privacy id, value); the first order is the finding recorded']
sub = core.Registry()
number = st.one_of(st.sampled_from([0.0, 0, -0.0, 1.0, -math.inf, math.inf]), st.floats(-5, 5), gen.logf(1e-12, 10))
NONE, TANH, CHEB = RC.PostProcessing.NONE, RC.PostProcessing.TANH, RC.PostProcessing.CHEBYSHEV_POLYNOMIALS_D5


class Tester:
  """Answers with scripted bounds and records what it is asked."""

  def __init__(self, bounds, threshold, prop):
    self.bounds, self.threshold, self.prop, self.asked, self.decided = bounds, threshold, prop, [], []

  @property
  def privacy_property(self):
    return self.prop

  def estimate_lower_bound(self, samples1, samples2, failure_probability):
    i = len(self.asked)
    self.asked.append((np.array(samples1), np.array(samples2), failure_probability))
    return self.bounds[i // 2 % len(self.bounds)][i % 2]

  def reject_property(self, lower_bound):
    self.decided.append(lower_bound)
    return lower_bound > self.threshold


def expected_post(x, post):
  if post == NONE:
    return x
  if post == TANH:
    return np.tanh(x)
  t = np.tanh(np.asarray(x, dtype=float).reshape(-1))
  return np.stack([np.ones_like(t), t, 2 * t ** 2 - 1, 4 * t ** 3 - 3 * t, 8 * t ** 4 - 8 * t ** 2 + 1, 16 * t ** 5 - 20 * t ** 3 + 5 * t], axis=1)


def model_run(bounds, threshold, limit):
  """(estimates, violation found) of a run."""
  out = []
  for t in range(limit):
    out.append(max(bounds[t % len(bounds)]))
    if out[-1] > threshold:
      return out, True
  return out, False


def same_number(a, b):
  return float(a) == float(b)


def check_result(r, case, estimates, found, prop, name, tester_kind, fp):
  require(isinstance(r, RC.PrivacyTestRunnerResults), 'result %r', type(r))
  require(r.mechanism_name == name and r.property_tester == tester_kind and r.privacy_property == prop, 'labels of the result: %r', r)
  require(r.max_num_trials == case['limit'], 'limit %r', r.max_num_trials)
  got = list(r.lower_bound_divergence_estimates)
  require(len(got) == len(estimates) and all(same_number(a, b) for a, b in zip(got, estimates)), 'estimates %r, expected %r', got, estimates)
  require(r.num_inspected_trials == len(estimates), '%r trials reported, %d inspected', r.num_inspected_trials, len(estimates))
  want = RC.TerminationReason.FOUND_PRIVACY_VIOLATION if found else RC.TerminationReason.TRIAL_LIMIT_REACHED
  require(r.termination_reason == want, 'ended with %r, expected %r', r.termination_reason, want)
  if found:
    require(r.found_privacy_violation is not None and r.found_privacy_violation.failure_probability == fp, 'violation %r', r.found_privacy_violation)
  else:
    require(r.found_privacy_violation is None, 'violation %r although none was found', r.found_privacy_violation)


@st.composite
def runner_case(draw):
  quiet = draw(st.booleans())
  bounds = draw(st.lists(st.tuples(number, number), min_size=1, max_size=8))
  threshold = draw(st.one_of(number, st.sampled_from([0.0, 4.0])))
  if quiet:
    finite = [x for b in bounds for x in b if math.isfinite(x)]
    threshold = max(finite + [0.0]) + draw(st.sampled_from([0.0, 1.0]))
    bounds = [tuple(min(x, threshold) for x in b) for b in bounds]
  return dict(bounds=[list(b) for b in bounds], threshold=threshold, limit=draw(st.integers(0, 10)), post=draw(st.sampled_from(['NONE', 'TANH', 'CHEBYSHEV_POLYNOMIALS_D5'])),
              n=draw(st.sampled_from([1, 2, 7])), form=draw(st.sampled_from(['flat', 'column'])), fp=draw(gen.logf(1e-9, 0.5)), seed=draw(st.integers(0, 10 ** 6)),
              runs=draw(st.sampled_from([1, 1, 2])), kind=draw(st.sampled_from(list(range(5)))), prop=draw(st.sampled_from(['pure', 'adp'])))


@sub('runner', runner_case(), quick=4000, thorough=80000,
     rule='runs over scripted bounds against a reference loop: order of the calls, both directions, post-processing, feedback, estimates, '
          'outcome and counts; non-trivial: two trials or more')
def runner(case, ctx):
  post = RC.PostProcessing[case['post']]
  prop = PP.PrivacyProperty(pure_dp=PP.PureDp(1.0)) if case['prop'] == 'pure' else PP.PrivacyProperty(approximate_dp=PP.ApproximateDp(1.0, 0.1))
  kind = list(RC.PropertyTester)[case['kind']]
  config = RC.PrivacyTestRunnerConfig(property_tester=kind, max_num_trials=case['limit'], failure_probability=case['fp'], num_samples=case['n'], post_processing=post)
  log = []

  def generator(last):
    log.append(('generate', last))
    i = len(gen_calls)
    gen_calls.append(i)
    return ('dataset', i, 1), ('dataset', i, 2)

  def mechanism(dataset, num_samples):
    log.append(('mechanism', dataset, num_samples))
    require(num_samples == case['n'], '%r samples asked for, configured %d', num_samples, case['n'])
    x = np.random.default_rng([case['seed'], dataset[1], dataset[2]]).normal(size=num_samples) * 2
    drawn[dataset] = x.reshape(-1, 1) if case['form'] == 'column' else x
    return drawn[dataset].copy()

  drawn = {}
  gen_calls = []
  tester = Tester(case['bounds'], case['threshold'], prop)
  run = RUN.PrivacyTestRunner(config, generator, tester)
  results = []
  for k in range(case['runs']):
    name = 'mechanism %d' % k
    log.clear(), gen_calls.clear(), tester.asked.clear(), tester.decided.clear(), drawn.clear()
    estimates, found = model_run(case['bounds'], case['threshold'], case['limit'])
    r = run.test_privacy(mechanism, name)
    results.append((r, estimates, found, name))
    t = len(estimates)
    require([x for x in log if x[0] == 'generate'] == [('generate', None if i == 0 else estimates[i - 1]) for i in range(t)],
            'the generator is told %r, estimates are %r', [x[1] for x in log if x[0] == 'generate'], estimates)
    require(sorted(x[1] for x in log if x[0] == 'mechanism') == [('dataset', i, j) for i in range(t) for j in (1, 2)], 'the mechanism is run on %r', log)
    require(len(tester.asked) == 2 * t, '%d estimates for %d trials', len(tester.asked), t)
    require([float(x) for x in tester.decided] == [float(x) for x in estimates], 'decided on %r, estimates are %r', tester.decided, estimates)
    for i, (a, b, fp) in enumerate(tester.asked):
      require(fp == case['fp'], 'failure probability %r', fp)
      first, second = (1, 2) if i % 2 == 0 else (2, 1)
      for got, which in ((a, first), (b, second)):
        want = expected_post(drawn[('dataset', i // 2, which)], post)
        require(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12), 'samples given to the tester are not the post-processed ones of dataset %d', which)
  for r, estimates, found, name in results:
    check_result(r, case, estimates, found, prop, name, kind, case['fp'])
  ctx.label('found' if found else 'limit')
  ctx.nontrivial(t > 1)


# --- generators ---


@st.composite
def generator_case(draw):
  kind = draw(st.sampled_from(['scalar', 'classification', 'pipeline']))
  lo = draw(st.floats(-10, 10))
  lo, hi = lo, lo + draw(gen.logf(1e-3, 50))
  return dict(kind=kind, lo=lo, hi=hi, ints=draw(st.booleans()) and kind != 'classification', m=draw(st.integers(1, 24)), samples=draw(st.integers(1, 12)),
              dim=draw(st.integers(1, 12)), classes=draw(st.integers(1, 12)), ids=draw(st.integers(1, 12)), parts=draw(st.integers(1, 4)),
              feedback=draw(st.lists(number, min_size=0, max_size=6)), seed=draw(st.integers(0, 10 ** 6)), goal=draw(st.sampled_from(['m', 'divergence'])),
              algorithm=draw(st.sampled_from(['RANDOM_SEARCH', 'GRID_SEARCH'])))


def vizier_config(case, m, data_type=None):
  return DGC.VizierDatasetGeneratorConfig(
      study_name='study%d' % case['seed'], study_owner='owner%d' % case['m'], num_vizier_parameters=m,
      data_type=data_type or (DGC.DataType.DATA_TYPE_INT32 if case['ints'] else DGC.DataType.DATA_TYPE_FLOAT),
      min_value=case['lo'], max_value=case['hi'], search_algorithm=case['algorithm'], metric_name=case['goal'])


def suggest(case, rng, log):
  """Suggestions within the bounds the generator asked for, in any order of the names."""

  def f(n, params):
    values = {}
    for i in rng.permutation(len(params)):
      kind, name, lo, hi = params[i]
      values[name] = int(rng.integers(lo, hi + 1)) if kind == 'int' else float(rng.uniform(lo, hi))
    log.append(values)
    return values

  return f


def make_generator(case, log):
  study = alib.new_study(suggest(case, np.random.default_rng(case['seed']), log))
  if case['kind'] == 'scalar':
    g = GV.VizierScalarDataAddRemoveGenerator(vizier_config(case, case['m']))
  elif case['kind'] == 'classification':
    g = GCL.ClassificationDatasetGenerator(DGC.ClassificationDatasetGeneratorConfig(
        study_name='study%d' % case['seed'], study_owner='owner%d' % case['m'], min_value=case['lo'], max_value=case['hi'], search_algorithm=case['algorithm'],
        metric_name=case['goal'], sample_dim=case['dim'], num_samples=case['samples'], num_classes=case['classes']))
  else:
    # The number of parameters given is overridden.
    g = GP.PipelineDpDatasetGenerator(vizier_config(case, case['m']), GP.PipelineDpDatasetGeneratorConfig(max_num_privacy_ids=case['ids'], max_num_partitions=case['parts']))
  return study, g


def check_search_space(case, study):
  params = study.config.search_space.root.params
  names = [p[1] for p in params]
  require(len(set(names)) == len(names), 'names of parameters coincide')
  require((study.owner, study.study_id) == ('owner%d' % case['m'], 'study%d' % case['seed']), 'study %r of %r', study.study_id, study.owner)
  require(study.config.algorithm == case['algorithm'], 'algorithm %r', study.config.algorithm)
  info = list(study.config.metric_information)
  require(len(info) == 1 and info[0].name == case['goal'] and info[0].goal == 'MAXIMIZE', 'the search does not maximise the configured metric')
  lo, hi = case['lo'], case['hi']
  if case['ints']:
    lo, hi = int(lo), int(hi)
  floats, ints = [p for p in params if p[0] == 'float'], [p for p in params if p[0] == 'int']
  if case['kind'] == 'classification':
    require(len(floats) == case['samples'] * case['dim'] and len(ints) == case['samples'], '%d features and %d labels', len(floats), len(ints))
    require(all(p[2] == 0 and case['classes'] - 1 <= p[3] <= case['classes'] for p in ints), 'range of labels %r', ints[:1])
    require(all((p[2], p[3]) == (lo, hi) for p in floats), 'range of features %r', floats[:1])
  else:
    want = case['m'] if case['kind'] == 'scalar' else case['ids'] * case['parts']
    require(len(ints if case['ints'] else floats) == want == len(params), '%d parameters, expected %d', len(params), want)
    require(all((p[2], p[3]) == (lo, hi) for p in params), 'range of parameters %r', params[:1])


def check_pair(case, pair, suggestion):
  """The pair differs by one record and consists of the suggested values. Returns a Known finding or None."""
  d1, d2 = pair
  values = list(suggestion.values())
  if case['kind'] == 'scalar':
    a, b = list(map(float, d1)), list(map(float, d2))
    if len(a) > len(b):
      a, b = b, a
    require(len(b) == case['m'] and sorted(b) == sorted(map(float, values)), 'dataset %r, suggested %r', b, values)
    require(b[:-1] == a, 'datasets %r and %r do not differ by one record', a, b)
  elif case['kind'] == 'classification':
    (f1, l1), (f2, l2) = d1, d2
    if len(l1) > len(l2):
      f1, l1, f2, l2 = f2, l2, f1, l1
    f1, f2, l1, l2 = np.asarray(f1), np.asarray(f2), np.asarray(l1), np.asarray(l2)
    n, d = case['samples'], case['dim']
    require(f2.shape == (n, d) and l2.shape == (n,), 'features %r and labels %r', f2.shape, l2.shape)
    require(f1.shape == (n - 1, d) and l1.shape == (n - 1,), 'features %r and labels %r of the neighbour', f1.shape, l1.shape)
    require(np.array_equal(f1, f2[:-1]) and np.array_equal(l1, l2[:-1]), 'the datasets do not differ by one record')
    floats = sorted(v for v in values if isinstance(v, float))
    ints = sorted(v for v in values if isinstance(v, int))
    require(sorted(f2.reshape(-1).tolist()) == floats and sorted(l2.tolist()) == ints, 'features and labels are not the suggested ones')
  else:
    rows1, rows2 = [tuple(r) for r in d1], [tuple(r) for r in d2]
    if len(rows1) > len(rows2):
      rows1, rows2 = rows2, rows1
    ids, parts = case['ids'], case['parts']
    require(sorted(float(r[2]) for r in rows2) == sorted(map(float, values)), 'values are not the suggested ones')
    known = None
    documented = {(j, i) for i in range(ids) for j in range(parts)}
    got = {(int(r[0]), int(r[1])) for r in rows2}
    require(len(got) == len(rows2) == ids * parts, '%d records, expected %d', len(rows2), ids * parts)
    pid = 1
    left = list(rows2)
    for r in rows1:
      require(r in left, 'record %r is in one dataset only', r)
      left.remove(r)
    if got != documented or (ids == parts and len({r[1] for r in left}) != 1):
      require(got == {(i, j) for i in range(ids) for j in range(parts)}, 'privacy ids and partitions %r', sorted(got))
      pid = 0
      known = 'records (%d privacy ids, %d partitions) are (privacy id, partition, value)' % (ids, parts)
    require(len(left) == parts and len({r[pid] for r in left}) == 1, 'the datasets differ in %r, not in the records of one privacy id', left)
    if parts == 1 or ids == 1:
      known = None
    return known
  return None


@sub('generators', generator_case(), quick=4000, thorough=80000,
     rule='dataset pairs from scripted suggestions differ by one record and carry the suggested values; each result is reported once to its trial '
          'before the next suggestion; non-trivial: two results or more, one of them zero or negative')
def generators(case, ctx):
  log, known = [], None
  study, g = make_generator(case, log)
  check_search_space(case, study)
  require(not study.log, 'suggestions before they are needed: %r', study.log)
  pairs = [g(None)]
  known = check_pair(case, pairs[0], log[-1])
  for i, x in enumerate(case['feedback']):
    require(len(log) == i + 1, '%d suggestions after %d results', len(log), i)
    pair = g(x)
    require(len(log) == i + 2, '%d suggestions after %d results', len(log), i + 1)
    known = check_pair(case, pair, log[-1]) or known
  want = [('suggest', 0)]
  for i, x in enumerate(case['feedback']):
    want += [('complete', i), ('suggest', i + 1)]
  got = [(k, i) for k, i, _ in study.log]
  require(got == want, 'the study sees %r, expected %r', got, want)
  reported = [m for k, _, m in study.log if k == 'complete']
  for m, x in zip(reported, case['feedback']):
    require(set(m.metrics) == {case['goal']} and same_number(m.metrics[case['goal']], x), 'reported %r for a result of %r', m.metrics, x)
  ctx.label(case['kind'])
  ctx.nontrivial(len(case['feedback']) > 1 and min(case['feedback']) <= 0)
  if known:
    raise core.Known('pipeline-column-order', known)


@sub('no-suggestion', generator_case(), quick=300, thorough=3000,
     rule='a search that has no suggestion is reported as an error, unsupported data types too; non-trivial: the error comes after a trial')
def no_suggestion(case, ctx):
  case = dict(case, kind='scalar')
  ctx.nontrivial(len(case['feedback']) % 2 == 1)
  if case['m'] % 3 == 0:
    alib.new_study(lambda n, p: {})
    try:
      GV.VizierScalarDataAddRemoveGenerator(vizier_config(case, case['m'], DGC.DataType.DATA_TYPE_UNSPECIFIED))
    except NotImplementedError:
      return
    raise core.Violation('an unsupported data type is not refused')
  log = []
  study, g = make_generator(case, log)
  study.suggest_values = (lambda f, k: lambda n, p: f(n, p) if n < k else None)(study.suggest_values, len(case['feedback']) % 2)
  try:
    g(None)
    g(1.0)
  except ValueError:
    return
  raise core.Violation('a search without suggestions is not reported')


@sub('constant', st.tuples(st.lists(number, max_size=4), st.lists(number, max_size=4), st.lists(number, max_size=4)), quick=300, thorough=3000,
     rule='the constant generator returns its pair whatever the results; non-trivial: two results or more')
def constant(case, ctx):
  a, b = np.array(case[0], dtype=float), np.array(case[1], dtype=float)
  g = GCO.ConstantDatasetGenerator((a, b))
  for x in [None] + list(case[2]):
    p, q = g(x)
    require(np.array_equal(p, np.array(case[0], dtype=float)) and np.array_equal(q, np.array(case[1], dtype=float)), 'another pair after %r', x)
  ctx.nontrivial(len(case[2]) > 1)


@st.composite
def audit_case(draw):
  c = draw(generator_case())
  r = draw(runner_case())
  c.update(kind=draw(st.sampled_from(['scalar', 'classification'])), bounds=r['bounds'], threshold=r['threshold'], limit=r['limit'], fp=r['fp'])
  c['ints'] = c['ints'] and c['kind'] == 'scalar'
  return c


@sub('audit', audit_case(), quick=1500, thorough=30000,
     rule='whole audits: runner, generator and search together; the search is told each trial\'s larger bound once, the mechanism sees the '
          'suggested datasets; non-trivial: two trials or more')
def audit(case, ctx):
  log, seen = [], []
  study, g = make_generator(case, log)
  prop = PP.PrivacyProperty(pure_dp=PP.PureDp(1.0))
  config = RC.PrivacyTestRunnerConfig(property_tester=RC.PropertyTester.RENYI_TESTER, max_num_trials=case['limit'], failure_probability=case['fp'], num_samples=2,
                                      post_processing=NONE)

  def mechanism(data, n):
    seen.append(data)
    return np.zeros(n)

  estimates, found = model_run(case['bounds'], case['threshold'], case['limit'])
  r = RUN.PrivacyTestRunner(config, g, Tester(case['bounds'], case['threshold'], prop)).test_privacy(mechanism, 'm')
  check_result(r, case, estimates, found, prop, 'm', RC.PropertyTester.RENYI_TESTER, case['fp'])
  t = len(estimates)
  require(len(seen) == 2 * t, 'the mechanism ran %d times in %d trials', len(seen), t)
  require(len(log) == t, '%d suggestions for %d trials', len(log), t)
  for i in range(t):
    check_pair(case, seen[2 * i:2 * i + 2], log[i])
  reported = [(i, m.metrics[case['goal']]) for k, i, m in study.log if k == 'complete']
  require([(i, float(x)) for i, x in reported] == [(i, float(x)) for i, x in enumerate(estimates[:-1])], 'the search is told %r, estimates are %r', reported, estimates)
  ctx.nontrivial(t > 1)
