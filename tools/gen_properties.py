"""Writes /verif/properties.jsonl from the table below (run by hand)."""
import json, os
D = 'python/dp_accounting/dp_accounting/'
A = 'python/dp_auditorium/dp_auditorium/'
L = 'learning/clustering/'
P = []

def p(id, title, statement, over, text, why, files, mech, observe=None):
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe or [], hook_needed=None)))

p('C01', 'Pessimistic privacy loss never understates an additive or finite mechanism',
  'For every mechanism the library can describe without subsampling (Laplace, Gaussian, discrete Laplace, discrete Gaussian, randomized response, a pair of finite distributions, a pure or approximate DP guarantee), every sensitivity, discretisation interval and discretisation method, the delta that a pessimistic privacy loss distribution reports at any epsilon is at least the true hockey-stick divergence between the two output distributions. Correspondingly the epsilon it reports for any delta is a valid one: the true divergence at that epsilon does not exceed delta. This holds up to floating-point rounding only, in both neighbouring directions.',
  ['inputs', 'configurations'],
  'every mechanism and parameter value in its domain, every discretisation interval, both discretisation methods, every epsilon (also negative) and delta',
  'Existing tests check a few parameter tuples against precomputed probability tables; soundness must hold at every grid alignment, tail and sensitivity, where one wrongly rounded bucket silently understates the privacy loss.',
  [D + 'pld/privacy_loss_distribution.py', D + 'pld/privacy_loss_mechanism.py', D + 'pld/pld_pmf.py'],
  [('rounding of losses up to the grid, tail mass moved to infinity', D + 'pld/privacy_loss_distribution.py (from_* factories, _create_pld_pmf_from_additive_noise)'),
   ('pessimistic connect-the-dots', D + 'pld/pld_pmf.py (create_pmf_pessimistic_connect_dots*)')],
  ['get_delta_for_epsilon', 'get_epsilon_for_delta'])

p('C02', 'Pessimistic privacy loss stays sound under subsampling and mixtures',
  'For Poisson-subsampled Laplace, Gaussian, discrete Laplace and discrete Gaussian mechanisms, and for mixtures of Gaussians, the pessimistic delta reported at any epsilon is at least the true hockey-stick divergence in both the add and the remove direction, and the reported epsilon for any delta is valid for both directions. Subsampling never makes the reported delta larger than without subsampling, and a sampling probability of one reproduces the unsampled mechanism.',
  ['inputs', 'configurations'],
  'every sampling probability in (0,1], noise parameter, sensitivity, mixture (sensitivities, probabilities), discretisation interval and method, epsilon, delta',
  'Amplification formulas differ between the add and the remove direction and have corner cases (epsilon beyond the largest attainable loss, near-zero sampling probability); tests sample a handful of tables.',
  [D + 'pld/privacy_loss_mechanism.py', D + 'pld/privacy_loss_distribution.py'],
  [('privacy loss and inverse with sampling_prob per adjacency type', D + 'pld/privacy_loss_mechanism.py (AdditiveNoisePrivacyLoss.privacy_loss, inverse_privacy_loss)'),
   ('mixture of Gaussians loss', D + 'pld/privacy_loss_mechanism.py (MixtureGaussianPrivacyLoss)'),
   ('both directions kept and the worse one reported', D + 'pld/privacy_loss_distribution.py (PrivacyLossDistribution.get_delta_for_epsilon)')])

p('C03', 'Privacy loss estimates bracket the truth tightly',
  'Optimistic privacy loss distributions never report more delta than the true hockey-stick divergence, nor less than the true divergence at an epsilon raised by one discretisation interval minus the requested truncation mass. Pessimistic ones never report more than the true divergence at an epsilon lowered by one interval plus the requested truncation mass. At epsilons on the discretisation grid the connect-the-dots construction of additive and mixture mechanisms is exact up to truncation mass.',
  ['inputs', 'configurations'],
  'every mechanism with or without subsampling, parameters, discretisation interval, method, truncation bound, and epsilon',
  'A construction that is sound but wastes privacy budget, or an optimistic estimate that is not a lower bound, passes table tests at the sampled points.',
  [D + 'pld/privacy_loss_distribution.py', D + 'pld/pld_pmf.py', D + 'pld/privacy_loss_mechanism.py'],
  [('optimistic rounding down', D + 'pld/privacy_loss_distribution.py'), ('connect-the-dots exactness at grid points', D + 'pld/pld_pmf.py')])

p('C04', 'Composing privacy losses equals running the mechanisms together',
  'Composing privacy loss distributions, pairwise or repeatedly with oneself, yields the distribution of the joint run: pessimistic composed deltas are never below the exact divergence of the product mechanism and exceed it only by accumulated discretisation and the requested truncation mass. Composition does not depend on order, grouping, on whether self-composition or repeated composition is used, nor on the internal storage form, and the shortcut that queries a composition without building it agrees with building it; distributions that differ in interval or estimate type are refused.',
  ['inputs', 'histories'],
  'every pair or sequence of privacy loss distributions, repetition counts, truncation masses and epsilons',
  'Unit tests compose two or three hand-written tables; convolution, tail truncation, infinity mass and representation switches interact with size, repetition count and asymmetry.',
  [D + 'pld/pld_pmf.py', D + 'pld/common.py', D + 'pld/privacy_loss_distribution.py'],
  [('compose/self_compose of sparse and dense pmfs', D + 'pld/pld_pmf.py'), ('convolve, self_convolve, compute_self_convolve_bounds', D + 'pld/common.py'),
   ('add and remove directions composed separately', D + 'pld/privacy_loss_distribution.py (compose, self_compose)')])

p('C05', 'Delta and epsilon queries describe one consistent privacy curve',
  'For every privacy loss distribution the reported delta is a non-increasing function of epsilon with values in [0, 1], equals the expected excess loss of the stored distribution, and takes the same value for scalar, list and array queries. The reported epsilon for a delta is the smallest non-negative epsilon whose reported delta does not exceed that delta, and is infinite exactly when no finite epsilon suffices.',
  ['inputs'],
  'every probability mass function on a privacy loss grid (sparse or dense, with or without mass at infinity), every epsilon, also negative and infinite, every delta in [0,1]',
  'Tests query fixed distributions at fixed points; off-grid epsilons, ties, deltas equal to the infinity mass and unsorted query arrays are unbounded.',
  [D + 'pld/pld_pmf.py', D + 'pld/privacy_loss_distribution.py'],
  [('get_delta_for_epsilon / get_epsilon_for_delta', D + 'pld/pld_pmf.py')])

p('C06', 'The PLD accountant reports valid, tight guarantees for any event history',
  'After any sequence of supported events, with nested composition, repetition counts and subsampling, the delta and epsilon reported by the PLD accountant are valid for the true composed mechanism and exceed the true value only by discretisation error. Events that are not private give infinite epsilon and delta one, and events without privacy cost change nothing.',
  ['histories', 'inputs', 'configurations'],
  'every sequence and nesting of supported events, counts, neighbouring relations and discretisation intervals',
  'Tests use one or two events at a time; the count and nesting must be honoured for each of the event kinds and neighbouring relations.',
  [D + 'pld/pld_privacy_accountant.py'],
  [('event traversal and per-event PLD', D + 'pld/pld_privacy_accountant.py (PLDAccountant._maybe_compose)')])

p('C07', 'Renyi accounting matches the true Renyi divergence of basic mechanisms',
  'For Gaussian, Laplace, randomized-response and Poisson-subsampled Gaussian events, with arbitrary nesting and repetition, the Renyi guarantee accumulated by the Renyi accountant at each order is at least the true Renyi divergence of the composed mechanism in both directions, and equals it where an exact formula exists. In particular epsilon and delta derived from it at a single order follow from that divergence.',
  ['inputs', 'histories', 'configurations'],
  'every noise multiplier (also integers), sampling probability, bucket count, repetition count, nesting of Gaussian sub-events, neighbouring relation and order (also fractional and infinite)',
  'Tests compare a few parameter points; the formulas switch between integer, fractional and infinite orders and between nested event shapes.',
  [D + 'rdp/rdp_privacy_accountant.py'],
  [('Poisson subsampled Gaussian RDP', D + 'rdp/rdp_privacy_accountant.py (_compute_rdp_poisson_subsampled_gaussian)'), ('nested Gaussian reduction', D + 'rdp/rdp_privacy_accountant.py (_effective_gaussian_noise_multiplier)'),
   ('Laplace and randomized response RDP', D + 'rdp/rdp_privacy_accountant.py')])

p('C08', 'Converting Renyi guarantees to epsilon and delta is sound and monotone',
  'For any list of orders and Renyi divergence bounds, every pair of output distributions that satisfies the bounds has true hockey-stick divergence at most delta at the reported epsilon, and at most the reported delta at the given epsilon. The results are within [0, infinity] and [0, 1], never improve when the bounds grow or orders are removed, epsilon does not increase with delta and delta does not increase with epsilon, and converting one way and back is consistent.',
  ['inputs'],
  'every list of orders (at least one, fractional or infinite), every non-negative bound including zero, tiny, huge and infinite, every epsilon and delta',
  'The conversion has several branches (order near one, tiny divergence, zero delta); tests touch each at a point or two.',
  [D + 'rdp/rdp_privacy_accountant.py'],
  [('compute_epsilon, compute_delta', D + 'rdp/rdp_privacy_accountant.py')])

p('C09', 'Renyi accounting bounds structured mechanisms',
  'For fixed-size sampling without replacement of Gaussians, single-epoch tree aggregation, and repeat-and-select with any of its repetition distributions, the Renyi divergence bound the accountant accumulates is at least the true divergence of that mechanism on neighbouring inputs, is never negative, and repetition multiplies it. For tree aggregation it equals the Gaussian cost of the largest number of released tree nodes any record touches.',
  ['inputs', 'configurations'],
  'every sampling size and dataset size, noise multiplier, step counts, repetition mean and shape (0, fractional, 1, infinite), base event and order',
  'Tests check limiting cases and a few points; bounds are formula-heavy with separate branches by order, mean and shape.',
  [D + 'rdp/rdp_privacy_accountant.py'],
  [('sampling without replacement bound', D + 'rdp/rdp_privacy_accountant.py (_compute_rdp_sample_wor_gaussian*)'), ('tree aggregation depth', D + 'rdp/rdp_privacy_accountant.py (_compute_rdp_single_epoch_tree_aggregation)'),
   ('repeat and select', D + 'rdp/rdp_privacy_accountant.py (_compute_rdp_repeat_and_select)')])

p('C10', 'Accountants depend only on what was composed, not on how',
  'For either accountant, the guarantee reported after a history of compositions does not depend on the order of the events, on whether repetitions are given as a count, a repeated-event node or separate calls, on grouping into composed events, or on interleaved queries, and events with no privacy cost leave it unchanged. Composing the recorded ledger into a fresh accountant reproduces the guarantee, reported loss never decreases when more is composed, and separate accountants do not influence each other.',
  ['histories'],
  'every sequence of compose calls and queries on one or several accountants, every rearrangement of the same multiset of events',
  'A property of whole histories; tests exercise fixed one- or two-call sequences.',
  [D + 'privacy_accountant.py', D + 'dp_event_builder.py', D + 'pld/pld_privacy_accountant.py', D + 'rdp/rdp_privacy_accountant.py'],
  [('compose and ledger', D + 'privacy_accountant.py (PrivacyAccountant.compose)'), ('recursive traversal', D + 'pld/pld_privacy_accountant.py, ' + D + 'rdp/rdp_privacy_accountant.py (_maybe_compose)')])

p('C11', 'Unsupported or failing compositions are refused without losing privacy loss',
  'An accountant says it supports an event exactly when composing that event does not raise the unsupported-event error, at any nesting depth and for each neighbouring relation; asking does not change the accountant. A composition that is refused as unsupported, or because it is not an event or has an invalid count, leaves ledger and reported guarantees exactly as they were; a composition that fails for any other reason never lowers the reported loss of what was composed before.',
  ['histories', 'inputs', 'configurations'],
  'every event tree over all event kinds, including unsupported ones at any position and events with invalid parameters, every neighbouring relation, after every prior history',
  'Tests pair single unsupported events with fresh accountants; partially processed trees and pre-existing state need generated histories.',
  [D + 'privacy_accountant.py', D + 'pld/pld_privacy_accountant.py', D + 'rdp/rdp_privacy_accountant.py'],
  [('dry run before composing', D + 'privacy_accountant.py (supports, compose)'), ('save and restore of RDP in repeat-and-select', D + 'rdp/rdp_privacy_accountant.py')])

p('C12', 'Privacy events survive conversion to and from plain tuples',
  'Converting any privacy event, however nested, to its plain named-tuple form and back gives an event equal to the original, of the same type with the same nested container contents, and the plain form carries every field plus the names needed to rebuild it. The conversion also works when the names arrive as bytes, and events that cannot be represented are rejected with a value error.',
  ['inputs'],
  'every event tree over all event kinds with list, tuple and mapping fields at any depth',
  'Tests round-trip a fixed list of events; nesting depth and container shapes are unbounded.',
  [D + 'dp_event.py'], [('to_named_tuple / from_named_tuple', D + 'dp_event.py')])

p('C13', 'The event builder records exactly the composed multiset in order',
  'The event produced by the builder expands to the same sequence of elementary events, with the same multiplicities and order, as the sequence of compose calls, ignoring events without cost. Adjacent equal events are merged into one repetition, nothing composed gives the no-cost event, a previously built event is not altered by later compositions, and invalid events or counts raise an error and leave the builder unchanged.',
  ['histories', 'inputs'],
  'every sequence of compose and build calls with nested repeated and composed events and counts',
  'A history property; tests use short fixed sequences.',
  [D + 'dp_event_builder.py'], [('compose and build with cached composed event', D + 'dp_event_builder.py (DpEventBuilder)')])

p('C14', 'Calibration returns an in-budget parameter close to the optimum',
  'For every mechanism family whose epsilon is monotone in its parameter, the calibrated parameter has epsilon at the target delta no larger than the target epsilon, and lies within the requested tolerance of the best in-budget parameter of the bracket; for discrete search the result is an integer. When no bracket containing a solution exists an error is raised instead of returning a value.',
  ['inputs', 'configurations'],
  'every monotone (increasing, decreasing, flat, stepped, infinite at an endpoint) epsilon curve, target, tolerance, bracket kind and discreteness',
  'Tests calibrate a few smooth curves; root finding behaves differently on plateaus, steps, infinities and roots at the ends.',
  [D + 'mechanism_calibration.py'], [('bracket search, Brent, safeguard and bisection fallback', D + 'mechanism_calibration.py (calibrate_dp_mechanism)')])

p('C15', 'Noise chosen for a privacy target satisfies it and is not wasteful',
  'The smallest-noise searches (Laplace, discrete Laplace, Gaussian, subsampled Gaussian) and the constructors that derive a mechanism from a privacy guarantee return noise for which the true mechanism, composed the requested number of times, satisfies the requested epsilon and delta. The noise is minimal up to the documented search accuracy: reducing it by that accuracy violates the guarantee.',
  ['inputs'],
  'every epsilon, delta, number of queries, sensitivity and sampling probability in the supported domain',
  'Tests compare against a few precomputed optimal values; the guarantee is over the continuous parameter space.',
  [D + 'pld/accountant.py', D + 'pld/privacy_loss_mechanism.py'],
  [('get_smallest_* searches', D + 'pld/accountant.py'), ('from_privacy_guarantee', D + 'pld/privacy_loss_mechanism.py')])

p('C16', 'Advanced composition bounds are the exact optimal composition',
  'The epsilon returned by advanced composition of identical guarantees makes the composed mechanism satisfy the requested total delta, equals (to the documented granularity) the smallest such epsilon over all mechanisms with the given guarantee, and is never worse than basic composition. When the total delta is unattainable no epsilon is returned. The reverse search returns a per-query epsilon whose optimal composition satisfies the requested total guarantee and which is, within the search tolerance, the largest one not above the total epsilon that advanced composition accepts; it returns none exactly when the total delta is unattainable.',
  ['inputs'],
  'every epsilon, delta, number of compositions and total delta',
  'Tests compare a handful of values; the optimal composition formula has boundary cases in delta and the number of queries.',
  [D + 'pld/accountant.py'],
  [('advanced_composition and helpers', D + 'pld/accountant.py')])

p('C17', 'Numerical building blocks honour their contracts',
  'Monotone-function inversion returns an argument meeting the target value and within tolerance of the best such argument, or reports that none exists; convolution and self-convolution equal the exact convolution except for at most the requested tail mass, never drop more, and keep index offsets right; probability dictionaries survive conversion to dense arrays and back. Bounds for truncating a self-convolution contain all but the requested tail mass.',
  ['inputs', 'configurations'],
  'every monotone function and search bracket, every non-negative array, repetition count, tail mass and truncation bound',
  'Tests use tiny arrays and a few functions.',
  [D + 'pld/common.py'],
  [('inverse_monotone_function', D + 'pld/common.py'), ('convolve_dictionary, convolve, self_convolve, compute_self_convolve_bounds', D + 'pld/common.py'), ('dictionary/list conversion', D + 'pld/common.py')])

p('C18', 'Privacy-loss functions, their inverses and noise distributions agree',
  'For every additive or mixture mechanism, the privacy loss at an outcome equals the log ratio of the two output densities, is monotone in the outcome, and its inverse returns the boundary of the outcomes whose loss is at least the given value. Cumulative distribution functions are monotone, agree with the noise density and with each other, and the divergence the mechanism object reports for an epsilon equals the true hockey-stick divergence.',
  ['inputs', 'configurations'],
  'every mechanism, parameter, sensitivity, sampling probability, adjacency direction, outcome and loss value',
  'Tests tabulate values; the inverse has separate branches for attainable, unattainable and subsampled losses.',
  [D + 'pld/privacy_loss_mechanism.py'],
  [('privacy_loss, inverse_privacy_loss, mu_upper_cdf, mu_lower_log_cdf, noise_cdf, get_delta_for_epsilon', D + 'pld/privacy_loss_mechanism.py')])

p('C19', 'Private clustering never spends more than its privacy budget',
  'For every target epsilon and delta, radius, tree depth and noise multipliers, the noise parameters chosen for private clustering make the whole mechanism (one noisy average per record plus one noisy count per tree level) satisfy the target guarantee, and the built-in validation accepts them; noise is omitted only for non-private targets. The validation rejects parameters whose true cost clearly exceeds the budget.',
  ['inputs', 'configurations'],
  'every epsilon, delta, radius, maximum depth and pair of positive multipliers of moderate ratio (between 0.05 and 3000)',
  'Tests check a few targets; the budget split must be right for every depth and multiplier.',
  [L + 'privacy_calculator.py', L + 'clustering_params.py'],
  [('calibration of the clustering event', L + 'privacy_calculator.py (PrivacyCalculator)'), ('multiplier formulas', L + 'clustering_params.py (PrivacyCalculatorMultiplier)')])

p('C20', 'The clustering tree partitions the data and respects its thresholds',
  'In every hashing tree the points of a node are split among its children without loss, duplication or alteration according to the sign of the projection for that level, prefixes grow by one character per level up to the maximum depth, and exactly the nodes whose private count reaches the branching threshold are expanded while children below the inclusion threshold are dropped. Leaves are exactly the childless nodes, no record is in two leaves, and each record is counted at most once per level.',
  ['inputs', 'configurations'],
  'every dataset (duplicates, zeros, ties on the hyperplane, empty groups), projection vectors, thresholds, depth and sequence of private counts',
  'Tests build small fixed trees; partition and leaf logic must hold for every shape that noisy counts can produce.',
  [L + 'lsh.py', L + 'lsh_tree.py'],
  [('group_by_next_hash', L + 'lsh.py'), ('level construction, filtering and leaf collection', L + 'lsh_tree.py')])

p('C21', 'Private clustering touches each record within its accounted sensitivity',
  'Running the whole private clustering pipeline, the only data-dependent values released are noisy counts, at most one per tree level plus one for the root, and one noisy sum per leaf, computed on records clipped to the stated radius: adding or removing one record changes at most one count per level by one and at most one leaf sum by at most the radius, and all released centres come from these. The coreset lies within the radius and its weights are the private counts.',
  ['inputs', 'configurations', 'histories'],
  'every pair of neighbouring datasets (also with outliers far outside the radius), tree parameters, and noise realisation',
  'Sensitivity is a property of pairs of runs; tests run single datasets and do not compare neighbours.',
  [L + 'clustering_algorithm.py', L + 'lsh_tree.py', L + 'clustering_params.py', L + 'default_clustering_params.py'],
  [('clip_by_radius before the coreset', L + 'clustering_algorithm.py (private_lsh_clustering), ' + L + 'clustering_params.py (Data.clip_by_radius)'),
   ('reuse of cached private counts and averages', L + 'lsh_tree.py (LshTreeNode)')])

p('C22', 'Clustering noise has the distribution the accounting assumes',
  'A private count is the true count plus fresh integer noise from the discrete Laplace distribution with the configured parameter, and a private average is the true sum plus fresh independent Gaussian noise of the configured standard deviation in every coordinate, divided by the private count. Infinite Laplace parameter or zero deviation means exactly no noise, and invalid noise parameters or counts below one are refused.',
  ['inputs', 'configurations'],
  'every count, dataset, dimension, private count and noise parameter; over the random draws',
  'Tests mock the sampler or check loose statistics at one parameter.',
  [L + 'central_privacy_utils.py'], [('get_private_average, get_private_count', L + 'central_privacy_utils.py')])

p('C23', 'Clustering results and metrics describe the data correctly',
  'A clustering result labels every point with its nearest centre and its loss is the sum of squared distances to those centres; the label histogram and the accuracy, non-match and false-match metrics equal their definitions counted over points and pairs of points. Clipping leaves points inside the radius unchanged and rescales others to the radius in the same direction; inconsistent inputs are rejected.',
  ['inputs'],
  'every dataset, set of centres, and pair of labelings',
  'Tests use a few hand-made examples.',
  [L + 'clustering_algorithm.py', L + 'clustering_params.py'],
  [('ClusteringResult, ClusteringMetrics', L + 'clustering_algorithm.py'), ('clip_by_radius', L + 'clustering_params.py')])

p('C24', 'Auditing mechanisms sample the distributions they document',
  'The reference mechanisms used for auditing behave as documented for every dataset and configuration: noisy max returns the arg-max of counts with Gumbel noise of scale two over epsilon, the mean mechanism adds Laplace or Gaussian noise scaled to the clipped range, epsilon and count, and each sparse-vector variant stops after the allowed number of above-threshold answers, with its own threshold and query noise scales. The sparse-vector output is a valid transcript: values beyond the stopping point carry the no-response marker, all earlier ones an answer. The PipelineDP wrapper runs one aggregation of all records with the whole budget per sample.',
  ['inputs', 'configurations'],
  'every dataset, epsilon, delta, bounds, threshold, number of queries and cut-off; over the random draws',
  'Tests check output shapes and a few seeds.',
  [A + 'mechanisms/noisy_max.py', A + 'mechanisms/mean.py', A + 'mechanisms/sparse_vector_technique.py', A + 'mechanisms/pipeline_dp/aggregation.py'],
  [('noise scales and stopping rule', A + 'mechanisms/sparse_vector_technique.py'), ('Gumbel noise', A + 'mechanisms/noisy_max.py'), ('noise scale', A + 'mechanisms/mean.py')])

p('C25', 'Privacy testers do not accuse private mechanisms',
  'The sample-based testers return a lower bound on the tested divergence that is at most the true divergence except with the stated failure probability, so a mechanism satisfying the tested guarantee is not rejected; their estimates follow the documented estimator minus a non-negative error that shrinks with more samples and grows with smaller failure probability. Histogram estimates are probability vectors counting every sample, splits use every sample once, and out-of-range or empty samples and invalid privacy parameters are refused.',
  ['inputs', 'configurations'],
  'every pair of sample sets, tested epsilon and delta, histogram size, kernel, bandwidth and failure probability',
  'Tests check a few sample sets; validity of the bound is a statement about all distributions.',
  [A + 'testers/histogram_tester.py', A + 'testers/mmd_tester.py', A + 'testers/property_tester_utils.py', A + 'testers/hockey_stick_tester.py', A + 'testers/renyi_tester.py'],
  [('estimators and error tolerances', A + 'testers/histogram_tester.py, ' + A + 'testers/mmd_tester.py'), ('confidence corrections', A + 'testers/hockey_stick_tester.py, ' + A + 'testers/renyi_tester.py')])

p('C26', 'The audit runner examines neighbouring datasets and reports faithfully',
  'The audit runner tries at most the configured number of dataset pairs, tests both directions and records the larger bound per trial, stops at the first rejection and reports it with the right trial count, otherwise reports that the limit was reached. Each dataset pair it gets from a generator differs by exactly one record, feedback from the previous trial is reported to the search exactly once, and post-processing is applied equally to both sample sets.',
  ['histories', 'configurations'],
  'every sequence of bounds returned by the tester, trial limit, post-processing, generator kind and parameter layout',
  'Tests run one or two mocked trials.',
  [A + 'privacy_test_runner.py', A + 'generators/vizier_dataset_generator.py', A + 'generators/classification_dataset_generator.py', A + 'generators/pipeline_dp_vizier_dataset_generator.py'],
  [('trial loop', A + 'privacy_test_runner.py'), ('neighbouring datasets from parameters', A + 'generators/*.py')])

p('C27', 'Accountants return well-formed guarantees for every valid history',
  'For every valid history and query, however extreme (tiny or huge noise, thousands of repetitions, extreme sampling rates, delta zero or one, epsilon zero or infinite), both accountants return without error an epsilon in [0, infinity] and a delta in [0, 1], never a NaN. More noise, fewer repetitions or a smaller sampling rate never increase the reported loss beyond numerical error, and the Renyi accountant never reports less than the exact privacy loss.',
  ['inputs', 'histories'],
  'every valid event tree with parameters across their whole range, every query',
  'Tests use moderate parameters; numerical overflow, underflow and domain errors sit at the extremes.',
  [D + 'pld/pld_privacy_accountant.py', D + 'rdp/rdp_privacy_accountant.py', D + 'pld/privacy_loss_distribution.py'],
  [('numerically stable formulas', D + 'rdp/rdp_privacy_accountant.py, ' + D + 'pld/privacy_loss_mechanism.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
  for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
    f.write(json.dumps(x) + '\n')
print(len(P))
