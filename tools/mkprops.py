"""Writes /verif/properties.jsonl (run by hand after editing the list below)."""
import json, os
D = 'python/dp_accounting/dp_accounting/'
C = 'learning/clustering/'
A = 'python/dp_auditorium/dp_auditorium/'
PL = D + 'pld/privacy_loss_distribution.py'
PM = D + 'pld/privacy_loss_mechanism.py'
PP = D + 'pld/pld_pmf.py'
PC = D + 'pld/common.py'
PA = D + 'pld/accountant.py'
PPA = D + 'pld/pld_privacy_accountant.py'
R = D + 'rdp/rdp_privacy_accountant.py'
ACC = D + 'privacy_accountant.py'
EV = D + 'dp_event.py'
EB = D + 'dp_event_builder.py'
CAL = D + 'mechanism_calibration.py'
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                             observe_at=observe, hook_needed=hook)))


p('P01', 'Pessimistic privacy loss distributions never under-report privacy loss',
  'For every supported noise mechanism (Gaussian, Laplace, discrete Laplace, discrete Gaussian, mixture of Gaussians), noise scale, sensitivity, Poisson sampling rate, value discretization interval and discretization algorithm, the pessimistic privacy loss distribution reports, at every epsilon, a delta at least as large as the true hockey-stick divergence of the mechanism in both the add and the remove direction. Likewise the epsilon it reports for a delta is at least the true epsilon. The only slack is floating-point rounding.',
  ['inputs', 'configurations'], 'all mechanism parameters, sampling rates, discretization settings, and all epsilon/delta query points',
  'The tests compare a handful of parameter settings with tabulated values; soundness must hold on the whole continuous parameter space, including tiny sampling rates, losses that fall exactly on grid points and far tails.',
  [PL, PM, PP], [('round privacy losses up / connect-the-dots at grid points', PL), ('tail mass moved to infinity mass', PM), ('fixed-gap and free-gap connect-the-dots construction', PP)],
  ['PrivacyLossDistribution.get_delta_for_epsilon', 'PrivacyLossDistribution.get_epsilon_for_delta'])

p('P02', 'Optimistic estimates never over-report and both estimates stay tight',
  'For every supported noise mechanism and setting, the optimistic privacy loss distribution reports a delta no larger than the true hockey-stick divergence. Both estimates are accurate to the discretization: at epsilon the pessimistic delta is at most the true delta one discretization interval below epsilon, and the optimistic delta at least the true delta one interval above, apart from the configured tail truncation.',
  ['inputs', 'configurations'], 'all mechanism parameters, sampling rates, discretization settings and epsilon query points',
  'Tests check few parameter points against stored values; an error that only loosens or over-tightens estimates in part of the parameter space stays within their tolerances.',
  [PL, PM, PP], [('rounding direction and tail handling per estimate type', PL), ('tail privacy loss bounds', PM)],
  ['PrivacyLossDistribution.get_delta_for_epsilon'])

p('P03', 'Composition of privacy loss distributions is exact up to declared truncation',
  'Composing privacy loss distributions, with one another or with themselves any number of times, yields the distribution of the sum of the independent losses: mass is conserved, the infinite-loss mass combines as one minus the product of the complements, and the resulting delta curve equals that of the convolution. Truncating tails changes the reported delta by at most the order of the requested truncation mass (twice it per operation) and never lowers a pessimistic estimate. This holds whatever internal representation (sparse or dense) the operands have and however large or small they are.',
  ['inputs', 'histories'], 'all finite sequences of compositions of all distributions, all truncation masses',
  'Tests compose a few small hand-written distributions; conversions between representations, FFT paths, tail bounds and infinite mass interact only for particular sizes, counts and masses.',
  [PP, PC, PL], [('convolution and self-convolution with Chernoff tail bounds', PC), ('sparse/dense composition and tail truncation', PP)],
  ['PrivacyLossDistribution.compose', 'PrivacyLossDistribution.self_compose', 'get_delta_for_epsilon'])

p('P04', 'Composition laws: order, grouping, identity and shortcut queries agree',
  'The privacy guarantee of a set of composed privacy loss distributions does not depend on the order or grouping in which they are composed, composing with the identity changes nothing, and self-composition by a count equals repeated composition. Asking for the delta of a composition without materialising it gives the same answer as composing and then asking. Composition and queries never modify their operands.',
  ['inputs', 'histories'], 'all sequences, groupings and counts of compositions and queries',
  'Tests exercise single fixed pairs; they do not vary order, grouping, mixed representations or re-use an operand after composing it.',
  [PP, PL, PC], [('compose / self_compose', PP), ('delta of composed distribution by dot product', PP)],
  ['PrivacyLossDistribution.compose', 'PrivacyLossDistribution.get_delta_for_epsilon_for_composed_pld'])

p('P05', 'Epsilon and delta queries are consistent inverses',
  'For any privacy loss distribution delta is between 0 and 1, non-increasing in epsilon, and equals the explicit sum of positive parts over its losses plus the infinite-loss mass, for single queries and for arrays in ascending order alike (unsorted arrays are rejected). The epsilon reported for a delta is non-negative, non-increasing in delta, achieves that delta and is the smallest such value; it is infinite exactly when the infinite-loss mass exceeds delta.',
  ['inputs'], 'all distributions, all epsilons (negative, zero, huge, on and between grid points), all deltas in [0,1]',
  'Tests query a few values; boundary cases (unsorted or repeated arrays, epsilon on a loss, delta equal to a partial sum or to the infinite mass, very large epsilon) are sampled sparsely.',
  [PP, PL], [('scalar and vectorised delta computation', PP), ('epsilon search over sorted losses', PP)],
  ['PrivacyLossDistribution.get_delta_for_epsilon', 'PrivacyLossDistribution.get_epsilon_for_delta'])

p('P06', 'Distributions built from explicit probabilities or guarantees are faithful',
  'A privacy loss distribution built from two explicit probability mass functions, from randomized response, from a cumulative distribution of privacy losses, from rounded probabilities or from an (epsilon, delta) guarantee dominates (pessimistic) or is dominated by (optimistic) the true delta curve of that object, and is tight to one discretization interval plus the configured truncation. Outcomes possible under only one of the two distributions count as unbounded loss.',
  ['inputs', 'configurations'], 'all finite distribution pairs (including disjoint supports and near-zero masses), all randomized-response parameters and neighbouring relations, all guarantees, all intervals',
  'Tests use two- or three-point distributions; the oracle must hold for arbitrary supports, truncations, and losses that fall on the grid.',
  [PL, PP], [('rounding of per-outcome losses', PL), ('connect-the-dots from deltas', PP)],
  ['from_two_probability_mass_functions', 'from_randomized_response', 'create_from_cdf', 'from_privacy_parameters'])

p('P07', 'More noise or less sampling never costs more; rescaling changes nothing',
  'For every mechanism and both accounting methods, increasing the noise, decreasing the sensitivity or decreasing the sampling rate never increases the reported privacy loss beyond discretization error. Multiplying noise scale and sensitivity by the same factor leaves the reported guarantee unchanged, and a sampling rate of one is the same as no sampling.',
  ['inputs', 'configurations'], 'all pairs of ordered parameters and all scale factors',
  'It is a relation between two executions over a continuous parameter space; no test compares them systematically.',
  [PL, PM, R], [('mechanism parametrisation by noise and sensitivity', PM), ('subsampled divergence', R)],
  ['get_delta_for_epsilon', 'get_epsilon'])

p('P08', 'Additive-noise privacy-loss models are coherent with their distributions',
  'For every additive-noise mechanism and adjacency direction, the privacy loss at an outcome equals the log ratio of the two output densities, is non-increasing in the outcome, and the inverse loss returns the boundary outcome of the set where the loss is at least the given value. The delta computed by the mechanism equals the exact hockey-stick divergence, and the noise parameters computed from a target guarantee satisfy it without being noticeably larger than necessary.',
  ['inputs', 'configurations'], 'all mechanisms, sensitivities (integer or not as applicable), sampling rates, adjacency directions, outcomes and loss values',
  'Tests pin values at a few outcomes; coherence between loss, inverse loss, tail bounds and delta must hold everywhere including the far tails.',
  [PM], [('privacy loss and its inverse', PM), ('noise calibration from a guarantee', PM)],
  ['privacy_loss', 'inverse_privacy_loss', 'get_delta_for_epsilon', 'from_privacy_guarantee'])

p('P09', 'Renyi accounting never under-reports the Renyi divergence of a mechanism',
  'For Gaussian, Laplace, randomized response and Poisson-sampled (possibly nested composed) Gaussian mechanisms, and for every order, the Renyi value added by the accountant is at least the true Renyi divergence of the worst neighbouring pair. It equals that divergence up to floating-point error, except that for fractional orders of sampled Gaussians a bounded over-estimate (or infinity, excluding the order) may be reported. Compositions add exactly, so no component, count or nesting level is ever dropped.',
  ['inputs', 'histories', 'configurations'], 'all noise multipliers (any numeric type), sampling rates, orders (integer and fractional), nested event structures and counts',
  'Tests check selected orders and parameters against stored values; the series expansions switch regimes over the continuous parameter space.',
  [R], [('log-moment series for integer and fractional orders', R), ('effective noise multiplier of nested events', R)],
  ['RdpAccountant.rdp', 'RdpAccountant.compose'])

p('P10', 'Renyi bounds for compound mechanisms dominate the exact mechanism',
  'For sampling without replacement, tree aggregation and repeat-and-select events, the Renyi value reported at every order is at least the divergence of the actual randomised procedure that the event describes, computed exactly on concrete base mechanisms. The value also never exceeds the documented bound for that event.',
  ['inputs', 'configurations'], 'all sample fractions, step-count lists, repetition distributions (mean, shape), base mechanisms and orders',
  'Tests compare with re-derived formulas at a few points; only executing the described procedure exposes a bound that is too small.',
  [R], [('sampling-without-replacement bound', R), ('tree depth from step counts', R), ('repeat-and-select bound', R)],
  ['RdpAccountant.rdp'])

p('P11', 'Conversion from Renyi curves to (epsilon, delta) is sound and best over orders',
  'The epsilon (or delta) reported from a Renyi curve is a guarantee that every pair of distributions with that Renyi curve satisfies, and it is the best value over all tracked orders of the documented conversion. Values stay within range (epsilon non-negative, delta at most one), the reported optimal order is a tracked order attaining the value, and converting to epsilon and back never exceeds the original delta.',
  ['inputs'], 'all order lists, all non-negative Renyi curves, all epsilons and deltas',
  'Tests use Gaussian-like curves and a few targets; soundness is universally quantified over curves and mechanisms.',
  [R], [('compute_epsilon / compute_delta', R)],
  ['compute_epsilon', 'compute_delta', 'RdpAccountant.get_epsilon'])

p('P12', 'Accountants depend only on the multiset of composed events',
  'For every privacy accountant, the reported guarantee depends only on the multiset of primitive events composed, not on their order or on how they were wrapped: composing an event with a count equals composing it that many times, composing a self-composed event, or composing nested lists of it. Events without privacy cost change nothing.',
  ['histories'], 'all finite event histories, all re-groupings into nested composed and self-composed events, all counts',
  'The guarantee is over all histories and their re-groupings; tests compose one event type at a time with a few counts.',
  [PPA, R, ACC], [('recursive event traversal with count multiplication', PPA), ('recursive event traversal with count multiplication', R)],
  ['PrivacyAccountant.compose', 'get_epsilon', 'get_delta'])

p('P13', 'The ledger and event builder record every composed event exactly',
  'After any history of compositions, the ledger of an accountant (and the event produced by an event builder) contains exactly the events composed with their counts, no more and no fewer, so replaying it into a fresh accountant of the same kind yields the same guarantee. Reading the ledger or building an event never changes it, later compositions never alter an already returned event, and separate accountants or builders never share records.',
  ['histories'], 'all histories of compose, build and ledger calls, including repeated equal events, nested events and no-op events',
  'Tests build two or three events; the record must be right after every prefix of every history and be isolated from aliasing.',
  [EB, ACC, EV], [('run-length list of (event, count)', EB), ('ledger builder in accountant', ACC)],
  ['PrivacyAccountant.ledger', 'DpEventBuilder.build'])

p('P14', 'Unsupported or invalid events are rejected before any state changes',
  'An accountant accepts exactly the events it says it supports: if an event or any part of it is unsupported for the configured neighbouring relation, or the count is invalid, composing it raises an error and leaves ledger and guarantee untouched. Asking whether an event is supported never changes state. A non-private event, or a mechanism with zero noise, makes epsilon infinite for every delta below one.',
  ['histories', 'inputs', 'configurations'], 'all event trees including unsupported leaves at any position, all neighbouring relations, all counts, after any prior history',
  'Tests reject a few flat events on fresh accountants; atomicity must hold at every position in a nested event and after any history.',
  [ACC, PPA, R], [('dry-run traversal before composing', ACC), ('relation checks per event', R)],
  ['PrivacyAccountant.supports', 'PrivacyAccountant.compose'])

p('P15', 'Privacy spent never decreases and queries have no side effects',
  'Composing further events never decreases the reported epsilon at any delta or the delta at any epsilon. Querying an accountant in any interleaving, or operating on another accountant, never changes what it reports, and returned arrays can be modified by the caller without affecting the accountant.',
  ['histories'], 'all interleavings of compose and query operations over several accountants',
  'It is a property of histories; tests query once at the end.',
  [ACC, PPA, R, PP], [('immutable composition results', PP), ('copies returned from properties', R)],
  ['get_epsilon', 'get_delta', 'rdp', 'orders', 'ledger'])

p('P16', 'Accountants never report less than the true loss of a whole history',
  'For any history of supported events, the epsilon each accountant reports is at least the true optimal epsilon of the composed mechanism and the delta at least its true delta. The numerical (privacy loss distribution) accountant stays close to the truth, and the Renyi accountant never reports less than it.',
  ['histories', 'configurations'], 'all mixed histories of Gaussian, Laplace, sampled, mixture and randomized-response events with counts, under every neighbouring relation',
  'End-to-end truth for heterogeneous histories is not tabulated in any test; a dropped count or component only shows in mixed histories.',
  [PPA, R, PL], [('per-event composition', PPA), ('per-event composition', R)],
  ['PLDAccountant.get_epsilon', 'RdpAccountant.get_epsilon'])

p('P17', 'Event serialization round-trips',
  'Converting any event tree to its named-tuple form and back yields an equal event of the same type with equal fields at every level, and the form survives generic structure mapping of its leaves. Distinct events have distinct forms; malformed forms are rejected rather than mapped to a different event.',
  ['inputs'], 'all event trees of all event classes, arbitrary nesting and field values',
  'Tests round-trip a fixed list of small events.',
  [EV], [('to_named_tuple / from_named_tuple', EV)],
  ['DpEvent.to_named_tuple', 'DpEvent.from_named_tuple'])

p('P18', 'Calibration returns a parameter that meets the privacy target',
  'For any monotone mechanism family, accountant, target and bracket, calibration returns a parameter whose composed event satisfies epsilon at most the target at the target delta, and (for a bracket or guess that contains a solution) within the tolerance of the boundary, integer-valued for discrete parameters. When no acceptable value exists in the search range it raises instead of returning a value that misses the target, and it never reuses accountants between evaluations.',
  ['inputs', 'configurations'], 'all mechanism families (increasing or decreasing), targets, brackets or initial guesses, tolerances and discreteness',
  'Tests calibrate a few mechanisms; the guarantee must hold for every family, direction and bracket.',
  [CAL], [('bracket search', CAL), ('bisection keeping the private endpoint', CAL)],
  ['calibrate_dp_mechanism'])

p('P19', 'Smallest-noise helpers return private, near-minimal parameters',
  'For every target guarantee, number of queries, sensitivity and sampling rate, the smallest-noise helpers for Laplace, discrete Laplace, Gaussian and subsampled Gaussian mechanisms return a parameter for which the composed mechanism satisfies the target, and a noticeably smaller noise does not. The generic monotone-inverse search returns a point within tolerance of the boundary on the safe side, and reports absence when no solution lies in the range.',
  ['inputs'], 'all (epsilon, delta) targets, query counts, sensitivities, sampling rates, search bounds, monotone functions',
  'Tests check several tabulated parameters with loose tolerance.',
  [PA, PC], [('binary search over noise', PC), ('helpers per mechanism', PA)],
  ['get_smallest_laplace_noise', 'get_smallest_gaussian_noise', 'get_smallest_subsampled_gaussian_noise', 'inverse_monotone_function'])

p('P20', 'Advanced composition equals the exact optimal composition of DP guarantees',
  'The delta reported for k-fold composition of an (epsilon, delta) guarantee is the exact optimal-composition value at every achievable total epsilon, and reports no guarantee where none exists. The smallest total epsilon reported for a total delta achieves that delta and no smaller listed value does.',
  ['inputs'], 'all per-query guarantees, numbers of queries, total epsilons and deltas',
  'Tests compare few parameter points.',
  [PA], [('Kairouz-Oh-Viswanath formula', PA)],
  ['advanced_composition', 'get_smallest_epsilon_from_advanced_composition'])

p('P21', 'Clustering spends no more privacy than its budget',
  'For every privacy parameter, budget split, tree depth and data set, the noise actually added in a clustering run (Gaussian noise on sums, discrete Laplace noise on counts at every level) composes to at most the requested (epsilon, delta) under an independent accountant. Noise scales match the declared parameters relative to the radius the data is clipped to.',
  ['inputs', 'configurations', 'histories'], 'all privacy parameters, multipliers, depths, radii and data sets; every noise draw of a run',
  'Tests check the calculator on a few settings with mocked parts; nobody observes the noise of real runs.',
  [C + 'privacy_calculator.py', C + 'clustering_params.py', C + 'central_privacy_utils.py', C + 'clustering_algorithm.py'],
  [('calibrated budget split', C + 'privacy_calculator.py'), ('noise primitives', C + 'central_privacy_utils.py')],
  ['PrivacyCalculator', 'get_private_count', 'get_private_average', 'private_lsh_clustering'])

p('P22', 'Every clustering data point influences a bounded set of noised queries',
  'In every clustering run each data point, after being clipped to the radius, contributes to at most one released average and to at most one released count per tree level, because sibling nodes partition their parent and leaves are disjoint and cover exactly the points not dropped by pruning. A node is only split, kept or pruned because of its noised count compared with the thresholds and depth, and that count is released once per node.',
  ['inputs', 'configurations', 'histories'], 'all data sets (duplicates, points outside the radius, empty hash buckets), thresholds, depths, hash functions and noise outcomes',
  'Tests check fixed trees with mocked counts; bounded exposure must hold for every tree the noise and hashing can produce.',
  [C + 'lsh_tree.py', C + 'lsh.py', C + 'clustering_params.py', C + 'clustering_algorithm.py'],
  [('group by next hash bit', C + 'lsh.py'), ('threshold filters', C + 'lsh_tree.py'), ('radius clipping', C + 'clustering_params.py')],
  ['LshTree.leaves', 'LshTreeNode.children', 'get_private_coreset'])

p('P23', 'Private sums and counts carry exactly the declared noise',
  'A released count is the true count plus discrete Laplace noise of the declared parameter and a released average is the sum of the points plus independent Gaussian noise of the declared standard deviation in every coordinate, divided by the released count. Fresh independent noise is drawn for every release, whatever the data; with noise disabled the exact values are returned.',
  ['inputs', 'histories'], 'all counts, dimensions, parameters, and sequences of releases',
  'Distributional claims over all outcomes; tests check means with mocks.',
  [C + 'central_privacy_utils.py', C + 'lsh_tree.py'], [('get_private_count / get_private_average', C + 'central_privacy_utils.py')],
  ['get_private_count', 'get_private_average'])

p('P24', 'Clustering results are faithful post-processing of the private core-set',
  'The core-set handed to the final clustering step consists of exactly the released leaf averages weighted by the released counts; centers are computed only from it, with at most as many centers as core-set points. Each data point is labelled with its nearest center, the loss is the sum of squared distances, and the reported label-agreement metrics equal their definition over all pairs.',
  ['inputs', 'configurations'], 'all data sets, labelings, center sets and tree outcomes',
  'Tests use a few tiny matrices; the module that assembles results is excluded from the runnable tests here.',
  [C + 'clustering_algorithm.py', C + 'private_outputs.py'], [('private_lsh_clustering', C + 'clustering_algorithm.py'), ('ClusteringMetrics', C + 'clustering_algorithm.py')],
  ['private_lsh_clustering', 'ClusteringResult', 'ClusteringMetrics'])

p('P25', 'Audited example mechanisms release exactly what they declare',
  'The example mechanisms of the auditing library draw outputs with exactly the distribution of the algorithm they declare: the noisy-max mechanism follows the exponential mechanism, the mean mechanism adds the calibrated noise to clipped data, and each sparse-vector variant uses its declared noise scales, answers at most the allowed number of positive queries and gives no response afterwards. The variants declared private satisfy their epsilon on all neighbouring data sets.',
  ['inputs', 'configurations', 'histories'], 'all data sets, epsilons, thresholds, query counts and random streams',
  'The existing tests of this package cannot even run here and check averages only.',
  [A + 'mechanisms/mean.py', A + 'mechanisms/noisy_max.py', A + 'mechanisms/sparse_vector_technique.py'],
  [('noise scales and abort counter', A + 'mechanisms/sparse_vector_technique.py')],
  ['MeanMechanism.__call__', 'NoisyMaxMechanism.__call__', 'AbstractSVTMechanism.__call__'])

p('P26', 'Privacy testers report a violation only with statistical evidence',
  'A tester lower bound exceeds the true divergence of the two sampled distributions with at most the configured failure probability, so a private mechanism is rejected no more often than that, while gross violations are detected given enough samples. The bound never exceeds the plug-in estimate of the held-out samples, training and held-out samples are disjoint, samples of different sizes are handled soundly, and invalid properties, samples and training settings are refused.',
  ['inputs', 'configurations', 'histories'], 'all sample pairs, sample sizes, failure probabilities, epsilons and deltas',
  'A probabilistic guarantee over all sample draws; the existing tests cannot run here.',
  [A + 'testers/histogram_tester.py', A + 'testers/mmd_tester.py', A + 'testers/hockey_stick_tester.py', A + 'testers/renyi_tester.py', A + 'testers/divergence_tester.py'],
  [('error tolerance terms', A + 'testers/histogram_tester.py'), ('train/test split', A + 'testers/property_tester_utils.py')],
  ['estimate_lower_bound', 'reject_property'])

p('P27', 'The privacy test runner tests both directions and reports faithfully',
  'In every run the runner evaluates the tester in both directions on samples from both neighbouring data sets, feeds the last estimate to the data set generator, stops at the first rejected trial or at the trial limit, and its results contain exactly the estimates of the trials performed. It reports a violation if and only if the tester rejected one of them.',
  ['histories', 'configurations'], 'all sequences of tester answers, generators, mechanisms and post-processing choices',
  'Protocol over histories; existing tests cannot run here and mock single trials.',
  [A + 'privacy_test_runner.py'], [('trial loop', A + 'privacy_test_runner.py')],
  ['PrivacyTestRunner.test_privacy'])

p('P28', 'Audit data set generators give neighbours and feed back every result',
  'Every pair returned by the optimiser-driven data set generators holds exactly the values of the current suggestion and consists of neighbouring data sets under add/remove of one record (or, for aggregation data, of all records of one privacy unit). Each reported result, whatever its value, completes exactly the trial whose data sets produced it and exactly once, before a new suggestion is requested; without a result no trial is completed. The aggregation wrapper spends a fresh budget equal to the tested guarantee for each sample and returns all metrics.',
  ['histories', 'configurations'], 'all configurations, suggestion sequences and result histories',
  'Protocol over histories with an external optimiser; existing tests cannot run here and cover single calls.',
  [A + 'generators/vizier_dataset_generator.py', A + 'generators/classification_dataset_generator.py', A + 'generators/pipeline_dp_vizier_dataset_generator.py', A + 'mechanisms/pipeline_dp/aggregation.py'],
  [('trial completion and loading', A + 'generators/vizier_dataset_generator.py')],
  ['VizierDatasetGenerator.__call__', 'AggregationMechanism.__call__'])

p('P29', 'Invalid parameters and targets are never answered with a privacy guarantee',
  'Mechanism parameters outside their documented domain (noise scale, sensitivity, sampling probability, randomized-response probability and bucket number, repetition parameters, mixture weights, tree steps, sample sizes, numbers of self-compositions, orders, discretization intervals, epsilon and delta, NaN in any of them), wherever they occur in an event and after any composition history, raise an error or give a vacuous answer (infinite epsilon, delta of one, NaN, infinite noise) and never a finite privacy guarantee. The same holds for invalid query targets and for the parameters of the clustering and auditing libraries; valid boundary values are accepted and mean what they say.',
  ['inputs', 'configurations', 'histories'], 'all parameter values of every entry point, valid or not, including NaN, infinities and values just outside the domain, at every position of an event tree and after every history',
  'Tests probe one or two rejected values per constructor; comparisons that NaN or infinity passes, and validation lost on one path, need generated inputs.',
  [ACC, PPA, R, PP, EB, C + 'central_privacy_utils.py', A + 'testers/property_tester_utils.py'],
  [('parameter validation of mechanisms', PM), ('validation of event parameters', R)],
  ['PrivacyAccountant.compose', 'AdditiveNoisePrivacyLoss', 'DifferentialPrivacyParameters'])

GN, GD, GR, GC = 'go/noise/', 'go/dpagg/', 'go/rand/', 'go/checks/'
p('P30', 'Noise of the Go library is independent, calibrated and on its grid',
  'Every value noised by the Go library carries fresh independent noise that does not depend on the value: Laplace noise of scale L1 sensitivity over epsilon (a two-sided geometric variable on a power-of-two granularity), or Gaussian noise whose standard deviation is the smallest one meeting (epsilon, delta) for the L2 sensitivity, up to the documented accuracy. Floating-point results lie on the granularity of the noise, integer results are integers, and sensitivities are combined as documented. Invalid or overflowing parameters are refused; no accepted parameters give less noise than they ask for, and no call hangs.',
  ['inputs', 'configurations'], 'all values, sensitivities and budgets of both noise types, floating-point and integer, including extremes',
  'A distributional claim at every parameter; the Go tests check moments for a dozen settings, and the build of this repository does not run them.',
  [GN + 'laplace_noise.go', GN + 'gaussian_noise.go', GN + 'noise.go', GN + 'secure_noise_math.go', GC + 'checks.go'],
  [('granularity and two-sided geometric sampling', GN + 'laplace_noise.go'), ('binomial sampler and SigmaForGaussian', GN + 'gaussian_noise.go')],
  ['Noise.AddNoiseInt64', 'Noise.AddNoiseFloat64', 'SigmaForGaussian'])

p('P31', 'Thresholds and confidence intervals of the Go library keep their promise',
  'A threshold returned for a budget and threshold delta lets a partition of a single privacy unit through with probability at most the threshold delta, over all partitions the unit contributes to, and the delta returned for a threshold is that probability. A confidence interval contains the value without noise with probability at least one minus alpha and is not needlessly wide; intervals of aggregations use exactly the noise of the result and respect the range of the result. Thresholded results are released if and only if the noised count reaches the threshold, and, with a pre-threshold, never for fewer privacy units than the pre-threshold.',
  ['inputs', 'configurations'], 'all noise types, sensitivities, budgets, deltas, levels and noised values',
  'Tail statements over the whole parameter space; tests compare tabulated values.',
  [GN + 'laplace_noise.go', GN + 'gaussian_noise.go', GD + 'count.go', GD + 'sum.go', GD + 'mean.go'],
  [('Threshold / DeltaForThreshold / ComputeConfidenceInterval', GN), ('ThresholdedResult / PreThresholdedResult', GD + 'count.go')],
  ['Noise.Threshold', 'Noise.ComputeConfidenceIntervalFloat64', 'Count.ThresholdedResult', 'Count.PreThresholdedResult'])

p('P32', 'Aggregations of the Go library bound sensitivity and spend only their budget',
  'Counts, bounded sums, means, variances, standard deviations and quantiles clamp every entry to the bounds, ignore NaN, and noise exactly the documented statistics with sensitivities at least as large as the change one privacy unit can make, within their contribution limits; the budgets of all noise they ask for add up to no more than the budget they were given. Without noise their result is the exact statistic of the clamped entries, within the range they state; quantiles are interpolated within a leaf of their tree and monotone in the rank. Results depend on the data only through noised values. Options outside of their domain are refused with an error, valid ones are accepted, and no call hangs or crashes.',
  ['inputs', 'configurations'], 'all options, bounds, budgets, entries and ranks',
  'Sensitivity and budget are promises about every input; tests check single instances with stubbed noise.',
  [GD + 'count.go', GD + 'sum.go', GD + 'mean.go', GD + 'variance.go', GD + 'standard_deviation.go', GD + 'quantiles.go', GC + 'checks.go'],
  [('sensitivity of the bounded sum and normalized sums', GD + 'sum.go'), ('budget split', GD + 'mean.go'), ('quantile tree', GD + 'quantiles.go')],
  ['Count.Result', 'BoundedSumFloat64.Result', 'BoundedMean.Result', 'BoundedVariance.Result', 'BoundedQuantiles.Result'])

p('P33', 'Partition selection of the Go library keeps partitions exactly as allowed',
  'A partition is never kept without privacy units or below the pre-threshold, and with probability at most delta (per contributed partition) for a single privacy unit. With up to three partitions per privacy unit the probability of keeping it follows exactly the documented recursion: it grows with each further privacy unit as far as the epsilon and delta of a single partition permit, until it is one. With more, a partition is kept if and only if its Gaussian-noised count reaches the threshold. The hard threshold is a number of privacy units from which a partition is kept for certain up to rounding. Invalid options are refused.',
  ['inputs', 'configurations'], 'all epsilons, deltas, contribution limits, pre-thresholds and numbers of privacy units',
  'The law has three regimes whose borders depend on all options; tests use a few settings and large tolerances.',
  [GD + 'select_partition.go'], [('keepPartitionProbability', GD + 'select_partition.go')],
  ['PreAggSelectPartition.ShouldKeepPartition', 'PreAggSelectPartition.GetHardThreshold'])

p('P34', 'Go aggregations are used once, and merging or encoding loses nothing',
  'An aggregation or partition selection returns a result at most once; after a result, after having been merged into another or after being serialized it refuses every further entry, merge, result and serialization. Merging two compatible aggregations, or encoding and decoding one, gives the result, noise requests and confidence intervals of all entries contributed to either; incompatible ones are refused and left usable. Confidence intervals and threshold results follow the same protocol.',
  ['histories'], 'all sequences of additions, merges, encodings and results over any number of aggregations',
  'Protocol over histories; tests check single transitions.',
  [GD + 'aggregation_state.go', GD + 'count.go', GD + 'sum.go', GD + 'mean.go', GD + 'variance.go', GD + 'quantiles.go', GD + 'select_partition.go'],
  [('state transitions', GD + 'aggregation_state.go'), ('Merge and GobEncode of each aggregation', GD)],
  ['Merge', 'GobEncode', 'GobDecode', 'Result'])

p('P35', 'Randomness of the Go library is unbiased, thread-safe and fails loudly',
  'Every bit and byte, bounded integer, uniform number, geometric, normal and Boolean value drawn by the Go library has exactly its law and is independent of the others, however the source of randomness splits what it delivers. Under concurrent use nothing is handed out twice, and there is no data race. When the source of randomness fails the library stops instead of returning predictable values.',
  ['inputs', 'schedules', 'crash_points'], 'all bounds, all streams and chunkings of the source, all interleavings of goroutines, a failure of the source at any read',
  'Tests sample moments on one goroutine with a source that never fails or reads short.',
  [GR + 'rand.go', GN + 'gaussian_noise.go'], [('buffered reads of the random source', GR + 'rand.go')],
  ['rand.U64', 'rand.I63n', 'rand.Uniform', 'rand.Boolean'],
  [('random byte buffer', 'bytes not handed out yet', GR + 'rand.go')])

CA = 'cc/algorithms/'
p('P36', 'Noise of the C++ library is calibrated, on its grid, and fails loudly',
  'Laplace and Gaussian mechanisms built from epsilon, delta and sensitivities (or a standard deviation) draw noise of exactly the scale those parameters need, no less and not noticeably more, independent from draw to draw and of the value; results are the value rounded to the granularity of the mechanism plus a multiple of it. Variance, Cdf, Quantile, noised-value probabilities and confidence intervals agree with the noise drawn at every level; a serialized mechanism reads back as the same; the minimum-variance builder takes the better mechanism. Invalid parameters are refused, valid ones accepted. Random bits from the source are handed out once, also to concurrent threads, and noise stops when the source fails. No undefined behaviour or memory error occurs.',
  ['inputs', 'configurations', 'schedules', 'crash_points'], 'all parameters, values, levels, random streams, threads, and failures of the random source',
  'Laws of distributions over all parameters, races and memory errors: tests check moments and single values with loose bounds.',
  [CA + 'numerical-mechanisms.h', CA + 'numerical-mechanisms.cc', CA + 'distributions.cc', CA + 'rand.cc', CA + 'internal/gaussian-stddev-calculator.cc'],
  [('secure snapping to the granularity', CA + 'distributions.cc'), ('search for the standard deviation', CA + 'internal/gaussian-stddev-calculator.cc'), ('buffer of random bytes', CA + 'rand.cc')],
  ['NumericalMechanism::AddNoise', 'NoiseConfidenceInterval', 'GetVariance', 'Cdf', 'Quantile', 'SecureURBG::operator()'],
  [('random byte buffer', 'bytes not handed out yet', CA + 'rand.h')])

p('P37', 'Aggregations of the C++ library bound sensitivity and spend only their budget',
  'Counts, bounded sums, means, variances and standard deviations, with bounds given or found automatically, clamp every entry to the bounds, ignore NaN, and add to each statistic noise made for at least the change one user can cause within the contribution limits; the budgets of all noise (with that of the bounds) add up to no more than the budget given. The result depends on the data only through noised values. Without noise it is the exact statistic of the clamped entries, always within the range the bounds allow, with the confidence interval of the noise. A result is given once, until Reset; summaries of parts merge to the result of the whole, and unsuitable ones are refused. Invalid options are refused, valid ones accepted. No undefined behaviour or memory error occurs.',
  ['inputs', 'configurations', 'histories'], 'all options, bounds, budgets, entries, neighbouring data sets and splits into parts',
  'Sensitivity and budget are promises about every input; tests check single instances with stubbed noise.',
  [CA + 'algorithm.h', CA + 'count.h', CA + 'bounded-sum.h', CA + 'bounded-mean.h', CA + 'bounded-variance.h', CA + 'bounded-standard-deviation.h', CA + 'internal/clamped-calculation-without-bounds.h', CA + 'internal/bounded-mean-ci.cc'],
  [('budget split and sensitivities', CA + 'bounded-mean.h'), ('partial values per bin', CA + 'internal/clamped-calculation-without-bounds.h'), ('midpoint normalization', CA + 'bounded-variance.h')],
  ['Algorithm::PartialResult', 'Algorithm::Serialize', 'Algorithm::Merge', 'Algorithm::Reset'])

p('P38', 'Quantiles and automatic bounds of the C++ library are private and accurate',
  'Quantile trees, quantile aggregations, order statistics and automatic bounds noise every count they use once, with noise made for at least the change one user can cause in all of them and budgets that add up to no more than the budget given; with equal noised counts they answer the same for all data. Quantiles lie within the bounds, grow with the rank, do not change with the questions asked before, lie within their confidence intervals, and without noise are those of the data interpolated within a leaf. Automatic bounds cover the data when noise is negligible and are found only when counts pass the threshold. Parts merge to the whole and unsuitable summaries are refused. Invalid options and ranks are refused. No undefined behaviour or memory error occurs.',
  ['inputs', 'configurations', 'histories'], 'all options, entries, neighbouring data sets, ranks, orders of questions and splits into parts',
  'A relation over all data sets and questions; tests use a few small trees and fixed seeds.',
  [CA + 'quantile-tree.h', CA + 'internal/count-tree.cc', CA + 'quantiles.h', CA + 'binary-search.h', CA + 'order-statistics.h', CA + 'approx-bounds.h', CA + 'approx-bounds-as-bounds-provider.h'],
  [('noised counts kept per node', CA + 'quantile-tree.h'), ('threshold and bins', CA + 'approx-bounds.h'), ('noisy binary search', CA + 'binary-search.h')],
  ['QuantileTree::Privatized::GetQuantile', 'ComputeNoiseConfidenceInterval', 'Quantiles::PartialResult', 'OrderStatistic::PartialResult', 'ApproxBounds::PartialResult'])

p('P39', 'Partition selection of the C++ library keeps partitions exactly as allowed',
  'A partition is never kept without users or below the pre-threshold, and with probability at most delta (per contributed partition) for a single user. The near-truncated-geometric strategy keeps it with exactly the documented probability for every number of users; the Laplace and Gaussian strategies keep it exactly if the noised number of users reaches a threshold that meets delta, and a value they release is never below it. Probabilities, thresholds and the delta computed from a threshold agree with each other and never fall with more users. Invalid options are refused, valid ones accepted. No undefined behaviour or memory error occurs.',
  ['inputs', 'configurations'], 'all strategies, epsilons, deltas, contribution limits, pre-thresholds and numbers of users',
  'The laws have regimes whose borders depend on all options; tests use a few settings and large tolerances.',
  [CA + 'partition-selection.h'], [('ProbabilityOfKeep, CalculateThreshold', CA + 'partition-selection.h')],
  ['PartitionSelectionStrategy::ShouldKeep', 'ProbabilityOfKeep', 'NoiseValueIfShouldKeep'])

if __name__ == '__main__':
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
      assert len(x['title']) <= 80, (x['id'], len(x['title']))
      f.write(json.dumps(x) + '\n')
  print(len(P))
