"""Writes tools/techniques.json."""
import json, os
RM = 'runtime monitoring of real executions: '
T = {
'P01': (RM + 'every delta/epsilon reported for randomly and adversarially parameterised mechanisms is judged by an independent 40-digit hockey-stick oracle, per adjacency direction', 'sampled executions; float64 slack 1e-9 relative + 4e-13'),
'P02': (RM + 'one-sided and one-interval tightness monitors against an independent 40-digit hockey-stick oracle', 'sampled executions; float64 slack plus configured truncation'),
'P03': (RM + 'random composition histories replayed in long-double direct convolution; conservation and truncation monitors on every answer and on the convolution helpers', 'sampled histories; slack 2e-14 per composition'),
'P04': (RM + 'metamorphic monitors (commutativity, grouping, identity, power, shortcut query, operand immutability) over random operand pools', 'sampled histories'),
'P05': (RM + 'every scalar/array delta and every epsilon is judged against the explicit long-double sum over losses', 'sampled distributions and queries'),
'P06': (RM + 'constructed distributions are judged against exact divergences of the object they were built from, both directions and both estimates, malformed input must be rejected', 'sampled objects'),
'P07': (RM + 'relational monitors over pairs of executions with ordered or rescaled parameters', 'sampled pairs; one-interval discretization allowance'),
'P08': (RM + 'loss, inverse loss, delta and calibrated noise are judged against independent density and divergence oracles', 'sampled parameters and outcomes'),
'P09': (RM + 'every Renyi value is judged by independent high-precision integration of the mixture densities; additivity monitor over nested histories', 'sampled parameters, orders and event trees'),
'P10': (RM + 'reported Renyi values are judged against the exact divergence of the described randomised procedure on concrete base mechanisms, and against an independent bound', 'sampled base mechanisms; lower bound by concrete witnesses, upper bound by re-derived formula'),
'P11': (RM + 'conversion results are judged against an independent implementation of the documented conversion and against true mechanisms with that curve', 'sampled curves'),
'P12': (RM + 'metamorphic monitor: random re-groupings of the same event multiset must report the same guarantee', 'sampled histories'),
'P13': (RM + 'online reference-model monitor (list of events) over random compose/build/ledger histories, with aliasing probes and replay into fresh accountants', 'sampled histories'),
'P14': (RM + 'fault-injection histories: unsupported or invalid leaves at every position, state snapshot compared before and after', 'sampled event trees'),
'P15': (RM + 'monotonicity and no-side-effect monitors over random interleavings of composes and queries on several accountants', 'sampled interleavings'),
'P16': (RM + 'whole-history differential oracle: independent bracket accountant (certified lower and upper delta curves) and closed forms', 'sampled histories'),
'P17': (RM + 'round-trip and injectivity monitors over random event trees', 'sampled trees'),
'P18': (RM + 'calibration runs on instrumented mechanism families; the monitor records every evaluation and judges the returned parameter', 'sampled families and brackets'),
'P19': (RM + 'returned parameters are judged by independent composed-divergence oracles; instrumented monotone functions for the search', 'sampled targets'),
'P20': (RM + 'reported values are judged by an exact enumeration of the optimal composition in high precision', 'sampled guarantees'),
'P21': (RM + 'instrumented noise primitives: every noise draw of real clustering runs is logged and its total cost judged by an independent accountant', 'sampled runs; statistical scale tests at p < 1e-9'),
'P22': (RM + 'structural monitors over the trees of real runs (partition, thresholds, exposure) against an independent traversal', 'sampled runs'),
'P23': (RM + 'distributional monitors (goodness of fit, independence, freshness) over seeded noise streams', 'sampled draws; false alarm probability below 1e-9 per test'),
'P24': (RM + 'conservation and post-processing monitors over real clustering runs with recorded releases', 'sampled runs; final k-means replaced by a recording stand-in'),
'P25': (RM + 'goodness-of-fit monitors against exactly computed output distributions, law-free likelihood-ratio monitors on neighbouring data sets, answer-count monitors', 'sampled data sets; false alarm probability below 1e-10 per test'),
'P26': (RM + 'every lower bound is judged against a reference bound computed from the recorded samples; coverage monitors over repeated runs against exact divergences; train/test disjointness observed through recording stand-in models', 'sampled pairs; binomial tail thresholds below 1e-9; tensorflow models replaced by stand-ins'),
'P27': (RM + 'protocol monitor over recorded runner histories with scripted testers and generators', 'sampled scripts'),
'P28': (RM + 'trace monitor over the recorded suggestion/completion log of a stand-in optimiser, neighbour monitor on every returned pair', 'sampled histories; vizier and pipeline_dp replaced by recording stand-ins'),
'P29': (RM + 'every use of an invalid parameter or target is observed and its outcome judged: error or vacuous answer, never a finite guarantee', 'sampled invalid values at every position of event trees, constructors, helpers and queries'),
'P30': (RM + 'the Go library built from the working tree over a seeded source of randomness; every batch of draws is judged by exact laws (Kolmogorov-Smirnov), grid and freshness monitors, calibration by an independent tail oracle', 'sampled parameters; false alarm probability below 1e-12 per batch'),
'P31': (RM + 'every threshold, delta and interval judged against closed-form tails; releases compared with the recorded noised count', 'sampled parameters'),
'P32': (RM + 'a recording noise plugged into the public Noise interface observes what each aggregation noises and with which budget and sensitivity, judged by a reference aggregation and neighbouring inputs', 'sampled options and entries'),
'P33': (RM + 'decisions at chosen random numbers and decision frequencies judged by the documented recursion evaluated without cancellation', 'sampled options'),
'P34': (RM + 'reference-model monitor over random histories of add, merge, encode, decode and result operations', 'sampled histories'),
'P35': (RM + 'Go race detector plus law, no-duplicate, short-read and fault-injection monitors over the random source, on one and eight goroutines', 'sampled streams and schedules'),
'P36': (RM + 'the C++ library built from the working tree under AddressSanitizer and UndefinedBehaviorSanitizer over a seeded source of random bytes; draws judged by exact laws, grid, freshness and coupled-randomness monitors, concurrent draws by a no-duplicate monitor, the failing source by fault injection', 'sampled parameters and schedules; false alarm probability below 1e-11 per test'),
'P37': (RM + 'recording mechanisms plugged into the public builders, under address and undefined-behaviour sanitizers: everything noised on neighbouring inputs, its budget and sensitivity, and results for equal noised values judged by a reference aggregation', 'sampled options, entries and merges'),
'P38': (RM + 'recording mechanisms under address and undefined-behaviour sanitizers; counts noised on neighbouring inputs, answers for equal noised counts, and answers without noise judged by a reference tree; order-of-questions monitor', 'sampled options, entries and questions'),
'P39': (RM + 'decision frequencies, probabilities and thresholds judged by the documented recursion and closed-form tails in long double, under address and undefined-behaviour sanitizers', 'sampled options; false alarm probability below 1e-11 per test'),
}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({k: dict(technique=a, note=b) for k, (a, b) in T.items()}, open(os.path.join(V, 'tools', 'techniques.json'), 'w'), indent=1)
