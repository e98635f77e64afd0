"""P33: partition selection of the Go library."""
from vlib import golang

PROPERTY = 'P33'
RULE = 'an observation is one decision at a chosen random number, a frequency of decisions, or a hard threshold; distinct by options and number of privacy units'
ASSUMPTIONS = ['the recursion of the documentation is the oracle, evaluated without cancellation; decisions are compared at random numbers that differ by 1e-7 (relative) from the probability', 'the hard threshold is judged for at most three partitions (beyond, the Gaussian threshold has none) up to a probability of 1e-14']
SIBLINGS = 0
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'selExact': (60, 10), 'selLaw': (60, 8), 'hardThreshold': (600, 6), 'selInvalid': (800, 4)}


def SETUP():
  golang.build()


def REQUIRED(tier):
  return {'selection_exact': 2500, 'selection_runs': 1000000, 'selection_gaussian': 60, 'hard_thresholds': 2000, 'selection_invalid': 2000, 'selection_never': 200, 'selection_always': 150}


def cases(seed, tier):
  return golang.cases(FAMILIES, seed, tier)


def run(case, obs):
  golang.run(obs, case['family'], case['s'], case['n'])
