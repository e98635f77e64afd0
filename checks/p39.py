"""P39: partition selection of the C++ library."""
from vlib import cpp

PROPERTY = 'P39'
RULE = 'an observation is one partition judged or one probability or threshold computed; distinct by strategy and parameters'
ASSUMPTIONS = ['the random bytes come from a stand-in for the source of BoringSSL', 'statistical bounds fail a correct tree with probability below 1e-11 per test']
SIBLINGS = 0
UNITS = ['sel']
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'selExact': (1500, 3), 'selLaw': (60, 4), 'selThreshold': (3000, 2), 'selInvalid': (3000, 1)}


def SETUP():
  cpp.build(UNITS)


def REQUIRED(tier):
  return {'selection_probabilities': 100000, 'selections': 1000000, 'selection_thresholds': 6000, 'invalid': 3000}


def cases(seed, tier):
  return cpp.cases(FAMILIES, seed, tier)


def run(case, obs):
  cpp.run(obs, UNITS, case['family'], case['s'], case['n'])
