"""P37: bounded aggregations of the C++ library."""
from vlib import cpp

PROPERTY = 'P37'
RULE = 'an observation is one result, or one pair of neighbouring inputs, with everything noise was added to; distinct by aggregation, options and size of the input'
ASSUMPTIONS = ['noise is a recording stand-in built through the builders of the library', 'inputs whose sums overflow their type are not given: the library means them to wrap']
SIBLINGS = 0
UNITS = ['agg']
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'aggExact': (4000, 4), 'aggNeighbours': (4000, 5), 'aggMerge': (2500, 4), 'aggInvalid': (4000, 1)}


def SETUP():
  cpp.build(UNITS)


def REQUIRED(tier):
  return {'results': 30000, 'exact': 15000, 'neighbours': 20000, 'sensitivities': 40000, 'postprocessed': 15000, 'merged': 10000, 'bad_merges': 20000, 'invalid': 3000}


def cases(seed, tier):
  return cpp.cases(FAMILIES, seed, tier)


def run(case, obs):
  cpp.run(obs, UNITS, case['family'], case['s'], case['n'])
