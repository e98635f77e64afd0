"""P38: quantiles, order statistics and automatic bounds of the C++ library."""
from vlib import cpp

PROPERTY = 'P38'
RULE = 'an observation is one tree, search or histogram with everything noise was added to and every answer; distinct by options and size of the input'
ASSUMPTIONS = ['noise is a recording stand-in built through the builders of the library']
SIBLINGS = 0
UNITS = ['quant']
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'treeExact': (4000, 4), 'treeNeighbours': (4000, 4), 'treeMerge': (2500, 2), 'quantiles': (1500, 2), 'orderStats': (4000, 3), 'approxBounds': (2500, 3)}


def SETUP():
  cpp.build(UNITS)


def REQUIRED(tier):
  return {'trees': 30000, 'quantiles': 150000, 'exact': 60000, 'intervals': 80000, 'neighbours': 30000, 'merged': 9000, 'order_statistics': 20000, 'bounds': 12000, 'bounds_found': 8000, 'invalid': 3000}


def cases(seed, tier):
  return cpp.cases(FAMILIES, seed, tier)


def run(case, obs):
  cpp.run(obs, UNITS, case['family'], case['s'], case['n'])
