"""P34: life cycle of the aggregations of the Go library: merging, serializing, finishing."""
from vlib import golang

PROPERTY = 'P34'
RULE = 'an observation is one operation of a random history, judged by a model of states and contents; distinct by aggregation and sequence of operations and states'
ASSUMPTIONS = ['a decoded aggregation is given a recording noise before its result is asked for']
SIBLINGS = 0
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'history': (2500, 10), 'incompatible': (2500, 6), 'selLife': (2500, 6), 'compensated': (300, 2)}


def SETUP():
  golang.build()


def REQUIRED(tier):
  return {'histories': 15000, 'merges': 5000, 'decodes': 20000, 'refused': 100000, 'lifecycle_results': 30000, 'incompatible': 5000, 'selection_histories': 8000}


def cases(seed, tier):
  return golang.cases(FAMILIES, seed, tier)


def run(case, obs):
  golang.run(obs, case['family'], case['s'], case['n'])
