"""P32: aggregations of the Go library: sensitivity, budget, exactness, range, quantiles, options."""
from vlib import golang

PROPERTY = 'P32'
RULE = 'an observation is one aggregation with its entries and the noise it asked for; distinct by aggregation, options and entries'
ASSUMPTIONS = ['noise is replaced by a recorder through the public Noise interface (the documented extension point), so that what is noised, and with which parameters, is observed']
SIBLINGS = 0
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'exact': (1500, 8), 'budget': (800, 8), 'quantiles': (300, 8), 'topLeaf': (800, 4), 'options': (1200, 6), 'postprocess': (2000, 4), 'exactQuantiles': (1000, 4), 'customNoise': (2000, 2)}


def SETUP():
  golang.build()


def REQUIRED(tier):
  return {'postprocessing': 5000, 'exact_quantiles': 3000, 'custom_noise': 2000, 'quantiles': 5000, 'top_leaf': 1500, 'bad_options': 3000, 'oracle_evaluations': 100000}


def cases(seed, tier):
  return golang.cases(FAMILIES, seed, tier)


def run(case, obs):
  golang.run(obs, case['family'], case['s'], case['n'])
