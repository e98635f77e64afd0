"""P31: thresholds and confidence intervals of the Go library."""
from vlib import golang

PROPERTY = 'P31'
RULE = 'an observation is one threshold, inverse threshold or confidence interval; distinct by noise, sensitivities, budget and level'
ASSUMPTIONS = ['closed forms of the tails with math.Erfc (relative accuracy 1e-12); the standard library inverse loses about 1e-16/alpha']
SIBLINGS = 0
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'threshold': (4000, 8), 'interval': (10000, 8), 'aggInterval': (20, 8), 'thresholded': (3000, 6), 'meanInterval': (100, 4), 'invalidLevel': (1000, 2)}


def SETUP():
  golang.build()


def REQUIRED(tier):
  return {'mean_intervals': 300, 'invalid_levels': 1500, 'thresholded': 10000, 'below_pre_threshold': 1000, 'thresholds': 20000, 'delta_for_threshold': 20000, 'intervals': 60000, 'interval_runs': 20000}


def cases(seed, tier):
  return golang.cases(FAMILIES, seed, tier)


def run(case, obs):
  golang.run(obs, case['family'], case['s'], case['n'])
