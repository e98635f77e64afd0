"""P30: the noise of the Go library (/repo/go/noise): law, grid, freshness, calibration, domain."""
from vlib import golang

PROPERTY = 'P30'
RULE = 'an observation is a batch of draws (or one answer) for one set of parameters; distinct by noise, sensitivities, budget and input'
ASSUMPTIONS = ['uniform bytes come from a generator of the harness that replaces crypto/rand (splitmix64)', 'the law is tested with Kolmogorov-Smirnov statistics with a false-alarm probability below 1e-12 per batch, so deviations below about 4/sqrt(6000) in one batch are not seen in it; sigma is documented to be accurate to 0.1%', 'gonum and glog are replaced by small stand-ins (the normal distribution by math.Erfc)']
SIBLINGS = 0
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'lawFloat': (40, 10), 'lawInt': (40, 10), 'huge': (80, 4), 'sigma': (3000, 6), 'invalid': (800, 6), 'grid': (100, 4), 'coupled': (60, 4), 'nearPower': (300, 2), 'tails': (1000000, 2)}


def SETUP():
  golang.build()


def REQUIRED(tier):
  return {'grid_draws': 3000, 'draws': 3000000, 'huge': 100, 'tail_draws': 2000000, 'near_power': 5000, 'oracle_evaluations': 3000000}


def cases(seed, tier):
  return golang.cases(FAMILIES, seed, tier)


def run(case, obs):
  golang.run(obs, case['family'], case['s'], case['n'])
