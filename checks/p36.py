"""P36: noise of the C++ library."""
from vlib import cpp

PROPERTY = 'P36'
RULE = 'an observation is one draw or one computed scale, interval or probability; distinct by mechanism and parameters'
ASSUMPTIONS = ['the random bytes come from a stand-in for the source of BoringSSL', 'statistical bounds fail a correct tree with probability below 1e-11 per test']
SIBLINGS = 0
UNITS = ['mech']
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'lawFloat': (60, 4), 'lawInt': (60, 4), 'sigma': (4000, 2), 'interval': (4000, 3), 'above': (80, 2), 'invalid': (3000, 1), 'roundtrip': (3000, 2), 'coupled': (400, 3), 'rand': (20, 2), 'threads': (12, 4), 'failure': (10, 2)}


def SETUP():
  cpp.build(UNITS)


def REQUIRED(tier):
  return {'draws': 1000000, 'sigmas': 8000, 'intervals': 15000, 'above': 500000, 'invalid': 3000, 'roundtrips': 6000, 'coupled': 4000, 'uniform': 200000, 'concurrent': 1000000, 'failures': 30}


def cases(seed, tier):
  return cpp.cases(FAMILIES, seed, tier)


def run(case, obs):
  cpp.run(obs, UNITS, case['family'], case['s'], case['n'])
