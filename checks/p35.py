"""P35: randomness of the Go library, also under concurrent use and when its source fails."""
from vlib import golang

PROPERTY = 'P35'
RULE = 'an observation is a batch of random values, of one goroutine or of eight, or one fault of the source of randomness; distinct by batch'
ASSUMPTIONS = ['the source of randomness is replaced by a seeded generator (or a failing or short-reading one) before the library captures it; the quality of crypto/rand itself is not observed', 'data races are those the Go race detector sees in the executions']
SIBLINGS = 0
# family: (repetitions per case, cases in the quick tier)
FAMILIES = {'uniformity': (12, 6), 'bounded': (80, 6), 'parallel': (5, 6), 'race': (1, 6), 'fault': (30, 4)}


def SETUP():
  golang.build()
  golang.build(race=True)


def REQUIRED(tier):
  return {'random_draws': 8000000, 'bounded_draws': 6000000, 'parallel_draws': 300000, 'faults': 90, 'short_reads': 10}


def cases(seed, tier):
  return golang.cases(FAMILIES, seed, tier)


def run(case, obs):
  if case['family'] == 'race':
    golang.run(obs, 'parallel', case['s'], case['n'], race=True)
  else:
    golang.run(obs, case['family'], case['s'], case['n'])
