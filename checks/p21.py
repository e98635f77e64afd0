"""P21: the noise of a clustering run composes to at most the requested budget."""
import math
import numpy as np
from vlib import bracket as B, clu, mech

PROPERTY = 'P21'
RULE = ('an observation is one calibrated parameter set, one validated parameter set or one clustering run whose noise draws were '
        'recorded; distinct by privacy target, multipliers, depth, radius and data set')
ASSUMPTIONS = ['points are finite; two data sets are neighbours when one has one extra point',
               'noise is judged in exact arithmetic (floating-point attacks on the samplers are out of scope)',
               'the final k-means (third party) is replaced by a recording stand-in: it is post-processing']
CASE_TIMEOUT = {'quick': 200, 'thorough': 600}


def REQUIRED(tier):
  return {'calibrations': 60, 'validations': 60, 'over_budget_rejected': 20, 'runs': 40, 'count_noises_judged': 3000,
          'gauss_noises_judged': 800, 'draws_recorded': 2000, 'full_depth_runs': 4, 'root_count_reused': 10, 'clipped_points': 200}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 12
  out = []
  for fam, k in (('calc', 70), ('validate', 60), ('run', 48), ('noise', 40), ('inf', 20)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def rr(a):
  """Discrete Laplace noise with parameter a on a count that changes by one (= randomized response)."""
  p = 1 / (1 + math.exp(-a))
  return B.Fin([p, 1 - p], [1 - p, p])


def delta_below(std_rel, a, levels, eps):
  """Certainly at most the true delta at eps of Gaussian(std_rel) plus `levels` discrete Laplace counts."""
  leaves = []
  if a > 1e-14 and levels:
    leaves.append((rr(a), levels))
  if std_rel < 1e14:
    leaves.append((B.Gauss(1 / std_rel), 1))
  if not leaves:
    return 0.0
  # Losses are bounded by levels*a + a few Gaussian deviations.
  span = levels * a + 20 / std_rel + .5 / std_rel ** 2
  g = max(span / 60000, min(a / 400, .01 / std_rel))
  best = 0.0
  # Grid multiples of a keep the atoms exact (no rounding of the discrete losses).
  if a > 1e-14:
    g = a / max(1, round(a / g))
  best = B.Curve(leaves, g).below(eps)
  return best


def random_target(r):
  eps = float(10 ** r.uniform(-1.3, .9))
  delta = float(10 ** r.uniform(-9, -1)) if r.random() < .8 else float(r.uniform(.01, .6))
  depth = int(r.integers(0, 25))
  gm, lm = float(10 ** r.uniform(-.5, .5)), float(10 ** r.uniform(-.6, 1.8))
  if r.random() < .25:
    gm, lm = 1.0, 20.0
  return eps, delta, depth, gm, lm


def calculator(M, eps, delta, rad, depth, gm, lm):
  P = M['par']
  return M['calc'].PrivacyCalculator(P.DifferentialPrivacyParam(eps, delta), rad, depth, P.PrivacyCalculatorMultiplier(gm, lm))


def judge(obs, mechn, pc, rad, levels, eps, delta, ctx):
  std, a = pc.average_privacy_param.gaussian_standard_deviation, pc.count_privacy_param.laplace_param
  ok = std > 0 and 0 < a < math.inf
  if not obs.check(ok, mechn + ':no-noise', 'no noise although a finite budget was requested', std=std, laplace=a, **ctx):
    return
  d = delta_below(std / rad, a, levels, eps)
  obs.count('budget_judged')
  obs.check(d <= delta * (1 + 1e-9) + 1e-11, mechn + ':over-budget', 'the noise does not satisfy the requested (epsilon, delta)',
            true_delta_at_least=d, std_over_radius=std / rad, laplace=a, levels=levels, **ctx)


def run(case, obs):
  M = clu.load()
  r = mech.rng_of(case['s'], case['family'])
  np.random.seed(int(r.integers(2 ** 31)))
  f = case['family']
  if f == 'calc':
    eps, delta, depth, gm, lm = random_target(r)
    rad = float(10 ** r.uniform(-3, 3))
    ctx = dict(eps=eps, delta=delta, depth=depth, multipliers=(gm, lm), radius=rad)
    pc = calculator(M, eps, delta, rad, depth, gm, lm)
    obs.count('calibrations')
    obs.key(repr(ctx))
    obs.check(pc.average_privacy_param.sensitivity == rad, 'calc:sensitivity', 'sensitivity of the sums is not the radius',
              got=pc.average_privacy_param.sensitivity, **ctx)
    judge(obs, 'calc', pc, rad, depth + 1, eps, delta, ctx)
    pc.validate_accounting(M['par'].DifferentialPrivacyParam(eps, delta), depth)
  elif f == 'validate':
    eps, delta, depth, gm, lm = random_target(r)
    rad = float(10 ** r.uniform(-2, 2))
    a = float(10 ** r.uniform(-3, .7)) / math.sqrt(depth + 1)
    std = float(10 ** r.uniform(-.5, 1.5))
    if r.random() < .2:
      std, a = (0.0, a) if r.random() < .5 else (std, math.inf)
    # Construct a calculator cheaply (non-private), then replace its parameters.
    pc = calculator(M, math.inf, .5, rad, depth, 1.0, 1.0)
    pc.average_privacy_param = M['util'].AveragePrivacyParam(std * rad, rad)
    pc.count_privacy_param = M['util'].CountPrivacyParam(a)
    ctx = dict(eps=eps, delta=delta, depth=depth, std_over_radius=std, laplace=a)
    raised = False
    try:
      pc.validate_accounting(M['par'].DifferentialPrivacyParam(eps, delta), depth)
    except ValueError as e:
      raised = 'greater than allowed' in str(e)
      if not raised:
        raise
    obs.count('validations')
    obs.key(repr(ctx))
    d = 1.0 if std == 0 or a == math.inf else delta_below(std, a, depth + 1, eps)
    if d > delta * (1 + 1e-9) + 1e-11:
      obs.count('over_budget_rejected')
      obs.check(raised, 'validate:accepted', 'parameters that exceed the budget pass the accounting validation', true_delta_at_least=d, **ctx)
  elif f == 'inf':
    eps, delta = [(math.inf, 1e-6), (1.0, 1.0), (math.inf, 1.0), (2.0, 1.5)][int(r.integers(4))]
    rad, depth = float(10 ** r.uniform(-3, 3)), int(r.integers(0, 25))
    pc = calculator(M, eps, delta, rad, depth, 1.0, 20.0)
    obs.check(pc.average_privacy_param.gaussian_standard_deviation == 0 and pc.count_privacy_param.laplace_param == math.inf,
              'inf:noise', 'noise although no privacy was requested', eps=eps, delta=delta)
    pc.validate_accounting(M['par'].DifferentialPrivacyParam(eps, delta), depth)
  elif f == 'run':
    full_run(M, r, obs)
  else:
    noise_run(M, r, obs)


def inspect(M, obs, tree, rad, ctx, levels_allowed):
  """Exposure of a tree: (count levels, number of branched nodes, structure facts)."""
  tp = tree.tree[0][0].coreset_param.tree_param
  branched, deepest = 0, 0
  for lv, nodes in tree.tree.items():
    for nd in nodes:
      if lv < tp.max_depth and nd.private_count >= tp.min_num_points_in_branching_node:
        branched += 1
        deepest = max(deepest, lv + 1)
      x = np.asarray(nd.nonprivate_points, dtype=float)
      if len(x):
        nr = float(np.sqrt((x ** 2).sum(axis=1)).max())
        obs.check(nr <= rad * (1 + 1e-9), 'run:unclipped', 'a point outside of the radius reaches the sums', norm=nr, limit=rad, **ctx)
  levels = deepest + 1
  obs.check(levels <= levels_allowed, 'run:levels', 'more levels of counts were released than were accounted for', levels=levels,
            accounted=levels_allowed, **ctx)
  return levels, branched


def leaf_noise(leaves, std):
  """Standardised Gaussian noise of every leaf average (before any clipping)."""
  z = []
  for lf in leaves:
    x = np.asarray(lf.nonprivate_points, dtype=float)
    s = x.sum(axis=0)
    z.append((np.asarray(lf.get_private_average()) * lf.private_count - s) / std)
  return np.concatenate(z) if z else np.zeros(0)


def count_noise(tree, a):
  """Noise of the counts of all nodes that are released whatever their noise is."""
  tp = tree.tree[0][0].coreset_param.tree_param
  lim = math.log(1e12) / a + 1
  return [int(nd.private_count) - len(nd.nonprivate_points) for lv, nodes in tree.tree.items() for nd in nodes
          if len(nd.nonprivate_points) >= tp.min_num_points_in_branching_node + lim]


def gof(obs, mechn, cn, a, z, ctx):
  cn = np.asarray(cn, dtype=float)
  obs.count('count_noises_judged', len(cn))
  obs.count('gauss_noises_judged', len(z))
  p = clu.dlap_gof(cn, a)
  obs.check(p > 1e-9, mechn + ':count-noise', 'the noise of the released counts is not the declared discrete Laplace noise', p=p, laplace=a,
            sample=cn[:30].tolist(), **ctx)
  for t, p in clu.gauss_gof(z).items():
    obs.check(p > 1e-9, mechn + ':sum-noise:' + t, 'the noise of the released sums is not the declared Gaussian noise', p=p,
              sample=np.asarray(z)[:30].tolist(), **ctx)


def full_run(M, r, obs):
  """private_lsh_clustering end to end with the draws recorded."""
  P = M['par']
  eps, delta, _, gm, lm = random_target(r)
  eps = max(eps, .3)
  x, rad, kind = clu.dataset(r, n=int(r.integers(50, 6000)))
  x = np.asarray(x, dtype=float)
  k = int(r.integers(1, 12))
  kw = {}
  depth = 20
  if r.random() < .6:
    depth = int(r.integers(0, 12))
    b = int(r.integers(1, 60))
    kw['tree_param'] = P.TreeParam(max(b, int(b * r.uniform(1, 4))), b, depth)
  if r.random() < .7:
    kw['multipliers'] = P.PrivacyCalculatorMultiplier(gm, lm)
  ctx = dict(eps=eps, delta=delta, n=len(x), dim=x.shape[1], kind=kind, radius=rad, k=k, kw=repr(kw))
  tap, tr = clu.Tap(), clu.Trees(M)
  data = P.Data(x, rad)
  obs.count('clipped_points', int((np.sqrt((x ** 2).sum(1)) > rad).sum()))
  with tap.on(), tr.on():
    M['algo'].private_lsh_clustering(k, data, P.DifferentialPrivacyParam(eps, delta), **kw)
  obs.count('runs')
  obs.key(repr(ctx))
  if not obs.check(len(tr.trees) == 1, 'run:trees', 'a run did not build exactly one tree', trees=len(tr.trees), **ctx):
    return
  tree = tr.trees[0]
  pc = tree.tree[0][0].coreset_param.pcalc
  levels, branched = inspect(M, obs, tree, rad, ctx, depth + 1)
  if levels == depth + 1:
    obs.count('full_depth_runs')
  judge(obs, 'run', pc, rad, levels, eps, delta, ctx)
  judge(obs, 'run-declared', pc, rad, depth + 1, eps, delta, ctx)
  a, std = pc.count_privacy_param.laplace_param, pc.average_privacy_param.gaussian_standard_deviation
  draws = sum(int(np.size(v)) for _, v in tap.counts)
  obs.count('draws_recorded', draws)
  if draws:
    obs.check(draws <= 1 + 2 * branched, 'run:count-draws', 'more noised counts were released than one per node of the tree', draws=draws,
              nodes=1 + 2 * branched, **ctx)
    if 'tree_param' not in kw:
      obs.count('root_count_reused')
  gof(obs, 'run', count_noise(tree, a), a, leaf_noise(tree.leaves, std), ctx)


def noise_run(M, r, obs):
  """Many trees with one calibrated parameter set: pooled noise of all counts and sums."""
  P = M['par']
  eps, delta, _, gm, lm = random_target(r)
  depth = int(r.integers(0, 8))
  n = int(r.integers(500, 4000))
  x, rad, kind = clu.dataset(r, n=n)
  ctx = dict(eps=eps, delta=delta, n=n, depth=depth, kind=kind, radius=rad, multipliers=(gm, lm))
  pc = calculator(M, eps, delta, rad, depth, gm, lm)
  data = P.Data(x, rad)
  data = P.Data(data.clip_by_radius(), rad)
  t = int(r.integers(1, 20))
  cp = M['core'].CoresetParam(pc, P.TreeParam(t * int(r.integers(1, 4)), t, depth), 'x', rad)
  a, std = pc.count_privacy_param.laplace_param, pc.average_privacy_param.gaussian_standard_deviation
  judge(obs, 'noise', pc, rad, depth + 1, eps, delta, ctx)
  cn, z = [], []
  for _ in range(25):
    tr = clu.Trees(M)
    with tr.on():
      M['algo'].get_private_coreset(data, cp, None)
    tree = tr.trees[0]
    inspect(M, obs, tree, rad, ctx, depth + 1)
    cn += count_noise(tree, a)
    z.append(leaf_noise(tree.leaves, std))
  obs.count('runs')
  obs.key(repr(ctx))
  # Roots lifted to one hide part of the noise: dropped by count_noise unless large.
  gof(obs, 'noise', cn, a, np.concatenate(z), ctx)
