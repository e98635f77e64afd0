"""P27: the privacy test runner's protocol, monitored through scripted generator, mechanism and tester."""
import math
import numpy as np
from vlib import aud, mech

PROPERTY = 'P27'
RULE = ('an observation is one recorded run of the privacy test runner (the full sequence of calls to generator, mechanism and tester, and its '
        'result); distinct by configuration, script and seed')
ASSUMPTIONS = ['generator, mechanism and tester are recording stand-ins (or the real histogram tester and example mechanisms in the real-parts family)']


def REQUIRED(tier):
  return {'runs': 2500, 'trials': 8000, 'violations_found': 800, 'limit_reached': 500, 'reused_runner': 500, 'cheb': 500, 'tanh': 500, 'plain': 500,
          'second_direction_max': 1500, 'zero_trials': 40, 'special_estimates': 800, 'real_runs': 60, 'bad_config': 40}


def cases(seed, tier):
  n = 1 if tier == 'quick' else 25
  out = []
  for fam, k in (('script', 1500), ('reuse', 500), ('real', 80), ('bad', 60)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def cheb(x, k):
  """T_k by the three-term recurrence."""
  a, b = np.ones_like(x), x
  if k == 0:
    return a
  for _ in range(k - 1):
    a, b = b, 2 * x * b - a
  return b


def post(kind, x):
  if kind == 'NONE':
    return x
  if kind == 'TANH':
    return np.tanh(x)
  t = np.tanh(np.asarray(x, float).reshape(len(x)))
  return np.stack([cheb(t, k) for k in range(6)], axis=1)


class Script:
  """Records every call in one log; answers come from the case's random stream."""

  def __init__(self, M, r, shape, est, rej):
    self.M, self.r, self.shape, self.est, self.rej = M, r, shape, est, rej
    self.log = []
    self.sent = []
    self.n = 0
    self.prop = M['prop'].PrivacyProperty(approximate_dp=M['prop'].ApproximateDp(1.0, float(r.uniform(0, .1))))

  def gen(self, divergence):
    self.n += 1
    pair = (np.array([float(self.n), 0.0]), np.array([float(self.n), 1.0, 2.0]))
    self.log.append(('gen', divergence, pair[0].tobytes(), pair[1].tobytes()))
    return pair

  def mechanism(self, data, num_samples):
    k = int(num_samples)
    x = self.r.normal(size=(k,) + self.shape) * 2
    self.log.append(('mech', np.asarray(data).tobytes(), num_samples, x.copy()))
    return x

  @property
  def privacy_property(self):
    return self.prop

  def estimate_lower_bound(self, a, b, fp):
    v = self.est()
    self.log.append(('est', np.array(a), np.array(b), fp, v))
    return v

  def reject_property(self, lb):
    v = self.rej(lb)
    self.log.append(('rej', lb, v))
    return v


def same(a, b):
  return (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)) or a == b


def monitor(obs, M, S, start, cfg, name, res, ctx):
  """Checks one recorded run against the protocol."""
  log = S.log[start:]
  kind = cfg.post_processing.name.replace('_POLYNOMIALS_D5', '')
  last = None
  ests = []
  trial = 0
  i = 0
  found = False

  def E(m, ok, msg, **k):
    return obs.check(ok, m, msg, **{**ctx, 'trial': trial, **k})
  while i < len(log):
    if found:
      return E('continues-after-violation', False, 'the run went on after a rejected trial')
    trial += 1
    obs.count('trials')
    if not E('too-many-trials', trial <= cfg.max_num_trials, 'more trials than configured'):
      return
    if not E('order', log[i][0] == 'gen', 'a trial must start by asking for data sets', got=log[i][0]):
      return
    E('feedback', same(log[i][1], last), 'the generator did not receive the last estimate', got=log[i][1], expected=last)
    pair = log[i][2:4]
    seg = []
    i += 1
    while i < len(log) and log[i][0] != 'gen':
      seg.append(log[i])
      i += 1
    mechs = [e for e in seg if e[0] == 'mech']
    es = [e for e in seg if e[0] == 'est']
    rj = [e for e in seg if e[0] == 'rej']
    if not E('mechanism-calls', sorted(e[1] for e in mechs) == sorted(pair), 'the mechanism must run once on each data set', calls=len(mechs)):
      return
    E('sample-size', all(e[2] == cfg.num_samples for e in mechs), 'wrong number of samples requested')
    out = {e[1]: post(kind, e[3]) for e in mechs}
    x, y = out[pair[0]], out[pair[1]]
    if not E('two-directions', len(es) == 2, 'the divergence must be estimated in both directions', calls=len(es)):
      return
    eq = lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)
    fwd = [e for e in es if eq(e[1], x) and eq(e[2], y)]
    bwd = [e for e in es if eq(e[1], y) and eq(e[2], x)]
    E('two-directions', len(fwd) == 1 and len(bwd) == 1, 'the two estimates must use the post-processed samples in both orders', forward=len(fwd),
      backward=len(bwd), post=kind)
    E('failure-probability', all(e[3] == cfg.failure_probability for e in es), 'wrong failure probability passed to the tester')
    vals = [e[4] for e in es]
    best = max(vals)
    obs.count('second_direction_max', int(vals[1] > vals[0]))
    obs.count('special_estimates', int(not math.isfinite(best) or best == 0 or best < 0))
    last = best
    ests.append(best)
    E('decision', len(rj) >= 1 and all(same(e[1], best) for e in rj), 'the decision was not taken on the larger estimate', asked=[e[1] for e in rj], expected=best)
    found = bool(rj and rj[-1][2])
  T = M['rcfg'].TerminationReason
  E('stops-early', found or trial == cfg.max_num_trials, 'the run stopped before the trial limit without a violation', trials=trial)
  got = list(res.lower_bound_divergence_estimates)
  E('estimates', len(got) == len(ests) and all(same(float(a), float(b)) for a, b in zip(got, ests)), 'reported estimates differ from the trials performed', got=got, expected=ests)
  E('reason', res.termination_reason == (T.FOUND_PRIVACY_VIOLATION if found else T.TRIAL_LIMIT_REACHED), 'wrong termination reason', got=res.termination_reason.name, found=found)
  if found:
    obs.count('violations_found')
    E('found', res.found_privacy_violation is not None and res.found_privacy_violation.failure_probability == cfg.failure_probability, 'the violation is not reported')
  else:
    obs.count('limit_reached')
    E('found', res.found_privacy_violation is None, 'a violation is reported although none was found')
  E('inspected', res.num_inspected_trials == trial, 'wrong number of inspected trials', got=res.num_inspected_trials)
  E('preamble', res.mechanism_name == name and res.property_tester == cfg.property_tester and res.max_num_trials == cfg.max_num_trials
    and res.privacy_property == S.privacy_property, 'the result preamble differs from the configuration', got=repr(res)[:300])
  obs.count('zero_trials', int(trial == 0))
  obs.count({'NONE': 'plain', 'TANH': 'tanh', 'CHEBYSHEV': 'cheb'}[kind], max(trial, 1))
  obs.count('runs')


def make_cfg(M, r, maxt=None):
  R = M['rcfg']
  return R.PrivacyTestRunnerConfig(property_tester=mech.pick(r, list(R.PropertyTester)), max_num_trials=int(r.integers(0, 12)) if maxt is None else maxt,
                                   failure_probability=float(r.uniform(1e-6, .5)), num_samples=int(r.integers(1, 30)), post_processing=mech.pick(r, list(R.PostProcessing)))


def make_script(M, r, cfg):
  cheby = cfg.post_processing.name.startswith('CHEB')
  shape = () if r.random() < .4 else ((1,) if cheby or r.random() < .5 else (int(r.integers(2, 5)),))
  if cheby and cfg.num_samples == 1 and shape == ():
    shape = (1,)
  mode = mech.pick(r, ['normal', 'normal', 'special', 'decreasing', 'constant'])
  state = dict(n=0)

  def est():
    state['n'] += 1
    if mode == 'special':
      return mech.pick(r, [0.0, -0.0, float('-inf'), -1.0, 1e300, float(r.normal()), float('inf'), 1])
    if mode == 'decreasing':
      return 1.0 / state['n']
    if mode == 'constant':
      return 0.0
    return float(r.normal())
  when = mech.pick(r, ['never', 'threshold', 'threshold', 'late', 'numpy'])
  thr = float(r.uniform(0, 3))
  k = int(r.integers(1, 12))

  def rej(lb):
    state['r'] = state.get('r', 0) + 1
    if when == 'never':
      return False
    if when == 'late':
      return state['r'] >= k
    return np.bool_(lb > thr) if when == 'numpy' else lb > thr
  return Script(M, r, shape, est, rej), dict(mode=mode, when=when, shape=list(shape))


def run_script(r, obs, M, reuse):
  cfg = make_cfg(M, r)
  S, ctx = make_script(M, r, cfg)
  ctx.update(max_num_trials=cfg.max_num_trials, post=cfg.post_processing.name)
  runner = M['run'].PrivacyTestRunner(cfg, S.gen, S)
  results = []
  for k in range(int(r.integers(2, 5)) if reuse else 1):
    name = 'mechanism-%d' % r.integers(1000)
    start = len(S.log)
    res = runner.test_privacy(S.mechanism, name)
    results.append((res, list(res.lower_bound_divergence_estimates)))
    obs.key('run', cfg.max_num_trials, cfg.post_processing.name, ctx['mode'], ctx['when'], len(S.log), res.num_inspected_trials, cfg.num_samples)
    monitor(obs, M, S, start, cfg, name, res, ctx)
  if reuse:
    obs.count('reused_runner', len(results) - 1)
    for res, before in results:
      obs.check(len(before) == len(res.lower_bound_divergence_estimates) and all(same(a, b) for a, b in zip(before, res.lower_bound_divergence_estimates)),
                'results-change', 'a later run changed the results of an earlier one', **ctx)


def run_real(r, obs, M):
  """Real tester, real mechanism: the same protocol, plus the verdict on clearly private and clearly non-private mechanisms."""
  R, T = M['rcfg'], M['test']
  private = bool(r.integers(2))
  eps = float(r.uniform(.5, 1.5))
  n = 30000
  cfg = R.PrivacyTestRunnerConfig(R.PropertyTester.HISTOGRAM_TESTER, int(r.integers(1, 4)), 1e-9, n, R.PostProcessing.NONE)
  tester = T.HistogramTester(M['tcfg'].HistogramPropertyTesterConfig(True, 3, 0., 1., M['prop'].ApproximateDp(eps, 1e-3)))
  d1, d2 = np.array([0, 1, 2]), np.array([0, 1, 2, 0])
  gen = M['gens'].ConstantDatasetGenerator((d1, d2))
  m = M['mech'].NoisyMaxMechanism(M['mcfg'].NoisyMaxMechanismConfig(eps if private else 40.0, 3), np.random.default_rng(int(r.integers(2**31))))
  if not private:
    gen = M['gens'].ConstantDatasetGenerator((np.zeros(5, int), np.full(5, 2)))
  g = gen(None)
  obs.check(len(g) == 2 and gen(1.0)[0] is g[0] and gen(0.0)[1] is g[1], 'constant-generator', 'the constant generator changed its data sets')
  res = M['run'].PrivacyTestRunner(cfg, gen, tester).test_privacy(m, 'noisy max')
  obs.count('real_runs')
  obs.key('real', private, eps)
  found = res.found_privacy_violation is not None
  obs.check(found == (not private), 'real-verdict', 'wrong verdict on a clear case', private=private, estimates=res.lower_bound_divergence_estimates, eps=eps)
  obs.check(res.num_inspected_trials == (cfg.max_num_trials if private else 1), 'inspected', 'wrong number of inspected trials', got=res.num_inspected_trials)
  obs.check(res.privacy_property.approximate_dp.epsilon == eps, 'preamble', 'wrong property')


def run_bad(r, obs, M):
  cfg = make_cfg(M, r)
  cfg.post_processing = mech.pick(r, [None, 'NONE', 17])
  S, _ = make_script(M, r, make_cfg(M, r))
  try:
    M['run'].PrivacyTestRunner(cfg, S.gen, S)
    ok = False
  except ValueError:
    ok = True
  obs.count('bad_config')
  obs.check(ok, 'accepts-postprocessing', 'an unknown post-processing choice was accepted', choice=repr(cfg.post_processing))


def run(case, obs):
  r = np.random.default_rng(case['s'])
  M = aud.load()
  f = case['family']
  if f in ('script', 'reuse'):
    run_script(r, obs, M, f == 'reuse')
  else:
    (run_real if f == 'real' else run_bad)(r, obs, M)
