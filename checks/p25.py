"""P25: the audited example mechanisms draw from exactly the law they declare."""
import itertools
import math
import numpy as np
from scipy import stats
from vlib import aud, mech

PROPERTY = 'P25'
RULE = ('an observation is one batch of mechanism outputs (or a pair of batches on neighbouring data sets) whose law is compared with the '
        'exact law; distinct by configuration, data and seed')
ASSUMPTIONS = ['random numbers come from the generator passed to the mechanism (numpy Generator, seeded per case)',
               'packages that are not installed here (tensorflow, vizier, etils) are stand-ins that no mechanism uses']
LIM = 1e-11


def REQUIRED(tier):
  return {'samples': 500000, 'law_tests': 400, 'ratio_tests': 300, 'patterns': 1500, 'aborts': 150, 'no_response': 200, 'svt_values': 2000,
          'noised_means': 60, 'exact_means': 60, 'clipped': 60, 'rejected': 30, 'rare_outputs': 200}


def cases(seed, tier):
  n = 3 if tier == 'quick' else 60
  out = []
  for fam, k in (('max', 120), ('mean', 200), ('svt', 420), ('pair', 200), ('reject', 40)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def gof(counts, probs):
  """p-value (chi-square on well filled cells, exact binomial tails on rare ones)."""
  counts, probs = np.asarray(counts, float), np.asarray(probs, float)
  n = counts.sum()
  worst = 1.0
  probs = probs / probs.sum()
  for c, p in zip(counts, probs):
    b = stats.binom.sf(c - 1, n, min(p + 1e-12, 1)) if c > n * p else stats.binom.cdf(c, n, max(p - 1e-12, 0))
    worst = min(worst, float(b))
  return worst


def data_for(r, n, lo, hi):
  k = int(r.integers(4))
  if k == 0:
    return r.uniform(lo, hi, n)
  if k == 1:
    return r.choice([lo, hi, (lo + hi) / 2], n)
  if k == 2:
    return r.uniform(lo - (hi - lo), hi + (hi - lo), n)       # clipped records
  return np.full(n, hi if r.random() < .5 else lo)


# ---------------------------------------------------------------- noisy max
def max_setup(r):
  k = int(r.integers(2, 9))
  n = int(r.integers(0, 40))
  w = r.dirichlet(np.full(k, .5))
  data = r.choice(k, n, p=w).astype(int)
  eps = float(math.exp(r.uniform(math.log(.05), math.log(4))))
  return k, data, eps


def max_law(k, data, eps):
  c = np.array([np.sum(np.asarray(data) == i) for i in range(k)], float)
  z = eps * c / 2
  z -= z.max()
  w = np.exp(z)
  return w / w.sum()


def run_max(r, obs, M, N):
  k, data, eps = max_setup(r)
  m = M['mech'].NoisyMaxMechanism(M['mcfg'].NoisyMaxMechanismConfig(eps, k), np.random.default_rng(int(r.integers(2**31))))
  out = np.asarray(m(data, N))
  ctx = dict(eps=eps, k=k, data=data[:40].tolist())
  obs.count('samples', N)
  if not obs.check(out.shape == (N,) and np.all((out >= 0) & (out < k)), 'max-domain', 'outputs are not one element per sample', **ctx):
    return
  p = max_law(k, data, eps)
  cnt = np.bincount(out.astype(int), minlength=k)
  obs.count('law_tests')
  obs.count('rare_outputs', int(np.sum((cnt > 0) & (p < .02))))
  obs.key('max', k, eps, data.tobytes())
  q = gof(cnt, p)
  obs.check(q > LIM, 'max-law', 'noisy max does not follow the exponential mechanism', p=q, counts=cnt, expected=p * N, **ctx)


# ---------------------------------------------------------------- mean
def mean_cdf(t, S, n, eps, delta, rng_width, noisy_mean, noisy_scale):
  b = .5 if (noisy_mean or noisy_scale) else 1.0
  f = 1.0 if delta == 0 else math.sqrt(2 * math.log(1.25 / delta))
  base = stats.laplace.cdf if delta == 0 else stats.norm.cdf
  w = f * abs(rng_width) / b / eps
  if not (noisy_mean or noisy_scale):
    return base((t - S / n) / max(w / n, 1e-12))
  u = (np.arange(6000) + .5) / 6000
  L = n + stats.laplace.ppf(u) / (b * eps)
  sc = np.maximum(w / np.abs(L if noisy_scale else n), 1e-12)     # sign of the noisy count does not matter
  mu = S / (L if noisy_mean else n)
  out = np.zeros(len(t))
  for i in range(0, len(u), 500):
    with np.errstate(over='ignore', invalid='ignore'):
      out += base((t[:, None] - np.broadcast_to(mu, u.shape)[None, i:i + 500]) / np.broadcast_to(sc, u.shape)[None, i:i + 500]).sum(axis=1)
  return out / len(u)


def run_mean(r, obs, M, N):
  lo = mech.pick(r, [0.0, 0.0, -1.0, float(r.uniform(-5, 5))])
  hi = lo + mech.pick(r, [1.0, 1.0, float(math.exp(r.uniform(-3, 3)))])
  n = int(r.integers(1, 80))
  eps = float(math.exp(r.uniform(math.log(.02), math.log(20))))
  delta = 0.0 if r.random() < .5 else float(10 ** r.uniform(-8, -1))
  data = data_for(r, n, lo, hi)
  nm, ns = bool(r.integers(2)), bool(r.integers(2))
  if r.random() < .3:
    name = mech.pick(r, ['non_private_mean_v1', 'non_private_mean_v2', 'private_mean'])
    cfg = M['mutil'].default_mean_mechanism_config_generator(name, eps, delta)
    nm, ns, lo, hi = name == 'private_mean', name != 'non_private_mean_v1', 0.0, 1.0
    data = data_for(r, n, lo, hi)
  else:
    cfg = M['mcfg'].MeanMechanismConfig(epsilon=eps, delta=delta, use_noised_counts_for_calculating_mean=nm,
                                        use_noised_counts_for_calculating_noise_scale=ns, max_value=hi, min_value=lo)
  ctx = dict(eps=eps, delta=delta, lo=lo, hi=hi, n=n, noisy_mean=nm, noisy_scale=ns)
  keep = data.copy()
  out = np.asarray(M['mech'].MeanMechanism(cfg, np.random.default_rng(int(r.integers(2**31))))(data, N))
  obs.count('samples', N)
  obs.check(np.array_equal(keep, data), 'mean-mutates', 'the data set was modified', **ctx)
  if not obs.check(out.shape == (N, 1) and np.all(np.isfinite(out)), 'mean-shape', 'outputs are not one finite value per sample', shape=list(out.shape), **ctx):
    return
  S = float(np.clip(keep, lo, hi).sum())
  obs.count('clipped', int(np.any((keep < lo) | (keep > hi))))
  obs.count('noised_means' if nm or ns else 'exact_means')
  x = np.sort(out[:, 0])
  sub = x[::max(1, N // 400)]
  F = mean_cdf(sub, S, n, eps, delta, hi - lo, nm, ns)
  emp_r = np.searchsorted(x, sub, side='right') / N
  emp_l = np.searchsorted(x, sub, side='left') / N
  obs.count('law_tests')
  obs.key('mean', eps, delta, nm, ns, S, n)
  worst = 1.0
  slack = 0.0 if not (nm or ns) else 1.0 / 6000 + 1e-9
  for f, a, b in zip(F, emp_l, emp_r):
    worst = min(worst, stats.binom.cdf(round(b * N), N, max(f - slack, 0)), stats.binom.sf(round(a * N) - 1, N, min(f + slack, 1)))
  obs.check(worst > LIM, 'mean-law', 'the released mean does not have the declared noise', p=float(worst), **ctx)
  if len(set(x.tolist())) < .9 * N:
    obs.check(False, 'mean-repeats', 'releases repeat', distinct=len(set(x.tolist())), **ctx)


# ---------------------------------------------------------------- sparse vector
def svt_scales(v, eps, c, d):
  return {1: (4 * c * d / eps, 2 * d / eps), 2: (4 * c * d / eps, 2 * c * d / eps), 3: (2 * c * d / eps, 2 * d / eps),
          4: (4 * d / (3 * eps), 4 * d / eps), 5: (0.0, 2 * d / eps), 6: (2 * d / eps, 2 * d / eps)}[v]


def svt_queries(kind, data, lo, hi, m):
  x = np.clip(np.asarray(data, float), lo, hi)
  if kind == 'SUM':
    return np.full(m, x.sum())
  return np.array([x[-1]] * (m - 1) + [x[-2]])


GL = np.polynomial.legendre.leggauss(12)


def grid(T, st, qs, sq):
  """Quadrature nodes and weights (times the density of the noisy threshold)."""
  lo, hi = T - 34 * st, T + 34 * st
  step = 1.5 * (min(st, sq) if sq > 0 else st)
  br = sorted({lo, hi, T, *[float(q) for q in qs if lo < q < hi]})
  xs, ws = [], []
  for a, b in zip(br[:-1], br[1:]):
    k = max(1, min(400, int(math.ceil((b - a) / step))))
    e = np.linspace(a, b, k + 1)
    h = (e[1:] - e[:-1]) / 2
    mid = (e[1:] + e[:-1]) / 2
    xs.append((mid[:, None] + h[:, None] * GL[0]).ravel())
    ws.append((h[:, None] * GL[1]).ravel())
  x, w = np.concatenate(xs), np.concatenate(ws)
  return x, w * np.exp(-np.abs(x - T) / st) / (2 * st)


def svt_law(v, qs, T, eps, c, d):
  """{pattern over '+', '-', '.'}: probability."""
  m = len(qs)
  if c <= 0:
    return {'.' * m: 1.0}
  sq, st = svt_scales(v, eps, c, d)
  x, w = grid(T, st, qs, sq)
  above = [(q >= x).astype(float) if sq == 0 else stats.laplace.sf((x - q) / sq) for q in qs]
  law = {}

  def go(i, pat, pos, val):
    if i == m or pos >= c:
      law[pat + '.' * (m - i)] = float(np.dot(val, w))
      return
    go(i + 1, pat + '+', pos + 1, val * above[i])
    go(i + 1, pat + '-', pos, val * (1 - above[i]))
  go(0, '', 0, np.ones_like(x))
  return law


def svt_setup(r):
  lo = mech.pick(r, [0.0, 0.0, -1.0, float(r.uniform(-3, 3))])
  hi = lo + mech.pick(r, [1.0, 2.0, float(math.exp(r.uniform(-2, 2)))])
  m = int(r.integers(1, 7))
  c = int(mech.pick(r, [1, 1, 2, 3, m, m + 1, 0])) if r.random() < .9 else 5
  kind = mech.pick(r, ['SUM', 'REVEAL_RECORDS'])
  n = int(r.integers(2, 15))
  data = data_for(r, n, lo, hi)
  eps = float(math.exp(r.uniform(math.log(.1), math.log(8))))
  qs = svt_queries(kind, data, lo, hi, m)
  T = float(qs[0] + r.normal() * (hi - lo) / eps * mech.pick(r, [0, 1, 3]))
  return lo, hi, m, c, kind, data, eps, T


def svt_cfg(M, eps, lo, hi, kind, m, T, c):
  return M['mcfg'].SVTMechanismConfig(epsilon=eps, max_value=hi, min_value=lo, query_type=M['mcfg'].QueryType['QUERY_TYPE_' + kind],
                                      num_queries=m, threshold=T, max_answered_queries=c)


def read_patterns(M, v, out):
  """Rows -> strings over + - . ; None if a row contains something else."""
  D = M['mcfg'].DataValues
  pats = []
  for row in out:
    s = ''
    for e in row:
      if e is D.SVT_NO_RESPONSE:
        s += '.'
      elif e is D.SVT_BELOW_THRESHOLD:
        s += '-'
      elif (e is D.SVT_ABOVE_THRESHOLD) if v != 3 else (isinstance(e, (float, np.floating)) and math.isfinite(e)):
        s += '+'
      else:
        return None
    pats.append(s)
  return pats


def run_svt(r, obs, M, N):
  v = int(r.integers(1, 7))
  lo, hi, m, c, kind, data, eps, T = svt_setup(r)
  d = hi - lo
  ctx = dict(variant=v, eps=eps, lo=lo, hi=hi, queries=m, positives=c, query=kind, threshold=T, data=np.asarray(data).tolist())
  mechn = getattr(M['mech'], 'SVT%d' % v)(svt_cfg(M, eps, lo, hi, kind, m, T, c), np.random.default_rng(int(r.integers(2**31))))
  # history of calls on one object: batches of different sizes must be independent draws of the same law
  sizes = [N] if r.random() < .5 else [1, N // 2, N - N // 2 - 1]
  keep = data.copy()
  outs = [np.asarray(mechn(data, k)) for k in sizes]
  obs.check(np.array_equal(keep, data), 'svt-mutates', 'the data set was modified', **ctx)
  for o, k in zip(outs, sizes):
    if not obs.check(o.shape == (k, m), 'svt-shape', 'one row of answers per sample expected', shape=list(o.shape), **ctx):
      return
  out = np.concatenate(outs)
  obs.count('samples', N)
  pats = read_patterns(M, v, out)
  if not obs.check(pats is not None, 'svt-values', 'an answer is none of the declared values', **ctx):
    return
  obs.key('svt', v, eps, T, c, m, kind)
  for p in set(pats):
    k = p.count('+')
    obs.check(k <= max(c, 0), 'svt-positives', 'more positive answers than allowed', pattern=p, **ctx)
    if '.' in p:
      i = p.index('.')
      obs.count('no_response')
      obs.check(p[i:] == '.' * (m - i) and k == max(c, 0), 'svt-abort', 'gaps or missing answers before the limit was reached', pattern=p, **ctx)
    if k == c and c > 0:
      obs.count('aborts')
      j = p.rindex('+')
      obs.check(p[j + 1:] == '.' * (m - j - 1), 'svt-after-limit', 'answers after the last allowed positive', pattern=p, **ctx)
  qs = svt_queries(kind, keep, lo, hi, m)
  law = svt_law(v, qs, T, eps, c, d)
  tot = sum(law.values())
  assert abs(tot - 1) < 1e-6, tot
  keys = sorted(law)
  cnt = np.array([pats.count(k) for k in keys], float)
  obs.count('patterns', int((cnt > 0).sum()))
  obs.count('rare_outputs', int(np.sum((cnt > 0) & (np.array([law[k] for k in keys]) < .02))))
  obs.count('law_tests')
  if not obs.check(cnt.sum() == N, 'svt-pattern', 'impossible answer pattern', patterns=sorted(set(pats) - set(keys)), **ctx):
    return
  q = gof(cnt, [law[k] for k in keys])
  obs.check(q > LIM, 'svt-law', 'the answer patterns do not follow the declared noise', p=q, counts=dict(zip(keys, cnt.tolist())),
            expected={k: round(law[k] * N, 1) for k in keys}, **ctx)
  if v == 3 and c > 0:
    vals = np.array([row[p.index('+')] for row, p in zip(out, pats) if p.startswith('+')], float)
    obs.count('svt_values', len(vals))
    if len(vals) > 100:
      sq, st = svt_scales(3, eps, c, d)
      g = np.linspace(qs[0] - 40 * sq, qs[0] + 40 * sq, 40001)
      dens = np.exp(-np.abs(g - qs[0]) / sq) / (2 * sq) * stats.laplace.cdf((g - T) / st)
      F = np.concatenate([[0], np.cumsum((dens[1:] + dens[:-1]) / 2 * np.diff(g))])
      F /= F[-1]
      q = stats.kstest(vals, lambda t: np.interp(t, g, F)).pvalue
      obs.check(q > LIM, 'svt-value-law', 'released query values do not carry the declared noise', p=float(q), **ctx)


# ---------------------------------------------------------------- neighbouring data sets, law-free
def ratio_test(obs, name, a, b, bound, ctx):
  """One-sided: P1(o) <= e^bound P2(o) and vice versa for every output seen."""
  outs = set(a) | set(b)
  ca, cb = {}, {}
  for o in a:
    ca[o] = ca.get(o, 0) + 1
  for o in b:
    cb[o] = cb.get(o, 0) + 1
  pr = math.exp(bound) / (1 + math.exp(bound))
  for o in outs:
    x, y = ca.get(o, 0), cb.get(o, 0)
    obs.count('ratio_tests')
    for u in (x, y):
      p = stats.binom.sf(u - 1, x + y, pr)
      obs.check(p > LIM, name, 'an output is more than e^epsilon times as likely on a neighbouring data set', output=str(o), first=x, second=y,
                bound=bound, p=float(p), **ctx)


def run_pair(r, obs, M, N):
  which = mech.pick(r, ['max', 'mean', 'svt1', 'svt2', 'svt4', 'svt1', 'svt2', 'svt4'])
  rng = np.random.default_rng(int(r.integers(2**31)))
  obs.count('samples', 2 * N)
  obs.key('pair', which, int(r.integers(2**31)))
  if which == 'max':
    k, data, eps = max_setup(r)
    other = np.append(data, int(r.integers(k)))
    m = M['mech'].NoisyMaxMechanism(M['mcfg'].NoisyMaxMechanismConfig(eps, k), rng)
    ratio_test(obs, 'max-privacy', m(data, N).tolist(), m(other, N).tolist(), eps, dict(eps=eps, k=k, data=data.tolist()))
    return
  if which == 'mean':
    eps = float(math.exp(r.uniform(math.log(.1), math.log(2))))
    data = r.choice([0., 1.], int(r.integers(1, 6)))
    other = np.append(data, float(r.integers(2)))
    m = M['mech'].MeanMechanism(M['mutil'].default_mean_mechanism_config_generator('private_mean', eps), rng)
    a, b = m(data, N)[:, 0], m(other, N)[:, 0]
    cuts = np.quantile(np.concatenate([a, b]), [.02, .1, .3, .5, .7, .9, .98])
    ratio_test(obs, 'mean-privacy', np.searchsorted(cuts, a).tolist(), np.searchsorted(cuts, b).tolist(), eps, dict(eps=eps, data=data.tolist()))
    return
  v = int(which[3])
  lo, hi, m, c, kind, data, eps, T = svt_setup(r)
  hi, lo = hi - lo, 0.0
  c = max(1, c)
  data = r.choice([lo, hi], len(data))
  other = np.append(data, lo if r.random() < .3 else hi)
  q1, q2 = svt_queries(kind, data, lo, hi, m), svt_queries(kind, other, lo, hi, m)
  T = float(mech.pick(r, [q1[0], q2[0], (q1[0] + q2[0]) / 2, q1[0] + 2 * hi]))
  mm = getattr(M['mech'], 'SVT%d' % v)(svt_cfg(M, eps, lo, hi, kind, m, T, c), rng)
  a, b = read_patterns(M, v, mm(data, N)), read_patterns(M, v, mm(other, N))
  bound = eps if v != 4 else (1 + 6 * c) / 4 * eps
  ctx = dict(variant=v, eps=eps, hi=hi, queries=m, positives=c, query=kind, threshold=T, data=data.tolist(), added=float(other[-1]))
  ratio_test(obs, 'svt-privacy', a, b, bound, ctx)
  # any set of outputs is bounded too: the event "number of positives >= j"
  for j in range(1, c + 1):
    ratio_test(obs, 'svt-privacy', [p.count('+') >= j for p in a], [p.count('+') >= j for p in b], bound, ctx)


def run_reject(r, obs, M, N):
  lo, hi, m, c, kind, data, eps, T = svt_setup(r)
  for v in range(1, 7):
    cls = getattr(M['mech'], 'SVT%d' % v)
    for what in ('type', 'ndim', 'short'):
      cfg = svt_cfg(M, eps, lo, hi, {'type': 'SUM', 'ndim': kind, 'short': 'REVEAL_RECORDS'}[what], m, T, c)
      x = data if what == 'type' else (data.reshape(-1, 1) if what == 'ndim' else data[:int(r.integers(2))])
      if what == 'type':
        cfg.query_type = M['mcfg'].QueryType.QUERY_TYPE_UNSPECIFIED
      try:
        cls(cfg, np.random.default_rng(1))(x, 10)
        ok = False
      except ValueError:
        ok = True
      obs.count('rejected')
      obs.check(ok, 'svt-accepts-' + what, 'an invalid configuration or data set was accepted', variant=v)
  try:
    M['mutil'].default_mean_mechanism_config_generator('private_mean_v%d' % int(r.integers(9)), eps)
    ok = False
  except AttributeError:
    ok = True
  obs.check(ok, 'mean-name', 'an unknown mechanism name was accepted')


def run(case, obs):
  r = np.random.default_rng(case['s'])
  M = aud.load()
  N = 4000
  {'max': run_max, 'mean': run_mean, 'svt': run_svt, 'pair': run_pair, 'reject': run_reject}[case['family']](r, obs, M, N)
