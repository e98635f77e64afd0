"""P03: composition is exact convolution up to declared truncation."""
import numpy as np
from vlib import mech, pmf

PROPERTY = 'P03'
RULE = ('an observation is one delta of a composed distribution compared with the long-double '
        'convolution; non-trivial when the reference delta lies in (1e-12, 1); distinct by operand shapes, operation and epsilon')
ASSUMPTIONS = ['reference: direct long-double convolution of the operands given to the public constructor',
               'floating-point slack 2e-14 per composition plus 1e-9 relative',
               'truncation allowance: the requested mass per compose, twice the requested mass per self_compose (both tails and wrap-around)']
TAILS = [None, None, 0, 0, 1e-15, 1e-10, 1e-6, 1e-3, .05]


def REQUIRED(tier):
  return {'points': 20000, 'compose': 400, 'self_compose': 250, 'truncated_ops': 150, 'asymmetric': 100, 'utility_convolutions': 400}


def cases(seed, tier):
  n = 7000 if tier == 'quick' else 70000
  out = []
  for i in range(n):
    fam = ['pair', 'self', 'chain', 'pair', 'self', 'mixed', 'bigself'][i % 7]
    if i % 20 == 9:
      fam = 'many'
    if i % 20 == 14:
      fam = 'utilities'
    out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def compare(obs, pl, ref, r, pess, tag, n=14, desc=None):
  pts = ref.eps_points(r, n)
  # The total-mass probe.
  for e in pts:
    want = ref.delta(e)
    got = float(pl.get_delta_for_epsilon(e))
    sl = ref.slack(want)
    if e < -30 and want > 1e-3:
      obs.count('mass_probes')
    obs.count('points')
    if 1e-12 < want < 1:
      obs.key(tag, round(e, 9), round(want, 12))
    hi = want + ref.tail + sl
    lo = want - sl - (0 if pess else ref.tail)
    obs.check(got >= lo, 'composed-delta-too-small:' + tag, 'composition lost probability mass or loss',
              eps=e, got=got, want=want, tail=ref.tail, desc=desc)
    obs.check(got <= hi, 'composed-delta-too-large:' + tag, 'composition added more than the truncation mass',
              eps=e, got=got, want=want, tail=ref.tail, desc=desc)
  # Infinite mass.
  want = float(max(i for _, _, i in ref.dirs))
  got = float(pl.get_delta_for_epsilon(ref.span()[1] + 30))
  obs.check(want - ref.slack(want) <= got <= want + ref.tail + ref.slack(want), 'infinity-mass:' + tag,
            'infinite-loss mass of the composition is wrong', got=got, want=want, tail=ref.tail, desc=desc)


def comp(pl, ref, pl2, ref2, t):
  if t is None:
    return pl.compose(pl2), ref.compose(ref2, 1e-15)
  return pl.compose(pl2, t), ref.compose(ref2, t)


def selfc(pl, ref, n, t):
  if t is None:
    return pl.self_compose(n), ref.power(n, 1e-15)
  return pl.self_compose(n, t), ref.power(n, t)


def run(case, obs):
  r = mech.rng_of(case['s'], 'p03')
  fam = case['family']
  h = mech.pick(r, [1e-3, 1e-2, .1, .5, 1.0, mech.logu(r, 1e-4, .3)])
  pess = bool(r.random() < .75)
  if fam == 'many':
    return many(r, h, pess, obs)
  if fam == 'utilities':
    return utilities(r, obs)
  if fam == 'pair':
    a, ra = pmf.random_pld(r, h, pess)
    b, rb = pmf.random_pld(r, h, pess)
    t = mech.pick(r, TAILS)
    c, rc = comp(a, ra, b, rb, t)
    obs.count('compose')
    obs.count('truncated_ops', bool(t))
    obs.count('asymmetric', len(rc.dirs) == 2)
    compare(obs, c, rc, r, pess, 'compose', desc=[ra.max_len(), rb.max_len(), t, pess])
  elif fam == 'self':
    size = mech.pick(r, ['one', 'tiny', 'tiny', 'tiny', 'gap', 'mid'])
    a, ra = pmf.random_pld(r, h, pess, size)
    cap = 6000 if ra.max_len() > 200 else 3000
    nmax = max(2, cap // max(1, ra.max_len()))
    n = int(mech.pick(r, [1, 2, 3, 4, 5, int(r.integers(1, nmax + 1)), nmax]))
    t = mech.pick(r, TAILS)
    c, rc = selfc(a, ra, n, t)
    obs.count('self_compose')
    obs.count('truncated_ops', bool(t))
    compare(obs, c, rc, r, pess, 'self_compose', desc=[ra.max_len(), n, t, pess])
  elif fam == 'bigself':
    size = mech.pick(r, ['edge', 'dense', 'gap'])
    a, ra = pmf.random_pld(r, h, pess, size, sym=True)
    n = int(r.integers(2, 5))
    t = mech.pick(r, TAILS)
    c, rc = selfc(a, ra, n, t)
    obs.count('self_compose')
    obs.count('truncated_ops', bool(t))
    compare(obs, c, rc, r, pess, 'self_compose', 8, desc=[ra.max_len(), n, t, pess])
  else:
    # A random history of compositions over a small pool of distributions.
    pool = [pmf.random_pld(r, h, pess, mech.pick(r, ['one', 'tiny', 'tiny', 'gap', 'mid'])) for _ in range(3)]
    cur, rcur = pool[int(r.integers(3))]
    ops = []
    for _ in range(int(r.integers(2, 7))):
      t = mech.pick(r, TAILS)
      if r.random() < .3 and rcur.max_len() < 600:
        n = int(r.integers(1, 5))
        cur, rcur = selfc(cur, rcur, n, t)
        ops.append(['self', n, t])
        obs.count('self_compose')
      else:
        j = int(r.integers(3))
        if rcur.max_len() + pool[j][1].max_len() > 9000:
          continue
        if r.random() < .5:
          cur, rcur = comp(cur, rcur, pool[j][0], pool[j][1], t)
        else:
          cur, rcur = comp(pool[j][0], pool[j][1], cur, rcur, t)
        ops.append(['compose', j, t])
        obs.count('compose')
      obs.count('truncated_ops', bool(t))
      if r.random() < .3:
        pool[int(r.integers(3))] = (cur, rcur)
      if fam == 'mixed':
        compare(obs, cur, rcur, r, pess, 'history', 4, desc=ops)
    obs.count('asymmetric', len(rcur.dirs) == 2)
    compare(obs, cur, rcur, r, pess, 'history', 10, desc=ops)


def many(r, h, pess, obs):
  """Very many self-compositions of a two-point loss: binomial reference."""
  from scipy import stats
  from dp_accounting.pld import privacy_loss_distribution as P
  n = int(mech.logu(r, 10, 60000))
  p = mech.pick(r, [.5, mech.logu(r, 1e-6, .5), 1 - mech.logu(r, 1e-6, .5)])
  inf = mech.pick(r, [0.0, 0.0, mech.logu(r, 1e-15, .5) / n, 1e-18])
  lo, gap = int(r.integers(-3, 3)), int(r.integers(1, 4))
  t = mech.pick(r, [None, None, 0, 1e-15, 1e-12, 1e-8, 1e-5, 1e-2])
  hh = mech.logu(r, .1, 20) / n ** .5 / gap
  d = {lo: (1 - inf) * (1 - p), lo + gap: (1 - inf) * p}
  a = P.PrivacyLossDistribution.create_from_rounded_probability(d, inf, hh, pess)
  c = a.self_compose(n) if t is None else a.self_compose(n, t)
  tail = 2 * (1e-15 if t is None else t)
  k = np.arange(n + 1)
  # Conditional on no infinite loss the number of upper losses is binomial.
  w = stats.binom.pmf(k, n, d[lo + gap] / (d[lo] + d[lo + gap]))
  infn = -np.expm1(n * np.log1p(-inf))
  fin = np.exp(n * np.log1p(-inf))
  losses = (lo * n + gap * k) * hh
  mean, sd = float(np.dot(w, losses)), float(np.sqrt(max(np.dot(w, (losses - np.dot(w, losses)) ** 2), 1e-300)))
  pts = [mean + sd * float(r.normal()) for _ in range(6)] + [0.0, mean + 6 * sd, mean - 8 * sd, losses[-1] + hh]
  pts += [round(pts[0] / hh) * hh]
  obs.count('self_compose')
  obs.count('many_compositions')
  obs.count('truncated_ops', bool(t))
  for e in pts:
    m = losses > e
    want = float(infn + fin * np.dot(w[m], -np.expm1(e - losses[m])))
    got = float(c.get_delta_for_epsilon(e))
    sl = 1e-9 * want + 1e-12 + n * 6e-16
    obs.count('points')
    if 1e-10 < want < 1:
      obs.key('many', n, round(e, 9), t)
    obs.check(got >= want - sl - (0 if pess else tail), 'composed-delta-too-small:self_compose', 'composition lost probability mass or loss',
              eps=e, got=got, want=want, n=n, tail=t, p=p, inf=inf)
    obs.check(got <= want + sl + tail, 'composed-delta-too-large:self_compose', 'composition added more than the truncation mass',
              eps=e, got=got, want=want, n=n, tail=t, p=p, inf=inf)


def random_dict(r):
  k = int(mech.pick(r, [1, 2, 3, 10, 60]))
  span = int(mech.pick(r, [1, 3, 40, 400]))
  keys = sorted({int(v) for v in r.integers(-span, span + 1, k)})
  w = r.dirichlet(np.full(len(keys), mech.pick(r, [.1, 1, 10])))
  w = np.maximum(w, 1e-12)
  w = w / w.sum() * mech.pick(r, [1.0, 1.0, .5, 1e-3, 1 - 1e-9])
  d = {k: float(v) for k, v in zip(keys, w)}
  if r.random() < .3:
    d = dict(sorted(d.items(), key=lambda z: r.random()))
  return d


def dense(d):
  lo, hi = min(d), max(d)
  a = np.zeros(hi - lo + 1, dtype=pmf.LD)
  for k, v in d.items():
    a[k - lo] = v
  return lo, a


def utilities(r, obs):
  """The public convolution helpers the distributions are built from."""
  from dp_accounting.pld import common
  t = mech.pick(r, [None, 0, 0, 1e-15, 1e-9, 1e-4, .05])
  tt = 0.0 if t is None else t
  kw = {} if t is None else dict(tail_mass_truncation=t)
  d1, d2 = random_dict(r), random_dict(r)
  n = int(mech.pick(r, [1, 2, 3, 7, int(r.integers(1, 40))]))
  keep1, keep2 = dict(d1), dict(d2)
  lo, a = dense(d1)
  off, l1 = common.dictionary_to_list(d1)
  obs.check(off == lo and [float(v) for v in a] == [float(v) for v in l1], 'utility:to-list', 'the list form of a dictionary is wrong', d=d1)
  back = common.list_to_dictionary(l1, off)
  obs.check({k: float(v) for k, v in back.items()} == d1, 'utility:to-dictionary', 'the dictionary form of a list is wrong', d=d1, got=back)

  def judge(got, want_lo, want, allow, tag):
    # got: key -> value; want: array at want_lo
    obs.count('utility_convolutions')
    obs.key(tag, len(want), n, t, round(float(want[len(want) // 2]), 12))
    diff, lost = 0.0, 0.0
    for i, w in enumerate(want):
      g = float(got.get(want_lo + i, 0.0))
      e = g - float(w)
      diff += max(e, 0.0)
      lost += max(-e, 0.0)
    sl = 1e-13 * (1 + len(want)) ** .5 * (1 + n)
    extra = sum(abs(float(v)) for k, v in got.items() if not want_lo <= k < want_lo + len(want))
    obs.check(extra <= sl, 'utility:outside:' + tag, 'mass outside the support of the convolution', extra=extra, d1=d1, d2=d2, n=n, t=t)
    obs.check(lost <= allow + sl, 'utility:lost:' + tag, 'the convolution lost more than the truncation mass', lost=lost, allow=allow, d1=d1, d2=d2, n=n, t=t)
    obs.check(diff <= allow + sl, 'utility:gained:' + tag, 'the convolution gained mass', gained=diff, allow=allow, d1=d1, d2=d2, n=n, t=t)

  # A plain truncation of a list.
  judge(common.list_to_dictionary(l1, off, **kw), lo, a, tt, 'truncate')
  lo2, b = dense(d2)
  judge(common.convolve_dictionary(d1, d2, **kw), lo + lo2, pmf.conv(a, b), tt, 'convolve')
  ref = pmf.Ref(1.0, [(lo, a, pmf.LD(0))]).power(n)
  judge(common.self_convolve_dictionary(d1, n, **kw), ref.dirs[0][0], ref.dirs[0][1], 2 * tt, 'self_convolve')
  o, lst = common.self_convolve(l1 if r.random() < .5 else np.array(l1), n, **kw)
  judge({n * off + o + i: v for i, v in enumerate(lst)}, ref.dirs[0][0], ref.dirs[0][1], 2 * tt, 'self_convolve_list')
  orders = None if r.random() < .6 else [float(v) for v in r.choice([-3, -1, -.3, -.01, .01, .2, 1, 2.5], int(r.integers(1, 5)), replace=False)]
  lb, ub = common.compute_self_convolve_bounds(l1, n, tt, orders)
  w = ref.dirs[0][1]
  outside = float(np.sum(w[:max(lb, 0)]) + np.sum(w[ub + 1:]))
  obs.check(0 <= lb <= ub <= (len(l1) - 1) * n or outside <= tt, 'utility:bounds-range', 'the self-convolution bounds are out of range', lb=lb, ub=ub, d1=d1, n=n, t=t)
  obs.check(outside <= tt + 1e-14, 'utility:bounds', 'more mass than the truncation lies outside the bounds', outside=outside, lb=lb, ub=ub, d1=d1, n=n, t=t, orders=orders)
  obs.check(d1 == keep1 and d2 == keep2, 'utility:modified', 'an operand was modified')
