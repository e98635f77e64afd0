"""P22: every data point influences a bounded set of noised queries."""
import math
import numpy as np
from vlib import clu, mech

PROPERTY = 'P22'
RULE = ('an observation is one tree built by a real clustering run (or one node split, one clipping call, one pair of neighbouring '
        'data sets); distinct by data set, thresholds, depth, hash vectors and noise seed')
ASSUMPTIONS = ['points are finite', 'noise is the real noise (or switched off by an infinite budget for the neighbouring pairs)']


def REQUIRED(tier):
  return {'trees': 250, 'nodes': 4000, 'splits': 1500, 'pruned_nodes': 300, 'leaves': 1500, 'empty_children': 100, 'single_branch_kept': 100,
          'neighbour_pairs': 200, 'neighbour_outside': 60, 'clip_calls': 300, 'empty_data': 10, 'restarts_of_count': 1000, 'clipped': 3000, 'draws': 5000, 'pruned_explained': 2000}


def cases(seed, tier):
  n = 3 if tier == 'quick' else 30
  out = []
  for fam, k in (('tree', 300), ('run', 60), ('neighbour', 300), ('clip', 400), ('hash', 250), ('script', 150)):
    for i in range(k * n):
      out.append(dict(family=fam, s=seed * 1000003 + i))
  return out


def rows(x):
  return sorted(map(bytes, np.ascontiguousarray(np.asarray(x, dtype=float)))) if len(x) else []


def thresholds(r, M, depth=None):
  t = int(np.exp(r.uniform(0, 4.5)))
  b = t if r.random() < .3 else int(t * r.uniform(1, 4)) + int(r.integers(0, 3))
  return M['par'].TreeParam(max(b, t), t, int(r.integers(0, 9)) if depth is None else depth)


def hash_vectors(r, dim, depth):
  v = r.normal(size=(depth, dim))
  m = r.random()
  if m < .15 and depth:
    v[int(r.integers(depth))] = 0              # everything projects to zero
  elif m < .3 and depth > 1:
    v[1] = v[0]                                # repeated hyperplane: empty children
  elif m < .45:
    v = np.sign(v) * (r.random(size=v.shape) < .5)   # points exactly on the hyperplane
  return v


def same_points(obs, parent, kids, mechn, ctx):
  a, b = rows(parent), []
  for k in kids:
    b += rows(k)
  obs.check(a == sorted(b), mechn + ':partition', 'the children do not partition the points of their parent', parent=len(a),
            children=[len(k) for k in kids], **ctx)


def audit(M, obs, root, tree, mechn, ctx, X, counts_seen=None):
  """Independent traversal of a finished tree."""
  tp = root.coreset_param.tree_param
  obs.count('trees')
  nodes = {}
  obs.check(sorted(tree.tree) == list(range(len(tree.tree))), mechn + ':level-index', 'levels are not numbered consecutively', **ctx)
  for lv, ns in tree.tree.items():
    for nd in ns:
      obs.count('nodes')
      obs.check(len(nd.hash_prefix) == lv, mechn + ':level', 'a node sits on the wrong level', prefix=nd.hash_prefix, level=lv, **ctx)
      obs.check(nd.hash_prefix not in nodes, mechn + ':duplicate', 'two nodes have the same hash prefix', prefix=nd.hash_prefix, **ctx)
      nodes[nd.hash_prefix] = nd
      obs.check(lv <= tp.max_depth, mechn + ':depth', 'the tree is deeper than its limit', level=lv, **ctx)
  v = np.asarray(root.sim_hash.projection_vectors)
  # Which points belong to a prefix is decided by the signs of the projections.
  X = np.asarray(X, dtype=float)
  sign = (np.matmul(X, v.T) >= 0) if len(v) else np.zeros((len(X), 0), bool)
  margin = np.abs(np.matmul(X, v.T)) / np.maximum(1e-300, np.abs(X) @ np.abs(v.T)) if len(v) else np.ones((len(X), 0))
  obs.check(rows(nodes[''].nonprivate_points) == rows(X), mechn + ':root', 'the root does not hold the clipped data', **ctx)
  for p, nd in nodes.items():
    if p:
      par = nodes.get(p[:-1])
      if not obs.check(par is not None, mechn + ':orphan', 'a node of the tree has no parent', prefix=p, **ctx):
        continue
      obs.check(par.private_count >= tp.min_num_points_in_branching_node, mechn + ':branch-threshold',
                'a node below the branching threshold was split', parent=p[:-1], count=par.private_count, **ctx)
      obs.check(nd.private_count >= tp.min_num_points_in_node, mechn + ':keep-threshold', 'a node below the threshold was kept', prefix=p,
                count=nd.private_count, **ctx)
    # Prefix chars: '0' for nonnegative projections, or any fixed assignment of the two sides.
    want = np.ones(len(X), bool)
    clear = np.ones(len(X), bool)
    for i, c in enumerate(p):
      want &= sign[:, i] == (c == '0')
      clear &= margin[:, i] > 1e-12
    if clear.all():
      ok = rows(X[want]) == rows(nd.nonprivate_points)
      obs.check(ok, mechn + ':members', 'a node does not hold exactly the points with its hash prefix', prefix=p, expected=int(want.sum()),
                got=len(nd.nonprivate_points), **ctx)
  # Leaves: nodes without children in the tree.
  kids = {}
  for p in nodes:
    if p:
      kids.setdefault(p[:-1], []).append(p)
  expect = sorted(p for p in nodes if p not in kids)
  got = sorted(x.hash_prefix for x in tree.leaves)
  obs.count('leaves', len(got))
  obs.check(expect == got, mechn + ':leaves', 'the leaves are not exactly the nodes without children', expected=expect[:20], got=got[:20], **ctx)
  obs.check(all(x is nodes.get(x.hash_prefix) for x in tree.leaves), mechn + ':leaf-identity', 'a leaf is not the node of the tree', **ctx)
  # Exposure: leaf point sets are disjoint parts of the data (as multisets).
  pool = {}
  for x in rows(X):
    pool[x] = pool.get(x, 0) + 1
  over = 0
  for lf in tree.leaves:
    for x in rows(lf.nonprivate_points):
      pool[x] = pool.get(x, 0) - 1
      over += pool[x] < 0
  obs.check(over == 0, mechn + ':exposure', 'a data point contributes to more than one released average', points=over, **ctx)
  # Coverage: a missing point must sit in a pruned node; a node missing although its parent was split must have been pruned.
  missing = sum(c for c in pool.values() if c > 0)
  pruned = 0
  for p, nd in nodes.items():
    split = len(p) < tp.max_depth and nd.private_count >= tp.min_num_points_in_branching_node
    obs.count('splits', split)
    ks = kids.get(p, [])
    if not split:
      obs.check(not ks, mechn + ':split-anyway', 'a node was split although its count or depth does not allow it', prefix=p, **ctx)
    elif ks:
      have = sum(len(nodes[q].nonprivate_points) for q in ks)
      if len(ks) == 1:
        obs.count('single_branch_kept')
      lost = len(nd.nonprivate_points) - have
      obs.check(lost >= 0 and (len(ks) == 1 or lost == 0), mechn + ':children-size', 'kept children do not partition their parent',
                parent=len(nd.nonprivate_points), kept=have, kids=ks, **ctx)
      pruned += lost
      obs.count('pruned_nodes', 2 - len(ks))
    else:
      obs.count('pruned_nodes', 2)
  obs.check(missing == pruned, mechn + ':coverage', 'points are missing from the leaves without having been pruned', missing=missing,
            pruned=pruned, **ctx)
  # With noise switched off, pruning must be exactly what the counts say.
  if root.coreset_param.pcalc.count_privacy_param.laplace_param == math.inf:
    for p, nd in nodes.items():
      if len(p) < tp.max_depth and nd.private_count >= tp.min_num_points_in_branching_node:
        part = [nd.nonprivate_points[m] for m in (np.matmul(np.asarray(nd.nonprivate_points, float), v[len(p)]) >= 0,
                                                  np.matmul(np.asarray(nd.nonprivate_points, float), v[len(p)]) < 0)]
        want = sum(len(q) >= tp.min_num_points_in_node for q in part)
        obs.check(len(kids.get(p, [])) == want, mechn + ':pruning', 'children were pruned or kept against the threshold', prefix=p,
                  sizes=[len(q) for q in part], kept=len(kids.get(p, [])), threshold=tp.min_num_points_in_node, **ctx)
      if p or not ctx.get('rooted', True):
        obs.check(nd.private_count == len(nd.nonprivate_points), mechn + ':exact-count', 'the count is not exact although noise is off', prefix=p,
                  count=nd.private_count, size=len(nd.nonprivate_points), **ctx)
  # The count of a node is released once.
  for nd in nodes.values():
    c = nd.private_count
    obs.count('restarts_of_count')
    obs.check(all(nd.get_private_count() == c for _ in range(3)) and nd.private_count == c, mechn + ':count-again',
              'asking a node for its count again releases a different count', **ctx)
  for lf in tree.leaves[:20]:
    if lf.private_count >= 1:
      a = np.array(lf.get_private_average())
      obs.check(np.array_equal(a, lf.get_private_average()) and np.array_equal(a, lf.get_private_average()), mechn + ':average-again',
                'asking a leaf for its average again releases a different average', **ctx)
  return nodes


def released(obs, nodes, root, drawn, mechn, ctx):
  """Every child of a split node had its count noised once, and was kept exactly if that count reaches the threshold.

  drawn: all noise values drawn while root and tree were made (the order does not matter).
  """
  tp = root.coreset_param.tree_param
  v = np.asarray(root.sim_hash.projection_vectors)
  splits = [p for p, nd in nodes.items() if len(p) < tp.max_depth and nd.private_count >= tp.min_num_points_in_branching_node]
  obs.count('draws', len(drawn))
  if not obs.check(len(drawn) == 1 + 2 * len(splits), mechn + ':queries', 'the number of noised counts is not one for the root and one for every child',
                   draws=len(drawn), splits=len(splits), **ctx):
    return
  left = {}
  for d in drawn:
    left[int(d)] = left.get(int(d), 0) + 1
  for p, nd in nodes.items():
    noise = int(nd.private_count) - len(nd.nonprivate_points)
    if p == '' and 'raised_root' in ctx:
      noise = ctx['raised_root'] - len(nd.nonprivate_points)
    left[noise] = left.get(noise, 0) - 1
  if not obs.check(min(left.values()) >= 0, mechn + ':count-noise', 'the count of a node is not its size plus the noise drawn for it', **ctx):
    return
  noises = sorted(k for k, c in left.items() for _ in range(c))
  gone = []
  ties = 0    # points whose side depends on how the projection is rounded
  for p in splits:
    pts = np.asarray(nodes[p].nonprivate_points, float)
    proj = np.matmul(pts, v[len(p)])
    side = proj >= 0
    ties += int((np.abs(proj) < 1e-12 * (np.abs(pts) @ np.abs(v[len(p)]))).sum())
    n = [int(side.sum()), int((~side).sum())]
    for q in ('0', '1'):
      if p + q in nodes:
        m = len(nodes[p + q].nonprivate_points)
        n.remove(m if m in n else min(n, key=lambda z: abs(z - m)))
    gone += n
  gone.sort(reverse=True)
  ok = len(gone) == len(noises) and all(a + b < tp.min_num_points_in_node + ties for a, b in zip(gone, noises))
  obs.count('pruned_explained', len(gone))
  obs.check(ok, mechn + ':pruned', 'a child was left out although its noised count reaches the threshold', sizes=gone[:40], noises=noises[-40:],
            threshold=tp.min_num_points_in_node, **ctx)


def make(M, r, x, rad, tp, lap, std, vec=None):
  pc = clu.FixedCalc(M, std, rad, lap)
  cp = M['core'].CoresetParam(pc, tp, 'x', rad)
  vec = hash_vectors(r, x.shape[1], tp.max_depth) if vec is None else vec
  return M['tree'].LshTreeNode('', x, cp, M['lsh'].SimHash(x.shape[1], tp.max_depth, vec))


def run(case, obs):
  M = clu.load()
  r = mech.rng_of(case['s'], case['family'])
  np.random.seed(int(r.integers(2 ** 31)))
  f = case['family']
  if f == 'tree':
    x, rad, kind = clu.dataset(r)
    if r.random() < .05:
      x = x[:0]
    x = clu.clip(x, rad)
    tp = thresholds(r, M)
    lap = math.inf if r.random() < .3 else float(10 ** r.uniform(-2, 1))
    std = 0.0 if lap == math.inf else float(rad * 10 ** r.uniform(-2, 1))
    tap = clu.Tap()
    with tap.on():
      root = make(M, r, x, rad, tp, lap, std)
      ctx = dict(n=len(x), kind=kind, tp=repr(tp), laplace=lap)
      if len(x) == 0:
        obs.count('empty_data')
      if root.private_count < 1:
        ctx['raised_root'] = int(root.private_count)
        root.private_count = 1
        ctx['rooted'] = True
      tree = M['tree'].LshTree(root)
    obs.key(repr(ctx), case['s'])
    nodes = audit(M, obs, root, tree, 'tree', ctx, x)
    if lap != math.inf:
      released(obs, nodes, root, [v for _, d in tap.counts for v in np.ravel(d)], 'tree', ctx)
  elif f == 'script':
    # Noise outcomes chosen adversarially instead of drawn: any integer may come out.
    x, rad, kind = clu.dataset(r)
    x = clu.clip(x, rad)
    tp = thresholds(r, M)
    noises = [0, 1, -1, tp.min_num_points_in_node, -tp.min_num_points_in_node, tp.min_num_points_in_branching_node, 10 ** 9, -10 ** 9,
              tp.min_num_points_in_branching_node - 1, tp.min_num_points_in_node - 1]
    from scipy import stats
    weights = r.dirichlet(np.ones(len(noises)))
    drawn = []

    def scripted(*a, **k):
      size = k.get('size', None)
      n = r.choice(noises, size=size, p=weights)
      drawn.extend(np.ravel(n))
      return n if size is not None else int(n)
    stats.dlaplace.rvs = scripted
    try:
      root = make(M, r, x, rad, tp, 1.0, float(rad))
      ctx = dict(n=len(x), kind=kind, tp=repr(tp), scripted=True)
      if root.private_count < 1:
        ctx['raised_root'] = int(root.private_count)
        root.private_count = 1
      obs.key(repr(ctx), case['s'])
      nodes = audit(M, obs, root, M['tree'].LshTree(root), 'script', ctx, x)
      released(obs, nodes, root, drawn, 'script', ctx)
    finally:
      del stats.dlaplace.rvs
  elif f == 'run':
    P = M['par']
    x, rad, kind = clu.dataset(r)
    if r.random() < .1:
      x = np.zeros((0, x.shape[1]))
    eps = math.inf if r.random() < .4 else float(10 ** r.uniform(-.3, .7))
    tp = thresholds(r, M)
    if r.random() < .3:
      tp = None
    tr = clu.Trees(M)
    data = P.Data(x, rad)
    if len(x) == 0:
      obs.count('empty_data')
    with tr.on():
      M['algo'].private_lsh_clustering(int(r.integers(1, 8)), data, P.DifferentialPrivacyParam(eps, 1e-3), tree_param=tp)
    ctx = dict(n=len(x), kind=kind, tp=repr(tp), eps=eps, rooted=True)
    obs.key(repr(ctx), case['s'])
    cl = clu.clip(x, rad)
    for t in tr.trees:
      root = t.tree[0][0]
      got = np.asarray(root.nonprivate_points, dtype=float)
      ok = got.shape == cl.shape and np.all(np.abs(got - cl) <= 1e-9 * (rad + np.abs(cl)))
      obs.check(ok, 'run:clipped-data', 'the tree is not built from the data clipped to the radius', **ctx)
      if ok:
        obs.count('clipped', int((np.sqrt((np.asarray(x, float) ** 2).sum(1)) > rad).sum()))
        audit(M, obs, root, t, 'run', ctx, got)
  elif f == 'neighbour':
    neighbours(M, r, obs)
  elif f == 'clip':
    clipping(M, r, obs)
  else:
    hashing(M, r, obs)


def neighbours(M, r, obs):
  """One extra point changes one leaf sum by at most the radius and one count per level by one."""
  P = M['par']
  x, rad, kind = clu.dataset(r, n=int(r.integers(0, 120)))
  x = np.asarray(x, dtype=float)
  dim = x.shape[1]
  m = r.random()
  y = r.normal(size=(1, dim)) * rad * 10.0 ** r.integers(-3, 8)
  if m < .2 and len(x):
    y = x[[int(r.integers(len(x)))]].copy()
  elif m < .3:
    y[:] = 0
  pos = int(r.integers(0, len(x) + 1))
  x2 = np.concatenate([x[:pos], y, x[pos:]])
  obs.count('neighbour_outside', bool(np.sqrt((y ** 2).sum()) > rad))
  tp = P.TreeParam(1, 1, int(r.integers(0, 7)))
  if r.random() < .5:
    tp = thresholds(r, M)
  vec = hash_vectors(r, dim, tp.max_depth)
  out = []
  for data in (x, x2):
    d = P.Data(data, rad)
    root = make(M, r, d.clip_by_radius(), rad, tp, math.inf, 0.0, vec)
    root.private_count = max(1, root.private_count)
    t = M['tree'].LshTree(root)
    cnt = {nd.hash_prefix: len(nd.nonprivate_points) for ns in t.tree.values() for nd in ns}
    sums = {nd.hash_prefix: np.asarray(nd.get_private_average()) * nd.private_count for nd in t.leaves}
    out.append((cnt, sums))
  (c1, s1), (c2, s2) = out
  obs.count('neighbour_pairs')
  ctx = dict(n=len(x), kind=kind, dim=dim, limit=rad, tp=repr(tp))
  obs.key(repr(ctx), pos, y.tobytes())
  both = set(c1) & set(c2)
  diff = {p: c2[p] - c1[p] for p in both if c1[p] != c2[p]}
  obs.check(all(v == 1 for v in diff.values()), 'neighbour:count', 'one extra point changes a count by more than one', diff=diff, **ctx)
  bylev = {}
  for p in diff:
    bylev[len(p)] = bylev.get(len(p), 0) + 1
  obs.check(all(v == 1 for v in bylev.values()), 'neighbour:levels', 'one extra point changes two counts of one level', diff=diff, **ctx)
  obs.check(c2.get('') == c1.get('') + 1 if '' in both else True, 'neighbour:root', 'the root does not count the extra point', **ctx)
  leaves = set(s1) & set(s2)
  moved = {}
  for p in leaves:
    dlt = float(np.sqrt(((s2[p] - s1[p]) ** 2).sum()))
    if dlt > 1e-9 * rad * (1 + c2[p]):
      moved[p] = dlt
  obs.check(len(moved) <= 1, 'neighbour:sums', 'one extra point changes two released sums', moved=moved, **ctx)
  obs.check(all(v <= rad * (1 + 1e-9) + 1e-9 * rad * (1 + c2[p]) for p, v in moved.items()), 'neighbour:norm',
            'one extra point changes a released sum by more than the radius', moved=moved, **ctx)


def clipping(M, r, obs):
  P = M['par']
  x, rad, kind = clu.dataset(r)
  if r.random() < .1:
    x = x[:0]
    obs.count('empty_data')
  m = r.random()
  if m < .2:
    x = np.asarray(x, dtype=np.float32)
  elif m < .3:
    x = np.asarray(x, dtype=int)
  elif m < .4:
    x = np.asarray(x, dtype=float) * 10.0 ** float(r.uniform(-150, 100))
  elif m < .5 and len(x):
    x = np.asarray(x, dtype=float)
    nr = np.linalg.norm(x, axis=1, keepdims=True)
    x = x / np.where(nr > 0, nr, 1) * rad       # exactly on the sphere up to rounding
  keep = np.array(x)
  d = P.Data(x, rad)
  own = r.random() < .5
  if own:
    got = d.clip_by_radius()
  else:
    got = P.Data(np.zeros((1, x.shape[1])), rad).clip_by_radius(x)
  obs.count('clip_calls')
  ctx = dict(n=len(x), kind=kind, dtype=str(x.dtype), limit=rad, own=own)
  obs.key(repr(ctx), keep.tobytes())
  obs.check(np.array_equal(keep, x), 'clip:mutated', 'clipping changed its input', **ctx)
  tol = 1e-5 if x.dtype == np.float32 else 1e-9
  obs.check(np.shape(got) == np.shape(x), 'clip:shape', 'clipping changed the shape', **ctx)
  if len(x):
    xf = np.asarray(keep, dtype=float)
    nr = np.sqrt((xf ** 2).sum(1))
    gn = np.sqrt((np.asarray(got, float) ** 2).sum(1))
    obs.count('clipped', int((nr > rad).sum()))
    obs.check(bool(np.all(gn <= rad * (1 + tol))), 'clip:norm', 'a clipped point is outside of the radius', worst=float(gn.max()), **ctx)
    inside = nr <= rad * (1 - 1e-6)
    obs.check(np.array_equal(np.asarray(got)[inside], xf[inside].astype(np.asarray(got).dtype)), 'clip:inside', 'a point inside the radius was changed', **ctx)
    ref = clu.clip(xf, rad)
    obs.check(bool(np.all(np.abs(np.asarray(got, float) - ref) <= tol * rad)), 'clip:projection', 'a point outside is not scaled to the radius', **ctx)


def hashing(M, r, obs):
  x, rad, kind = clu.dataset(r)
  x = np.asarray(x)
  L = int(r.integers(1, 9))
  own = r.random() < .4
  sh = M['lsh'].SimHash(x.shape[1], L, None if own else hash_vectors(r, x.shape[1], L))
  pv = np.array(sh.projection_vectors)
  ctx = dict(n=len(x), kind=kind, hash_len=L)
  obs.check(pv.shape == (L, x.shape[1]), 'hash:shape', 'wrong number of hash vectors', shape=pv.shape, **ctx)
  cur = [('', x)]
  for lv in range(L):
    nxt = []
    for p, pts in cur:
      g = sh.group_by_next_hash(pts, p)
      obs.count('splits')
      same_points(obs, pts, list(g.values()), 'hash', ctx)
      obs.check(sorted(g) == ['0', '1'], 'hash:chars', 'a group is missing', got=sorted(g), **ctx)
      obs.count('empty_children', sum(len(v) == 0 for v in g.values()))
      for c, v in g.items():
        v = np.asarray(v, float)
        if len(v):
          pr = v @ pv[lv]
          tiny = 1e-12 * (np.abs(v) @ np.abs(pv[lv]))
          obs.check(bool(np.all(pr >= -tiny) if c == '0' else np.all(pr <= tiny)), 'hash:side', 'a point has the wrong hash character', **ctx)
      nxt += [(p + c, v) for c, v in g.items()]
    cur = nxt if len(nxt) <= 32 else nxt[:32]
  obs.check(np.array_equal(pv, sh.projection_vectors), 'hash:vectors', 'hash vectors changed while hashing', **ctx)
  obs.key(repr(ctx), x.tobytes()[:2000], pv.tobytes()[:500])
