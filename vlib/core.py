"""Harness shared by all checks: case scheduling, monitors' observer, verdicts.

A check module defines
  PROPERTY, RULE, ASSUMPTIONS (list), REQUIRED ({counter: minimum} or a function of tier)
  cases(seed, tier) -> list of JSON-able dicts, each with a 'family' key
  run(case, obs)    -> executes the real code and lets monitors report to obs
Verdicts: a violation -> exit 1 and a VIOLATION line; nothing violated and all
REQUIRED counters reached -> exit 0; otherwise inconclusive -> exit 2.
"""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import threading
import time
import traceback
import zlib

from vlib import cover

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


CLEANUP = []   # called once, before the process ends


class CaseTimeout(BaseException):
  pass


class Observer:
  """Collects what the monitors saw while one case ran."""

  def __init__(self, case):
    self.case = case
    self.counters = {}
    self.violations = []
    self.known = []
    self.keys = set()
    self.sample = None

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + int(n)

  def key(self, *parts):
    """Registers one distinct non-trivial observation."""
    self.keys.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

  def violate(self, mechanism, message, **detail):
    """mechanism: stable name of which law broke where (known-finding key)."""
    if len(self.violations) < 20:
      self.violations.append(dict(mechanism=mechanism, message=message,
                                  detail={k: _plain(v) for k, v in detail.items()}))

  def check(self, ok, mechanism, message, **detail):
    self.count('oracle_evaluations')
    if not ok:
      self.violate(mechanism, message, **detail)
    return bool(ok)


def _plain(v):
  try:
    json.dumps(v)
    return v
  except Exception:
    pass
  try:
    import numpy as np
    if isinstance(v, np.ndarray):
      return v.tolist()[:50]
    if isinstance(v, np.generic):
      return v.item()
  except Exception:
    pass
  return repr(v)[:500]


def repo_frames(tb):
  """True if the innermost frame belonging to /repo or /verif is in /repo."""
  last = None
  for f in traceback.extract_tb(tb):
    if f.filename.startswith(REPO + '/'):
      last = 'repo'
    elif f.filename.startswith(VERIF + '/'):
      last = 'verif'
  return last == 'repo'


_MODULE = None
_TIMEOUT = 300


def _alarm(signum, frame):
  raise CaseTimeout()


def _execute(case, obs):
  if '_sib' not in case:
    _MODULE.run(case, obs)
    return
  # The case, the case with one random choice changed, and the case again, all in
  # one process: nothing may leak from one set of inputs to a similar one.
  from vlib import mech
  import numpy as np
  r = np.random.default_rng([case['_sib'], 5])
  try:
    mech.SIBLING = dict(seen={}, at=None, step=0.0)
    _MODULE.run(case, obs)
    seen = list(mech.SIBLING['seen'])
    if seen and not obs.violations:
      n = len(seen) if r.random() < .5 else min(len(seen), 12)
      step = float(r.choice([-1, 1]) * r.choice([1e-8, 1e-5, 1e-3, .1, .5]))
      mech.SIBLING = dict(seen={}, at=seen[int(r.integers(n))], step=step)
      _MODULE.run(case, obs)
      mech.SIBLING = dict(seen={}, at=None, step=0.0)
      _MODULE.run(case, obs)
      obs.count('sibling_runs')
  finally:
    mech.SIBLING = None


def _run_one(case):
  obs = Observer(case)
  status = 'ok'
  err = None
  t0 = time.time()
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(_TIMEOUT)
  try:
    _execute(case, obs)
  except CaseTimeout:
    status = 'timeout'
  except Exception as e:  # pylint: disable=broad-except
    tb = e.__traceback__
    txt = ''.join(traceback.format_exception(type(e), e, tb))[-3000:]
    if repo_frames(tb):
      last = [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO + '/')][-1]
      obs.violate('unexpected-exception:%s:%s' % (type(e).__name__, case.get('family')),
                  'the code under test raised %s on an input in its domain (in %s)'
                  % (type(e).__name__, last.name), error=str(e)[:300], trace=txt)
    else:
      status = 'harness-error'
      err = txt
  finally:
    signal.alarm(0)
    if os.environ.get('VERIF_COV'):
      cover.dump(os.environ['VERIF_COV'], _MODULE.PROPERTY)
  return dict(case=case, status=status, err=err, counters=obs.counters,
              violations=obs.violations, keys=list(obs.keys), dt=time.time() - t0)


def load_known():
  """known_findings.jsonl: {"property","mechanism","what"} entries, one per line."""
  out = {}
  path = os.path.join(VERIF, 'known_findings.jsonl')
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if not line or line.startswith('#') or line.startswith('fixed:'):
        continue
      e = json.loads(line)
      out.setdefault(e['property'], {})[e['mechanism']] = e['what']
  return out


def main(module, tier, seed, replay=None, jobs=None, budget=None, only=None):
  global _MODULE, _TIMEOUT
  _MODULE = module
  pid = module.PROPERTY
  t0 = time.time()
  jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
  budget = budget or getattr(module, 'BUDGET', {}).get(tier, 300 if tier == 'quick' else 3000)
  _TIMEOUT = getattr(module, 'CASE_TIMEOUT', {}).get(tier, 150 if tier == 'quick' else 600)
  failfast = bool(os.environ.get('VERIF_FAILFAST'))  # used by tools/mutate.py only
  known = load_known().get(pid, {})
  if os.environ.get('VERIF_COV'):  # used by tools/coverage.py only
    cover.start(REPO)
  hooked = getattr(module, 'SETUP', None)
  if hooked:
    try:
      hooked()
    except Exception as e:  # pylint: disable=broad-except
      print('%s: inconclusive, cannot be set up: %s' % (pid, e))
      return 2
  if replay:
    cases = [json.load(open(replay))['case']]
  else:
    cases = module.cases(seed, tier)
  if only:
    cases = [c for c in cases if only in c.get('family', '')]
  for i, c in enumerate(cases):
    c.setdefault('i', i)
    if not replay and zlib.crc32(b'%d:%d' % (seed, i)) % 1000 < 1000 * getattr(module, 'SIBLINGS', .06):
      c['_sib'] = i
  # Interleave families so that a budget cut never starves one of them.
  byfam = {}
  for c in cases:
    byfam.setdefault(c.get('family'), []).append(c)
  order = []
  pools = [iter(v) for v in byfam.values()]
  while pools:
    nxt = []
    for it in pools:
      try:
        order.append(next(it))
        nxt.append(it)
      except StopIteration:
        pass
    pools = nxt
  counters, keys, violations, samples, fams = {}, set(), [], [], {}
  harness_errors, timeouts, done, skipped = [], 0, 0, 0
  slow = []

  def absorb(r):
    nonlocal timeouts, done
    done += 1
    fam = r['case'].get('family')
    fams[fam] = fams.get(fam, 0) + 1
    for k, v in r['counters'].items():
      counters[k] = counters.get(k, 0) + v
    keys.update(r['keys'])
    if r['status'] == 'timeout':
      timeouts += 1
      harness_errors.append('timeout in case %s' % json.dumps(r['case'])[:300])
    elif r['status'] == 'harness-error':
      harness_errors.append(r['err'])
    for v in r['violations']:
      violations.append((r['case'], v))
    if fams[fam] == 1:
      samples.append(dict(case=r['case'], counters=r['counters']))
    slow.append((r['dt'], fam))

  if jobs == 1 or len(order) == 1:
    for c in order:
      absorb(_run_one(c))
  else:
    ctx = mp.get_context('fork')
    pool = ctx.Pool(jobs, initializer=_limit, maxtasksperchild=getattr(module, 'TASKS_PER_PROCESS', 200))
    try:
      # Fed in bounded batches.
      it = iter(order)
      pending = []
      exhausted = False
      while True:
        while not exhausted and len(pending) < jobs * 3:
          if time.time() - t0 > budget:
            exhausted = True
            break
          try:
            pending.append(pool.apply_async(_run_one, (next(it),)))
          except StopIteration:
            exhausted = True
        if not pending:
          break
        ready = [p for p in pending if p.ready()]
        if not ready:
          pending[0].wait(0.05)
          if time.time() - t0 > budget + _TIMEOUT + 30:
            # A worker died (or cannot be interrupted): its case never answers.
            harness_errors.append('%d cases never answered (worker lost)' % len(pending))
            break
          continue
        for p in ready:
          pending.remove(p)
          absorb(p.get())
        if failfast and any(v['mechanism'] not in known for _, v in violations):
          break
    finally:
      # Terminating a pool can deadlock; never wait for it for long.
      stop = threading.Thread(target=pool.terminate, daemon=True)
      stop.start()
      stop.join(10)
  skipped = len(order) - done

  new, seen_known = [], {}
  for c, v in violations:
    if v['mechanism'] in known:
      seen_known[v['mechanism']] = seen_known.get(v['mechanism'], 0) + 1
    else:
      new.append((c, v))
  req = getattr(module, 'REQUIRED', {})
  if callable(req):
    req = req(tier)
  missing = {} if (replay or only) else {k: (counters.get(k, 0), m) for k, m in req.items()
                                       if counters.get(k, 0) < m}
  wall = time.time() - t0
  ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
            coverage=dict(evaluations=done, distinct_nontrivial=len(keys),
                          rule=module.RULE, samples=[_plain(s) for s in samples[:12]],
                          monitor_counters=counters, cases_per_family=fams,
                          cases_generated=len(order), cases_not_run_for_budget=skipped,
                          timeouts=timeouts),
            assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
            wall_s=round(wall, 2), violations=len(new))
  if not replay and not only:
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=repr)
  print('%s tier=%s seed=%d cases=%d/%d distinct=%d wall=%.1fs' % (
      pid, tier, seed, done, len(order), len(keys), wall))
  print('  families: %s' % json.dumps(fams))
  print('  counters: %s' % json.dumps(counters))
  if os.environ.get('VERIF_SLOW'):
    agg = {}
    for dt, f in slow:
      a = agg.setdefault(f, [0, 0, 0]); a[0] += 1; a[1] += dt; a[2] = max(a[2], dt)
    for f, a in sorted(agg.items(), key=lambda z: -z[1][1])[:15]:
      print('  slow %-30s n=%d total=%.1f max=%.1f' % (f, a[0], a[1], a[2]))
  for m, n in sorted(seen_known.items()):
    print('KNOWN-FINDING: property=%s %s [%s, seen %d times]' % (pid, known[m], m, n))
  if new:
    rd = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rd, exist_ok=True)
    shown = set()
    for c, v in new:
      if v['mechanism'] in shown:
        continue
      shown.add(v['mechanism'])
      if len(shown) > 8:
        break
      name = '%s-%s.json' % (pid, hashlib.blake2b(
          (v['mechanism'] + json.dumps(c, sort_keys=True, default=repr)).encode(), digest_size=6).hexdigest())
      path = os.path.join(rd, name)
      with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, case=c, violation=v), f, indent=1, default=repr)
      print('  violated: [%s] %s %s' % (v['mechanism'], v['message'], json.dumps(v['detail'], default=repr)[:700]))
      print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
  if harness_errors:
    print('INCONCLUSIVE: %d harness errors/timeouts; first:\n%s' % (len(harness_errors), harness_errors[0]))
    return 2
  if missing:
    print('INCONCLUSIVE: monitors observed too little: %s' % missing)
    return 2
  return 0


def _limit():
  try:
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30 if hard < 0 else min(12 << 30, hard), hard))
  except Exception:
    pass
  signal.signal(signal.SIGINT, signal.SIG_IGN)
