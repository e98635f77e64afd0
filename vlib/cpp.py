"""Builds and runs the C++ monitors (ccmon/) against the C++ library of the repository, under
AddressSanitizer and UndefinedBehaviorSanitizer."""
import concurrent.futures
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import tempfile

from vlib import core

SRC = os.path.join(core.VERIF, 'ccmon')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=address']
FLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-include', 'optional']
PROTOS = ['confidence-interval', 'data', 'numerical-mechanism', 'summary', 'accounting/privacy-loss-distribution']
BIN = {}


class BuildError(Exception):
  pass


def _sh(cmd, what, **kw):
  p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)
  if p.returncode:
    raise BuildError('%s: %s' % (what, p.stderr[-3000:]))
  return p.stdout


def build(units):
  """Compiles the named monitors with the library in the repository's working tree."""
  key = tuple(sorted(units))
  if key in BIN:
    return BIN[key]
  d = tempfile.mkdtemp(prefix='ccmon')
  core.CLEANUP.append(lambda: shutil.rmtree(d, ignore_errors=True))
  gen = os.path.join(d, 'gen')
  os.mkdir(gen)
  _sh(['protoc', '-I' + core.REPO, '--cpp_out=' + gen] + [os.path.join(core.REPO, 'proto', p + '.proto') for p in PROTOS], 'protoc')
  lib = [f for f in sorted(glob.glob(core.REPO + '/cc/algorithms/*.cc') + glob.glob(core.REPO + '/cc/algorithms/internal/*.cc'))
         if not re.search(r'_test\.cc$|benchmark|_fuzz', f)]
  src = lib + [os.path.join(gen, 'proto', p + '.pb.cc') for p in PROTOS] + [os.path.join(SRC, u + '.cc') for u in ['main'] + list(units)]
  inc = ['-I', os.path.join(SRC, 'stubs'), '-I', SRC, '-I', gen, '-I', os.path.join(core.REPO, 'cc'), '-I', core.REPO]
  objs = {f: os.path.join(d, '%d.o' % i) for i, f in enumerate(src)}

  def one(f):
    san = [] if f.startswith(gen) else SAN
    _sh(['g++'] + FLAGS + san + inc + ['-c', f, '-o', objs[f]], f)

  first = [f for f in src if f.startswith(SRC)]  # the slowest ones first
  with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4)) as ex:
    list(ex.map(one, first + [f for f in src if f not in first]))
  out = os.path.join(d, 'ccmon')
  absl = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so')) or sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
  absl = [a for a in absl if 'test' not in a and 'mock' not in a]
  _sh(['g++'] + SAN + list(objs.values()) + ['-o', out, '-Wl,--start-group', '-lprotobuf'] + absl + ['-Wl,--end-group', '-lpthread'], 'link')
  for o in objs.values():
    os.remove(o)
  BIN[key] = out
  return out


def cases(families, seed, tier):
  """One case per (family, workload seed)."""
  k = 2 if tier == 'quick' else 40
  return [dict(family=f, s=seed * 100003 + 1000 * j + i, n=n) for j, (f, (n, c)) in enumerate(families.items()) for i in range(c * k)]


def unlimited():
  """AddressSanitizer reserves terabytes of address space."""
  hard = resource.getrlimit(resource.RLIMIT_AS)[1]
  resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def run(obs, units, family, seed, n, timeout=180):
  """Runs one workload and feeds its observations to obs."""
  e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
  try:
    p = subprocess.run([build(units), family, str(seed), str(n)], env=e, capture_output=True, text=True, timeout=timeout, errors='replace', preexec_fn=unlimited)
  except subprocess.TimeoutExpired:
    obs.violate('hang:' + family, 'the C++ library does not return', seed=seed, n=n, timeout=timeout)
    return
  ended = False
  for line in p.stdout.splitlines():
    t = line.split('\t')
    if t[0] == 'C':
      obs.count(t[1], int(t[2]))
    elif t[0] == 'K':
      obs.key(family, t[1])
    elif t[0] == 'V':
      v = json.loads(t[1])
      obs.violate(v['mechanism'], v['message'], **v['detail'])
    elif t[0] == 'END':
      ended = True
  seen = set()
  for line in p.stderr.splitlines():
    m = re.search(r'([^\s:]+):(\d+):\d+: runtime error: (.*)', line)
    if not m:
      continue
    if 'signed integer overflow' in m[3] and any(abs(int(x)) >= 1 << 50 for x in re.findall(r'-?\d{10,}', m[3])):
      continue  # integer sums wrap around by design when the bounds are near the end of the type
    if '/repo/' in m[1] or m[1].startswith(core.REPO):
      what = 'ub:%s:%s' % (os.path.basename(m[1]), re.sub(r'[-\d.+e]+', '#', m[3])[:60])
      if what not in seen:
        seen.add(what)
        obs.violate(what, 'undefined behaviour in the C++ library', where='%s:%s' % (m[1].replace(core.REPO, ''), m[2]), report=m[3])
    elif '/ccmon/' in m[1]:
      raise RuntimeError('undefined behaviour in the monitor: ' + line)
  if not ended:
    if 'ReserveShadowMemoryRange' in p.stderr or 'failed to allocate' in p.stderr:
      raise RuntimeError('AddressSanitizer does not start: ' + p.stderr[:500])
    if 'AddressSanitizer' in p.stderr and core.REPO in p.stderr:
      obs.violate('memory:' + family, 'AddressSanitizer reports an error in the C++ library', report=p.stderr[:2500])
    elif 'Check failed' in p.stderr or p.returncode in (-6, -8, -11):
      obs.violate('crash:' + family, 'the C++ library crashes', rc=p.returncode, report=p.stderr[:1500])
    else:
      raise RuntimeError('cc-%s %s: rc %s %s' % (family, seed, p.returncode, p.stderr[:1500]))
