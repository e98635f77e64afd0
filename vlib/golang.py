"""Builds and runs the Go monitors (gomon/) against the Go library of the repository."""
import json
import os
import shutil
import subprocess
import tempfile

from vlib import core

SRC = os.path.join(core.VERIF, 'gomon')
BIN = {}


class BuildError(Exception):
  pass


def _env():
  e = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
  e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GONOSUMCHECK='1', GOWORK='off', CGO_ENABLED='1')
  e.setdefault('HOME', '/root')
  return e


def build(race=False):
  """Compiles the monitors with the library in the repository's working tree."""
  if race in BIN:
    return BIN[race]
  d = tempfile.mkdtemp(prefix='gomon')
  core.CLEANUP.append(lambda: shutil.rmtree(d, ignore_errors=True))
  s = os.path.join(d, 'src')
  shutil.copytree(SRC, s)
  # The module under test is copied as well: its go.mod names modules that are not available.
  lib = os.path.join(d, 'lib')
  shutil.copytree(os.path.join(core.REPO, 'go'), lib, ignore=shutil.ignore_patterns('*_test.go'))
  ver = 'v0.0.0'
  with open(os.path.join(lib, 'go.mod'), 'w') as f:
    f.write('module github.com/google/differential-privacy/go/v3\n\ngo 1.22\n\nrequire (\n\tgithub.com/golang/glog %s\n\tgonum.org/v1/gonum %s\n)\n' % (ver, ver))
  if os.path.exists(os.path.join(lib, 'go.sum')):
    os.remove(os.path.join(lib, 'go.sum'))
  with open(os.path.join(s, 'go.mod'), 'w') as f:
    f.write('''module verif/gomon

go 1.22

require (
	github.com/google/differential-privacy/go/v3 v3.0.0
	github.com/golang/glog v0.0.0
	gonum.org/v1/gonum v0.0.0
	a.test/aaa v0.0.0
)

replace (
	a.test/aaa => ./aaa
	github.com/google/differential-privacy/go/v3 => %s
	github.com/golang/glog => ./stubs/glog
	gonum.org/v1/gonum => ./stubs/gonum
)
''' % lib)
  out = os.path.join(d, 'gomon')
  cmd = ['go', 'build', '-o', out] + (['-race'] if race else []) + ['.']
  p = subprocess.run(cmd, cwd=s, env=_env(), capture_output=True, text=True)
  if p.returncode:
    raise BuildError(p.stderr[-3000:])
  shutil.rmtree(s)
  BIN[race] = out
  return out


def cases(families, seed, tier):
  """One case per (family, workload seed)."""
  k = 2 if tier == 'quick' else 40
  return [dict(family=f, s=seed * 100003 + 1000 * j + i, n=n) for j, (f, (n, c)) in enumerate(families.items()) for i in range(c * k)]


def run(obs, family, seed, n, race=False, timeout=140, env=None):
  """Runs one workload and feeds its observations to obs."""
  e = _env()
  e.update(env or {})
  mech = 'go-' + family
  try:
    p = subprocess.run([build(race), family, str(seed), str(n)], env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
  except subprocess.TimeoutExpired:
    obs.violate('hang:' + family, 'the Go library does not return', seed=seed, n=n, timeout=timeout)
    return
  ended = False
  for line in p.stdout.splitlines():
    t = line.split('\t')
    if t[0] == 'C':
      obs.count(t[1], int(t[2]))
    elif t[0] == 'K':
      obs.key(family, t[1])
    elif t[0] == 'V':
      v = json.loads(t[1])
      obs.violate(v['mechanism'], v['message'], **v['detail'])
    elif t[0] == 'END':
      ended = True
  if 'DATA RACE' in p.stderr:
    obs.violate('race:' + family, 'the race detector reports a data race', report=p.stderr[:1500])
  elif not ended:
    if 'v3/' in p.stderr and ('panic' in p.stderr or 'fatal error' in p.stderr):
      obs.violate('crash:' + family, 'the Go library crashes', report=p.stderr[:1500])
    else:
      raise RuntimeError('%s %s: rc %s %s' % (mech, seed, p.returncode, p.stderr[:1500]))
