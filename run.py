"""Entry point: python run.py P01 [--tier quick|thorough] [--seed N] [--replay FILE]."""
import argparse
import importlib
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WANT = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'PYTHONDONTWRITEBYTECODE': '1', 'VERIF_REPO': REPO}
if any(os.environ.get(k) != v for k, v in WANT.items()) or os.environ.get('VERIF_CHILD') != '1':
  env = dict(os.environ)
  env.update(WANT)
  env['VERIF_CHILD'] = '1'
  env['PYTHONPATH'] = os.pathsep.join([
      HERE, os.path.join(REPO, 'python/dp_accounting'), os.path.join(REPO, 'learning')])
  py = '/opt/venv/bin/python'
  os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

warnings.filterwarnings('ignore')
sys.path.insert(0, HERE)
ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--replay')
ap.add_argument('--jobs', type=int)
ap.add_argument('--only')
a = ap.parse_args()
import logging
logging.disable(logging.CRITICAL)
from absl import logging as alog
alog.set_verbosity(alog.FATAL)
alog.set_stderrthreshold('fatal')
from vlib import core
mod = importlib.import_module('checks.' + a.property.lower())
rc = core.main(mod, a.tier, a.seed, a.replay, a.jobs, only=a.only)
sys.stdout.flush()
sys.stderr.flush()
import multiprocessing
for p in multiprocessing.active_children():
  p.kill()
for f in core.CLEANUP:
  f()
os._exit(rc)   # a worker pool that does not end must not keep the check alive
