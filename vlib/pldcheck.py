"""Monitors over single privacy loss distributions, shared by P01 and P02."""
import math
from vlib import gadget, mech

REL = 1e-9


def slack(spec, true, lmt=None, n=1):
  """Floating-point allowance plus the truncation mass a construction may move."""
  s = REL * max(float(true), 0.0) + 4e-13
  if spec['kind'] == 'mog':
    s += 1e-11
  return s


def one_interval(h):
  return h * (1 + 1e-7) + 1e-12


def eps_targets(T, r, n=6):
  """Deltas at which to query epsilon."""
  out = []
  for _ in range(n):
    u = r.random()
    if u < 0.6:
      out.append(10 ** float(-r.uniform(0.1, 12)))
    elif u < 0.8:
      out.append(float(r.uniform(0, 1)))
    else:
      out.append(float(T.delta(float(r.uniform(0, 3)))) * (1 + 1e-6))
  return [d for d in out if 0 < d < 1]


def directions(pl, spec, T, h, pess, r, epspts, emit):
  """emit(which, eps, got_delta, true_dir_fn, abs_noise) for each observable point."""
  import numpy as np
  for which in ('add', 'remove'):
    k = max(1, int(math.ceil(0.3 / h)))
    g, a = gadget.direction(h, k, which, pess)
    comp = pl.compose(g)
    fn = T.add if which == 'add' else T.remove
    for e in epspts:
      d = comp.get_delta_for_epsilon(e - k * h)
      emit(which, e, float(d), a, k)
