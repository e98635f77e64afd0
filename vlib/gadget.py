"""Public-API gadgets that expose a single direction of a privacy loss distribution.

Composing with an asymmetric two-point pair puts an infinite loss of mass
1 - e^(-kh) into one direction only, so that for large enough epsilon the
composition's delta is governed by that direction:
  delta(eps) = (1 - a) + a * delta_dir(eps + kh),  a = e^(-kh).
"""
import math


def direction(h, k, which, pess):
  from dp_accounting.pld import privacy_loss_distribution as pld
  a = math.exp(-k * h)
  one = {0: 0.0}
  two = {0: -k * h, 1: math.log(-math.expm1(-k * h))}
  # lower/upper: log pmf of mu_lower, mu_upper; remove = upper||lower.
  if which == 'add':
    lower, upper = two, one
  else:
    lower, upper = one, two
  return pld.from_two_probability_mass_functions(
      lower, upper, pessimistic_estimate=pess, value_discretization_interval=h,
      log_mass_truncation_bound=-math.inf, symmetric=False), a
