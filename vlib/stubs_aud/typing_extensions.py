"""Stand-in: the real package is not installed here; only typing helpers are used."""
from typing import *  # pylint: disable=wildcard-import


def override(f):
  return f
