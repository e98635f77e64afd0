"""User-defined events, for serialization checks."""
from typing import Any
import attr
from dp_accounting import dp_event as de


@attr.s(frozen=True, slots=True, auto_attribs=True)
class Named(de.DpEvent):
  label: str
  event: Any


@attr.s(frozen=True, auto_attribs=True)
class Mapped(de.DpEvent):
  events: Any
  weight: float = 1.0


@attr.s(frozen=True, auto_attribs=True, kw_only=True)
class Pair(de.DpEvent):
  second: Any
  first: Any
  rates: Any = ()
  comment: Any = None


@attr.s(frozen=True, auto_attribs=True)
class GaussianDpEvent(de.DpEvent):
  """Same name and field as a library event, but another class."""
  noise_multiplier: float


@attr.s(frozen=True, auto_attribs=True)
class Child(Mapped):
  extra: Any = 0


@attr.s(frozen=True, auto_attribs=True)
class Private(de.DpEvent):
  _secret: float


@attr.s(frozen=True, auto_attribs=True)
class Derived(de.DpEvent):
  a: float
  b: float = attr.ib(init=False, default=3.0)


class Plain(de.DpEvent):
  """Not an attrs class of its own."""
