"""User-defined privacy events, as a user of the library could write them (C12)."""
from typing import Any, List, Mapping, Tuple

import attr
from dp_accounting import dp_event


@attr.s(frozen=True, slots=True, auto_attribs=True)
class Tagged(dp_event.DpEvent):
  name: str
  payload: bytes
  event: dp_event.DpEvent


@attr.s(frozen=True, auto_attribs=True)
class Groups(dp_event.DpEvent):
  groups: Mapping[str, dp_event.DpEvent]
  weight: float = 1.0


@attr.s(frozen=True, slots=True, auto_attribs=True)
class Pair(dp_event.DpEvent):
  events: Tuple[dp_event.DpEvent, ...]
  label: Any = None


@attr.define(frozen=True, kw_only=True)
class Anything(dp_event.DpEvent):
  value: Any
  other: Any = ()


@attr.s(frozen=True, slots=True, auto_attribs=True)
class ScaledGaussian(dp_event.GaussianDpEvent):
  scale: float = 1.0
  note: str = ''


@attr.s(frozen=True, auto_attribs=True)
class PrivateField(dp_event.DpEvent):
  events: List[dp_event.DpEvent]
  _secret: float = 0.5


@attr.s(frozen=True, auto_attribs=True)
class ComputedField(dp_event.DpEvent):
  event: dp_event.DpEvent
  twice: float = attr.ib(init=False, default=2.0)


class NotAttrs:
  """Not an event at all."""

  def __init__(self, a):
    self.a = a
