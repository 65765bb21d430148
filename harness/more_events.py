"""Events of another user module; two share their class name with other events (C12)."""
from typing import Any

import attr
from dp_accounting import dp_event


@attr.s(frozen=True, slots=True, auto_attribs=True)
class Tagged(dp_event.DpEvent):
  event: dp_event.DpEvent
  tags: Any = ()


@attr.s(frozen=True, slots=True, auto_attribs=True)
class GaussianDpEvent(dp_event.DpEvent):
  clip: float
  noise_multiplier: float


@attr.s(frozen=True, slots=True, auto_attribs=True)
class LaplaceDpEvent(dp_event.LaplaceDpEvent):
  """Has the same field as the library's event."""
