"""Stand-in: annotations only."""
import typing
IntArray = FloatArray = Array = typing.Any
