"""Snapshots of library objects through their public attributes."""
import enum
from decimal import Decimal

import attr

from . import bind


def snap(o, types=True, seen=()):
    """nested tuples of everything public below an object; data types as neutral types or left out"""
    if isinstance(o, bind.T.DataType):
        if not types:
            return None
        try:
            return bind.r_type(o)
        except Exception:   # not a data type any more
            return ("odd type", repr(o.type_name), repr(o.parameters))
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, float):
        return ("float", repr(o))
    if isinstance(o, Decimal):
        return ("Decimal", o.as_tuple())
    if isinstance(o, enum.Enum):
        return (type(o).__name__, o.name)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(x, types, seen) for x in o)
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__,) + tuple(sorted(snap(x, types, seen) for x in o))
    if isinstance(o, dict):
        return ("dict",) + tuple((snap(k, types, seen), snap(v, types, seen)) for k, v in o.items())
    if attr.has(type(o)):
        if id(o) in seen:
            return ("cycle",)
        seen = seen + (id(o),)
        return (type(o).__name__,) + tuple((f.name, snap(getattr(o, f.name), types, seen)) for f in attr.fields(type(o))
                                           if not f.name.startswith("_") and (types or f.name != "data_type"))
    return ("other", type(o).__name__)
