"""Comparable states of objects of the library."""

from __future__ import annotations

from typing import Any

import numpy as np


def state(o: Any, seen: Any = None, depth: int = 0) -> Any:
    """What an object holds in its public attributes, as a nested tuple."""
    seen = {} if seen is None else seen
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return repr(o)
    if isinstance(o, np.ndarray):
        return ("array", o.shape, str(o.dtype), o.tobytes() if o.dtype != object else tuple(state(x, seen, depth + 1) for x in o.ravel()))
    if isinstance(o, np.generic):
        return repr(o.item())
    if id(o) in seen:
        return ("seen", type(o).__name__)
    seen[id(o)] = o
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(state(x, seen, depth + 1) for x in o))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), state(v, seen, depth + 1)) for k, v in sorted(o.items(), key=lambda t: repr(t[0]))))
    mod = type(o).__module__ or ""
    if mod.startswith("puncturedfem") and hasattr(o, "__dict__") and not callable(getattr(o, "__wrapped__", None)) and not isinstance(o, type):
        items = tuple((k, state(v, seen, depth + 1)) for k, v in sorted(vars(o).items()) if not k.startswith("_"))
        return (type(o).__name__, items)
    return ("object", type(o).__name__)


def difference(a: Any, b: Any, path: str = "") -> str:
    """Where two states differ ('' if they do not). Attributes that only the
    later state has do not count."""
    if a == b:
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and a[0] == b[0] and isinstance(a[1], tuple) and isinstance(b[1], tuple):
        x, y = a[1], b[1]
        named = all(isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], str) for t in x + y) and a[0] not in ("list", "tuple")
        if named:
            dy = dict(y)
            for k, v in x:
                if k not in dy:
                    return f"{path}.{k} is gone"
                d = difference(v, dy[k], f"{path}.{k}")
                if d:
                    return d
            return ""
        if len(x) == len(y):
            for k, (v, w) in enumerate(zip(x, y)):
                d = difference(v, w, f"{path}[{k}]")
                if d:
                    return d
            return ""
        return f"{path}: length {len(x)} became {len(y)}"
    return f"{path}: {str(a)[:80]} became {str(b)[:80]}"
