"""Canonical, flavour independent form of values."""

import collections
import pydantic as pd

from . import nodes
from .prims import scalar_key


def is_native(v):
    return hasattr(v, 'tag') and hasattr(v, 'attrib') and hasattr(v, 'tail')


def canon(v, fields_set=True):
    if isinstance(v, pd.BaseModel):
        cls = type(v)
        out = ('model', cls.__name__, tuple(
            (n, canon(getattr(v, n), fields_set)) for n in cls.model_fields
        ))
        if fields_set:
            out += (tuple(sorted(v.model_fields_set)),)
        return out
    if isinstance(v, nodes.Node):
        return ('raw', v.key())
    if is_native(v):
        return ('raw', nodes.from_native(v).key())
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return ('nt', type(v).__name__, tuple(canon(i, fields_set) for i in v))
    if isinstance(v, (list, tuple, collections.deque)):
        return (type(v).__name__, tuple(canon(i, fields_set) for i in v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted((canon(i, fields_set) for i in v), key=repr)))
    if isinstance(v, dict):
        return ('dict', tuple(sorted(((k if type(k) is str else canon(k, fields_set), canon(i, fields_set)) for k, i in v.items()), key=repr)))
    return scalar_key(v)


def cdiff(a, b, path=''):
    """First difference of two canonical forms (expected, actual), as text."""
    if a == b:
        return None
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = cdiff(x, y, '%s.%s' % (path, a[0] if i == 1 and isinstance(a[0], str) else i))
            if d:
                return d
    return '%s: expected %s, got %s' % (path, str(a)[:300], str(b)[:300])
