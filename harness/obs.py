"""Observations of elements through the public interface."""
import numpy
from core import nums


def pts(ints, m):
    return [tuple(x / m for x in p) for p in ints]


def norm_alpha(a):
    out = []
    for x in a:
        if isinstance(x, tuple):
            out.extend(norm_alpha(x))
        else:
            out.append(int(x))
    return tuple(out)


def tabulate(e, order, points, entity=None):
    """alpha -> array (functions, components, points), floats only."""
    raw = e.tabulate(order, points, entity) if entity is not None else e.tabulate(order, points)
    out = {}
    for a, v in raw.items():
        v = numpy.asarray(v, dtype=float)
        out[norm_alpha(a)] = v.reshape(v.shape[0], -1, v.shape[-1])
    return out


def rows(v):
    """Table (functions, components, points) -> one flat row of numbers per function."""
    return [nums(r) for r in v]
