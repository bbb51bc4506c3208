"""Calls into the library under test, input forms and result validation."""
import math

import numpy as np

import skspatial.objects as S
from skspatial.objects import Circle, Cylinder, Line, LineSegment, Plane, Point, Points, Sphere, Triangle, Vector

from .engine import Discard, Violation

__all__ = ['S', 'np', 'math', 'Circle', 'Cylinder', 'Line', 'LineSegment', 'Plane', 'Point', 'Points', 'Sphere',
           'Triangle', 'Vector', 'Violation', 'Discard', 'need', 'num', 'arr', 'isa', 'boolean', 'integer', 'near',
           'near_vec', 'rejects', 'attempt', 'form', 'same', 'FORMS', 'EPS', 'OBJECTS', 'snap', 'fields']

EPS = 2.0 ** -52


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg + ''.join(f' {x!r}' for x in a))


def num(x, what='result', finite=True):
    """A real scalar (Python or NumPy, also 0-d)."""
    if isinstance(x, (bool, np.bool_)) or x is None:
        raise Violation(f'{what} is {x!r}, not a number')
    if isinstance(x, np.ndarray) and x.ndim != 0:
        raise Violation(f'{what} is an array of shape {x.shape}, not a number')
    try:
        y = float(x)
    except Exception:
        raise Violation(f'{what} is {x!r}, not a number') from None
    if finite and not math.isfinite(y):
        raise Violation(f'{what} is {y}')
    return y


def arr(x, shape=None, what='result', finite=True):
    """A plain float ndarray copy of an array result."""
    try:
        a = np.array(x, dtype=float)
    except Exception:
        raise Violation(f'{what} is not numeric: {x!r}') from None
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f'{what} has shape {a.shape}, expected {tuple(shape)}')
    if finite and not np.isfinite(a).all():
        raise Violation(f'{what} is not finite: {x!r}')
    return a


def isa(x, cls, what='result'):
    if type(x) is not cls:
        raise Violation(f'{what} is a {type(x).__name__}, expected {cls.__name__}: {x!r}')
    if cls in (Point, Vector):
        need(x.ndim == 1 and x.dimension == x.shape[0], f'{what} has a wrong dimension', x, x.dimension)
    elif cls is Points:
        need(x.ndim == 2 and x.dimension == x.shape[1], f'{what} has a wrong dimension', x, x.dimension)
    elif cls in (Line, Plane):
        need(x.dimension == x.point.dimension == x.vector.dimension, f'{what} has a wrong dimension', x)
        need(np.array_equal(x.direction if cls is Line else x.normal, x.vector), f'{what} has two different vectors', x)
    return x


def boolean(x, what='result'):
    if not isinstance(x, (bool, np.bool_)):
        raise Violation(f'{what} is {x!r}, expected a bool')
    return bool(x)


def integer(x, what='result'):
    if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer)):
        raise Violation(f'{what} is {x!r}, expected an int')
    return int(x)


def near(x, ref, tol, what='result'):
    x = num(x, what)
    if not abs(x - float(ref)) <= tol:
        raise Violation(f'{what} is {x!r}, expected {float(ref)!r} (tolerance {tol:.3g})')
    return x


def near_vec(x, ref, tol, what='result'):
    ref = np.array([[float(c) for c in r] for r in ref] if len(ref) and isinstance(ref[0], (list, tuple, np.ndarray))
                   else [float(c) for c in ref])
    a = arr(x, ref.shape, what)
    if not (np.abs(a - ref) <= tol).all():
        raise Violation(f'{what} is {a.tolist()}, expected {ref.tolist()} (tolerance {tol:.3g})')
    return a


def rejects(fn, what, exc=ValueError):
    """fn() must raise exc (for ValueError: also a subclass)."""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f'{what}: raised {type(e).__name__}: {e}; expected {exc.__name__}') from None
    raise Violation(f'{what}: returned {r!r}; expected {exc.__name__}')


def attempt(fn):
    """(True, result) or (False, ValueError)."""
    try:
        return True, fn()
    except ValueError as e:
        return False, e


FORMS = ['list', 'tuple', 'array', 'obj', 'alt', 'readonly', 'strided', 'scalars', 'farray']


def form(values, how, cls=None):
    """The same coordinates in another container.  'obj'/'alt': a spatial object of class cls / the other class."""
    two = len(values) > 0 and isinstance(values[0], (list, tuple))
    if how == 'list':
        return [list(v) for v in values] if two else list(values)
    if how == 'tuple':
        return tuple(tuple(v) for v in values) if two else tuple(values)
    a = np.array(values)
    if how == 'array':
        return a
    if how in ('obj', 'alt'):
        if two:
            return Points(a) if how == 'obj' else [Point(r) for r in a]
        cls = cls or Point
        return cls(a) if how == 'obj' else (Vector if cls is Point else Point)(a)
    if how == 'readonly':
        a.setflags(write=False)
        return a
    if how == 'strided':
        b = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
        b[tuple(slice(1, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(1, None, 2) for _ in a.shape)]
    if how == 'scalars':
        return [[np.array(v)[i] for i in range(len(v))] for v in values] if two else [x for x in a]
    if how == 'narrow':                    # small integer types, where no product of four factors overflows
        m = np.abs(a).max() if a.size else 99
        return a.astype(np.int16 if m <= 4 else np.int32) if a.dtype.kind == 'i' and m <= 20 else a
    if how == 'int32':                     # as in images; products of two fit
        m = np.abs(a).max() if a.size else 0
        return a.astype(np.int32) if a.dtype.kind == 'i' and m <= 10 ** 4 else a
    if how == 'single':                    # single precision numbers, where these are the same numbers
        b = a.astype(np.float32)
        return b if a.dtype.kind == 'f' and np.array_equal(a, b) else a
    if how == 'farray':
        return np.asfortranarray(a) if two else a[::-1].copy()[::-1]
    raise ValueError(how)


def same(a, b):
    """Structural equality of results, exact in value (0.0 == -0.0)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=a.dtype.kind == 'f'))
    if isinstance(a, (Line, Plane, LineSegment, Triangle, Circle, Sphere, Cylinder)):
        da, db = fields(a), fields(b)
        return da.keys() == db.keys() and all(same(da[k], db[k]) for k in da)
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return bool(a == b)


OBJECTS = (Line, Plane, LineSegment, Triangle, Circle, Sphere, Cylinder)


PUBLIC = {Line: ('point', 'vector', 'direction', 'dimension'), Plane: ('point', 'vector', 'normal', 'dimension'), LineSegment: ('point_a', 'point_b', 'dimension'),
          Triangle: ('point_a', 'point_b', 'point_c', 'dimension'), Circle: ('point', 'radius', 'dimension'), Sphere: ('point', 'radius', 'dimension'),
          Cylinder: ('point', 'vector', 'radius', 'dimension')}


def fields(o):
    """The documented attributes of an object, and other public ones; private ones are its own business."""
    names = dict.fromkeys(next(PUBLIC[t] for t in type(o).__mro__ if t in PUBLIC))
    names.update(dict.fromkeys(k for k in vars(o) if not k.startswith('_')))
    return {k: getattr(o, k) for k in names}


def snap(x):
    """A deep description of a value: types, bytes, dtypes, layout flags and attributes."""
    if isinstance(x, np.ndarray):
        return (type(x).__name__, x.dtype.str, x.shape, x.strides, x.flags.writeable, x.tobytes(), getattr(x, 'dimension', None))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(snap, x)))
    if isinstance(x, OBJECTS):
        return (type(x).__name__, tuple((k, snap(v)) for k, v in sorted(fields(x).items())))
    if isinstance(x, np.generic):
        return (type(x).__name__, x.dtype.str, x.tobytes())
    return (type(x).__name__, repr(x))
