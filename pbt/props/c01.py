"""C01: construction of Point, Vector and Points."""
import array
import collections
import sys

from ..engine import facet
from ..gen import *
from ..lib import *

CLS = {'Point': (Point, 1), 'Vector': (Vector, 1), 'Points': (Points, 2)}
DTYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint32', 'float32', 'float64', 'float16', 'bool', '>f8', '>i4', 'uint16', 'uint64', 'longdouble']
CONT = ['list', 'tuple', 'mixed', 'array', 'readonly', 'strided', 'farray', 'reversed', 'scalars', 'spatial', 'rows', 'bcast',
        'masked', 'matrix', 'memoryview', 'pyarray', 'interface', 'sequence', 'deque', 'deep']


class Interface:
    """An object that NumPy converts by its __array__."""

    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None):
        return self.a if dtype is None else self.a.astype(dtype)


class Sequence:
    def __init__(self, x):
        self.x = x

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


class Sub(np.ndarray):
    pass


def shape_of(x):
    """Shape of a regular nested list, or None if it is ragged."""
    if not isinstance(x, list):
        return ()
    subs = [shape_of(y) for y in x]
    if not subs:
        return (0,)
    if any(s is None or s != subs[0] for s in subs):
        return None
    return (len(x),) + subs[0]


def flat(x):
    return [v for y in x for v in flat(y)] if isinstance(x, list) else [x]


@composite
def number(draw, kind):
    if kind == 'mix':
        kind = draw(sampled(['int', 'fl', 'bool', 'huge']))
    if kind == 'bool':
        return draw(booleans())
    if kind == 'huge':
        return draw(sampled([1e308, -1e308, 5e-324, 2.0 ** 53 + 2, 10 ** 15, -0.0, 0, 1e-300, 2 ** 53 + 1, -2 ** 62 - 1]))
    return draw(COORD[kind])


@cases
def data(draw):
    cls = draw(sampled(list(CLS)))
    how = draw(sampled(['ok'] * 6 + ['nonfinite'] * 4 + ['ndim', 'empty', 'ragged']))
    nd = CLS[cls][1]
    kind = draw(sampled(['int', 'med', 'fl', 'dy', 'mix', 'mix', 'huge', 'bool']))
    if how == 'ndim':
        nd = draw(sampled([0, 1, 2, 3]))
    rows = draw(sampled([1, 1, 2, 3, 4, 7, 40, 200]))
    cols = draw(sampled([1, 2, 2, 3, 3, 4, 6, 50, 300])) if nd == 1 or rows < 40 else draw(sampled([1, 2, 3, 3, 4]))
    n = number(kind)
    if rows * cols > 60:
        base = draw(lists(n, min_size=7, max_size=7))
        vals = [[base[(i * cols + j) % 7] for j in range(cols)] for i in range(rows)]
    elif nd == 1:
        vals = [draw(lists(n, min_size=cols, max_size=cols))]
    else:
        vals = [draw(lists(n, min_size=cols, max_size=cols)) for _ in range(rows)]
    x = {0: lambda: vals[0][0], 1: lambda: vals[0], 2: lambda: vals, 3: lambda: [vals]}[nd]()
    if how == 'nonfinite' and nd:
        bad = draw(sampled([float('nan'), float('inf'), float('-inf')]))
        r = x if nd == 1 else x[draw(integers(0, len(x) - 1))]
        r[draw(integers(0, len(r) - 1))] = bad
    if how == 'empty':
        x = draw(sampled([[], [[]], [[], []], [[[]]], [[], [], []]]))
    if how == 'ragged':
        x = [[1, 2], [3]] if draw(booleans()) else vals + [vals[0] + [1]]
        if draw(booleans()):
            x = x[::-1]
        if nd == 1 and draw(booleans()):
            x = vals[0] + [[1]]
    return dict(cls=cls, x=x, how=how, dtype=draw(sampled([None] * 5 + DTYPES)), cont=draw(sampled(CONT)))


def contain(x, cont, dtype):
    """The container; None if it cannot carry the data."""
    sh = shape_of(x)
    if sh is None or cont in ('list', 'tuple', 'mixed') or sh == ():
        def conv(y, depth=0):
            if not isinstance(y, list):
                return y
            t = tuple if cont == 'tuple' or (cont == 'mixed' and depth % 2) else list
            return t(conv(z, depth + 1) for z in y)
        return conv(x)
    try:
        a = np.array(x, dtype=dtype)
    except (OverflowError, ValueError):
        a = np.array(x)
    if cont == 'spatial':
        if not a.size or a.ndim not in (1, 2) or a.dtype.kind not in 'fiub':
            return a
        b = (Vector if a.ndim == 1 else Points)(np.zeros_like(a))
        b[...] = a                                  # may put NaN or infinity into it
        return b
    if cont == 'rows':
        return [r for r in a] if a.ndim == 2 else tuple(a)
    if cont == 'scalars':
        return [list(r) for r in a] if a.ndim == 2 else list(a)
    if cont == 'reversed':
        return a[::-1].copy()[::-1]
    if cont == 'masked':                             # NumPy takes the numbers under the mask, too
        return np.ma.masked_array(a, mask=np.arange(a.size).reshape(a.shape) % 3 == 0)
    if cont == 'matrix':
        return np.asmatrix(a) if a.ndim == 2 else a.view(Sub)
    if cont == 'memoryview':
        return memoryview(a) if a.dtype.isnative and a.dtype.kind in 'iuf' and a.dtype.itemsize < 16 else a
    if cont == 'pyarray' and a.dtype.kind in 'iuf' and a.dtype.char in 'bBhHiIlLfd':
        rows = [array.array(a.dtype.char, r.tolist()) for r in (a if a.ndim == 2 else [a])] if a.ndim in (1, 2) else [a]
        return rows if a.ndim == 2 else rows[0]
    if cont == 'interface':
        return Interface(a)
    if cont == 'sequence':
        return Sequence([Sequence(list(r)) for r in a] if a.ndim == 2 else list(a))
    if cont == 'deque':
        return collections.deque(tuple(r) for r in a) if a.ndim == 2 else collections.deque(a)
    if cont == 'deep' and a.ndim in (1, 2):          # arrays of no dimension
        return [[np.array(v) for v in r] for r in a] if a.ndim == 2 else [np.array(v) for v in a]
    if cont == 'bcast':
        return np.broadcast_to(a, a.shape)
    if cont == 'farray':
        return np.asfortranarray(a)
    if cont == 'readonly':
        a.setflags(write=False)
    if cont == 'strided':
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a


NAN, INF = float('nan'), float('inf')


@facet('C01', 'construct', data, quick=6000, rule='accepted array with more than one value, or a refusal for one bad value or shape',
       pinned=[dict(cls=k, x=x, how='pin', dtype=None, cont=c) for k in CLS for c in ('list', 'array', 'tuple') for x in (
           [], [[]], [1], [[1]], [1, 2], [[1, 2], [3, 4]], [[1, 2], [3]], 5, [[[1, 2]]], [NAN], [1, INF], [[1, -INF]], [[1, 2], [3, NAN]],
           [True, False], [1, 2.5], [-0.0, 0])])
def construct(c, ctx):
    cls, nd = CLS[c['cls']]
    x = c['x']
    sh = shape_of(x)
    src = contain(x, c['cont'], c['dtype'])
    vals = flat(x)
    if c['cont'] in CONT[12:] and sh is not None:
        ref = np.array(src)
        if ref.dtype.kind not in 'fiub':
            return
        fin = bool(np.isfinite(ref).all())
    elif isinstance(src, np.ndarray):
        fin = bool(np.isfinite(np.asarray(src)).all()) if src.dtype.kind in 'fiub' else None
    else:
        try:
            fin = all(math.isfinite(float(v)) for v in (flat(np.array(src).tolist()) if sh is not None else vals if not any(isinstance(v, (list, tuple)) for v in vals) else [0]))
        except OverflowError:
            return
    if isinstance(src, np.ndarray) and src.dtype.kind == 'O':
        return
    ok = sh is not None and len(sh) == nd and 0 not in sh and fin
    ctx.label(c['cls'], c['how'], 'accept' if ok else 'refuse', c['cont'])
    ctx.nt(len(vals) > 1)
    before = repr(src), (src.tobytes() if isinstance(src, np.ndarray) else None)
    if not ok:
        rejects(lambda: cls(src), f"{c['cls']} of an invalid array ({c['how']})")
        return
    ref = np.array(src)
    if ref.dtype == object:
        return
    obj = cls(src)
    if type(obj) is not cls or not isinstance(obj, np.ndarray):
        raise Violation(f'{c["cls"]}(...) is a {type(obj)}')
    a = np.array(obj)
    need(a.shape == ref.shape, 'shape changed:', a.shape, ref.shape)
    need(a.dtype == ref.dtype, 'dtype changed:', str(a.dtype), str(ref.dtype))
    need(np.array_equal(a, ref) and np.array_equal(np.signbit(a) if a.dtype.kind == 'f' else a,
                                                   np.signbit(ref) if a.dtype.kind == 'f' else ref), 'values changed:', a, ref)
    need(obj.dimension == ref.shape[-1], 'dimension is wrong:', obj.dimension, ref.shape)
    need((repr(src), src.tobytes() if isinstance(src, np.ndarray) else None) == before, 'the input was changed')
    again = cls(obj)
    need(np.array_equal(np.array(again), ref) and again.dimension == obj.dimension, 'constructing from the object itself changes it')


@cases
def pairs_of_objects(draw):
    d = draw(integers(1, 4))
    n = draw(integers(1, 4))
    return dict(v=vec(draw, d), rows=[vec(draw, d) for _ in range(n)], ops=draw(lists(sampled(
        ['point', 'vector', 'points', 'add', 'mul', 'unit', 'mean', 'round', 'from_points', 'isclose', 'nested']), min_size=1, max_size=6)))


@facet('C01', 'bounded_stack', pairs_of_objects, quick=600, rule='at least two operations',
       pinned=[dict(v=[1, 2], rows=[[1, 2], [3, 4]], ops=[o]) for o in
               ('point', 'vector', 'points', 'add', 'mul', 'unit', 'mean', 'round', 'from_points', 'isclose', 'nested')])
def bounded_stack(c, ctx):
    """The deepest Python call stack below a construction or ufunc stays far from the recursion limit."""
    v, m = c['v'], c['rows']
    depth = [0, 0]

    def prof(frame, event, arg):
        if event == 'call':
            depth[0] += 1
            depth[1] = max(depth)
        elif event == 'return':
            depth[0] -= 1

    ctx.nt(len(c['ops']) > 1)
    for op in c['ops']:
        p, q = Point(v), Vector(v)
        depth[:] = [0, 0]
        old = sys.getprofile()
        sys.setprofile(prof)
        try:
            if op == 'point':
                Point(p)
            elif op == 'vector':
                Vector(np.array(v))
            elif op == 'points':
                Points(m)
            elif op == 'nested':
                Points([Point(v), Vector(v)])
            elif op == 'add':
                p + q
            elif op == 'mul':
                q * 2
            elif op == 'unit':
                if any(abs(t) > 1e-9 for t in v):
                    q.unit()
            elif op == 'mean':
                Points(m).mean_center()
            elif op == 'round':
                q.round(2)
            elif op == 'from_points':
                Vector.from_points(p, q)
            elif op == 'isclose':
                p.is_close(q)
        finally:
            sys.setprofile(old)
        need(depth[1] < 150, f'{op} needs a call stack of depth', depth[1])


@cases
def large(draw):
    return dict(draw(crowd([1, 2, 3, 5, 12])), flat=draw(booleans()), bad=draw(sampled([None, NAN, INF, -INF])), dtype=draw(sampled(['float64', 'float64', 'float32', 'float16', 'int32', 'int64'])))


@facet('C01', 'large', large, quick=400, rule='one bad value')
def large_(c, ctx):
    """One value that is not finite, anywhere in a large array, is found; every other value is taken as it is."""
    x = crowd_rows(c)[0].astype(c['dtype'])
    if not np.isfinite(x).all():
        raise Discard
    a = x.ravel().copy() if c['flat'] else x.copy()
    i = c['i'] % a.size
    i = [i, 0, a.size - 1][c['k'] - 1]
    if c['bad'] is not None and a.dtype.kind == 'f':
        a.flat[i] = c['bad']
    ok = bool(np.isfinite(a).all())
    ctx.nt(not ok)
    for cls in (Point, Vector) if c['flat'] else (Points,):
        src = a.tolist() if c['f'] in ('list', 'tuple') else a.copy() if c['flat'] else np.asfortranarray(a) if c['f'] == 'farray' else a
        if not ok:
            rejects(lambda: cls(src), f'{cls.__name__} of shape {a.shape} with {c["bad"]} at {i}')
            continue
        o = cls(src)
        b = np.array(src)
        need(type(o) is cls and o.dtype == b.dtype and o.shape == b.shape and np.array_equal(np.asarray(o), b) and o.dimension == b.shape[-1], f'{cls.__name__} of shape {a.shape} is another array')
