"""C02: array objects against a plain-ndarray model, over operation histories."""
import copy
import pickle

from ..engine import facet
from ..gen import *
from ..lib import *

CLS = {'Point': Point, 'Vector': Vector, 'Points': Points}


@composite
def values(draw, two=None):
    d = draw(sampled([1, 2, 2, 3, 3, 4, 6]))
    kind = draw(sampled(['int', 'int', 'med', 'dy', 'dec', 'fl', 'log']))
    two = draw(booleans()) if two is None else two
    if two:
        n = draw(sampled([1, 2, 3, 3, 5]))
        return [draw(lists(COORD[kind], min_size=d, max_size=d)) for _ in range(n)]
    return draw(lists(COORD[kind], min_size=d, max_size=d))


BIN = ['add', 'sub', 'mul_el', 'rsub_arr', 'iadd', 'isub', 'is_equal', 'is_close', 'dot']
UN = ['neg', 'scale', 'rscale', 'npscale', 'div', 'imul', 'set', 'setrow', 'slice', 'col', 'row', 'mask', 'copy', 'ccopy', 'deepcopy',
      'pickle', 'round', 'set_dim', 'to_array', 'sum', 'minmax', 'mean', 'astype', 'T', 'reverse', 'abs', 'sort', 'fresh', 'iter', 'pow', 'np_around',
      'eq', 'reshape', 'bigdim', 'fill', 'shared']


@cases
def history(draw):
    init = [dict(cls=(k := draw(sampled(['Point', 'Vector', 'Points']))), x=draw(values(two=k == 'Points')),
                 dt=draw(sampled([None, None, None, 'float32', 'int32', 'float64']))) for _ in range(draw(integers(1, 3)))]
    n = draw(integers(1, 14))
    ops = [[draw(sampled(UN + BIN * 2)), draw(integers(0, 30)), draw(integers(0, 30)), draw(integers(-3, 5)),
            draw(sampled([2, -1, 3, 0.5, -2.5, 0.1, 7, 1e-3, 0, 1e-18, -1e-13, 1 / 3, 1e17, 123456.7890123456]))] for _ in range(n)]
    return dict(init=init, ops=ops)


class Slot:
    __slots__ = ('obj', 'ref', 'cls')

    def __init__(self, obj, ref, cls):
        self.obj, self.ref, self.cls = obj, ref, cls


def check_slot(s, what):
    o, r = s.obj, s.ref
    if not isinstance(o, np.ndarray) or o.shape != r.shape or o.dtype != r.dtype:
        raise Violation(f'{what}: shape/dtype {getattr(o, "shape", None)} {getattr(o, "dtype", None)}, expected {r.shape} {r.dtype}')
    need(np.array_equal(np.asarray(o), r, equal_nan=True) and (r.dtype.kind != 'f' or np.array_equal(np.signbit(np.asarray(o)), np.signbit(r)) or np.isnan(r).any()), f'{what}: values', np.asarray(o).tolist(), 'expected', r.tolist())
    if s.cls is not None:
        need(type(o) is s.cls, f'{what}: type is {type(o).__name__}, expected {s.cls.__name__}')
        need(o.dimension == r.shape[-1], f'{what}: dimension is {o.dimension!r}, shape is {r.shape}')


def both(f, g, what):
    """f on the object, g on the model: same outcome class."""
    try:
        b = g()
    except Exception as e:
        try:
            a = f()
        except Exception as e2:
            if type(e2) is not type(e):
                raise Violation(f'{what}: raised {type(e2).__name__}, ndarray raises {type(e).__name__}') from None
            return None
        raise Violation(f'{what}: returned {a!r}, ndarray raises {type(e).__name__}')
    try:
        return f(), b
    except (Violation, MemoryError):
        raise
    except Exception as e:
        raise Violation(f'{what}: raised {type(e).__name__}: {e}; ndarray returns {b!r}') from None


def valid(cls, a):
    return a.ndim == (2 if cls is Points else 1) and a.size and bool(np.isfinite(a).all())


@facet('C02', 'history', history, quick=6000, thorough=250000, rule='at least four operations of three kinds',
       pinned=[dict(init=[dict(cls=k, x=x, dt=None)], ops=[[o, 0, 0, 1, 2], ['set', 0, 0, 0, 7], ['set', 1, 0, 0, 3]]) for k, x in
               (('Point', [1, 2, 3]), ('Vector', [0.25, -1.5]), ('Points', [[1.26, 2.5], [3.5, -4.0]])) for o in UN + BIN])
def history_check(c, ctx):
    slots = []
    for s in c['init']:
        a = np.array(s['x'], dtype=s['dt'])
        slots.append(Slot(CLS[s['cls']](a.copy()), a.copy(), CLS[s['cls']]))
    kinds_ = set()
    for k, (op, i, j, m, t) in enumerate(c['ops']):
        s = slots[i % len(slots)]
        o, r, cls = s.obj, s.ref, s.cls
        u = slots[j % len(slots)]
        what = f'step {k} ({op})'
        new = None

        def put(f, g, cls_new):
            """A new slot from the same NumPy expression on object and model."""
            res = both(f, g, what)
            if res is None:
                return
            a, b = res
            if isinstance(b, np.ndarray) and b.ndim:
                keep = cls_new if cls_new is not None and valid(cls_new, b) else None
                if b.base is None and np.shape(a) == b.shape:
                    # memory order (visible in summation order and in reshape) is not part of the model
                    b2 = np.empty_like(np.asarray(a), dtype=b.dtype)
                    b2[...] = b
                    b = b2
                n = Slot(a, b, keep)
                check_slot(n, what)
                if b.size and b.size < 200 and b.dtype.kind in 'if' and np.isfinite(b).all() and np.abs(b).max() < 1e12:
                    slots.append(n)
            else:
                need(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True), f'{what}: got', a, 'expected', b)

        kinds_.add(op)
        if op == 'add':
            put(lambda: o + u.obj, lambda: r + u.ref, cls)
        elif op == 'sub':
            put(lambda: o - u.obj, lambda: r - u.ref, cls)
        elif op == 'mul_el':
            put(lambda: o * u.obj, lambda: r * u.ref, cls)
        elif op == 'rsub_arr':
            put(lambda: u.ref - o, lambda: u.ref - r, None)
        elif op == 'neg':
            put(lambda: -o, lambda: -r, cls)
        elif op == 'abs':
            put(lambda: abs(o), lambda: abs(r), cls)
        elif op == 'pow':
            put(lambda: o ** 2, lambda: r ** 2, cls)
        elif op == 'scale':
            put(lambda: o * t, lambda: r * t, cls)
        elif op == 'rscale':
            put(lambda: t * o, lambda: t * r, cls)
        elif op == 'npscale':
            put(lambda: np.float64(t) * o, lambda: np.float64(t) * r, cls)
        elif op == 'div':
            put(lambda: o / (t or 4), lambda: r / (t or 4), cls)
        elif op in ('iadd', 'isub', 'imul'):
            def inplace(x, y):
                if op == 'iadd':
                    x += y
                elif op == 'isub':
                    x -= y
                else:
                    x *= int(t) or 2
            # a plain copy of the operand: both sides then see the same numbers even when it overlaps
            y = u.ref.copy()
            both(lambda: inplace(o, CLS['Vector'](y) if y.ndim == 1 and y.size and np.isfinite(y).all() else y), lambda: inplace(r, y), what)
        elif op == 'set':
            o[(i % r.shape[0],) if r.ndim == 1 else (i % r.shape[0], j % r.shape[1])] = t
            r[(i % r.shape[0],) if r.ndim == 1 else (i % r.shape[0], j % r.shape[1])] = t
        elif op == 'setrow':
            o[i % r.shape[0]] = m
            r[i % r.shape[0]] = m
        elif op == 'fill':
            o.fill(m)
            r.fill(m)
        elif op == 'slice':
            a, b = sorted((i % (r.shape[0] + 1), j % (r.shape[0] + 1)))
            put(lambda: o[a:b + 1], lambda: r[a:b + 1], cls)
        elif op == 'reverse':
            put(lambda: o[::-1], lambda: r[::-1], cls)
        elif op == 'col' and r.ndim == 2:
            b = j % r.shape[1] + 1
            put(lambda: o[:, :b], lambda: r[:, :b], cls)
        elif op == 'row' and r.ndim == 2:
            put(lambda: o[i % r.shape[0]], lambda: r[i % r.shape[0]], None)
        elif op == 'reshape' and r.ndim == 2:
            put(lambda: o.reshape(r.shape[1], r.shape[0]), lambda: r.reshape(r.shape[1], r.shape[0]), cls)
            put(lambda: o.swapaxes(0, 1), lambda: r.swapaxes(0, 1), cls)
        elif op == 'T':
            put(lambda: o.T, lambda: r.T, cls)
        elif op == 'mask':
            put(lambda: o[np.asarray(o) >= 0] if r.ndim == 1 else o[np.asarray(o)[:, 0] >= 0], lambda: r[r >= 0] if r.ndim == 1 else r[r[:, 0] >= 0], cls)
        elif op == 'copy':
            put(o.copy, r.copy, cls)
        elif op == 'ccopy':
            put(lambda: copy.copy(o), r.copy, cls)
        elif op == 'deepcopy':
            put(lambda: copy.deepcopy(o), r.copy, cls)
        elif op == 'pickle':
            put(lambda: pickle.loads(pickle.dumps(o, protocol=m % 6)), r.copy, cls)
        elif op == 'fresh' and cls:
            put(lambda: cls(o.to_array()), r.copy, cls)
        elif op == 'shared' and cls:
            put(lambda: cls(np.array(o).tolist()), lambda: np.array(r.tolist()), cls)
        elif op == 'round' and cls:
            put(lambda: o.round(m), lambda: np.around(r, m).copy(), cls)
            if m == 0:
                put(lambda: o.round(), lambda: np.around(r).copy(), cls)
        elif op == 'np_around':
            put(lambda: np.around(o, decimals=m).copy(), lambda: np.around(r, m).copy(), None)
        elif op == 'set_dim' and cls:
            d = r.shape[-1]
            n = d + m
            if n < d:
                rejects(lambda: o.set_dimension(n), f'{what} to a smaller dimension')
            else:
                p = [(0, 0)] * (r.ndim - 1) + [(0, n - d)]
                put(lambda: o.set_dimension(n), lambda: np.pad(r, p), cls)
        elif op == 'bigdim' and cls and r.shape[-1] < 20:
            p = [(0, 0)] * (r.ndim - 1) + [(0, 30)]
            put(lambda: o.set_dimension(r.shape[-1] + 30), lambda: np.pad(r, p), cls)
        elif op == 'to_array' and cls:
            a = o.to_array()
            need(type(a) is np.ndarray, f'{what}: type is {type(a).__name__}')
            b = np.empty_like(a, dtype=r.dtype)           # in the memory order of a
            if b.shape == r.shape:
                b[...] = r
            n = Slot(a, b if b.shape == r.shape else r.copy(), None)
            check_slot(n, what)
            slots.append(n)
        elif op == 'sum':
            need(np.array_equal(np.asarray(o.sum()), r.sum()), f'{what}:', o.sum(), r.sum())
            put(lambda: np.asarray(o.sum(axis=0)), lambda: np.asarray(r.sum(axis=0)), None)
        elif op == 'mean':
            need(np.array_equal(np.asarray(o.mean()), r.mean()), f'{what}:', o.mean(), r.mean())
            put(lambda: np.asarray(o.mean(axis=0)), lambda: np.asarray(r.mean(axis=0)), None)
        elif op == 'minmax':
            need((o.min(), o.max(), o.argmin(), o.argmax()) == (r.min(), r.max(), r.argmin(), r.argmax()), f'{what} differs')
        elif op == 'astype':
            put(lambda: o.astype(float), lambda: r.astype(float), cls)
        elif op == 'sort':
            o.sort(axis=0)
            r.sort(axis=0)
        elif op == 'iter':
            need([np.asarray(x).tolist() for x in o] == [np.asarray(x).tolist() for x in r], f'{what} differs')
            need(len(o) == len(r) and o.size == r.size and o.ndim == r.ndim, f'{what}: len/size')
        elif op == 'dot' and r.ndim == 1 and u.ref.ndim == 1:
            both(lambda: o.dot(u.obj), lambda: r.dot(u.ref), what)
            if r.shape == u.ref.shape:
                need(np.array_equal(np.asarray(o.dot(u.obj)), r.dot(u.ref)), f'{what}: value')
        elif op == 'eq':
            if r.shape == u.ref.shape:
                need(np.array_equal(np.asarray(o == u.obj), r == u.ref), f'{what}: elementwise ==')
        elif op == 'is_equal' and cls:
            need(boolean(o.is_equal(u.obj), what) == np.array_equal(r, u.ref), f'{what}: is_equal', o, u.obj)
            need(boolean(o.is_equal(r.tolist())), f'{what}: not equal to its own values')
        elif op == 'is_close' and cls and r.shape != u.ref.shape:
            try:
                x, y = np.broadcast_arrays(r, u.ref)
            except ValueError:
                rejects(lambda: o.is_close(u.obj), f'{what}: is_close of shapes {r.shape} and {u.ref.shape}')
            else:
                ref = all(math.isclose(s, t) for s, t in zip(x.ravel().tolist(), y.ravel().tolist()))
                need(boolean(o.is_close(u.obj)) == ref, f'{what}: is_close of {r.tolist()} and {u.ref.tolist()} should be', ref)
        elif op == 'is_close' and cls:
            kw = [{}, dict(abs_tol=0.5), dict(rel_tol=0.1), dict(abs_tol=1e-6, rel_tol=0)][m % 4]
            for other in (u.ref, r + [0, 0.4, 1e-7, 1e-10][j % 4], r * [1.05, 1 + 1e-10, 1 + 1e-8][j % 3]):
                ref = all(math.isclose(x, y, **kw) for x, y in zip(r.ravel().tolist(), other.ravel().tolist()))
                need(boolean(o.is_close(other, **kw)) == ref, f'{what}: is_close({other.tolist()}, {kw}) of {r.tolist()} should be', ref)
                x = o.is_close(other.tolist(), **kw)
                need(x == ref, f'{what}: is_close of a list')
        for n, sl in enumerate(slots):
            check_slot(sl, f'{what}, then object {n}')
        if len(slots) > 24:
            del slots[3:10]
    ctx.label(*kinds_)
    ctx.nt(len(c['ops']) >= 4 and len(kinds_) >= 3)


@cases
def large(draw):
    return dict(draw(crowd([1, 2, 3, 5])), flat=draw(booleans()), dec=draw(integers(-2, 3)), more=draw(integers(0, 3)), d=draw(sampled([1, 2, 3, 5])), step=draw(sampled([1e-12, 1e-7, 0.5, 3])))


@facet('C02', 'large', large, quick=300, rule='every case')
def large_(c, ctx):
    """The same agreement with NumPy for large arrays; one changed value decides a comparison."""
    c = dict(c, o=(c['o'] * 5)[:c['d']], p=(c['p'] * 5)[:c['d']])
    a = crowd_points(c)
    a = a.ravel() if c['flat'] else a
    cls = [Point, Vector][c['k'] % 2] if c['flat'] else Points
    o = cls(a.copy())
    ctx.nt()

    def equal(x, ref, what, typ=cls):
        need(type(x) is typ and x.shape == ref.shape and x.dtype == ref.dtype and np.array_equal(np.asarray(x), ref), f'{what} of shape {a.shape} differs from NumPy')
        need(typ is np.ndarray or x.dimension == ref.shape[-1], f'{what}: dimension is {getattr(x, "dimension", None)}')

    equal(o.round(c['dec']), np.around(a, c['dec']), f'round({c["dec"]})')
    pad = [(0, 0)] * (a.ndim - 1) + [(0, c['more'])]
    equal(o.set_dimension(a.shape[-1] + c['more']), np.pad(a, pad), 'set_dimension')
    equal(o.to_array(), a, 'to_array', np.ndarray)
    equal(o + o, a + a, 'sum of two'), equal(-o, -a, 'negation'), equal(2 * o, 2 * a, 'double'), equal(o.copy(), a, 'copy')
    equal(o[::-1], a[::-1], 'reversed'), equal(copy.deepcopy(o), a, 'deepcopy'), equal(pickle.loads(pickle.dumps(o)), a, 'pickled copy')
    b = a.astype(float) if c['step'] < 1 else a.copy()
    i = [c['i'] % a.size, 0, a.size - 1][c['k'] - 1]
    need(boolean(o.is_equal(b)) and boolean(o.is_close(b)), f'array of shape {a.shape} is not equal to its copy')
    b.flat[i] += c['step']
    need(boolean(o.is_equal(b)) == bool(np.array_equal(a, b)), f'is_equal of shape {a.shape} with another value at {i}: {a.flat[i]} and {b.flat[i]}')
    for kw in ({}, dict(abs_tol=1e-9), dict(rel_tol=0.01, abs_tol=0.1)):
        need(boolean(o.is_close(b, **kw)) == math.isclose(a.flat[i], b.flat[i], **kw), f'is_close({kw}) of shape {a.shape} with another value at {i}: {a.flat[i]} and {b.flat[i]}')
    need(np.array_equal(np.asarray(o), a), 'the array was changed')
