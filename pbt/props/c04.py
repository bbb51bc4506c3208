"""C04: composite objects exist only in valid, faithful states."""
import copy
import sys
import pickle

from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *

NAN = float('nan')


def equal_vals(a, b, what):
    """a: array attribute, b: expected numbers (same dtype kind rules as numpy.array)."""
    r = np.array(b)
    x = np.asarray(a)
    need(x.shape == r.shape and np.array_equal(x, r), f'{what} is {x.tolist()}, expected {r.tolist()}')


def roundtrip(o, ctx, exact_text):
    cls = type(o)
    q = copy.deepcopy(o)                    # a deep copy and the object it was made from do not share arrays
    kept = snap(o)
    for v in fields(q).values():
        if isinstance(v, np.ndarray):
            v[...] = v * 0 + 5
    need(snap(o) == kept, f'a change of a deep copy changed the object to {o!r}')
    for how, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy)) + tuple(
            (f'pickle{p}', lambda x, p=p: pickle.loads(pickle.dumps(x, protocol=p))) for p in (2, 5)):
        q = f(o)
        need(type(q) is cls, f'{how} changes the type to', type(q).__name__)
        need(same(o, q), f'{how} changes the object: {o!r} -> {q!r}')
        need(q.dimension == o.dimension, f'{how} changes the dimension', q.dimension)
        for k, v in fields(o).items():
            if isinstance(v, np.ndarray):
                need(getattr(q, k).dimension == v.dimension, f'{how} changes the dimension of {k}')
    text = repr(o)
    need(text.startswith(cls.__name__ + '('), 'repr does not name the class:', text)
    texts = [text] if exact_text else []
    if all(v.dtype in ('float64', 'int64') if isinstance(v, np.ndarray) else type(v) in (int, float) for v in fields(o).values()):
        with np.printoptions(precision=400, floatmode='maxprec', threshold=sys.maxsize):        # all digits, by either way to ask for them
            texts.append(repr(o))
        with np.printoptions(floatmode='unique', threshold=sys.maxsize):
            texts.append(repr(o))
    for text in texts:
        try:
            q = eval(text, {'Point': Point, 'Vector': Vector, cls.__name__: cls, '__builtins__': {}})
        except Exception as e:
            raise Violation(f'repr cannot be evaluated: {text}: {e}') from None
        need(type(q) is cls and same_values(o, q), f'evaluating the repr gives another object: {text} -> {q!r}')


def same_values(a, b):
    for k, v in fields(a).items():
        w = getattr(b, k)
        if isinstance(v, np.ndarray):
            if type(v) is not type(w) or not np.array_equal(v, w):
                return False
        elif v != w:
            return False
    return True


def short(*vs):
    """Coordinates whose NumPy text is exact."""
    return all(abs(x) < 1000 and float(x) * 16 == int(float(x) * 16) and len(repr(float(x)).split('.')[1]) <= 5
               for v in vs for x in v)


@cases
def lp(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4, 6, 9]))
    kind = draw(kinds())
    how = draw(sampled(['ok'] * 5 + ['zero', 'dim', 'tiny', 'same']))
    p = vec(draw, d, kind)
    v = nonzero(draw, d, draw(kinds()))
    if how == 'zero':
        v = draw(sampled([[0] * d, [0.0] * d, [-0.0] * d]))
    elif how == 'dim':
        e = draw(sampled([k for k in (1, 2, 3, 4, 5) if k != d]))
        v = nonzero(draw, e, kind)
    elif how == 'tiny':
        v = scaled(v, draw(sampled([1e-6, 1e-9, 1e-20, 1e-100, 1e100])))
    if draw(booleans()):
        p = shifted(p, offset(draw, d))
    if how == 'same':
        v = [0] * d
    return dict(p=p, v=v, how=how, f1=draw(wide), f2=draw(wide), cls=draw(sampled(['Line', 'Plane'])))


@facet('C04', 'line_plane', lp, quick=2500, rule='not axis-aligned, or refused',
       pinned=[dict(p=[0], v=[0, 1], how='dim', f1='list', f2='list', cls='Line'), dict(p=[0, 0], v=[0, 0], how='zero', f1='list', f2='list', cls='Plane'),
               dict(p=[0, 0], v=[1e-20, 0], how='tiny', f1='list', f2='list', cls='Plane')])
def line_plane(c, ctx):
    cls = Line if c['cls'] == 'Line' else Plane
    p, v = c['p'], c['v']
    a, b = form(p, c['f1'], Point), form(v, c['f2'], Vector)
    bad = len(p) != len(v) or not any(v)
    ctx.label(c['cls'], c['how'], f'dim{len(p)}')
    ctx.nt(bad or sum(x != 0 for x in v) > 1)
    if bad:
        rejects(lambda: cls(a, b), f"{c['cls']} with {'different dimensions' if len(p) != len(v) else 'a zero vector'}")
    else:
        o = cls(a, b)
        isa(o.point, Point), isa(o.vector, Vector)
        equal_vals(o.point, p, 'point'), equal_vals(o.vector, v, 'vector')
        equal_vals(o.direction if cls is Line else o.normal, v, 'direction/normal')
        need(o.dimension == len(p), 'dimension is wrong', o.dimension)
        need(o.point.dtype == np.array(p).dtype and o.vector.dtype == np.array(v).dtype, 'dtype changed')
        o2 = cls(point=a, **{'direction' if cls is Line else 'normal': b})
        need(same(o, o2), 'keyword construction differs')
        roundtrip(o, ctx, short(p, v))
    if cls is Line and len(p) == len(v):
        q = [x + y for x, y in zip(p, v)] if c['how'] != 'same' else list(p)
        w = sub(fv(q), fv(p))
        y = form(q, c['f2'], Point)
        if not any(w):
            rejects(lambda: Line.from_points(a, y), 'Line.from_points with equal points')
        elif norm(w) > 1e-100:
            o = isa(Line.from_points(a, y), Line)
            equal_vals(o.point, p, 'from_points point')
            near_vec(o.direction, w, 1e-15 * mag(p, q), 'from_points direction')
            need(np.array_equal(np.asarray(o.direction), np.subtract(q, p)), 'from_points direction is not b - a')
            need(o.dimension == len(p), 'dimension is wrong', o.dimension)


@cases
def slope(draw):
    return dict(m=draw(COORD[draw(kinds())]) * draw(sampled([1, 1, 0, 100, 1e-3, 1e6, 1e-7, 1e9, 1e12])), b=draw(COORD[draw(kinds())]) * draw(sampled([1, 1, 0, 1000])),
                x=draw(COORD['dy']), np=draw(booleans()))


@facet('C04', 'from_slope', slope, quick=600, rule='non-zero slope and intercept',
       pinned=[dict(m=0, b=0, x=1.0, np=False), dict(m=2, b=-1, x=3.0, np=True)])
def from_slope(c, ctx):
    m, b, x = c['m'], c['b'], c['x']
    ctx.nt(m != 0 and b != 0)
    o = isa(Line.from_slope(np.float64(m) if c['np'] else m, b), Line)
    need(o.dimension == 2, 'from_slope is not 2D')
    d, p = fv(arr(o.direction, (2,))), fv(arr(o.point, (2,)))
    need(d[0] > 0, 'the line does not run towards positive x', o)
    near(float(d[1] / d[0]), m, 1e-13 * abs(m), 'slope')
    near(float(p[1] - F(m) * p[0]), b, 1e-12 * (abs(b) + abs(m)), 'intercept')
    y = F(m) * F(x) + F(b)
    pt = [F(x), y]
    f, _ = foot_line(p, d, pt)
    need(dist(f, pt) <= 1e-12 * (1 + abs(float(y)) + abs(x)), 'y = m x + b is off the line')
    need(o.contains_point([x, float(y)], abs_tol=1e-9 * (1 + abs(x) + abs(float(y)))), 'contains_point denies a point of the line')


@cases
def seg(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 4]))
    kind = draw(kinds())
    a = vec(draw, d, kind)
    how = draw(sampled(['ok', 'ok', 'ok', 'equal', 'one', 'neg', 'small', 'dim']))
    b = vec(draw, d, draw(kinds()))
    if how == 'equal':
        b = [x + 0.0 if draw(booleans()) else x for x in a]
    elif how == 'one':
        b = list(a)
        b[draw(integers(0, d - 1))] += draw(sampled([1, -1, 0.5, 100]))
    elif how == 'neg':
        b = [-x for x in a]
    elif how == 'small':
        b = list(a)
        i = draw(integers(0, d - 1))
        b[i] = b[i] * (1 + draw(sampled([1e-5, 1e-7, -1e-6, 1e-8, 3e-10, -1e-11, 1e-13, 1e-15]))) if b[i] else 1e-12
    elif how == 'dim':
        b = vec(draw, draw(sampled([k for k in (1, 1, 2, 3, 4) if k != d])), kind)
    s = draw(sampled([1, 1, 1, 1e-6, 1e6, 1024.0]))
    return dict(a=scaled(a, s), b=scaled(b, s), how=how, f1=draw(wide), f2=draw(wide))


@facet('C04', 'segment', seg, quick=1500, rule='distinct endpoints or refused',
       pinned=[dict(a=[0], b=[1, 2, 3], how='dim', f1='list', f2='list'), dict(a=[0, 0], b=[0, 0], how='equal', f1='list', f2='list'), dict(a=[0, 0], b=[0, 1e-9], how='one', f1='list', f2='list')])
def segment(c, ctx):
    a, b = c['a'], c['b']
    x, y = form(a, c['f1'], Point), form(b, c['f2'], Point)
    ctx.label(c['how'], f'dim{len(a)}')
    if len(a) != len(b):
        ctx.nt()
        for m, n in ((x, y), (y, x)):
            rejects(lambda: LineSegment(m, n), 'LineSegment with endpoints of different dimensions')
            rejects(lambda: Vector.from_points(m, n), 'Vector.from_points with points of different dimensions')
            rejects(lambda: Line.from_points(m, n), 'Line.from_points with points of different dimensions')
            rejects(lambda: Cylinder.from_points(m, n, 1), 'Cylinder.from_points with points of different dimensions')
        return
    rel = [abs(F(p) - F(q)) / max(abs(F(p)), abs(F(q))) if p != q else 0 for p, q in zip(a, b)]
    if max(rel) < 5e-10:
        ctx.nt(not any(rel))
        rejects(lambda: LineSegment(x, y), 'LineSegment with equal endpoints' if not any(rel) else 'LineSegment with endpoints that math.isclose calls equal')
        return
    if max(rel) < 5e-9:
        return
    ctx.nt()
    o = LineSegment(x, y)
    isa(o.point_a, Point), isa(o.point_b, Point)
    equal_vals(o.point_a, a, 'point_a'), equal_vals(o.point_b, b, 'point_b')
    need(o.dimension == len(a), 'dimension is wrong', o.dimension)
    need(same(o, LineSegment(point_b=y, point_a=x)), 'keyword construction differs')
    roundtrip(o, ctx, short(a, b))


RADII = [1, 2, 0.5, 3.25, 10 ** 6, 1e-9, 5, 0, -1, 0.0, -0.0, -2.5, NAN, -1e-12, True]


@cases
def round_objects(draw):
    cls = draw(sampled(['Circle', 'Sphere', 'Cylinder', 'CylPoints']))
    d0 = 2 if cls == 'Circle' else 3
    d = draw(sampled([d0] * 6 + [1, 2, 3, 4]))
    e = draw(sampled([d0] * 6 + [1, 2, 3, 4]))
    r = draw(sampled(RADII)) if draw(booleans()) else draw(integers(1, 10 ** 6)) / draw(sampled([1, 16, 100, 1000]))
    how = draw(sampled(['ok', 'ok', 'ok', 'ok', 'zero']))
    v = scaled(nonzero(draw, e, draw(kinds())), draw(sampled([1] * 6 + [1e-6, 1e-11, 1e-30, 1e-100, 1e100]))) if how == 'ok' else [0] * e
    return dict(cls=cls, p=shifted(vec(draw, d, draw(kinds())), offset(draw, d)), v=v, r=r, f1=draw(wide), f2=draw(wide), np=draw(booleans()))


@facet('C04', 'circle_sphere_cylinder', round_objects, quick=2500, rule='accepted, or one bad argument',
       pinned=[dict(cls=k, p=[0] * d, v=[0, 0, 1], r=r, f1='list', f2='list', np=False)
               for k, d in (('Circle', 2), ('Circle', 3), ('Sphere', 3), ('Sphere', 2), ('Cylinder', 3), ('CylPoints', 3)) for r in (1, 0, -1, NAN, 0.5)])
def circle_sphere_cylinder(c, ctx):
    p, v, r = c['p'], c['v'], c['r']
    k = c['cls']
    x, y = form(p, c['f1'], Point), form(v, c['f2'], Vector)
    rr = np.float64(r) if c['np'] else r
    bad = not r > 0
    if k in ('Circle', 'Sphere'):
        bad = bad or len(p) != (2 if k == 'Circle' else 3)
        make = lambda: (Circle if k == 'Circle' else Sphere)(x, rr)
    elif k == 'Cylinder':
        bad = bad or len(p) != 3 or len(v) != 3 or not any(v)
        make = lambda: Cylinder(x, y, rr)
    else:
        if len(p) != len(v):
            return
        q = [s + t for s, t in zip(p, v)]
        w = [float(t) for t in sub(fv(q), fv(p))]
        bad = bad or len(p) != 3 or not any(w)
        make = lambda: Cylinder.from_points(x, q, rr)
    ctx.label(k, 'refuse' if bad else 'accept')
    ctx.nt()
    if bad:
        rejects(make, f'{k} with bad arguments (point {len(p)}D, vector {v}, radius {r})')
        return
    o = make()
    need(type(o).__name__ == k[:8] or k == 'CylPoints' and type(o) is Cylinder, 'wrong type', type(o).__name__)
    equal_vals(isa(o.point, Point), p, 'point')
    need(o.radius == r and o.dimension == len(p), 'radius or dimension is wrong', o)
    if k == 'Cylinder':
        equal_vals(isa(o.vector, Vector), v, 'vector')
    elif k == 'CylPoints':
        need(np.array_equal(np.asarray(isa(o.vector, Vector)), np.subtract(q, p)), 'vector is not b - a', o)
    if k == 'CylPoints':
        need(same(o, Cylinder.from_points(radius=rr, point_b=q, point_a=x)), 'keyword construction differs')
    else:
        need(same(o, type(o)(radius=rr, point=x, **({'vector': y} if k == 'Cylinder' else {}))), 'keyword construction differs')
    roundtrip(o, ctx, k != 'CylPoints' and short(p, [r] if r is not True else [1]) and (k != 'Cylinder' or short(v)) and not c['np'])


@cases
def three(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4, 5, 8]))
    how = draw(sampled(['ok', 'ok', 'ok', 'collinear', 'collinear', 'equal', 'near', 'cluster', 'dim']))
    kind = draw(kinds(['int', 'med', 'big', 'dy'] if how in ('collinear', 'equal') else ALL))
    a = vec(draw, d, kind)
    u = nonzero(draw, d, kind)
    if how == 'collinear':
        i, j = draw(integers(-5, 5)), draw(integers(-5, 5))
        b, e = [x + i * y for x, y in zip(a, u)], [x + j * y for x, y in zip(a, u)]
    elif how == 'equal':
        b = list(a)
        e = draw(sampled([a, [x + y for x, y in zip(a, u)]]))
    elif how == 'near':
        b = [x + y for x, y in zip(a, u)]
        w = vec(draw, d, 'fl')
        t = draw(sampled([1e-2, 1e-3, 1e-4, 1e-5]))
        e = [x + 0.5 * y + t * z for x, y, z in zip(a, u, w)]
    elif how == 'cluster':               # two close points, by the third point or the origin
        w = nonzero(draw, d, draw(sampled(['int', 'med'])))
        t = draw(sampled([1e-3, 2.0 ** -11, 1e-4, 2.0 ** -14, 1e-5]))
        b, e = [x + t * z for x, z in zip(a, w)], [x + draw(sampled([1, 1, 1000])) * y for x, y in zip(a, u)]
        m = draw(sampled([0, 100, 10 ** 4, 10 ** 6])) if t > 5e-5 else 0
        o = [draw(sampled([-1, 1, 1])) * m for _ in range(d)]
        a, b, e = shifted(a, o), shifted(b, o), shifted(e, o)
    else:
        b, e = vec(draw, d, kind), vec(draw, d, kind)
    pts = [a, b, e]
    if kind in ('int', 'med', 'big') and how != 'cluster':
        o = offset(draw, d, [0, 0, 100, 10 ** 4, 10 ** 6])
        pts = [shifted(p, o) for p in pts]
    s = draw(sampled([1, 1, 1, 1024.0, 2.0 ** -20, 2.0 ** 20] + ([] if how in ('collinear', 'equal') else [1e-6, 1e5])))
    pts = [scaled(p, s) for p in pts]
    pts = draw(sampled([pts, [pts[1], pts[2], pts[0]], [pts[2], pts[1], pts[0]]]))
    if how == 'dim':
        i = draw(integers(0, 2))
        pts[i] = pts[i] + [1]
    return dict(p=pts, how=how, f=[draw(wide) for _ in range(3)])


@facet('C04', 'three_points', three, quick=3500, rule='three distinct points or mixed dimensions',
       pinned=[dict(p=[[0, 0], [1, 1], [2, 2]], how='collinear', f=['list'] * 3), dict(p=[[0, 0], [1, 0], [0, 1]], how='ok', f=['list'] * 3),
               dict(p=[[0, 0, 0], [1, 0, 0], [0, 1]], how='dim', f=['list'] * 3), dict(p=[[1000, 1001, 1002], [1001, 1003, 1005], [1003, 1007, 1011]], how='collinear', f=['array'] * 3)])
def three_points(c, ctx):
    pts = [fv(p) for p in c['p']]
    dims = {len(p) for p in pts}
    args = [form(p, f, Point) for p, f in zip(c['p'], c['f'])]
    ctx.label(c['how'], *(f'dim{d}' for d in dims))
    d = len(pts[0])
    if len(dims) > 1:
        ctx.nt()
        rejects(lambda: Triangle(*args), 'Triangle with points of different dimensions')
        rejects(lambda: Plane.from_points(*args), 'Plane.from_points with points of different dimensions')
        rejects(lambda: Circle.from_points(*args), 'Circle.from_points with points of different dimensions')
        return
    u, v = sub(pts[1], pts[0]), sub(pts[2], pts[0])
    if gram2(u, v) == 0:
        exact_ok = all(float(x) * 2 ** 60 == int(float(x) * 2 ** 60) for p in pts for x in p)
        if c['how'] in ('collinear', 'equal') or exact_ok and mag(*pts) < 1e3:
            ctx.nt(len({tuple(p) for p in pts}) == 3)
            rejects(lambda: Triangle(*args), 'Triangle with collinear points')
            rejects(lambda: Plane.from_points(*args), 'Plane.from_points with collinear points')
            rejects(lambda: Circle.from_points(*args), 'Circle.from_points with collinear points')
        return
    # clear of the rank tolerance
    if sin2(u, v) < Fraction(1, 10 ** 9) or gram2(u, v) / n2(sub(u, v) if n2(sub(u, v)) > max(n2(u), n2(v)) else max(u, v, key=n2)) < F(mag(u, v) * 1e-7 + mag(*pts) * 1e-12) ** 2:
        return
    ctx.nt()
    t = Triangle(*args)
    for name, p in zip(('point_a', 'point_b', 'point_c'), c['p']):
        equal_vals(isa(getattr(t, name), Point), p, name)
    need(t.dimension == d, 'dimension is wrong', t.dimension)
    need(same(t, Triangle(point_c=args[2], point_a=args[0], point_b=args[1])), 'keyword construction differs')
    roundtrip(t, ctx, short(*c['p']))
    if d <= 3 and sin2(u, v) < Fraction(1, 10 ** 8):
        pass                     # AB and AC count as parallel (relative tolerance 1e-9 on the cosine)
    elif d <= 3:
        pl = isa(Plane.from_points(*args), Plane)
        check_plane(pl, c['p'][0], u, v, mag(*pts), all(isinstance(x, int) for p in c['p'] for x in p))
    else:
        rejects(lambda: Plane.from_points(*args), 'Plane.from_points over 3D')
    if d == 2:
        Circle.from_points(*args)
    else:
        rejects(lambda: Circle.from_points(*args), 'Circle.from_points not in 2D')


def check_plane(pl, p, u, v, m, ints):
    need(pl.dimension == 3 and isa(pl.point, Point).dimension == 3 and isa(pl.normal, Vector).dimension == 3, 'the plane is not 3D', pl)
    equal_vals(pl.point, list(p) + [0] * (3 - len(p)), 'plane point')
    n = cross(u, v)
    if ints and mag(u, v) < 10 ** 7:
        equal_vals(pl.normal, [int(x) for x in n], 'plane normal')
    else:
        near_vec(pl.normal, n, 1e-13 * (m + mag(u, v)) * mag(u, v), 'plane normal')
        need(same_dir(pl.normal, n), 'normal is not along the cross product', pl.normal)


def same_dir(a, n):
    a = fv(arr(a))
    return dot(a, n) > 0 and sin2(a, n) < Fraction(1, 10 ** 12)


@cases
def vectors(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4]))
    e = draw(sampled([d] * 5 + [2, 3]))
    f = draw(sampled([e] * 5 + [2, 3]))
    kind = draw(kinds())
    a = nonzero(draw, e, kind)
    how = draw(sampled(['ok', 'ok', 'ok', 'parallel', 'zero']))
    b = nonzero(draw, f, draw(kinds()))
    if how == 'parallel' and e == f:
        b = scaled(a, draw(sampled([1, -1, 2, -3, 0.5])))
    if how == 'zero':
        b = [0] * f
    p = shifted(vec(draw, d, draw(kinds())), offset(draw, d))
    return dict(p=p, a=scaled(a, draw(sampled(DIRSCALES))), b=scaled(b, draw(sampled(DIRSCALES))), f=[draw(wide) for _ in range(3)],
                swap=draw(booleans()))


@facet('C04', 'from_vectors', vectors, quick=2000, rule='not axis-aligned, or refused',
       pinned=[dict(p=[0, 0], a=[1, 0], b=[0, 1], f=['list'] * 3, swap=False), dict(p=[0, 0], a=[1, 1, 1], b=[2, 2, 2], f=['list'] * 3, swap=False)])
def from_vectors(c, ctx):
    p, a, b = c['p'], c['a'], c['b']
    if c['swap']:
        a, b = b, a
    x, y, z = form(p, c['f'][0], Point), form(a, c['f'][1], Vector), form(b, c['f'][2], Vector)
    u, v = fv(a), fv(b)
    ctx.label(f'dims{len(p)}{len(a)}{len(b)}')
    if len(u) != len(v):
        if n2(u) == 0 or n2(v) == 0 or len(u) == 1 or len(v) == 1:
            return
        rejects(lambda: Plane.from_vectors(x, y, z), 'Plane.from_vectors with vectors of different dimensions')
        return
    if gram2(u, v) == 0:
        ctx.nt()
        rejects(lambda: Plane.from_vectors(x, y, z), 'Plane.from_vectors with parallel vectors')
        return
    if len(p) > 3 or len(u) > 3:
        rejects(lambda: Plane.from_vectors(x, y, z), 'Plane.from_vectors over 3D')
        return
    if sin2(u, v) < Fraction(1, 10 ** 7):
        return
    ctx.nt(sum(t != 0 for t in u + v) > 2)
    pl = isa(Plane.from_vectors(x, y, z), Plane)
    check_plane(pl, p, u, v, 0, all(isinstance(t, int) for t in a + b))
    for w in (u, v):
        q = float(dot(fv(arr(pl.normal)), pad(w)) / (F(norm(w)) * F(norm(fv(arr(pl.normal))))))
        near(q, 0, 1e-9, 'cosine of normal and vector')


@cases
def derived(draw):
    c = ['Line', 'Line fit', 'Plane v', 'Plane p', 'Plane fit', 'Circle', 'Circle fit', 'Sphere fit', 'Cylinder', 'Vector', 'slope']
    return dict(how=draw(sampled(c)), p=[[draw(integers(-50, 50)) for _ in range(3)] for _ in range(8)], r=draw(integers(1, 9)))


@facet('C04', 'subclass', derived, quick=300, rule='the factory gives an object')
def subclass(c, ctx):
    """A factory called on a subclass gives an object of the subclass, equal to the one of the class itself."""
    k, p = c['how'], c['p']
    base = {'slope': Line}.get(k) or globals()[k.split()[0]]
    q = [x[:2] for x in p] if base is Circle else p
    fn = {'Line': lambda t: t.from_points(*q[:2]), 'Line fit': lambda t: t.best_fit(q), 'Plane v': lambda t: t.from_vectors(*q[:3]), 'Plane p': lambda t: t.from_points(*q[:3]),
          'Plane fit': lambda t: t.best_fit(q), 'Circle': lambda t: t.from_points(*q[:3]), 'Circle fit': lambda t: t.best_fit(q), 'Sphere fit': lambda t: t.best_fit(q),
          'Cylinder': lambda t: t.from_points(*q[:2], c['r']), 'Vector': lambda t: t.from_points(*q[:2]), 'slope': lambda t: t.from_slope(q[0][0], q[0][1])}[k]
    sub_ = type('My' + base.__name__, (base,), {})
    ok, one = attempt(lambda: fn(base))
    ok2, two = attempt(lambda: fn(sub_))
    ctx.label(k)
    ctx.nt(ok)
    need(ok == ok2, f'{k}: the class gives {one!r}, a subclass of it {two!r}')
    if ok:
        need(type(one) is base and type(two) is sub_, f'{k}: the class gives a {type(one).__name__}, a subclass of it a {type(two).__name__}')
        a, b = (dict(x=np.array(one)), dict(x=np.array(two))) if base is Vector else (fields(one), fields(two))
        need(a.keys() == b.keys() and all(np.array_equal(a[i], b[i]) for i in a), f'{k}: the class gives {one!r}, a subclass of it {two!r}')
