"""Catalogue of the public operations: how to draw, build, move and compare their arguments and results.

Argument tokens (raw JSON value):
  p point, v non-zero vector, z any vector, P points (list of lists), L line [p, v], K plane [p, v], G segment [p, p],
  T triangle [p, p, p], C circle / S sphere [p, r], Y cylinder [p, v, r], r radius, x a vector along +-(v cross v) of the
  two vectors drawn before, B list of vectors, q polygon (points in 2D), t1 / t2 tolerance of that degree, n plain number.
Result kinds (see Motion.apply): p, P, v<k>, V<k>, w<k> (pseudovector), s<k>, o<k> (sign follows the orientation),
  b (equal), ax (direction up to sign), set (points in any order), an0 (unsigned angle), ang (signed angle modulo a turn).
"""
import numpy as np

from skspatial.measurement import area_signed, area_triangle, volume_tetrahedron
from skspatial.transformation import transform_coordinates

from .gen import *
from .lib import *


class Op:
    def __init__(self, name, tokens, dims, fn, out, generic, exact, linear, minpts, weight):
        self.name, self.tokens, self.dims, self.fn, self.out = name, tokens.split(), dims, fn, out
        self.generic, self.exact, self.linear, self.minpts, self.weight = generic, exact, linear, minpts, weight


OPS = {}
A, A3, A23 = (1, 2, 3, 4), (1, 2, 3), (2, 3)


def op(name, tokens, dims, fn, out=None, generic=True, exact=True, linear=False, minpts=1, weight=1):
    """generic / exact: take part in the motions of generic floats / of exact integers."""
    OPS[name] = Op(name, tokens, dims, fn, out, generic and out is not None, exact and out is not None, linear, minpts, weight)


def k(*kinds):
    """Result kinds by position; a single kind is for a result that is not a tuple."""
    if len(kinds) == 1:
        return lambda r, ref: [(kinds[0], r)]
    return lambda r, ref: list(zip(kinds, r, strict=True))


def line(deg):
    return lambda r, ref: [('p', r.point), (deg, r.direction)]


def lineset(deg):
    return lambda r, ref: [('p', r.project_point(ref)), (deg, r.direction)]


def fitted(r, ref):
    return [('p', r.point), ('ax', r.vector)]


def circle(r, ref):
    return [('p', r.point), ('s1', r.radius)]


# --- Vector
op('Vector.norm', 'z', A, lambda a: a.norm(), k('s1'))
op('Vector.unit', 'z', A, lambda a: a.unit(), k('v0'))
op('Vector.is_zero', 'z', A, lambda a: a.is_zero(), k('b'))
op('Vector.is_zero tol', 'z t2', A, lambda a, t: a.is_zero(abs_tol=t), k('b'))
op('Vector.cross', 'z z', A23, lambda a, b: a.cross(b), None)
op('Vector.cross 3D', 'z z', (3,), lambda a, b: a.cross(b), k('w2'))
op('Vector.cross 2D', 'z z', (2,), lambda a, b: a.cross(b)[2], k('o2'))
op('Vector.cosine_similarity', 'z z', A, lambda a, b: a.cosine_similarity(b), k('s0'))
op('Vector.angle_between', 'z z', A, lambda a, b: a.angle_between(b), k('an0'))
op('Vector.angle_signed', 'z z', A23, lambda a, b: a.angle_signed(b), k('ang'))
op('Vector.angle_signed_3d', 'z z x', (3,), lambda a, b, c: a.angle_signed_3d(b, c), k('ang'))
op('Vector.is_perpendicular', 'z z', A, lambda a, b: a.is_perpendicular(b), k('b'))
op('Vector.is_perpendicular tol', 'z z t2', A, lambda a, b, t: a.is_perpendicular(b, abs_tol=t), k('b'))
op('Vector.is_parallel', 'z z', A, lambda a, b: a.is_parallel(b), k('b'))
op('Vector.side_vector', 'z z', A23, lambda a, b: a.side_vector(b), k('o0'))
op('Vector.scalar_projection', 'z z', A, lambda a, b: a.scalar_projection(b), k('s1'))
op('Vector.project_vector', 'z z', A, lambda a, b: a.project_vector(b), k('v1'))
op('Vector.different_direction', 'z', A, lambda a: a.different_direction())
op('Vector.from_points', 'p p', A, lambda a, b: Vector.from_points(a, b), k('v1'))
op('Vector.dot', 'z z', A, lambda a, b: a.dot(b), k('s2'))
op('Vector.is_close', 'z z', A, lambda a, b: a.is_close(b, abs_tol=1e-6))
op('Vector.is_equal', 'z z', A, lambda a, b: a.is_equal(b), k('b'), generic=False)
op('Vector.round', 'z', A, lambda a: a.round(1))
op('Vector.set_dimension', 'z', A, lambda a: a.set_dimension(5))
op('Vector.add', 'z z', A, lambda a, b: a + b, k('v1'))
op('Vector.sub', 'z z', A, lambda a, b: a - b, k('v1'))
op('Vector.scale', 'z n', A, lambda a, t: t * a, k('v1'))
op('Point.add', 'p z', A, lambda a, b: a + b, k('p'))
op('Point.distance_point', 'p p', A, lambda a, b: a.distance_point(b), k('s1'))
op('Point.is_equal', 'p p', A, lambda a, b: a.is_equal(b), k('b'), generic=False)
op('Point.to_array', 'p', A, lambda a: a.to_array(), k('p'))
op('Point.repr', 'p', A, lambda a: repr(a))
# --- Points
op('Points.unique', 'P', A, lambda P: P.unique(), k('set'))
op('Points.centroid', 'P', A, lambda P: P.centroid(), k('p'))
op('Points.mean_center', 'P', A, lambda P: P.mean_center(), k('V1'))
op('Points.mean_center 2', 'P', A, lambda P: P.mean_center(return_centroid=True), k('V1', 'p'))
op('Points.normalize_distance', 'P', A, lambda P: P.normalize_distance(), k('V0'), linear=True)
op('Points.affine_rank', 'P', A, lambda P: P.affine_rank(), k('b'))
op('Points.are_concurrent', 'P', A, lambda P: P.are_concurrent(), k('b'))
op('Points.are_collinear', 'P', A, lambda P: P.are_collinear(), k('b'))
op('Points.are_coplanar', 'P', A, lambda P: P.are_coplanar(), k('b'))
op('Points.affine_rank tol', 'P t1', A, lambda P, t: P.affine_rank(tol=t), k('b'))
op('Points.are_concurrent tol', 'P t1', A, lambda P, t: P.are_concurrent(tol=t), k('b'))
op('Points.are_collinear tol', 'P t1', A, lambda P, t: P.are_collinear(tol=t), k('b'))
op('Points.are_coplanar tol', 'P t1', A, lambda P, t: P.are_coplanar(tol=t), k('b'))
# --- Line
op('Line.from_points', 'p p', A, lambda a, b: Line.from_points(a, b), line('v1'))
op('Line.from_slope', 'n n', (2,), lambda a, b: Line.from_slope(a, b))
op('Line.to_point', 'L n', A, lambda L, t: L.to_point(t), k('p'))
op('Line.to_point 1', 'L', A, lambda L: L.to_point(), k('p'))
op('Line.project_point', 'L p', A, lambda L, a: L.project_point(a), k('p'))
op('Line.project_points', 'L P', A, lambda L, P: L.project_points(P), k('P'))
op('Line.project_vector', 'L z', A, lambda L, a: L.project_vector(a), k('v1'))
op('Line.side_point', 'L p', (2,), lambda L, a: L.side_point(a), k('o0'))
op('Line.side_point 3D', 'L p', (1, 3, 4), lambda L, a: L.side_point(a), k('o0'))
op('Line.distance_point', 'L p', A, lambda L, a: L.distance_point(a), k('s1'))
op('Line.distance_points', 'L P', A, lambda L, P: L.distance_points(P), k('s1'))
op('Line.distance_line', 'L L', A, lambda L, M: L.distance_line(M), k('s1'))
op('Line.contains_point', 'L p t1', A, lambda L, a, t: L.contains_point(a, abs_tol=t), k('b'))
op('Line.is_coplanar', 'L L', A, lambda L, M: L.is_coplanar(M), k('b'))
op('Line.is_coplanar tol', 'L L t1', A, lambda L, M, t: L.is_coplanar(M, tol=t), k('b'))
op('Line.is_close', 'L L', A, lambda L, M: L.is_close(M, abs_tol=1e-6))
op('Line.intersect_line', 'L L', A, lambda L, M: L.intersect_line(M), k('p'))
op('Line.intersect_line near', 'L L', A, lambda L, M: L.intersect_line(M, check_coplanar=False), k('p'))
op('Line.best_fit', 'P', A, lambda P: Line.best_fit(P), fitted)
op('Line.best_fit error', 'P', A, lambda P: Line.best_fit(P, return_error=True), lambda r, ref: fitted(r[0], ref) + [('s2', r[1])])
op('Line.best_fit tol', 'P t1', A, lambda P, t: Line.best_fit(P, tol=t), fitted)
op('Line.transform_points', 'L P', A, lambda L, P: L.transform_points(P), k('s1'))
op('Line.sum_squares', 'L P', A, lambda L, P: L.sum_squares(P), k('s2'))
op('Line.repr', 'L', A, lambda L: repr(L))
# --- LineSegment
op('LineSegment.contains_point', 'G p', A, lambda G, a: G.contains_point(a), k('b'))
op('LineSegment.intersect_line_segment', 'G G', A23, lambda G, H: G.intersect_line_segment(H), k('p'))
op('LineSegment.repr', 'G', A, lambda G: repr(G))
# --- Plane
op('Plane.from_vectors', 'p z z', A23, lambda p, a, b: Plane.from_vectors(p, a, b))
op('Plane.from_vectors 3D', 'p z z', (3,), lambda p, a, b: Plane.from_vectors(p, a, b), line_ := (lambda r, ref: [('p', r.point), ('w2', r.normal)]))
op('Plane.from_points', 'p p p', (3,), lambda a, b, c: Plane.from_points(a, b, c), line_)
op('Plane.cartesian', 'K', (3,), lambda K: K.cartesian())
op('Plane.cartesian at', 'K p', (3,), lambda K, q: sum(x * y for x, y in zip(K.cartesian(), [*q, 1])), k('s2'))
op('Plane.project_point', 'K p', A3, lambda K, a: K.project_point(a), k('p'))
op('Plane.project_points', 'K P', A3, lambda K, P: K.project_points(P), k('P'))
op('Plane.project_vector', 'K z', A3, lambda K, a: K.project_vector(a), k('v1'))
op('Plane.project_line', 'K L', A3, lambda K, L: K.project_line(L), line('v1'))
op('Plane.distance_point_signed', 'K p', A3, lambda K, a: K.distance_point_signed(a), k('s1'))
op('Plane.distance_points_signed', 'K P', A3, lambda K, P: K.distance_points_signed(P), k('s1'))
op('Plane.distance_point', 'K p', A3, lambda K, a: K.distance_point(a), k('s1'))
op('Plane.distance_points', 'K P', A3, lambda K, P: K.distance_points(P), k('s1'))
op('Plane.side_point', 'K p', A3, lambda K, a: K.side_point(a), k('b'))
op('Plane.contains_point', 'K p t1', A3, lambda K, a, t: K.contains_point(a, abs_tol=t), k('b'))
op('Plane.is_close', 'K K', A3, lambda K, M: K.is_close(M, abs_tol=1e-6))
op('Plane.intersect_line', 'K L', A3, lambda K, L: K.intersect_line(L), k('p'))
op('Plane.intersect_plane', 'K K', (3,), lambda K, M: K.intersect_plane(M), lineset('w2'))
op('Plane.best_fit', 'P', (3,), lambda P: Plane.best_fit(P), fitted, minpts=3)
op('Plane.best_fit error', 'P', (3,), lambda P: Plane.best_fit(P, return_error=True), lambda r, ref: fitted(r[0], ref) + [('s2', r[1])], minpts=3)
op('Plane.best_fit tol', 'P t1', (3,), lambda P, t: Plane.best_fit(P, tol=t), fitted, minpts=3)
op('Plane.sum_squares', 'K P', A3, lambda K, P: K.sum_squares(P), k('s2'))
op('Plane.to_mesh', 'K', (3,), lambda K: K.to_mesh((-2, 3), (0, 1)))
op('Plane.to_points', 'K', (3,), lambda K: K.to_points(lims_x=(-2, 3), lims_y=(0, 1)))
op('Plane.repr', 'K', (3,), lambda K: repr(K))
# --- Circle and Sphere
op('Circle.from_points', 'p p p', (2,), lambda a, b, c: Circle.from_points(a, b, c), circle)
op('Circle.measures', 'C', (2,), lambda C: (C.circumference(), C.area()), k('s1', 's2'))
op('Circle.distance_point', 'C p', (2,), lambda C, a: C.distance_point(a), k('s1'))
op('Circle.contains_point', 'C p t1', (2,), lambda C, a, t: C.contains_point(a, abs_tol=t), k('b'))
op('Circle.project_point', 'C p', (2,), lambda C, a: C.project_point(a), k('p'))
op('Circle.intersect_line', 'C L', (2,), lambda C, L: C.intersect_line(L), lambda r, ref: [('set', np.array(r))], exact=False)
op('Circle.intersect_circle', 'C C', (2,), lambda C, D: C.intersect_circle(D), lambda r, ref: [('set', np.array(r))], exact=False)
op('Circle.best_fit', 'P', (2,), lambda P: Circle.best_fit(P), circle, minpts=3)
op('Circle.repr', 'C', (2,), lambda C: repr(C))
op('Sphere.measures', 'S', (3,), lambda S: (S.surface_area(), S.volume()), k('s2', 's3'))
op('Sphere.distance_point', 'S p', (3,), lambda S, a: S.distance_point(a), k('s1'))
op('Sphere.contains_point', 'S p t1', (3,), lambda S, a, t: S.contains_point(a, abs_tol=t), k('b'))
op('Sphere.project_point', 'S p', (3,), lambda S, a: S.project_point(a), k('p'))
op('Sphere.intersect_line', 'S L', (3,), lambda S, L: S.intersect_line(L), k('p', 'p'), exact=False)
op('Sphere.best_fit', 'P', (3,), lambda P: Sphere.best_fit(P), circle, minpts=4)
op('Sphere.to_mesh', 'S', (3,), lambda S: S.to_mesh(5))
op('Sphere.to_points', 'S', (3,), lambda S: S.to_points(n_angles=4))
op('Sphere.repr', 'S', (3,), lambda S: repr(S))
# --- Cylinder
op('Cylinder.from_points', 'p p r', (3,), lambda a, b, r: Cylinder.from_points(a, b, r), lambda c, ref: [('p', c.point), ('v1', c.vector), ('s1', c.radius)])
op('Cylinder.measures', 'Y', (3,), lambda Y: (Y.length(), Y.lateral_surface_area(), Y.surface_area(), Y.volume()), k('s1', 's2', 's2', 's3'))
op('Cylinder.is_point_within', 'Y p', (3,), lambda Y, a: Y.is_point_within(a), k('b'), exact=False)
op('Cylinder.intersect_line', 'Y L', (3,), lambda Y, L: Y.intersect_line(L), lambda r, ref: [('set', np.array(r))], exact=False)
op('Cylinder.intersect_line finite', 'Y L', (3,), lambda Y, L: Y.intersect_line(L, infinite=False), lambda r, ref: [('set', np.array(r))], exact=False)
op('Cylinder.to_mesh', 'Y', (3,), lambda Y: Y.to_mesh(3, 4))
op('Cylinder.to_points', 'Y', (3,), lambda Y: Y.to_points(n_along_axis=2, n_angles=5))
op('Cylinder.repr', 'Y', (3,), lambda Y: repr(Y))
# --- Triangle
op('Triangle.lengths', 'T', A23, lambda T: T.multiple('length', 'abc'), k('s1', 's1', 's1'))
op('Triangle.angles', 'T', A23, lambda T: T.multiple('angle', 'ABC'), k('an0', 'an0', 'an0'))
op('Triangle.points', 'T', A23, lambda T: T.multiple('point', 'ABC'), k('p', 'p', 'p'))
for s in 'abc':
    op(f'Triangle.line {s}', 'T', A23, lambda T, s=s: T.line(s), line('v1'))
    op(f'Triangle.altitude {s}', 'T', A23, lambda T, s=s: T.altitude(s.upper()), lambda r, ref: [('p', r.point), ('v1', r.direction)])
op('Triangle.normal 3D', 'T', (3,), lambda T: T.normal(), k('w2'))
op('Triangle.normal 2D', 'T', (2,), lambda T: T.normal()[2], k('o2'))
op('Triangle.area', 'T', A23, lambda T: T.area(), k('s2'))
op('Triangle.perimeter', 'T', A23, lambda T: T.perimeter(), k('s1'))
op('Triangle.centroid', 'T', A23, lambda T: T.centroid(), k('p'))
op('Triangle.orthocenter', 'T', A23, lambda T: T.orthocenter(), k('p'))
op('Triangle.classify', 'T', A23, lambda T: T.classify(), k('b'))
op('Triangle.is_right', 'T', A23, lambda T: T.is_right(), k('b'))
op('Triangle.repr', 'T', A23, lambda T: repr(T))
# --- functions
op('area_triangle', 'p p p', A23, lambda a, b, c: area_triangle(a, b, c), k('s2'))
op('volume_tetrahedron', 'p p p p', A23, lambda *p: volume_tetrahedron(*p), k('s3'))
op('area_signed', 'q', (2,), lambda P: area_signed(P), k('o2'))
op('transform_coordinates', 'P p B', A, lambda P, o, B: transform_coordinates(P, o, B), k('s2'))

CLASS = dict(L=Line, K=Plane, G=LineSegment, T=Triangle, C=Circle, S=Sphere, Y=Cylinder)
PARTS = dict(p='p', v='v', z='v', x='v', P='P', q='P', B='B', r='r', n='n', t1='t1', t2='t2', L='pv', K='pv', G='pp', T='ppp', C='pr', S='pr', Y='pvr')


def build(token, raw, how='list'):
    """The argument as the library gets it: objects for the capital letters, else the container `how`."""
    if token in CLASS:
        return CLASS[token](*[x if s == 'r' else form(x, how, Point if s == 'p' else Vector) for s, x in zip(PARTS[token], raw)])
    if token in ('P', 'q'):
        return form(raw, how)
    if token == 'B':
        return [form(x, how, Vector) for x in raw]
    if token in ('p', 'v', 'z', 'x'):
        return form(raw, how, Point if token == 'p' else Vector)
    return raw


def receiver(o):
    """Class of the object whose method is called, if it is an array class."""
    return {'Point': Point, 'Vector': Vector, 'Points': Points}.get(o.name.partition('.')[0]) if '.from_' not in o.name else None


def arguments(o, raws, how='list'):
    return received(o, [build(t, r, how) for t, r in zip(o.tokens, raws)])


def received(o, args):
    cls = receiver(o)
    if cls and type(args[0]) is not cls:
        args[0] = cls(args[0])
    return args


def call(o, raws, how='list'):
    """(True, result) or (False, ValueError), including errors of the constructors of the arguments."""
    return attempt(lambda: o.fn(*arguments(o, raws, how)))


def flat(token, raw):
    """[(part, value)] with part in p v P r n t1 t2, points of a list one by one."""
    parts = PARTS[token]
    if parts in ('P', 'B'):
        return [('p' if parts == 'P' else 'v', x) for x in raw]
    if token in CLASS:
        return list(zip(parts, raw))
    return [(parts, raw)]


def rebuild(token, values):
    if PARTS[token] in ('P', 'B') or token in CLASS:
        return list(values)
    return values[0]


def mapped(token, raw, fns):
    """Apply fns[part] to the parts of a raw argument."""
    return rebuild(token, [fns[s](x) for s, x in flat(token, raw)])


# ------------------------------------------------------------------------------------------- drawing

class Pool:
    """Points and vectors of one case, re-used and combined so that special positions are common."""

    def __init__(self, draw, d, kind, structured, off):
        self.draw, self.d, self.kind, self.structured, self.off = draw, d, kind, structured, off
        self.points, self.vectors, self.rounds = [], [], []

    def point(self):
        draw = self.draw
        m = draw(integers(0, 9)) if self.structured else 0
        if self.rounds and draw(integers(0, 2)) == 0:      # on a circle, sphere or cylinder made before
            p, r = draw(sampled(self.rounds))
            i, (s, t) = draw(integers(0, self.d - 1)), draw(sampled([(1, 0), (-1, 0), (1, 0), (-1, 0), (0.6, 0.8), (-0.8, 0.6), (2, 0)]))
            x = list(p)
            x[i], x[i - 1] = x[i] + s * r, x[i - 1] + t * r
        elif m < 5 or not self.points:
            x = shifted(vec(draw, self.d, self.kind), self.off)
        else:
            x = list(draw(sampled(self.points)))
            if m > 5 and self.vectors:
                for _ in range(2 if m == 9 else 1):
                    v, t = draw(sampled(self.vectors)), draw(sampled([1, 2, -1, -2, 3]))
                    x = [a + t * b for a, b in zip(x, v)]
        self.points.append(x)
        return x

    def vector(self, zero=False):
        draw = self.draw
        m = draw(integers(0, 9)) if self.structured else 0
        if zero and draw(integers(0, 24)) == 0:
            return [0] * self.d
        if m < 5 or not self.vectors:
            x = nonzero(draw, self.d, self.kind)
        elif m < 8 or len(self.points) < 2:
            t = draw(sampled([1, -1, 2, -2, 3]))
            x = [t * a for a in draw(sampled(self.vectors))]
        elif m == 8:
            a, b = draw(sampled(self.points)), draw(sampled(self.points))
            x = [q - p for p, q in zip(a, b)]
        else:
            x = list(draw(sampled(self.vectors)))[::-1]
            if self.d > 1:
                x[0] = -x[0]
        if not any(x):
            x = nonzero(draw, self.d, self.kind)
        self.vectors.append(x)
        return x

    def arg(self, token, o):
        draw = self.draw
        if token == 'p':
            return self.point()
        if token == 'v':
            return self.vector()
        if token == 'z':
            return self.vector(zero=True)
        if token == 'x':
            if len(self.vectors) < 2 or self.d != 3:
                return self.vector()
            (a, b, c), (d, e, f) = self.vectors[-2:]
            t = draw(sampled([1, -1, 2]))
            x = [t * y for y in (b * f - c * e, c * d - a * f, a * e - b * d)]
            return x if any(x) else self.vector()
        if token in ('P', 'q'):
            n = draw(integers(max(o.minpts, 3 if token == 'q' else 1), 9))
            return [self.point() for _ in range(n)]
        if token == 'B':
            return [self.vector() for _ in range(draw(integers(1, 3)))]
        if token == 'r':
            return draw(integers(1, 50)) / (1 if self.structured else 10)
        if token == 'n':
            return draw(COORD['dec'])
        if token in ('t1', 't2'):
            return 1e-3
        p, = [self.point()] or [None]
        if token in ('L', 'K'):
            return [p, self.vector()]
        if token == 'G':
            return [p, self.point()]
        if token == 'T':
            return [p, self.point(), self.point()]
        if token in ('C', 'S'):
            x = [p, self.arg('r', o)]
        else:
            x = [p, self.vector(), self.arg('r', o)]
        if self.structured and self.d > 1:
            self.rounds.append((p, x[-1]))
        return x


def draw_op(draw, select=lambda o: True, kind=None, structured=None, offsets=OFFSETS):
    names = sorted(n for n, o in OPS.items() if select(o))
    o = OPS[draw(sampled(names))]
    d = draw(sampled(o.dims))
    kind = kind or draw(kinds())
    structured = draw(booleans()) if structured is None else structured
    pool = Pool(draw, d, kind, structured, offset(draw, d, offsets))
    return dict(op=o.name, d=d, raw=[pool.arg(t, o) for t in o.tokens])
