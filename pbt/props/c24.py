"""C24: every query on valid objects answers with a finite value of its documented type, or refuses with ValueError."""
import math
import warnings

from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *
from ..ops import CLASS, OPS, Pool, arguments, build, draw_op

# f float, F float >= 0, b truth value, i side (-1, 0, 1), k whole number >= 0, s text, p Point, v Vector, w Vector of 3D, P Points with a row for
# every input row, Q Points with at most so many, a 1D array with an entry for every input row, m array of that many rows; classes by their letters;
# several letters: a tuple.  '!' : never refused.
SPEC = {
    'Vector.norm': '!F', 'Vector.unit': 'v', 'Vector.is_zero': '!b', 'Vector.is_zero tol': '!b', 'Vector.cross': '!w', 'Vector.cross 3D': '!w', 'Vector.cross 2D': '!f',
    'Vector.cosine_similarity': 'f', 'Vector.angle_between': 'F', 'Vector.angle_signed': 'f', 'Vector.angle_signed_3d': 'f', 'Vector.is_perpendicular': '!b',
    'Vector.is_perpendicular tol': '!b', 'Vector.is_parallel': '!b', 'Vector.side_vector': 'i', 'Vector.scalar_projection': 'f', 'Vector.project_vector': 'v',
    'Vector.different_direction': 'v', 'Vector.from_points': '!v', 'Vector.dot': '!f', 'Vector.is_close': '!b', 'Vector.is_equal': '!b', 'Vector.round': '!v', 'Vector.add': '!v', 'Vector.sub': '!v',
    'Vector.scale': '!v', 'Point.add': '!p', 'Point.distance_point': '!F', 'Point.is_equal': '!b', 'Point.repr': '!s',
    'Points.unique': '!Q', 'Points.centroid': '!p', 'Points.mean_center': '!P', 'Points.mean_center 2': '!Pp', 'Points.normalize_distance': 'P', 'Points.affine_rank': '!k',
    'Points.are_concurrent': '!b', 'Points.are_collinear': '!b', 'Points.are_coplanar': '!b', 'Points.affine_rank tol': '!k', 'Points.are_concurrent tol': '!b',
    'Points.are_collinear tol': '!b', 'Points.are_coplanar tol': '!b',
    'Line.from_points': 'L', 'Line.from_slope': '!L', 'Line.to_point': '!p', 'Line.to_point 1': '!p', 'Line.project_point': '!p', 'Line.project_points': '!P', 'Line.project_vector': '!v',
    'Line.side_point': '!i', 'Line.distance_point': '!F', 'Line.distance_points': '!a', 'Line.distance_line': '!F', 'Line.contains_point': '!b', 'Line.is_coplanar': '!b', 'Line.is_coplanar tol': '!b',
    'Line.is_close': '!b', 'Line.intersect_line': 'p', 'Line.intersect_line near': 'p', 'Line.best_fit': 'L', 'Line.best_fit error': 'LF', 'Line.best_fit tol': 'L', 'Line.transform_points': '!a',
    'Line.sum_squares': '!F', 'Line.repr': '!s', 'LineSegment.contains_point': '!b', 'LineSegment.intersect_line_segment': 'p', 'LineSegment.repr': '!s',
    'Plane.from_vectors': 'K', 'Plane.from_vectors 3D': 'K', 'Plane.from_points': 'K', 'Plane.cartesian': '!ffff', 'Plane.project_point': '!p', 'Plane.project_points': '!P', 'Plane.project_vector': '!v',
    'Plane.project_line': 'L', 'Plane.distance_point_signed': '!f', 'Plane.distance_points_signed': '!a', 'Plane.distance_point': '!F', 'Plane.distance_points': '!a', 'Plane.side_point': '!i',
    'Plane.contains_point': '!b', 'Plane.is_close': '!b', 'Plane.intersect_line': 'p', 'Plane.intersect_plane': 'L', 'Plane.best_fit': 'K', 'Plane.best_fit error': 'KF', 'Plane.best_fit tol': 'K',
    'Plane.sum_squares': '!F', 'Plane.repr': '!s', 'Circle.from_points': 'C', 'Circle.measures': '!FF', 'Circle.distance_point': '!F', 'Circle.contains_point': '!b', 'Circle.project_point': 'p',
    'Circle.intersect_line': 'pp', 'Circle.intersect_circle': 'pp', 'Circle.best_fit': 'C', 'Circle.repr': '!s', 'Sphere.measures': '!FF', 'Sphere.distance_point': '!F', 'Sphere.contains_point': '!b',
    'Sphere.project_point': 'p', 'Sphere.intersect_line': 'pp', 'Sphere.best_fit': 'S', 'Sphere.repr': '!s', 'Sphere.to_mesh': '!nnn', 'Sphere.to_points': '!N', 'Plane.to_mesh': '!nnn', 'Plane.to_points': '!N',
    'Cylinder.from_points': 'Y', 'Cylinder.measures': '!FFFF', 'Cylinder.is_point_within': '!b', 'Cylinder.intersect_line': 'pp', 'Cylinder.intersect_line finite': 'pp', 'Cylinder.to_mesh': '!nnn',
    'Cylinder.to_points': '!N', 'Cylinder.repr': '!s', 'Triangle.lengths': '!FFF', 'Triangle.angles': '!FFF', 'Triangle.points': '!ppp', 'Triangle.area': '!F', 'Triangle.perimeter': '!F',
    'Triangle.centroid': '!p', 'Triangle.orthocenter': 'p', 'Triangle.classify': '!s', 'Triangle.is_right': '!b', 'Triangle.repr': '!s', 'Triangle.normal 3D': '!w', 'Triangle.normal 2D': '!f',
    'area_triangle': '!F', 'volume_tetrahedron': '!F', 'area_signed': '!f', 'transform_coordinates': '!m',
}
for t in 'abc':
    SPEC[f'Triangle.line {t}'], SPEC[f'Triangle.altitude {t}'] = '!L', 'L'
ALONE = {'Line.side_point 3D'}                   # always refused
SCALES = [1, 1, 1, 1, 2.0 ** -20, 2.0 ** 20, 2.0 ** -60, 2.0 ** 60, 2.0 ** -90, 2.0 ** 90, 1e-5, 1e5, 1e-3]
NAMES = dict(p=Point, v=Vector, w=Vector, P=Points, Q=Points, N=Points, **CLASS)


@cases
def any_call(draw):
    c = draw_op(draw, lambda o: o.name in SPEC or o.name in ALONE)
    return dict(c, s=draw(sampled(SCALES)), f=draw(forms))


def finite(x, what):
    for v in (fields(x).values() if isinstance(x, OBJECTS) else [x]):
        if isinstance(v, (np.ndarray, float, np.floating)):
            need(np.isfinite(np.asarray(v, float)).all(), f'{what} is not finite: {x!r}')


def fits(x, t, d, rows, what):
    if t in 'fF':
        need(isinstance(x, (float, np.floating, int, np.integer)) and not isinstance(x, (bool, np.bool_)), f'{what} is {x!r}, not a real number')
        need(math.isfinite(x), f'{what} is {x!r}')
        need(t == 'f' or x >= 0, f'{what} is negative: {x!r}')
    elif t == 'b':
        need(isinstance(x, (bool, np.bool_)), f'{what} is {x!r}, not a truth value')
    elif t == 'i':
        need(isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) and x in (-1, 0, 1), f'{what} is {x!r}, not -1, 0 or 1')
    elif t == 'k':
        need(isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) and 0 <= x <= d, f'{what} is {x!r}, not a rank')
    elif t == 's':
        need(type(x) is str and x, f'{what} is {x!r}, not text')
    elif t in NAMES:
        need(type(x) is NAMES[t], f'{what} is a {type(x).__name__}, not a {NAMES[t].__name__}: {x!r}')
        finite(x, what)
        e = {'w': 3, 'K': 3}.get(t, d)
        need(x.dimension == e, f'{what} has dimension {x.dimension}, expected {e}: {x!r}')
        if t in 'PQ':
            need(len(x) == rows if t == 'P' else 0 < len(x) <= rows, f'{what} has {len(x)} rows for {rows} points')
        if t in 'CSY':
            need(isinstance(x.radius, (int, float, np.number)) and x.radius > 0, f'{what} has the radius {x.radius!r}')
        if t in 'LKY':
            need(type(x.point) is Point and type(x.vector) is Vector and x.vector.any(), f'{what} is {x!r}')
    else:
        need(type(x) is np.ndarray and x.dtype.kind in 'if', f'{what} is not a plain array of numbers: {x!r}')
        need(np.isfinite(x).all(), f'{what} is not finite: {x!r}')
        need(t == 'n' or len(x) == rows and x.ndim == (1 if t == 'a' else 2), f'{what} has shape {x.shape} for {rows} points')


def scaled_raw(x, s):
    if isinstance(x, list):
        return [scaled_raw(y, s) for y in x]
    return x if s == 1 else x * s


@facet('C24', 'answers', any_call, quick=12000, rule='the call gives a result (not an error)')
def answers(c, ctx):
    o, raw = OPS[c['op']], [r if t in ('n', 't1', 't2') else scaled_raw(r, c['s']) for t, r in zip(OPS[c['op']].tokens, c['raw'])]
    what = f"{c['op']} of {raw}"
    ok, args = attempt(lambda: arguments(o, raw, c['f']))
    if not ok:
        raise Discard
    ctx.label(c['op'], f"scale {c['s']:.1e}")
    try:
        ok, r = True, o.fn(*args)
    except ValueError as e:
        ok, r = False, e
    except Exception as e:
        raise Violation(f'{what}: {type(e).__name__}: {e}') from None
    if c['op'] in ALONE:
        need(not ok, f'{what}: accepted, {r!r}')
        return
    spec = SPEC[c['op']]
    if not ok:
        need(spec[0] != '!' or c['d'] > 3 and c['op'] == 'Line.distance_line', f'{what}: refused, {r}')
        need(str(r), f'{what}: refused without a message')
        return
    ctx.nt()
    spec = spec.lstrip('!')
    rows = next((len(x) for x, t in zip(c['raw'], o.tokens) if t in ('P', 'q')), 0)
    if len(spec) == 1:
        fits(r, spec, c['d'], rows, what)
    else:
        need(type(r) is tuple and len(r) == len(spec), f'{what} gives {r!r}, not {len(spec)} values')
        for i, (x, t) in enumerate(zip(r, spec)):
            fits(x, t, c['d'], rows, f'{what}: value {i + 1}')


FREE = {'Plane.cartesian at', 'Plane.from_vectors', 'Plane.from_vectors 3D', 'Point.is_equal', 'Vector.is_equal', 'Vector.cross', 'Vector.cross 2D', 'Vector.cross 3D'}   # defined for mixed dimensions


@cases
def mixtures(draw):
    names = sorted(n for n, o in OPS.items() if n not in FREE and sum(t not in ('r', 'n', 't1', 't2') for t in o.tokens) > 1)
    o = OPS[draw(sampled(names))]
    d, e = draw(sampled([(2, 3), (3, 2), (2, 4), (3, 4), (3, 5), (4, 3), (4, 2), (6, 3), (2, 6)]))
    pools = [Pool(draw, k, kind, False, offset(draw, k, [0, 0, 100])) for k, kind in ((d, draw(kinds())), (e, draw(kinds())))]
    odd = draw(sampled([i for i, t in enumerate(o.tokens) if t not in ('r', 'n', 't1', 't2')]))
    return dict(op=o.name, d=d, e=e, odd=odd, raw=[pools[i == odd].arg('v' if t == 'z' else t, o) for i, t in enumerate(o.tokens)], f=draw(forms))


@facet('C24', 'mixed', mixtures, quick=4000, rule='all arguments are valid objects by themselves')
def mixed(c, ctx):
    """Objects of two dimensions (2 or more) have no common answer."""
    o = OPS[c['op']]
    ok, args = attempt(lambda: arguments(o, c['raw'], c['f']))
    if not ok:
        raise Discard
    ctx.label(c['op'])
    ctx.nt()
    rejects(lambda: o.fn(*args), f"{c['op']} of {c['raw']} (dimension {c['e']} for argument {c['odd'] + 1}, otherwise {c['d']})")


@cases
def kinds_of(draw):
    d = draw(sampled([2, 3, 3, 4]))
    kind = draw(kinds())
    pool = Pool(draw, d, kind, draw(booleans()), offset(draw, d))
    s = draw(sampled(SCALES))
    raw = {t: scaled_raw(pool.arg(t, OPS['Line.side_point']), s) for t in 'LKGpvr'}
    if d == 3:
        raw['S'] = scaled_raw(pool.arg('S', OPS['Line.side_point']), s)
        raw['Y'] = scaled_raw(pool.arg('Y', OPS['Line.side_point']), s)
    return dict(q=draw(sampled(['Line.is_close', 'Plane.is_close', 'Line.is_coplanar'])), other=draw(sampled(sorted(raw))), d=d, raw=raw, same=draw(booleans()))


@facet('C24', 'types', kinds_of, quick=600, rule='the other object has another type')
def types(c, ctx):
    """Only a line is close to or coplanar with a line, only a plane close to a plane; anything else is a TypeError."""
    cls, _, method = c['q'].partition('.')
    raw = dict(c['raw'])
    if c['same'] and c['other'] in 'LK':                 # of the same values
        raw['K'] = raw['L']
    ok, o = attempt(lambda: build('L' if cls == 'Line' else 'K', raw['L']))
    ok2, x = attempt(lambda: build(c['other'], raw[c['other']]))
    if not (ok and ok2):
        raise Discard
    ctx.nt(type(x) is not type(o))
    ctx.label(c['q'], c['other'])
    if type(x) is type(o):
        boolean(getattr(o, method)(x), c['q'])
    else:
        rejects(lambda: getattr(o, method)(x), f"{c['q']} of {raw['L']} with {x!r}", TypeError)
