"""C20: coordinate transformations."""
from skspatial.transformation import transform_coordinates

from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


@cases
def basis_case(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4, 6, 8, 12]))
    n, k = draw(sampled([1, 1, 2, 3, 5, 17] * 4 + [101, 260, 301, 1030])), draw(sampled([1, 1, 2, 3, d, d, 5, 7]))
    kind, o, s = draw(kinds()), offset(draw, d), scale(draw)
    base = [vec(draw, d, kind) for _ in range(min(n, 17))]
    if draw(integers(0, 2)) == 0:
        base = [base[draw(integers(0, i))] for i in range(len(base))]            # points more than once
    base = [[x + (0 if i < 17 else i // 17) for x in base[i % 17]] for i in range(n)]
    b = [scaled(vec(draw, d, draw(kinds())), draw(sampled(DIRSCALES))) for _ in range(k)]
    if draw(integers(0, 3)) == 0:                       # orthonormal, or not quite
        e, k = draw(sampled([0, 1e-2, 1e-4, 1e-6, 1e-9])), min(k, d)
        b = rotation_matrix(d, draw(integers(0, 10 ** 6)), draw(booleans()))[:k]
        b = [[x + e * y for x, y in zip(r, vec(draw, d, 'fl'))] for r in b]
    return dict(p=[scaled(shifted(x, o), s) for x in base], o=scaled(shifted(vec(draw, d, draw(sampled([kind, draw(kinds())]))), draw(sampled([o, o, [0] * d]))), s),
                b=b, f=[draw(query), draw(pixels), draw(pixels)])


@facet('C20', 'transform', basis_case, quick=2500, rule='at least two points, two basis vectors and a non-zero origin',
       pinned=[dict(p=[[1, 2], [3, 4], [5, 6]], o=[0, 0], b=[[1, 0], [1, 1]], f=['list'] * 3), dict(p=[[1, 2, 3], [4, 5, 6]], o=[1, 0, 2], b=[[1, 0, 0], [-1, 1, 0], [5, 5, 2], [0, 0, 1]], f=['list'] * 3)])
def transform(c, ctx):
    P, o, B = fm(c['p']), fv(c['o']), fm(c['b'])
    n, k, d = len(P), len(B), len(o)
    ctx.nt(n > 1 and k > 1 and any(o))
    ctx.label(f'{k} of {d}')
    ref = [[dot(sub(p, o), b) for b in B] for p in P]
    basis = form(c['b'], c['f'][2])
    got = transform_coordinates(form(c['p'], c['f'][0]), form(c['o'], c['f'][1], Point), [Vector(b) for b in c['b']] if c['f'][2] == 'scalars' else basis)
    need(type(got) is np.ndarray, 'transform_coordinates returns', type(got))
    t = (d + 3) * EPS * mag(*[sub(p, o) for p in P]) * mag(*B) * 2 * d      # a difference is exact to its last digit
    if all(isinstance(x, int) for v in c['p'] + c['b'] + [c['o']] for x in v):
        t = 0
    got = near_vec(got, ref, t, 'transform_coordinates')
    # one point at a time
    i = n // 2
    one = np.array(transform_coordinates([c['p'][i]], c['o'], c['b']))
    need(one.shape == (1, k) and np.abs(one[0] - got[i]).max() <= 2 * t, 'transform_coordinates of one point alone', one, got[i])


def rotation_matrix(d, seed, exact):
    rng = np.random.default_rng(seed)
    if exact:
        return [[int(s) if j == p else 0 for j in range(d)] for p, s in zip(rng.permutation(d), rng.choice([-1, 1], d))]
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    return q.tolist()


@cases
def frame(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 4, 7, 10]))
    kind, o, s = draw(kinds()), offset(draw, d), scale(draw)
    return dict(p=[scaled(shifted(vec(draw, d, kind), o), s) for _ in range(draw(sampled([1, 2, 3, 6])))], o=scaled(shifted(vec(draw, d, kind), o), s), seed=draw(integers(0, 10 ** 6)), exact=draw(booleans()), f=[draw(query), draw(pixels)])


@facet('C20', 'orthonormal', frame, quick=1500, rule='rotated basis')
def orthonormal(c, ctx):
    d = len(c['o'])
    B = rotation_matrix(d, c['seed'], c['exact'])
    ctx.nt(not c['exact'])
    q = arr(transform_coordinates(form(c['p'], c['f'][0]), form(c['o'], c['f'][1], Point), B), (len(c['p']), d))
    P = fm(c['p'])
    t = 40 * d * EPS * mag(*P, fv(c['o']))
    for i in range(len(P)):
        near(np.linalg.norm(q[i]), dist(P[i], fv(c['o'])), t, 'distance from the origin')
        for j in range(i):
            near(np.linalg.norm(q[i] - q[j]), dist(P[i], P[j]), t, 'distance between transformed points')
    inv_origin = transform_coordinates([[0] * d], c['o'], B)[0]
    back = transform_coordinates(q, inv_origin, np.array(B).T)
    near_vec(back, P, 4 * t, 'points after the inverse transformation')


@cases
def along(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 5, 8]))
    kind, o = draw(kinds()), offset(draw, d)
    pk = draw(sampled([kind, draw(kinds())]))
    return dict(p=shifted(vec(draw, d, pk), o), v=scaled(nonzero(draw, d, draw(kinds())), draw(sampled(DIRSCALES))),
                x=[shifted(vec(draw, d, kind), draw(sampled([o, o, [0] * d]))) for _ in range(draw(sampled([1, 1, 2, 4, 9])))], f=[draw(pixels), draw(pixels), draw(query)])


@facet('C20', 'line', along, quick=2500, rule='direction not of unit length and not axis-aligned',
       pinned=[dict(p=[0, 0], v=[1, 0], x=[[10, 2], [3, 4], [-5, 5]], f=['list'] * 3), dict(p=[1, 2, 3], v=[0, 0, -4], x=[[10, 2, 1], [1, 2, 3]], f=['list'] * 3)])
def line(c, ctx):
    p, v, X = fv(c['p']), fv(c['v']), fm(c['x'])
    ln = Line(form(c['p'], c['f'][0], Point), form(c['v'], c['f'][1], Vector))
    ctx.nt(sum(x != 0 for x in v) > 1 and n2(v) != 1)
    nv = norm(v)
    ref = [float(dot(sub(x, p), v)) / nv for x in X]
    got = arr(ln.transform_points(form(c['x'], c['f'][2])), (len(X),), 'transform_points')
    t = 10 * len(p) * EPS * mag(p, *X)
    need(np.abs(got - ref).max() <= t, f'transform_points: {got.tolist()}, expected {ref}')
    u = arr(ln.direction.unit())
    for x, k in zip(c['x'], got):
        near_vec(ln.project_point(x), arr(ln.point) + k * u, 4 * t, 'projection against point + coordinate * unit direction')
    near_vec(ln.transform_points([c['p']]), [0], 0, 'coordinate of the point of the line')


@cases
def many_case(draw):
    c = draw(crowd([1, 2, 3, 3, 4, 7, 9, 12]))
    return dict(c, b=[nonzero(draw, c['d'], draw(kinds(['int', 'dy', 'fl']))) for _ in range(draw(sampled([1, 2, 3, c['d']])))])


@facet('C20', 'many', many_case, quick=250, rule='at least two basis vectors')
def many(c, ctx):
    """Every row of a large array, in any dimension."""
    x = crowd_points(c)
    o, B = np.array(c['p'], float), np.array(c['b'], float)
    ctx.nt(len(B) > 1)
    ctx.label(f"dim{c['d']}", 'over 1000' if len(x) > 1000 else 'under 1000')
    y = crowd_form(x, c['f'])
    got = arr(transform_coordinates(y, c['p'], c['b']), (len(x), len(B)), 'transform_coordinates')
    ref = sum(np.multiply.outer(x[:, i] - o[i], B[:, i]) for i in range(c['d']))
    t = 1e-14 * c['d'] * (np.abs(x).max() + np.abs(o).max()) * np.abs(B).max()
    i = np.abs(got - ref).max(axis=1).argmax()
    need(np.abs(got - ref).max() <= t, f'transform_coordinates of {len(x)} points: row {i} is {got[i].tolist()}, expected {ref[i].tolist()}')
    v = np.array(c['v'], float)
    got = arr(Line(c['p'], c['v']).transform_points(y), (len(x),), 'transform_points')
    ref = (x - o) @ (v / math.sqrt(v @ v))
    i = np.abs(got - ref).argmax()
    need(np.abs(got - ref).max() <= 1e-14 * c['d'] * (np.abs(x).max() + np.abs(o).max()), f'transform_points of {len(x)} points: row {i} is {got[i]!r}, expected {ref[i]!r}')
