"""C07: projections."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


@cases
def linear(draw):
    """A line or plane (base point, vector), points and vectors of the same dimension."""
    what = draw(sampled(['line', 'line', 'plane', 'plane']))
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4, 5]))
    p = vec(draw, d, draw(kinds()))
    v = nonzero(draw, d, draw(kinds(ALL + ['big'])))
    v = scaled(v, draw(sampled(DIRSCALES)))
    o = offset(draw, d)
    kind = draw(kinds())
    pts = []
    for _ in range(draw(integers(1, 6))):
        m = draw(integers(0, 4))
        if m == 0:
            q = [x + draw(sampled([0, 1, -2, 0.5, 30])) * 1 * y for x, y in zip(p, v)]
        elif m == 1:
            q = list(p)
        if m < 2:
            q = nudge(draw, q)
        else:
            q = vec(draw, d, kind)
            q = scaled(q, draw(sampled([1, 1, 1, 1, 100, 0.01])))
        pts.append(shifted(q, o))
    z = draw(sampled(UNITS2))
    pts = [scaled(x, z) for x in pts]
    return dict(what=what, p=scaled(shifted(p, o), z), v=scaled(v, draw(sampled([1, z]))), pts=pts, k=draw(sampled([1, -1, 2, -0.5, 3, 1e-3, -1e3])), t=draw(integers(-3, 3)),
                w=scaled(vec(draw, d, draw(kinds(ALL + ['big']))), z), f=[draw(pixels), draw(pixels), draw(query), draw(query)])


def ref_project(what, p, v, x):
    f, t = foot_line(p, v, x)
    if what == 'line':
        return f
    return sub(x, sub(f, p))


@facet('C07', 'line_plane', linear, quick=5000, rule='target not axis-aligned and point not on it',
       pinned=[dict(what=w, p=[1, 2], v=[3, 4], pts=[[1, 2], [4, 6], [0, 0]], k=-2, t=1, w=[1, 0], f=['list'] * 4) for w in ('line', 'plane')])
def line_plane(c, ctx):
    what, p, v = c['what'], fv(c['p']), fv(c['v'])
    cls = Line if what == 'line' else Plane
    o = cls(form(c['p'], c['f'][0], Point), form(c['v'], c['f'][1], Vector))
    d = len(p)
    ctx.label(what, f'dim{d}')
    m = mag(p, *map(fv, c['pts']))
    tol = 2e-14 * (m + 1e-300)
    # the same target by another base point and vector
    if what == 'line':
        q = add(p, mul(Fraction(c['t']), v))
    else:
        r = fv(c['w'])
        q = sub(add(p, r), sub(foot_line(p, v, add(p, r))[0], p))
    o2 = cls(fl(q), fl(mul(F(c['k']), v)))
    rows = []
    for x in c['pts']:
        ref = ref_project(what, p, v, fv(x))
        rows.append(ref)
        ctx.nt(sum(t != 0 for t in v) > 1 and dist(ref, fv(x)) > 1e-6 * m)
        y = o.project_point(form(x, c['f'][2], Point))
        isa(y, Point, 'project_point')
        near_vec(y, ref, tol, f'{what} project_point')
        near_vec(o.project_point(y), ref, 2 * tol, f'{what} project_point applied twice')
        near_vec(o2.project_point(x), ref, tol + 1e-14 * mag(q), f'{what} project_point of the same {what} given differently')
    ys = isa(o.project_points(form(c['pts'], c['f'][3])), Points, 'project_points')
    near_vec(ys, rows, tol, f'{what} project_points')
    near_vec(o.project_points(ys), rows, 2 * tol, f'{what} project_points applied twice')
    # vectors
    w = fv(c['w'])
    comp = mul(dot(w, v) / n2(v), v)
    ref = comp if what == 'line' else sub(w, comp)
    y = isa(o.project_vector(form(c['w'], c['f'][2], Vector)), Vector, 'project_vector')
    near_vec(y, ref, 2e-14 * mag(w) + 1e-300, f'{what} project_vector')
    u = Vector(c['v'])
    tw = 2e-14 * mag(w) + 1e-300
    near_vec(isa(u.project_vector(form(c['w'], c['f'][0], Vector)), Vector), comp, tw, 'Vector.project_vector')
    near_vec(Vector(scaled(c['v'], c['k'])).project_vector(c['w']), comp, tw, 'Vector.project_vector onto a multiple')
    zero = Vector([0] * len(v))
    rejects(lambda: zero.project_vector(c['w']), 'project_vector onto the zero vector')
    rejects(lambda: zero.scalar_projection(c['w']), 'scalar_projection onto the zero vector')
    s = near(u.scalar_projection(form(c['w'], c['f'][1], Vector)), float(dot(w, v) / F(norm(v))), tw, 'scalar_projection')
    near(Vector(scaled(c['v'], -2)).scalar_projection(c['w']), -s, 2 * tw, 'scalar_projection onto the opposite direction')


@cases
def round_(draw):
    d = draw(sampled([2, 3]))
    p = shifted(vec(draw, d, draw(kinds())), offset(draw, d))
    how = draw(sampled(['any', 'any', 'any', 'centre', 'on', 'near', 'far']))
    r = draw(integers(1, 10 ** 4)) / draw(sampled([1, 10, 16, 1000]))
    v = nonzero(draw, d, draw(kinds()))
    s = dict(any=1, on=1, far=draw(sampled([1e4, 1e8, 1e12, 2.0 ** 50])), near=1e-5, centre=0)[how]
    if how == 'on':
        n = math.sqrt(sum(t * t for t in v))
        v = [t / n * r for t in v]
    x = [a + b * s for a, b in zip(p, v)] if how != 'centre' else list(p)
    z = draw(sampled(UNITS2))
    return dict(p=scaled(p, z), r=r * z, x=scaled(x, z), how=how, f=[draw(pixels), draw(query)])


@facet('C07', 'circle_sphere', round_, quick=3000, rule='point neither the centre nor on the surface',
       pinned=[dict(p=[0, 0], r=1, x=[0.0, -0.0], how='centre', f=['list'] * 2), dict(p=[1, 2, 3], r=2, x=[1, 2, 3], how='centre', f=['array', 'obj'])])
def circle_sphere(c, ctx):
    p, x, r = fv(c['p']), fv(c['x']), F(c['r'])
    o = (Circle if len(p) == 2 else Sphere)(form(c['p'], c['f'][0], Point), c['r'])
    y = form(c['x'], c['f'][1], Point)
    ctx.label(type(o).__name__, c['how'])
    v = sub(x, p)
    if n2(v) == 0:
        rejects(lambda: o.project_point(y), 'projection of the centre')
        return
    n = norm(v)
    ctx.nt(abs(n - c['r']) > 1e-6 * c['r'])
    ref = add(p, mul(r / F(n), v))
    tol = 4e-15 * (mag(p) + c['r'])              # the offset of the point is exact to its last digit, near or far
    q = isa(o.project_point(y), Point, 'project_point')
    near_vec(q, ref, tol, 'project_point')
    near(dist(fv(arr(q)), p), c['r'], 2 * tol, 'distance of the projection from the centre')
    near_vec(o.project_point(q), ref, 3 * tol, 'project_point applied twice')


@cases
def plane_line(draw):
    how = draw(sampled(['any', 'any', 'any', 'parallel', 'perp', 'steep', 'flat']))
    d = draw(sampled([3, 3, 3, 3, 2, 4]))
    kind = draw(kinds(['int', 'med'] if how in ('parallel', 'perp') else ALL))
    n = nonzero(draw, d, kind)
    p, q = vec(draw, d, draw(kinds())), vec(draw, d, draw(kinds()))
    v = nonzero(draw, d, kind)
    if how == 'parallel':
        i, j = draw(sampled([(0, 1), (1, 0), (0, d - 1), (d - 1, 0)]))
        v = [0] * d
        v[i], v[j] = n[j], -n[i]
    elif how == 'perp':
        v = scaled(n, draw(sampled([1, -1, 2, -3])))
    elif how == 'steep':
        e = draw(sampled([1e-1, 1e-2, 1e-3]))
        v = [x + e * y for x, y in zip(n, v)]
    elif how == 'flat':
        nn = sum(x * x for x in n)
        t = sum(x * y for x, y in zip(n, v)) / nn
        e = draw(sampled([1e-2, 1e-4, 1e-6]))
        v = [y - (1 - e) * t * x for x, y in zip(n, v)]
    o = offset(draw, d)
    if how != 'parallel' or True:
        s, t = draw(sampled([1, 1, 2, 3, 0.5, 1024.0, 2.0 ** -10])), draw(sampled([1, 1, 2, 3, 0.5, 1024.0, 2.0 ** -10]))
        n, v = scaled(n, s), scaled(v, t)
    z = draw(sampled(UNITS2))
    return dict(p=scaled(shifted(p, o), z), n=n, q=scaled(shifted(q, o), z), v=scaled(v, draw(sampled([1, z]))), how=how, f=[draw(pixels) for _ in range(4)])


@facet('C07', 'project_line', plane_line, quick=2500, rule='line neither parallel nor perpendicular to the plane, normal not axis-aligned',
       pinned=[dict(p=[0, 0, 0], n=[0, 0, 1], q=[1, 2, 3], v=[0, 0, -5], how='perp', f=['list'] * 4),
               dict(p=[0, 0, 0], n=[0, 0, 1], q=[1, 2, 3], v=[7, 1, 0], how='parallel', f=['list'] * 4)])
def project_line(c, ctx):
    p, n, q, v = map(fv, (c['p'], c['n'], c['q'], c['v']))
    how = c['how']
    ctx.label(how, f'dim{len(p)}')
    if n2(v) == 0:
        return
    pl = Plane(form(c['p'], c['f'][0], Point), form(c['n'], c['f'][1], Vector))
    ln = Line(form(c['q'], c['f'][2], Point), form(c['v'], c['f'][3], Vector))
    g = sin2(n, v)
    if g == 0:
        rejects(lambda: pl.project_line(ln), 'project_line of a perpendicular line')
        return
    if g < Fraction(1, 10 ** 8):
        return
    ctx.nt(how in ('any', 'steep', 'flat') and sum(t != 0 for t in n) > 1)
    r = isa(pl.project_line(ln), Line, 'project_line')
    m = mag(p, q)
    tol = 3e-14 * (m + mag(v))
    a, b = fv(arr(r.point)), fv(arr(r.direction))
    for t in (0, 1, -3):
        x = add(q, mul(Fraction(t), v))
        y = ref_project('plane', p, n, x)
        f, _ = foot_line(a, b, y)
        # the result's direction is known only to tol / |b|
        near(dist(f, y), 0, tol * (4 + dist(a, y) / norm(b)), f'distance of the projection of the line point {t} from project_line')
    f = ref_project('plane', p, n, a)
    near(dist(f, a), 0, tol, 'distance of the projected line from the plane')
    comp = sub(v, mul(dot(v, n) / n2(n), n))
    need(dot(b, comp) > 0, 'the projected line runs the other way', r)
    if dot(v, n) == 0 and how == 'parallel':
        need(np.array_equal(np.asarray(r.direction), np.array(c['v'])), 'a parallel line changes its direction', r)


@facet('C07', 'many', crowd([1, 2, 2, 3, 3, 3, 4, 6, 8, 10]), quick=300, rule='target not axis-aligned')
def many(c, ctx):
    """Every row of a large array is projected, and like a single point."""
    x = crowd_points(c)
    p, v = np.array(c['p'], float), np.array(c['v'], float)
    ctx.nt(np.count_nonzero(v) > 1)
    ctx.label(f"dim{c['d']}", 'over 1000' if len(x) > 1000 else 'under 1000')
    foot = p + np.outer((x - p) @ v / (v @ v), v)
    tol = 1e-13 * (np.abs(x).max() + np.abs(p).max())
    for what, cls, ref in (('line', Line, foot), ('plane', Plane, x - (foot - p))):
        o = cls(c['p'], c['v'])
        y = isa(o.project_points(crowd_form(x, c['f'])), Points, 'project_points')
        need(y.shape == x.shape and np.isfinite(y).all(), f'{what} project_points of {len(x)} points: shape {y.shape}')
        err = np.abs(np.asarray(y) - ref).max(axis=1)
        need(err.max() <= tol, f'{what} project_points of {len(x)} points: row {err.argmax()} is {np.asarray(y)[err.argmax()].tolist()}, expected {ref[err.argmax()].tolist()}')
        for i in crowd_sample(c, len(x)):
            r = [float(t) for t in ref_project(what, fv(c['p']), fv(c['v']), fv(x[i].tolist()))]
            near_vec(y[i], r, tol, f'row {i} of project_points')
            near_vec(o.project_point(x[i]), r, tol, f'project_point of row {i}')
