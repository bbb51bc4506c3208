"""C08: distances, containment and sums of squares."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *
from .c05 import BIG


@cases
def two_points(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 4, 7, 20]))
    a = vec(draw, d, draw(kinds()))
    how = draw(sampled(['any', 'any', 'any', 'same', 'one']))
    b = vec(draw, d, draw(kinds())) if how == 'any' else list(a)
    if how == 'one':
        b[draw(integers(0, d - 1))] += draw(sampled([1, -0.5, 1e-3, 1e-6]))
    o = offset(draw, d)
    s = draw(sampled(BIG))
    return dict(a=scaled(shifted(a, o), s), b=scaled(shifted(b, o), s), f=[draw(pixels), draw(query if s == 1 else pixels)])


@facet('C08', 'points', two_points, quick=2000, rule='points that differ in at least two coordinates',
       pinned=[dict(a=[0, 0], b=[0, 0], f=['list'] * 2), dict(a=[3, 0], b=[0, 4], f=['list'] * 2)])
def points(c, ctx):
    a, b = fv(c['a']), fv(c['b'])
    x, y = Point(form(c['a'], c['f'][0], Point)), form(c['b'], c['f'][1], Point)
    ref = dist(a, b)
    ctx.nt(sum(p != q for p, q in zip(a, b)) > 1)
    tol = 1e-15 * mag(a, b) * 2 + 1e-13 * ref
    d = near(x.distance_point(y), ref, tol if ref else 0, 'Point.distance_point')
    need(d >= 0, 'negative distance', d)
    need(Point(c['b']).distance_point(c['a']) == d, 'the distance is not symmetric', d)


@cases
def linear(draw):
    what = draw(sampled(['line', 'plane']))
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4, 5]))
    ex = draw(integers(0, 2)) == 0
    kind = draw(kinds(['int', 'med'] if ex else ALL))
    p = vec(draw, d, kind)
    v = nonzero(draw, d, kind if ex else draw(kinds()))
    if not ex:
        v = scaled(v, draw(sampled(DIRSCALES)))
    o = offset(draw, d)
    pts = []
    for _ in range(draw(integers(1, 7))):
        m = draw(integers(0, 3))
        if m == 0:
            if what == 'line' or d == 1:
                t = draw(sampled([0, 1, -1, 2, -3])) if what == 'line' else 0
                q = [x + t * y for x, y in zip(p, v)]
            else:
                q = list(p)
                for _ in range(2):
                    i, j = draw(sampled([(i, j) for i in range(d) for j in range(d) if i != j]))
                    k = draw(sampled([1, -1, 2]))
                    q[i] += k * v[j]
                    q[j] -= k * v[i]
        else:
            q = vec(draw, d, kind)
            if m == 1 and not ex:
                q = scaled(q, draw(sampled([100, 0.01, 1e4])))
        pts.append(shifted(q, o))
    k = draw(sampled(UNITS2))
    return dict(what=what, p=scaled(shifted(p, o), k), v=v, pts=[scaled(x, k) for x in pts], ex=ex, f=[draw(pixels), draw(pixels), draw(query), draw(query)], e=draw(sampled([1e-3, 1e-6, 0.5])))


@facet('C08', 'line_plane', linear, quick=5000, rule='target not axis-aligned and some point off it',
       pinned=[dict(what=w, p=[0, 0, 1], v=[0, 0, 2], pts=[[0, 0, 5], [3, 4, 1], [3, 4, -1]], ex=True, f=['list'] * 4, e=0.5) for w in ('line', 'plane')])
def line_plane(c, ctx):
    what, p, v = c['what'], fv(c['p']), fv(c['v'])
    o = (Line if what == 'line' else Plane)(form(c['p'], c['f'][0], Point), form(c['v'], c['f'][1], Vector))
    ctx.label(what, f'dim{len(p)}', 'exact' if c['ex'] else 'float')
    nv = F(norm(v))
    m = mag(p, *map(fv, c['pts']))
    tol = 2e-14 * m + 1e-300
    refs = []
    for x in c['pts']:
        w = sub(fv(x), p)
        y = form(x, c['f'][2], Point)
        if what == 'line':
            ref = sqrt(gram2(w, v) / n2(v))
        else:
            s = float(dot(w, v) / nv)
            t = near(o.distance_point_signed(y), s, tol, 'distance_point_signed')
            need(c['ex'] is False or np.sign(t) == np.sign(s), 'distance_point_signed has the wrong sign:', t, s)
            ref = abs(s)
        refs.append(ref)
        q = near(o.distance_point(y), ref, tol, f'{what} distance_point')
        need(q >= 0, 'negative distance', q)
        ctx.nt(ref > 1e-6 * m and sum(t != 0 for t in v) > 1)
        if ref == 0 and c['ex'] and (what == 'plane' or sum(t != 0 for t in v) == 1 and foot_line(p, v, fv(x))[1].denominator == 1):
            need(boolean(o.contains_point(y), 'contains_point'), f'contains_point is False for an exact point of the {what}', x)
            ctx.label('on')
        elif ref > 2 * tol:
            need(not boolean(o.contains_point(y), 'contains_point'), f'contains_point is True off the {what}', x)
            need(not o.contains_point(y, abs_tol=ref * (1 - c['e']) - tol) if ref * (1 - c['e']) > tol else True, 'contains_point is True beyond abs_tol', x, ref)
        need(boolean(o.contains_point(y, abs_tol=ref * (1 + c['e']) + 2 * tol)), 'contains_point is False within abs_tol', x, ref)
    ds = arr(o.distance_points(form(c['pts'], c['f'][3])), (len(refs),), 'distance_points')
    near_vec(ds, refs, tol, f'{what} distance_points')
    need((ds >= 0).all(), 'negative distance', ds)
    if what == 'plane':
        sg = [float(dot(sub(fv(x), p), v) / nv) for x in c['pts']]
        near_vec(o.distance_points_signed(form(c['pts'], c['f'][3])), sg, tol, 'distance_points_signed')
        if len(p) > 3:
            rejects(o.cartesian, f'cartesian of a plane of dimension {len(p)}')
        else:
            k = o.cartesian()
            need(isinstance(k, tuple) and len(k) == 4, 'cartesian returned', k)
            need([float(num(t, 'coefficient')) for t in k[:3]] == fl(pad(v)), f'cartesian() is {k}; the first coefficients are not the normal')
            near(num(k[3], 'coefficient'), -float(dot(v, p)), 0 if c['ex'] and dot_is_exact(v, p) else 4e-15 * norm(v) * norm(p), 'last coefficient of cartesian')
    ss = math.fsum(r * r for r in refs)
    near(o.sum_squares(form(c['pts'], c['f'][3])), ss, 1e-12 * ss + sum(4 * tol * (r + tol) for r in refs), 'sum_squares')


@cases
def round_(draw):
    d = draw(sampled([2, 3]))
    p = shifted(vec(draw, d, draw(kinds())), offset(draw, d))
    r = draw(integers(1, 10 ** 4)) / draw(sampled([1, 10, 16, 1000]))
    how = draw(sampled(['any', 'any', 'any', 'centre', 'on', 'axis', 'far']))
    v = nonzero(draw, d, draw(kinds()))
    if how == 'on':
        n = math.sqrt(sum(t * t for t in v))
        v = [t / n * r for t in v]
    elif how == 'far':
        v = scaled(v, draw(sampled([1e3, 1e5, 1e7, 1e9])))
    elif how == 'centre':
        v = [0] * d
    elif how == 'axis':
        v = [0] * d
        v[draw(integers(0, d - 1))] = draw(sampled([1, -1])) * r
    k = draw(sampled(UNITS2))
    return dict(p=scaled(p, k), r=r * k, x=scaled(shifted(p, v), k), how=how, e=draw(sampled([1e-3, 1e-6, 0.5])), f=[draw(pixels), draw(query)])


@facet('C08', 'circle_sphere', round_, quick=2500, rule='point off the surface and not the centre',
       pinned=[dict(p=[0, 0], r=5, x=[3, 4], how='on', e=0.5, f=['list'] * 2), dict(p=[1, 0, 0], r=5, x=[1, 0, 0], how='centre', e=0.5, f=['list'] * 2)])
def circle_sphere(c, ctx):
    p, x, r = fv(c['p']), fv(c['x']), F(c['r'])
    o = (Circle if len(p) == 2 else Sphere)(form(c['p'], c['f'][0], Point), c['r'])
    y = form(c['x'], c['f'][1], Point)
    ctx.label(type(o).__name__, c['how'])
    ref = abs(float(F(norm(sub(x, p))) - r))
    tol = 1e-15 * (norm(sub(x, p)) + c['r'])              # a difference is exact to its last digit
    ctx.nt(c['how'] == 'any' and ref > 1e-6 * c['r'])
    d = near(o.distance_point(y), ref, tol, 'distance_point')
    need(d >= 0, 'negative distance', d)
    need(boolean(o.contains_point(y, abs_tol=ref * (1 + c['e']) + 2 * tol)), 'contains_point is False within abs_tol', ref)
    if ref > 4 * tol:
        need(not boolean(o.contains_point(y)), 'contains_point is True off the surface', ref)
        if ref * (1 - c['e']) > 2 * tol:
            need(not o.contains_point(y, abs_tol=ref * (1 - c['e']) - tol), 'contains_point is True beyond abs_tol', ref)
    v = sub(x, p)
    if c['how'] == 'axis' and n2(v) == r * r and all(F(float(t)) == t for t in v):
        need(o.contains_point(y), 'contains_point is False for an exact point of the surface')


@cases
def boundary(draw):
    what = draw(sampled(['line', 'plane', 'circle', 'sphere']))
    d = dict(line=draw(sampled([2, 3, 4])), plane=3, circle=2, sphere=3)[what]
    i = draw(integers(0, d - 1))
    x = draw(sampled([(3, 4), (5, 12), (8, 15), (7, 24), (0, 1), (0, 5), (2, 0)]))
    w = [0] * d
    js = [j for j in range(d) if j != i]
    if what == 'plane':
        w = draw(lists(integers(-9, 9), min_size=d, max_size=d))
        w[i] = draw(integers(1, 20)) * draw(sampled([1, -1]))
    elif what == 'line' and d > 2:
        w[js[0]], w[js[1]] = (draw(sampled([1, -1])) * t for t in x)
        w[i] = draw(integers(-9, 9))
    elif what == 'line':
        w[js[0]] = draw(integers(1, 20)) * draw(sampled([1, -1]))
        w[i] = draw(integers(-9, 9))
    else:
        w[i], w[js[0]] = (draw(sampled([1, -1])) * t for t in x)
    v = [0] * d
    v[i] = draw(sampled([1, -1, 2, -4, 0.5]))
    return dict(what=what, p=draw(lists(integers(-20, 20), min_size=d, max_size=d)), v=v, w=w, r=draw(integers(1, 40)), k=draw(sampled(UNITS2)), i=i)


@facet('C08', 'boundary', boundary, quick=1500, rule='the point is off the set')
def boundary_(c, ctx):
    """The distance is exactly representable and free of rounding: it is within itself, not within the next smaller tolerance."""
    k, i, w = c['k'], c['i'], c['w']
    p, x = scaled(c['p'], k), scaled(shifted(c['p'], w), k)
    ctx.label(c['what'])
    if c['what'] in ('line', 'plane'):
        o = (Line if c['what'] == 'line' else Plane)(p, c['v'])
        d = abs(w[i]) if c['what'] == 'plane' else math.isqrt(sum(t * t for j, t in enumerate(w) if j != i))
    else:
        o = (Circle if c['what'] == 'circle' else Sphere)(p, c['r'] * k)
        d = abs(math.isqrt(sum(t * t for t in w)) - c['r'])
    d = d * k
    ctx.nt(d > 0)
    need(o.distance_point(x) == d, f"distance of {x} from {o} is {o.distance_point(x)!r}, exactly it is", d)
    need(boolean(o.contains_point(x, abs_tol=d)), f'{o} does not contain {x} at distance {d!r} with this abs_tol')
    need(boolean(o.contains_point(x, abs_tol=d, rel_tol=0)), f'{o} does not contain {x} at distance {d!r} with this abs_tol and rel_tol=0')
    if d:
        need(not boolean(o.contains_point(x, abs_tol=d * (1 - 2.0 ** -40))), f'{o} contains {x} at distance {d!r} with a smaller abs_tol')
        need(not boolean(o.contains_point(x)), f'{o} contains {x} at distance {d!r}')


@cases
def two_lines(draw):
    how = draw(sampled(['skew', 'skew', 'skew', 'cross', 'cross', 'parallel', 'same', 'any']))
    d = draw(sampled([3, 3, 3, 3, 2, 2, 1] if how != 'skew' else [3]))
    if d == 1 or how == 'parallel' and draw(integers(0, 3)) == 0:
        how = 'parallel'
        d = draw(sampled([1, 4, 5])) if d != 2 else 2
    kind = draw(kinds(['int', 'int', 'med', 'dy'] if how in ('cross', 'parallel', 'same') else ALL))
    u, v = nonzero(draw, d, kind), nonzero(draw, d, kind)
    x = vec(draw, d, kind)
    o = offset(draw, d)
    x = shifted(x, o)
    i, j = draw(integers(-4, 4)), draw(integers(-4, 4))
    if how in ('parallel', 'same'):
        v = scaled(u, draw(sampled([1, -1, 2, -3, 5])))
    p = [a + i * b for a, b in zip(x, u)]
    q = [a + j * b for a, b in zip(x, v)]
    if how not in ('cross', 'same'):
        q = shifted(q, vec(draw, d, kind))
    s, t = draw(sampled([1, 1, 1, 2.0, 0.25, 1024.0, 2.0 ** -10])), draw(sampled([1, 1, 1, 2.0, 0.25, 1024.0]))
    k = draw(sampled(UNITS2))
    return dict(p=scaled(p, k), u=scaled(scaled(u, s), k), q=scaled(q, k), v=scaled(scaled(v, t), k), how=how)


@facet('C08', 'distance_line', two_lines, quick=4000, rule='lines that are not axis-aligned and do not meet',
       pinned=[dict(p=[0, 0, 0], u=[1, 0, 0], q=[0, 1, 1], v=[0, 1, 0], how='skew'), dict(p=[0, 0, 0], u=[1, 0, 0], q=[0, 3, 4], v=[-2, 0, 0], how='parallel')])
def distance_line(c, ctx):
    p, u, q, v = map(fv, (c['p'], c['u'], c['q'], c['v']))
    a, b = Line(c['p'], c['u']), Line(c['q'], c['v'])
    w = sub(q, p)
    g = sin2(u, v)
    ctx.label(c['how'], f'dim{len(p)}')
    if g == 0:
        ref, cond = sqrt(gram2(w, u) / n2(u)), 1
    elif g < Fraction(1, 10 ** 7):
        return
    else:
        cond = 1 / math.sqrt(g)
        if len(p) == 2:
            ref = 0.0
        else:
            n = cross(u, v)
            ref = abs(float(dot(w, n) / F(norm(n))))
    ctx.nt(ref > 1e-6 * mag(p, q) and sum(t != 0 for t in u) > 1)
    tol = 2e-14 * cond * (mag(p, q) + norm(u) + norm(v)) + 1e-300
    if len(p) == 3 and g != 0:           # nearly coplanar lines count as coplanar (rank tolerance)
        tol += 1e-15 * cond * mag(p, q) * norm(w) / min(norm(u), norm(v))      # of points along each line
        tol += 1e-14 * cond * (norm(w) + norm(u) + norm(v)) ** 3 / (norm(u) * norm(v))
    d = near(a.distance_line(b), ref, tol, f"distance_line ({c['how']})")
    need(d >= 0, 'negative distance', d)
    near(b.distance_line(a), ref, tol, f"distance_line swapped ({c['how']})")
    near(a.distance_line(Line(c['q'], [-t for t in c['v']])), ref, tol, 'distance_line to the reversed line')
    near(a.distance_line(a), 0, tol, 'distance_line to itself')


@facet('C08', 'many', crowd([1, 2, 2, 3, 3, 3, 4, 6, 8, 10]), quick=250, rule='target not axis-aligned')
def many(c, ctx):
    """Distances from every row of a large array, and their sum of squares."""
    x = crowd_points(c)
    p, v = np.array(c['p'], float), np.array(c['v'], float)
    ctx.nt(np.count_nonzero(v) > 1)
    ctx.label(f"dim{c['d']}", 'over 1000' if len(x) > 1000 else 'under 1000')
    w = x - p
    s = w @ v / math.sqrt(v @ v)
    tol = 1e-13 * (np.abs(x).max() + np.abs(p).max()) * math.sqrt(c['d'])
    n = 600
    for what, cls, ref in (('line', Line, np.linalg.norm(w - np.outer(s, v / math.sqrt(v @ v)), axis=1)), ('plane', Plane, np.abs(s))):
        o = cls(c['p'], c['v'])
        y = crowd_form(x, c['f'])
        for name, z in (('distance_points', ref),) + ((('distance_points_signed', s),) if what == 'plane' else ()):
            ds = arr(getattr(o, name)(y), ref.shape, name)
            err = np.abs(ds - z)
            need(err.max() <= tol, f'{what} {name} of {len(x)} points: row {err.argmax()} is {ds[err.argmax()]!r}, expected {z[err.argmax()]!r}')
        need((arr(o.distance_points(y)) >= 0).all(), 'negative distance')
        k = min(len(x), n)
        ss = math.fsum(t * t for t in ref[:k].tolist())
        near(o.sum_squares(crowd_form(x[:k], c['f'])), ss, 1e-12 * ss + k * 4 * tol * (ref[:k].max() + tol), f'{what} sum_squares of {k} points')
        for i in crowd_sample(c, len(x)):
            near(o.distance_point(x[i]), ref[i], tol, f'distance_point of row {i}')
