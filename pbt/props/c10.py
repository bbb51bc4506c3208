"""C10: intersections of lines and planes."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *

UNIT = [1, 1, 1, 2, 0.5, 8, 1024.0, 2.0 ** -10]


@cases
def two_lines(draw):
    d = draw(sampled([2, 2, 3, 3, 3, 3, 3, 1, 4, 5]))
    how = draw(sampled(['cross', 'cross', 'cross', 'skew', 'skew', 'parallel', 'same', 'float', 'close', 'perp', 'dims']))
    kind = draw(kinds(['int', 'int', 'med', 'dy']))
    if how == 'float':
        kind = draw(kinds(['fl', 'dec']))
        d = 2 if d < 3 else d
    if how in ('close', 'perp'):
        kind, d = draw(kinds(['dy', 'fl', 'dec'])), draw(sampled([2, 2, 3]))
    u, v = nonzero(draw, d, kind), nonzero(draw, d, kind)
    x = shifted(vec(draw, d, kind), offset(draw, d, OFFSETS + [2 ** 30, 2 ** 34] if how not in ('float', 'close', 'perp') else OFFSETS))
    i, j = draw(integers(-5, 5)), draw(integers(-5, 5))
    if how in ('parallel', 'same'):
        v = scaled(u, draw(sampled([1, -1, 2, -3, 5])))
    if how == 'close':                   # almost parallel, down to a sine of about 2^-11
        e, k = 2.0 ** -draw(integers(3, 11)), draw(sampled([1, -1, 2, 0.5]))
        v = [k * a + e * b for a, b in zip(u, v)]
    if how == 'perp':
        v = [u[1], -u[0]] + [0 * t for t in u[2:]] if u[0] or u[1] else [1.0] + [0.0] * (d - 1)
        v = scaled(nudge(draw, v), draw(sampled([1, -1, 2])))
    p = [a - i * b for a, b in zip(x, u)]
    q = [a - j * b for a, b in zip(x, v)]
    if how in ('skew', 'parallel') or how == 'float' and d == 2:
        q = shifted(q, vec(draw, d, kind))
    if how == 'dims':
        k = draw(sampled([e for e in (1, 2, 3, 4) if e != d]))
        q, v = vec(draw, k, kind), nonzero(draw, k, kind)
    z = draw(sampled(UNITS2))
    p, u, q, v = scaled(p, z), scaled(u, z), scaled(q, z), scaled(v, z)
    return dict(p=p, u=scaled(u, draw(sampled(UNIT))), q=q, v=scaled(v, draw(sampled(UNIT))), how=how, f=[draw(forms) for _ in range(4)])


def nearest_on_first(p, u, q, v):
    """Parameter of the point of line 1 that is nearest to line 2 (exact)."""
    w = sub(q, p)
    uu, uv, vv = n2(u), dot(u, v), n2(v)
    return (dot(w, u) * vv - dot(w, v) * uv) / (uu * vv - uv * uv)


@facet('C10', 'line_line', two_lines, quick=5000, rule='lines not axis-aligned, in two or three dimensions',
       pinned=[dict(p=[0, 0], u=[1, 1], q=[2, 0], v=[-1, 1], how='cross', f=['list'] * 4), dict(p=[0, 0], u=[1, 1], q=[0, 1], v=[2, 2], how='parallel', f=['list'] * 4),
               dict(p=[0, 0, 0], u=[1, 0, 0], q=[0, 0, 1], v=[0, 1, 0], how='skew', f=['list'] * 4),
               dict(p=[0, 0, 0, 0], u=[1, 0, 0, 0], q=[0, 0, 0, 0], v=[0, 1, 0, 0], how='cross', f=['list'] * 4),
               dict(p=[0, 0, 0], u=[1, 0, 0], q=[0, 0], v=[0, 1], how='dims', f=['list'] * 4)])
def line_line(c, ctx):
    p, u, q, v = map(fv, (c['p'], c['u'], c['q'], c['v']))
    a = Line(form(c['p'], c['f'][0], Point), form(c['u'], c['f'][1], Vector))
    b = Line(form(c['q'], c['f'][2], Point), form(c['v'], c['f'][3], Vector))
    how, d = c['how'], len(p)
    ctx.label(how, f'dim{d}')
    for bad in (c['q'], None, 1):
        rejects(lambda: a.is_coplanar(bad), 'is_coplanar of something else', TypeError)
    if d != len(q):
        ctx.nt()
        rejects(lambda: a.intersect_line(b), 'intersect_line for different dimensions')
        rejects(lambda: a.intersect_line(b, check_coplanar=False), 'intersect_line for different dimensions')
        return
    for l in (a, b):
        rejects(lambda: l.intersect_line(l), 'intersect_line of a line with itself')
        rejects(lambda: l.intersect_line(l, check_coplanar=False), 'intersect_line of a line with itself')
    w = sub(q, p)
    g = sin2(u, v)
    cop = rank([u, v, w]) <= 2
    if how not in ('float', 'close', 'perp'):
        for l1, l2 in ((a, b), (b, a), (a, a)):
            need(boolean(l1.is_coplanar(l2), 'is_coplanar') == (cop or l1 is l2), f'is_coplanar should be {cop}')
    if d > 3:
        rejects(lambda: a.intersect_line(b), 'intersect_line over 3D')
        rejects(lambda: a.intersect_line(b, check_coplanar=False), 'intersect_line over 3D')
        return
    if g == 0:
        rejects(lambda: a.intersect_line(b), 'intersect_line of parallel lines')
        rejects(lambda: a.intersect_line(b, check_coplanar=False), 'intersect_line of parallel lines without check_coplanar')
        return
    if g < Fraction(1, 10 ** 7):
        return
    ctx.nt(sum(t != 0 for t in u) > 1 or sum(t != 0 for t in v) > 1)
    cond = 1 / float(g)
    tol = 1e-14 * (mag(p, q) + norm(w) * cond) + 1e-300
    ra = add(p, mul(nearest_on_first(p, u, q, v), u))
    rb = add(q, mul(nearest_on_first(q, v, p, u), v))
    if cop:                              # no digits but those of the cross product of the directions are lost
        tol = min(tol, 2e-14 * (mag(p, q) + (norm(w) + dist(ra, p) + dist(rb, q)) * cond ** 0.5) + 1e-300)
    near_vec(isa(a.intersect_line(b, check_coplanar=False), Point, 'intersect_line'), ra, tol, 'intersect_line without check_coplanar')
    near_vec(b.intersect_line(a, check_coplanar=False), rb, tol, 'intersect_line without check_coplanar (swapped)')
    if not cop and how not in ('float', 'close', 'perp'):
        rejects(lambda: a.intersect_line(b), 'intersect_line of skew lines')
        rejects(lambda: b.intersect_line(a), 'intersect_line of skew lines')
    elif cop and (how not in ('float', 'close', 'perp') or d == 2):
        need(ra == rb, 'oracle', ra, rb)
        near_vec(isa(a.intersect_line(b), Point, 'intersect_line'), ra, tol, 'intersect_line')
        near_vec(b.intersect_line(a), ra, tol, 'intersect_line (swapped)')
        near_vec(Line(c['p'], [-t for t in c['u']]).intersect_line(Line(c['q'], [4 * t for t in c['v']]), check_coplanar=False), ra, tol, 'intersect_line with other directions')


@cases
def near_misses(draw):
    d = draw(sampled([3, 3, 3, 4]))
    p, q = (draw(lists(integers(-6, 6), min_size=d, max_size=d)) for _ in range(2))
    u, v = nonzero(draw, d, 'int'), nonzero(draw, d, 'int')
    w = draw(lists(integers(-2, 2), min_size=d, max_size=d))
    i, j = draw(integers(-3, 3)), draw(integers(-3, 3))
    if draw(booleans()):
        q = [a + i * b - j * e for a, b, e in zip(p, u, v)]
    return dict(p=p, u=u, q=q, v=v, w=w, k=draw(integers(8, 44)), z=draw(sampled([1, 1, 2.0 ** 20, 2.0 ** -20])))


@facet('C10', 'near_miss', near_misses, quick=1800, rule='lines that miss each other by less than a thousandth, more than rounding')
def near_miss(c, ctx):
    """Lines whose four points are exact and off one plane by more than the rank tolerance are skew, however little."""
    h = 2.0 ** -c['k']
    p, u, v = (scaled(x, c['z']) for x in (c['p'], c['u'], c['v']))
    q = [(x + h * y) * c['z'] for x, y in zip(c['q'], c['w'])]
    a, b = Line(p, u), Line(q, v)
    P = [fv(x) for x in (p, [s + t for s, t in zip(p, u)], q, [s + t for s, t in zip(q, v)])]
    P = list(map(list, dict.fromkeys(map(tuple, P))))
    ce = [sum(x, Fraction(0)) / len(P) for x in zip(*P)]
    S = np.linalg.svd(np.array([fl(sub(x, ce)) for x in P]), compute_uv=False)
    g = sin2(fv(u), fv(v))
    if len(S) < 3 or S[2] < 64 * EPS * S[0] or g < Fraction(1, 1000):
        raise Discard
    ctx.label(f'{len(p)}D', f"2^-{c['k'] // 8 * 8}")
    ctx.nt(S[2] < 1e-3 * S[0])
    for x, y in ((a, b), (b, a)):
        need(not boolean(x.is_coplanar(y), 'is_coplanar'), f'{x} and {y} are coplanar; they miss each other by {h} times the unit')
        rejects(lambda: x.intersect_line(y), 'intersect_line of lines that miss each other')
        if len(p) == 3:
            n = cross(fv(u), fv(v))
            want = float(abs(dot(sub(fv(q), fv(p)), n))) / norm(n)
            near(x.distance_line(y), want, 1e-14 * mag(P[0], *P[1:]) / math.sqrt(g), 'distance_line of lines that barely miss')


@cases
def plane_line(draw):
    d = draw(sampled([3, 3, 3, 3, 2, 4, 1]))
    how = draw(sampled(['any', 'any', 'any', 'parallel', 'within', 'shallow', 'steep']))
    kind = draw(kinds(['int', 'med', 'dy'] if how in ('parallel', 'within') else ALL))
    p, n = vec(draw, d, kind), nonzero(draw, d, kind)
    q, v = vec(draw, d, kind), nonzero(draw, d, kind)
    if how in ('parallel', 'within', 'shallow') and d > 1:
        v = [0] * d
        for _ in range(2):
            i, j = draw(sampled([(i, j) for i in range(d) for j in range(d) if i != j]))
            k = draw(sampled([1, -1, 2]))
            v[i] += k * n[j]
            v[j] -= k * n[i]
        if how == 'within':
            q = shifted(p, v)
        if how == 'shallow':
            e = draw(sampled([1e-1, 1e-2, 1e-3]))
            v = [x + e * y for x, y in zip(v, n)]
    if how == 'steep':
        e, k = draw(sampled([0, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-9])), draw(sampled([1, -1, 2, 0.5]))
        v = [k * (x + e * y) for x, y in zip(n, v)]
    o = offset(draw, d)
    z = draw(sampled(UNITS2))
    p, q, o = scaled(p, z), scaled(q, z), scaled(o, z)
    n, v = scaled(n, draw(sampled([1, 1, z, 2.0 ** -20, 2.0 ** 20]))), scaled(v, draw(sampled([1, 1, z, 2.0 ** -20])))
    return dict(p=shifted(p, o), n=scaled(n, draw(sampled(UNIT if how in ('parallel', 'within') else DIRSCALES))), q=shifted(q, o),
                v=scaled(v, draw(sampled(UNIT if how in ('parallel', 'within') else DIRSCALES))), how=how, f=[draw(forms) for _ in range(4)])


@facet('C10', 'plane_line', plane_line, quick=3500, rule='normal not axis-aligned',
       pinned=[dict(p=[0, 0, 0], n=[0, 0, 1], q=[1, 2, 3], v=[1, 1, 1], how='any', f=['list'] * 4), dict(p=[0, 0, 0], n=[0, 0, 1], q=[1, 2, 0], v=[1, 1, 0], how='within', f=['list'] * 4)])
def plane_line_check(c, ctx):
    p, n, q, v = map(fv, (c['p'], c['n'], c['q'], c['v']))
    if n2(v) == 0:
        return
    pl = Plane(form(c['p'], c['f'][0], Point), form(c['n'], c['f'][1], Vector))
    ln = Line(form(c['q'], c['f'][2], Point), form(c['v'], c['f'][3], Vector))
    ctx.label(c['how'], f'dim{len(p)}')
    den = dot(n, v)
    ctx.nt(sum(t != 0 for t in n) > 1)
    if den == 0:
        if dot_is_exact(n, v):
            rejects(lambda: pl.intersect_line(ln), 'intersect_line of a line parallel to the plane')
        return
    cs = abs(float(den)) / (norm(n) * norm(v))
    if cs < 1e-5:
        return
    w = sub(p, q)
    ref = add(q, mul(dot(n, w) / den, v))
    tol = 1e-14 * (mag(p, q) + norm(w) / cs ** 2) + 1e-300
    near_vec(isa(pl.intersect_line(ln), Point, 'intersect_line'), ref, tol, 'Plane.intersect_line')
    near_vec(Plane(c['p'], [-2 * t for t in c['n']]).intersect_line(Line(c['q'], [-0.5 * t for t in c['v']])), ref, tol, 'Plane.intersect_line with other vectors')


@cases
def two_planes(draw):
    how = draw(sampled(['any', 'any', 'any', 'perp', 'parallel', 'same', 'close']))
    kind = draw(kinds(['int', 'med'] if how in ('parallel', 'same') else ALL))
    p, n = vec(draw, 3, kind), nonzero(draw, 3, kind)
    q, m = vec(draw, 3, kind), nonzero(draw, 3, kind)
    if how in ('parallel', 'same'):
        m = scaled(n, draw(sampled([1, -1, 2, -3])))
        q = p if how == 'same' else q
    elif how == 'perp':
        m = nudge(draw, [n[1], -n[0], 0 * n[0]])
    elif how == 'close':
        e = draw(sampled([1e-1, 1e-2, 1e-3]))
        m = [x + e * y for x, y in zip(n, m)]
    o = offset(draw, 3)
    z = draw(sampled(UNITS2))
    p, q, o = scaled(p, z), scaled(q, z), scaled(o, z)
    us = UNIT if how in ('parallel', 'same') else DIRSCALES
    return dict(p=shifted(p, o), n=scaled(n, draw(sampled(us))), q=shifted(q, o), m=scaled(m, draw(sampled(us))), how=how, f=[draw(forms) for _ in range(4)])


@facet('C10', 'plane_plane', two_planes, quick=3500, rule='both normals not axis-aligned',
       pinned=[dict(p=[0, 0, 0], n=[0, 0, 1], q=[1, 2, 3], m=[1, 0, 0], how='any', f=['list'] * 4), dict(p=[0, 0, 0], n=[0, 0, 1], q=[1, 2, 4], m=[0, 0, -2], how='parallel', f=['list'] * 4)])
def plane_plane(c, ctx):
    p, n, q, m = map(fv, (c['p'], c['n'], c['q'], c['m']))
    if n2(m) == 0:
        return
    a = Plane(form(c['p'], c['f'][0], Point), form(c['n'], c['f'][1], Vector))
    b = Plane(form(c['q'], c['f'][2], Point), form(c['m'], c['f'][3], Vector))
    ctx.label(c['how'])
    rejects(lambda: a.intersect_plane(a), 'intersect_plane of a plane with itself')
    rejects(lambda: b.intersect_plane(b), 'intersect_plane of a plane with itself')
    g = sin2(n, m)
    if g == 0:
        ctx.nt()
        rejects(lambda: a.intersect_plane(b), 'intersect_plane of parallel planes')
        return
    if g < Fraction(1, 10 ** 7):
        return
    ctx.nt(sum(t != 0 for t in n) > 1 and sum(t != 0 for t in m) > 1)
    x = cross(n, m)
    mg = mag(p, q)
    cond = 1 / float(g)
    tol = 1e-11 * mg * cond + 1e-300
    for l, sg in ((a.intersect_plane(b), 1), (b.intersect_plane(a), -1)):
        isa(l, Line, 'intersect_plane')
        dr, pt = fv(arr(l.direction, (3,))), fv(arr(l.point, (3,)))
        near_vec(l.direction, mul(sg, x), 1e-14 * norm(n) * norm(m), 'direction of intersect_plane')
        for t in (Fraction(0), F(10 * (mg or 1) / norm(dr))):
            y = add(pt, mul(t, dr))
            er = 1e-11 * float(t) * norm(dr) * cond ** 0.5
            for o, (u, k) in enumerate(((p, n), (q, m))):
                near(float(dot(sub(y, u), k)) / norm(k), 0, tol + er, f'distance of the intersection line from plane {o + 1}')
