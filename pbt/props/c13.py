"""C13: measures of cylinder, circle and sphere; solid containment; cylinder and line."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *

SC = [1] * 5 + [1e3, 1e-3, 1e6, 1e-6, 2.0 ** 12, 1e-9, 1e9, 2.0 ** -40]


@cases
def solid(draw):
    kind = draw(kinds())
    p, v = vec(draw, 3, kind), nonzero(draw, 3, draw(kinds()))
    r = draw(integers(1, 10 ** 4)) / draw(sampled([1, 10, 16, 1000]))
    if draw(integers(0, 3)) == 0:
        r = draw(integers(1, 100))
    return dict(p=shifted(p, offset(draw, 3)), v=scaled(v, draw(sampled([1, 1, 1, 10, 0.1, 1e3, 1e-3]))), r=r, s=draw(sampled(SC)), f=[draw(forms), draw(forms)], np=draw(booleans()))


@facet('C13', 'measures', solid, quick=1000, rule='axis not along a coordinate axis',
       pinned=[dict(p=[0, 0, 0], v=[0, 0, 1], r=1, s=1, f=['list'] * 2, np=False), dict(p=[1, 2, 3], v=[3, 4, 0], r=2, s=1, f=['list'] * 2, np=False)])
def measures(c, ctx):
    v, r = scaled(c['v'], c['s']), c['r'] * c['s']
    rr = np.float64(r) if c['np'] else r
    cy = Cylinder(form(c['p'], c['f'][0], Point), form(v, c['f'][1], Vector), rr)
    L, r = norm(fv(v)), float(r)
    ctx.nt(sum(t != 0 for t in v) > 1)
    pi = math.pi
    ci, sp = Circle(c['p'][:2], rr), Sphere(c['p'], rr)
    for what, f, ref in (('length', cy.length, L), ('lateral_surface_area', cy.lateral_surface_area, 2 * pi * r * L),
                         ('surface_area', cy.surface_area, 2 * pi * r * (L + r)), ('volume', cy.volume, pi * r * r * L),
                         ('circumference', ci.circumference, 2 * pi * r), ('area', ci.area, pi * r * r),
                         ('sphere surface_area', sp.surface_area, 4 * pi * r * r), ('sphere volume', sp.volume, 4 / 3 * pi * r ** 3)):
        near(f(), ref, 1e-13 * ref, what)


@cases
def within(draw):
    how = draw(sampled(['any', 'any', 'any', 'lattice']))
    if how == 'lattice':
        i = draw(integers(0, 2))
        v = [0] * 3
        v[i] = draw(sampled([1, -1])) * draw(integers(1, 20))
        x, y, r = draw(sampled([(3, 4, 5), (4, 3, 5), (5, 12, 13), (0, 7, 7), (7, 0, 7)]))
        k = draw(integers(1, 3))
        x, y, r = x * k * draw(sampled([1, -1])), y * k * draw(sampled([1, -1])), r * k
        r += draw(sampled([0, 0, 0, 1, -1]))
        p = [draw(integers(-50, 50)) for _ in range(3)]
        q = list(p)
        q[i] += draw(sampled([0, v[i], draw(integers(-25, 25)), v[i] + 1, -1]))
        q[(i + 1) % 3] += x
        q[(i + 2) % 3] += y
        z = draw(sampled(UNITS2))
        return dict(p=scaled(p, z), v=scaled(v, z), r=r * z, q=scaled(q, z), how=how, f=[draw(forms) for _ in range(3)])
    p, v = vec(draw, 3, draw(kinds())), nonzero(draw, 3, draw(kinds()))
    v = scaled(v, draw(sampled([1, 1, 1, 10, 0.1, 1e3, 1e-3])))
    n = math.sqrt(sum(t * t for t in v))
    r = n * draw(sampled([1, 1, 1, 1, 0.1, 10, 0.01, 1000, 1e-6, 1e-9, 1e6, 1e8])) * draw(integers(1, 1000)) / 500
    w = nonzero(draw, 3, 'fl')
    t = sum(a * b for a, b in zip(v, w)) / n ** 2
    w = [b - t * a for a, b in zip(v, w)]
    m = math.sqrt(sum(t * t for t in w))
    if m < 1e-3:
        w, m = [0.0] * 3, 1.0
    h = r / m * draw(sampled([0, 0.5, 0.9, 0.999, 0.999999, 1.000001, 1 - 1e-8, 1 + 1e-8, 1 + 1e-11, 1 - 1e-11, 1.001, 1.1, 2, -0.7, -1.3]))
    t = draw(sampled([0.5, 0.25, 0.001, 0.999, 1e-6, 1 - 1e-6, -1e-6, 1 + 1e-6, 1e-9, -1e-9, 1 + 1e-9, 1 + 1e-11, -1e-11, -0.001, 1.001, -0.5, 1.5, 3, -1, -2]))
    o = offset(draw, 3)
    p = shifted(p, o)
    z = draw(sampled(UNITS2))
    q = [a + t * b + h * e for a, b, e in zip(p, v, w)]
    return dict(p=scaled(p, z), v=scaled(v, z), r=r * z, q=scaled(q, z), how=how, f=[draw(forms) for _ in range(3)])


@facet('C13', 'is_point_within', within, quick=4000, rule='axis not along a coordinate axis, or a point on the boundary',
       pinned=[dict(p=[0, 0, 0], v=[0, 0, 2], r=5, q=q, how='lattice', f=['list'] * 3) for q in ([3, 4, 0], [3, 4, 2], [3, 4, 3], [3, 4, -1], [0, 0, 0], [6, 0, 1])])
def is_point_within(c, ctx):
    p, v, q, r = fv(c['p']), fv(c['v']), fv(c['q']), F(c['r'])
    cy = Cylinder(form(c['p'], c['f'][0], Point), form(c['v'], c['f'][1], Vector), c['r'])
    w = sub(q, p)
    t = dot(w, v) / n2(v)
    rad2 = n2(w) - t * t * n2(v)
    inside = 0 <= t <= 1 and rad2 <= r * r
    m = mag(p, q, v)
    edge = rad2 == r * r or t == 0 or t == 1
    if c['how'] != 'lattice':
        if abs(sqrt(rad2) - float(r)) < 1e-13 * m + 1e-13 * float(r) or min(abs(t), abs(t - 1)) * F(norm(v)) < 1e-13 * m:
            return
    ctx.nt(sum(x != 0 for x in v) > 1 or edge)
    ctx.label('inside' if inside else 'outside', 'edge' if edge else 'clear')
    b = boolean(cy.is_point_within(form(c['q'], c['f'][2], Point)), 'is_point_within')
    need(b == inside, f'is_point_within is {b}, axial position {float(t)}, radial {sqrt(rad2)} of {float(r)}')
    rev = Cylinder([a + b for a, b in zip(c['p'], c['v'])], [-x for x in c['v']], c['r'])
    if not edge or c['how'] == 'lattice':
        need(rev.is_point_within(c['q']) == inside, 'is_point_within of the same cylinder from the other end differs')


@cases
def with_line(draw):
    how = draw(sampled(['any'] * 6 + ['aligned', 'aligned', 'parallel', 'dim']))
    if how == 'aligned':
        i, j = draw(sampled([(a, b) for a in range(3) for b in range(3) if a != b]))
        v = [0] * 3
        v[i] = draw(sampled([1, -1])) * draw(integers(1, 20))
        r = draw(integers(1, 30))
        p = [draw(integers(-50, 50)) for _ in range(3)]
        q = list(p)
        for k in range(3):
            q[k] += draw(integers(-35, 35))
        if draw(booleans()):
            q[i] = p[i] + draw(sampled([0, v[i], 1, -1, v[i] + 1]))
        u = [0] * 3
        u[j] = draw(sampled([1, -1, 2, -4, 0.5]))
        u = nudge(draw, u)
        z = draw(sampled(UNITS2))
        return dict(p=scaled(p, z), v=scaled(v, z), r=r * z, q=scaled(q, z), u=u, how=how, f=[draw(forms) for _ in range(4)])
    p = vec(draw, 3, draw(kinds()))
    v = nonzero(draw, 3, draw(kinds(['int', 'med', 'dy'] if how == 'parallel' else ALL)))
    v = scaled(v, draw(sampled([1, 1, 1, 8, 0.125])))
    n = math.sqrt(sum(t * t for t in v))
    r = n * draw(sampled([1, 1, 0.1, 10])) * draw(integers(1, 1000)) / 500
    # two points near the cylinder: axial position and offset in multiples of length and radius
    pts = []
    for _ in range(2):
        w = nonzero(draw, 3, 'fl')
        t = sum(a * b for a, b in zip(v, w)) / n ** 2
        w = [b - t * a for a, b in zip(v, w)]
        m = math.sqrt(sum(t * t for t in w))
        if m < 1e-3:
            w, m = [0.0] * 3, 1.0
        h = r / m * draw(sampled([0, 0.3, 0.5, 0.9, 1, 0.99, 1.1, 2, -0.7, -1.3, 1e-3, 1e-5, 1e-7]))
        t = (draw(integers(-1500, 2500)) / 1000 if not pts or draw(integers(0, 4)) else t0 + draw(sampled([1e-3, 1e-5, 1e-7, 1e-9])) * r / n)
        t0 = t
        pts.append([a + t * b + h * e for a, b, e in zip(p, v, w)])
    q = pts[0]
    u = [b - a for a, b in zip(*pts)]
    if sum(t * t for t in u) < 1e-6 * n * n:
        u = nonzero(draw, 3, 'fl')
    if how == 'parallel':
        u = scaled(v, draw(sampled([1, -1, 2, -3, 0.5, 1e3])))
    else:
        k = draw(sampled([0, 0, 0, 1, -3, 20]))
        q = [a + k * b for a, b in zip(q, u)]
        u = scaled(u, draw(sampled([1, 1, -1, 7, 1e-3, 1e3])))
    if how == 'dim':
        q, u = q[:2], u[:2]
        if not any(u):
            u = [1, 0]
    o = offset(draw, 3, OFFSETS + [10 ** 6] * 2)
    z = draw(sampled(UNITS2))
    return dict(p=scaled(shifted(p, o), z), v=scaled(v, z), r=r * z, q=scaled(shifted(q, o), z), u=scaled(u, draw(sampled([1, z]))), how=how, f=[draw(forms) for _ in range(4)])


def points_near(got, refs, tol, what):
    need(isinstance(got, tuple) and len(got) == 2, f'{what} returned', got)
    g = [fv(arr(isa(x, Point, what), (3,))) for x in got]
    e = min(max(dist(g[0], refs[i]), dist(g[1], refs[1 - i])) for i in (0, 1))
    need(e <= tol, f'{what}: got {[fl(x) for x in g]}, expected {[fl(x) for x in refs]} (tolerance {tol:.3g})')


@facet('C13', 'intersect_line', with_line, quick=6000, rule='axis and line not along coordinate axes, and the line meets the cylinder',
       pinned=[dict(p=[0, 0, 0], v=[0, 0, 5], r=1, q=[0, 0, 0], u=u, how='any', f=['list'] * 4) for u in ([1, 0, 0], [0, 0, 1], [1, 0, 1], [1, 0, 5], [1, 0, 7])] +
       [dict(p=[0, 0, 0], v=[1, 2, 3], r=5, q=[1, 0, 0], u=[2, 4, 6], how='parallel', f=['list'] * 4)])
def intersect_line(c, ctx):
    p, v, q, u, r = fv(c['p']), fv(c['v']), fv(c['q']), fv(c['u']), F(c['r'])
    cy = Cylinder(form(c['p'], c['f'][0], Point), form(c['v'], c['f'][1], Vector), c['r'])
    ln = Line(form(c['q'], c['f'][2], Point), form(c['u'], c['f'][3], Vector))
    how = c['how']
    ctx.label(how)
    if how == 'dim':
        for kw in ({}, dict(infinite=False)):
            rejects(lambda: cy.intersect_line(ln, **kw), 'Cylinder.intersect_line of a 2D line')
        return
    V2, U2 = n2(v), n2(u)
    w = sub(q, p)
    tu, tw = dot(u, v) / V2, dot(w, v) / V2
    up, wp = sub(u, mul(tu, v)), sub(w, mul(tw, v))
    A, B, C = n2(up), dot(up, wp), n2(wp) - r * r
    m = mag(p, q, v) + float(r)
    D = norm(w) + float(r)
    lo = hi = None
    if A == 0:
        rejects(lambda: cy.intersect_line(ln), 'intersect_line of a line parallel to the infinite cylinder')
        if abs(sqrt(n2(wp)) - float(r)) < 1e-12 * m:
            return
        side = [None, None] if C < 0 else []
        tol = 1e-13 * m
        ctx.nt()
        shift = 1.0
    else:
        s2 = float(A / U2)
        if s2 < 1e-8:                                            # may count as parallel
            return
        disc = B * B - A * C
        foot2 = float((n2(wp) - B * B / A) / (r * r))           # (distance of line and axis / r)^2
        aligned = how == 'aligned'
        exact = aligned and all(x == int(x) for x in c['u'])
        whole = exact and all(x == int(x) for x in c['p'] + c['q'] + [c['r']]) and m < 1e5
        if not exact and abs(foot2 - 1) < 1e-9 + 1e-13 * D * D / float(r * r):
            return
        if disc == 0 and whole:
            f = add(q, mul(-B / A, u))
            ctx.label('tangent')
            points_near(cy.intersect_line(ln, n_digits=0), [f, f], 1e-9 * m, 'intersect_line(n_digits=0) of a tangent line')
            return
        if disc == 0:
            return
        if disc < 0:
            ctx.label('misses')
            rejects(lambda: cy.intersect_line(ln), 'intersect_line of a line that misses the infinite cylinder')
            rejects(lambda: cy.intersect_line(ln, infinite=False), 'intersect_line of a line that misses the cylinder')
            return
        root = F(sqrt(disc))
        lo, hi = (-B - root) / A, (-B + root) / A
        half = float(root / A) * math.sqrt(s2) * norm(u)         # half chord in the cross section
        tol = 1e-14 * (D * D / (half * math.sqrt(s2)) + D / s2) + 1e-15 * m
        shift = (1 + float(r) / half) / math.sqrt(s2)            # effect of moving the axis a little
        ctx.nt(sum(x != 0 for x in v) > 1 and sum(x != 0 for x in u) > 1)
        refs = [add(q, mul(lo, u)), add(q, mul(hi, u))]
        points_near(cy.intersect_line(ln), refs, tol, 'intersect_line')
        points_near(cy.intersect_line(ln, infinite=True), refs, tol, 'intersect_line(infinite=True)')
        nd = 9
        tn = 3e-9 * (1 + D) ** 2 / (min(half, 1) * s2 * math.sqrt(s2) * min(1, half))
        if tn < 1e-4 * float(r):
            points_near(cy.intersect_line(ln, n_digits=nd), refs, tol + tn, 'intersect_line(n_digits=9)')
        if whole:        # the coefficients for the unit direction are integers
            points_near(cy.intersect_line(ln, n_digits=0), refs, tol, 'intersect_line(n_digits=0) with integer coefficients')
        side = [lo, hi]
    if not side:
        rejects(lambda: cy.intersect_line(ln, infinite=False), 'intersect_line of a line outside the finite cylinder')
        return
    # the slab between the caps: 0 <= tw + t tu <= 1
    L = norm(v)
    if tu == 0:
        d = min(abs(tw), abs(tw - 1))
        if d * F(L) < 1e-12 * m and not how == 'aligned':
            return
        slab = side if 0 <= tw <= 1 else None
    else:
        x, y = sorted([-tw / tu, (1 - tw) / tu])
        cc = abs(float(tu)) * L / norm(u)                        # cosine of line and axis
        if cc < 1e-6:
            return
        tol = tol + 1e-14 * D / cc ** 2
        shift += 1 / cc
        # near an edge the choice between cap and side is rounding
        for a in (x, y):
            for b in side:
                if b is not None and abs(float(a - b)) * norm(u) < 100 * tol:
                    return
        if side[0] is None:
            slab = [x, y]
        else:
            slab = [max(x, lo), min(y, hi)]
            if slab[0] > slab[1]:
                slab = None
    if slab and lo not in slab and hi not in slab:                   # both ends on the caps
        tol = 1e-13 * m + 1e-14 * D / cc ** 2
    if slab is None:
        ctx.label('misses finite')
        rejects(lambda: cy.intersect_line(ln, infinite=False), 'intersect_line of a line that misses the finite cylinder')
        return
    ctx.label('caps' if side[0] is None else f'{int(slab[0] != lo) + int(slab[1] != hi)} caps')
    refs = [add(q, mul(t, u)) for t in slab]
    points_near(cy.intersect_line(ln, infinite=False), refs, 2 * tol, 'intersect_line(infinite=False)')
    points_near(cy.intersect_line(Line(c['q'], [-t for t in c['u']]), infinite=False), refs, 2 * tol, 'intersect_line(infinite=False), reversed line')
    rev = Cylinder([a + b for a, b in zip(c['p'], c['v'])], [-x for x in c['v']], c['r'])
    if tu != 0 or how == 'aligned':
        points_near(rev.intersect_line(ln, infinite=False), refs, 2 * tol + 2e-15 * m * shift, 'intersect_line(infinite=False), cylinder from the other end')


@cases
def tangent(draw):
    v = nonzero(draw, 3, draw(kinds()))
    n = math.sqrt(sum(t * t for t in v))
    w = nonzero(draw, 3, 'fl')
    t = sum(a * b for a, b in zip(v, w)) / n ** 2
    w = [b - t * a for a, b in zip(v, w)]
    m = math.sqrt(sum(t * t for t in w))
    if m < 1e-2:
        w = [v[1], -v[0], 0 * v[0]] if v[0] or v[1] else [1.0, 0.0, 0.0]
        m = math.sqrt(sum(t * t for t in w))
    r = draw(integers(1, 100)) / 10
    a = draw(sampled([0, 0, 0.5, -1, 2]))
    tg = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
    return dict(v=v, q=[0.5 * x + r / m * y for x, y in zip(v, w)], u=[x / n / m + a * y / n for x, y in zip(tg, v)], r=r, d=draw(sampled([3, 5, 8])))


@facet('C13', 'n_digits', tangent, quick=800, rule='every case: a tangent line in general position')
def n_digits(c, ctx):
    cy = Cylinder([0, 0, 0], c['v'], c['r'])
    ln = Line(c['q'], c['u'])
    ctx.nt()
    for kw in ({}, dict(infinite=False)):
        try:
            got = cy.intersect_line(ln, n_digits=c['d'], **kw)
        except ValueError as e:
            raise Violation(f'intersect_line(n_digits={c["d"]}) refuses a tangent line: {e}') from None
        points_near(got, [fv(c['q'])] * 2, 1e-6, f'intersect_line(n_digits={c["d"]}, {kw})')
