"""C12: intersections of circles and spheres with lines, and of two circles."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *

BIGS = [1] * 6 + [1e3, 1e6, 1e9, 1e-3, 1e-6, 2.0 ** 20, 2.0 ** -20, 2.0 ** -40, 1e-9, 1e-12]


@cases
def with_line(draw):
    d = draw(sampled([2, 3]))
    how = draw(sampled(['any', 'any', 'any', 'any', 'centre', 'tangent', 'tangent', 'graze']))
    kind = draw(kinds(['int', 'med', 'dy'] if how == 'tangent' else ALL))
    c = vec(draw, d, kind)
    r = draw(integers(1, 200)) / draw(sampled([1, 1, 16])) if how == 'tangent' else draw(integers(1, 10 ** 4)) / draw(sampled([1, 10, 16, 1000]))
    if how == 'tangent':
        i = draw(integers(0, d - 1))
        j = draw(sampled([k for k in range(d) if k != i]))
        v = [0] * d
        v[i] = draw(sampled([1, -1, 2, -3, 0.5]))
        p = list(c)
        p[j] += draw(sampled([1, -1])) * r
        p[i] += draw(integers(-50, 50))
    else:
        v = nonzero(draw, d, draw(kinds()))
        n = math.sqrt(sum(x * x for x in v))
        w = nonzero(draw, d, 'fl')
        t = sum(x * y for x, y in zip(v, w)) / n ** 2
        w = [y - t * x for x, y in zip(v, w)]
        m = math.sqrt(sum(x * x for x in w))
        if m < 1e-2:
            w, m = [0.0] * d, 1.0
        h = {'any': draw(integers(0, 1500)) / 1000, 'centre': draw(sampled([0, 0, 1e-4, 1e-5, 1e-6, 1e-7, 1e-9, 1e-11])), 'graze': draw(sampled([0.999, 0.9999, 1.0001, 1.001, 1.00001]))}[how] * r
        t = draw(sampled([0, 1, -1, 3, 0.5, 100, -1000])) * r / n
        p = [a + t * b + h / m * e for a, b, e in zip(c, v, w)]
        v = scaled(v, draw(sampled(DIRSCALES)))
    o = offset(draw, d)
    c, p = shifted(c, o), shifted(p, o)
    if how != 'tangent':
        s = draw(sampled(BIGS))
        c, p, r = scaled(c, s), scaled(p, s), r * s
    return dict(c=c, r=r, p=p, v=v, how=how, f=[draw(forms) for _ in range(3)])


def match(got, refs, tol, what):
    """The two returned points are the two reference points, in any order; returns the order."""
    def err(g, r):
        return max(abs(float(F(x) - y)) for x, y in zip(g, r))
    g = [arr(isa(x, Point, what), (len(refs[0]),)) for x in got]
    a = max(err(g[0], refs[0]), err(g[1], refs[1]))
    b = max(err(g[0], refs[1]), err(g[1], refs[0]))
    need(min(a, b) <= tol, f'{what}: got {[x.tolist() for x in g]}, expected {[fl(r) for r in refs]} (tolerance {tol:.3g})')
    return a <= b


def two(res, what):
    need(isinstance(res, tuple) and len(res) == 2, f'{what} returned', res)
    return res


@facet('C12', 'line', with_line, quick=6000, rule='the line is not axis-aligned and meets the object',
       pinned=[dict(c=[0, 0], r=1, p=[0, 0], v=v, how='any', f=['list'] * 3) for v in ([1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [1, -1], [-1, -1])] +
       [dict(c=[0, 0, 0], r=1, p=[3, 1, 0], v=[1, 0, 0], how='tangent', f=['list'] * 3), dict(c=[1, 2], r=3, p=[0, 5], v=[-2, 0], how='tangent', f=['list'] * 3)])
def line(c, ctx):
    ce, p, v, r = fv(c['c']), fv(c['p']), fv(c['v']), F(c['r'])
    d = len(ce)
    cls = Circle if d == 2 else Sphere
    o = cls(form(c['c'], c['f'][0], Point), c['r'])
    ln = Line(form(c['p'], c['f'][1], Point), form(c['v'], c['f'][2], Vector))
    foot, _ = foot_line(p, v, ce)
    h2 = n2(sub(foot, ce))
    D = norm(sub(p, ce))
    m = mag(ce, p, [r])
    rel = float(h2 / (r * r)) - 1
    name = f'{cls.__name__}.intersect_line'
    ctx.label(cls.__name__, c['how'])
    if c['how'] == 'tangent' and h2 == r * r:
        ctx.nt()
        ctx.label('tangent')
        try:
            res = two(o.intersect_line(ln), name)
        except ValueError as e:
            raise Violation(f'{name} refuses a tangent line: {e}') from None
        match(res, [foot, foot], 1e-13 * m, name)
        return
    clear = 1e-13 * m * (D + c['r']) / c['r'] ** 2 + 1e-12
    if abs(rel) < clear * 10 or clear > 1e-3:
        return
    lines = [('', ln), (' (reversed line)', Line(c['p'], [-t for t in c['v']])), (' (other length)', Line(c['p'], [3.0 * t for t in c['v']]))]
    if h2 > r * r:
        ctx.label('misses')
        for what, l in lines:
            rejects(lambda: o.intersect_line(l), f'{name} of a line that misses{what}')
        return
    half = sqrt(r * r - h2)
    u = mul(F(half) / F(norm(v)), v)
    refs = [sub(foot, u), add(foot, u)]
    ctx.label('meets')
    ctx.nt(sum(t != 0 for t in v) > 1)
    k = 1 + c['r'] / half
    tol = 4e-15 * (m + D) * k + 4e-16 * D * k
    for what, l in lines:
        got = two(o.intersect_line(l), name)
        order = match(got, refs, tol, name + what)
        if cls is Sphere and half > 2 * tol:
            need(order == ('reversed' not in what), f'{name}{what}: the points are not in the order of the direction')
        for q in got:
            near(dist(fv(arr(q)), ce), c['r'], 2 * tol, f'{name}{what}: distance from the centre')
            f, _ = foot_line(p, v, fv(arr(q)))
            near(dist(fv(arr(q)), f), 0, 2 * tol, f'{name}{what}: distance from the line')
        mid = mul(Fraction(1, 2), add(fv(arr(got[0])), fv(arr(got[1]))))
        near_vec(fl(mid), foot, tol, f'{name}{what}: midpoint')


TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (0, 1, 1), (1, 0, 1), (20, 21, 29)]


@cases
def with_circle(draw):
    how = draw(sampled(['any', 'any', 'any', 'exact', 'exact', 'same']))
    if how == 'exact':
        x, y, d = draw(sampled(TRIPLES))
        k = draw(integers(1, 6))
        x, y, d = x * k, y * k, d * k
        a = [draw(integers(-30, 30)), draw(integers(-30, 30))]
        b = [a[0] + draw(sampled([1, -1])) * x, a[1] + draw(sampled([1, -1])) * y]
        r = draw(integers(1, 2 * d))
        # outer contact, inner contact, just apart, just inside, crossing
        s = draw(sampled([d - r, d + r, r - d, d - r - 1, d + r + 1, r - d - 1, draw(integers(1, 3 * d))]))
        s = s if s > 0 else abs(s) + 1
        o = offset(draw, 2, [0, 0, 0, 100, 10 ** 4, 10 ** 7, 2 ** 30, 2 ** 42])
        a, b = shifted(a, o), shifted(b, o)
        if draw(booleans()):
            a, b, r, s = b, a, s, r
        return dict(a=a, b=b, r=r, s=s, how=how, f=[draw(forms), draw(forms)])
    a = vec(draw, 2, draw(kinds()))
    if how == 'same':
        return dict(a=a, b=list(a), r=draw(sampled([1, 2, 0.5])), s=draw(sampled([1, 2, 0.5])), how=how, f=[draw(forms), draw(forms)])
    v = nonzero(draw, 2, draw(kinds()))
    e = draw(sampled([1, 1, 1, 1, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6]))
    v = scaled(v, e)
    d = math.hypot(*v)
    r = d / e * draw(integers(1, 5000)) / 1000
    s = abs(d - r) + (d + r - abs(d - r)) * draw(integers(1, 999)) / 1000 if draw(booleans()) or e != 1 else d * draw(integers(1, 5000)) / 1000
    o = offset(draw, 2)
    k = draw(sampled(BIGS))
    return dict(a=scaled(shifted(a, o), k), b=scaled(shifted(shifted(a, v), o), k), r=r * k, s=s * k, how=how, f=[draw(forms), draw(forms)])


@facet('C12', 'circle', with_circle, quick=4000, rule='centres not on one axis, and circles that meet',
       pinned=[dict(a=[0, 0], b=[2, 0], r=1, s=1, how='exact', f=['list'] * 2), dict(a=[0, 0], b=[1, 0], r=2, s=1, how='exact', f=['list'] * 2),
               dict(a=[0, 0], b=[0, 0], r=2, s=1, how='same', f=['list'] * 2), dict(a=[0, 0], b=[0.0, -0.0], r=1, s=1, how='same', f=['list'] * 2)])
def circle(c, ctx):
    a, b, r, s = fv(c['a']), fv(c['b']), F(c['r']), F(c['s'])
    x, y = Circle(form(c['a'], c['f'][0], Point), c['r']), Circle(form(c['b'], c['f'][1], Point), c['s'])
    v = sub(b, a)
    d2 = n2(v)
    ctx.label(c['how'])
    rejects(lambda: x.intersect_circle(x), 'intersect_circle of a circle with itself')
    both = ((x, y, 'intersect_circle'), (y, x, 'intersect_circle (swapped)'))
    if d2 == 0:
        for p, q, what in both:
            rejects(lambda: p.intersect_circle(q), what + ' of concentric circles')
        return
    d = norm(v)
    exact = c['how'] == 'exact'
    out, inn = float(F(d) - (r + s)), float(abs(r - s) - F(d))
    m = mag(a, b, [r, s])
    guard = 0 if exact else 1e-12 * m
    if out > guard or inn > guard:
        ctx.label('apart' if out > 0 else 'inside')
        for p, q, what in both:
            rejects(lambda: p.intersect_circle(q), what + ' of circles that do not meet')
        return
    if not exact and max(out, inn) > -guard:
        return
    t = (r * r - s * s + d2) / (2 * d2)
    h2 = r * r - t * t * d2
    tangent = exact and (out == 0 or inn == 0)
    ctx.label('tangent' if tangent else 'crossing')
    ctx.nt(v[0] != 0 and v[1] != 0)
    foot = add(a, mul(t, v))
    R = float(r + s) + d
    ea = 2e-15 * R * R / d + 4e-16 * m * (1 + R / d)
    if tangent:
        refs = [foot, foot]
        tol = 1e-7 * R + ea
    else:
        h = sqrt(h2) if h2 > 0 else 0
        if h < 1e-5 * R:
            return
        w = mul(F(h / d), [v[1], -v[0]])
        refs = [add(foot, w), sub(foot, w)]
        tol = ea * (1 + R / h)
    for p, q, what in both:
        try:
            got = two(p.intersect_circle(q), what)
        except ValueError as e:
            raise Violation(f'{what} refuses circles that meet: {e}') from None
        match(got, refs, tol, what)
        for g in got:
            near(dist(fv(arr(g)), a), float(r), 2 * tol, what + ': distance from the first centre')
            near(dist(fv(arr(g)), b), float(s), 2 * tol, what + ': distance from the second centre')


@cases
def edges(draw):
    d = draw(sampled([2, 3]))
    i, j = draw(sampled([(i, j) for i in range(d) for j in range(d) if i != j]))
    return dict(d=d, i=i, j=j, c=vec(draw, d, 'int'), r=draw(sampled([1, 2, 3, 5, 0.25, 100, 2 ** 20, 2.0 ** -20, 2.0 ** -40])), k=draw(integers(2, 42)), out=draw(booleans()),
                sign=draw(sampled([1, -1])), t=draw(integers(-8, 8)), v=draw(sampled([1, -1, 2, -0.5, 1024, 2.0 ** -20])), f=[draw(pixels) for _ in range(3)])


@facet('C12', 'edge', edges, quick=1500, rule='every case: a line past the edge by a known small part of the radius')
def edge(c, ctx):
    """Lines along an axis that miss, or cut, by 2^-2 to 2^-42 of the radius, where no rounding is needed."""
    d, r = c['d'], F(c['r'])
    ce = [F(x) * (r if r < 1 else 1) for x in c['c']]
    e = F(Fraction(1, 2 ** c['k']))
    p, v = list(ce), [0.0] * d
    p[c['j']] += c['sign'] * r * (1 + e if c['out'] else 1 - e)
    p[c['i']] += c['t'] * r
    v[c['i']] = c['v']
    if any(F(float(x)) != x for x in p + ce):
        raise Discard
    cls = Circle if d == 2 else Sphere
    name = f'{cls.__name__}.intersect_line'
    o, ln = cls(form(fl(ce), c['f'][0], Point), c['r']), Line(form(fl(p), c['f'][1], Point), form(v, c['f'][2], Vector))
    ctx.nt()
    ctx.label('misses' if c['out'] else 'cuts', cls.__name__)
    if c['out']:
        rejects(lambda: o.intersect_line(ln), f'{name} of a line that misses by {float(e):.3g} of the radius')
        return
    h = sqrt(r * r * e * (2 - e))
    ends = []
    for s in (-1, 1):
        q = list(p)
        q[c['i']] = ce[c['i']] + s * F(h)
        ends.append(q)
    match(two(o.intersect_line(ln), name), ends, 1e-15 * c['r'] * (1 + c['r'] / float(h)) + 4e-16 * mag(p, ce) * (1 + c['r'] / float(h)), name)


@cases
def kisses(draw):
    return dict(i=draw(integers(0, 1)), c=vec(draw, 2, 'int') if draw(booleans()) else [0, 0], r=draw(integers(1, 12)), s=draw(integers(1, 12)), k=draw(integers(3, 42)), out=draw(booleans()), inner=draw(booleans()),
                sign=draw(sampled([1, -1])), z=draw(sampled([1, 1, 1, 2.0 ** -20, 2.0 ** -40, 2.0 ** 20])), f=[draw(forms) for _ in range(2)])


@facet('C12', 'kiss', kisses, quick=1500, rule='every case: circles past contact by a known small amount')
def kiss(c, ctx):
    """Circles side by side along an axis, apart or overlapping by 2^-3 to 2^-42, where no rounding is needed."""
    r, s, e, z = F(c['r']), F(c['s']), Fraction(1, 2 ** c['k']), F(c['z'])
    if c['inner']:
        d = abs(r - s) + (-e if c['out'] else e)
        if d <= 0 or r == s:
            raise Discard
    else:
        d = r + s + (e if c['out'] else -e)
    a = [F(t) for t in c['c']]
    b = list(a)
    b[c['i']] += c['sign'] * d
    r, s, d, a, b = r * z, s * z, d * z, mul(z, a), mul(z, b)
    if any(F(float(t)) != t for t in b + [d]):
        raise Discard
    x, y = Circle(form(fl(a), c['f'][0], Point), float(r)), Circle(form(fl(b), c['f'][1], Point), float(s))
    ctx.nt()
    ctx.label('miss' if c['out'] else 'meet', 'inner' if c['inner'] else 'outer')
    t = (r * r - s * s + d * d) / (2 * d)
    h2 = r * r - t * t
    for p, q, what in ((x, y, 'intersect_circle'), (y, x, 'intersect_circle (swapped)')):
        if c['out']:
            rejects(lambda: p.intersect_circle(q), f'{what} of circles {2.0 ** -c["k"]:.3g} off contact')
            continue
        h = F(sqrt(h2))
        foot = list(a)
        foot[c['i']] += c['sign'] * t
        ends = []
        for u in (h, -h):
            w = list(foot)
            w[1 - c['i']] += u
            ends.append(w)
        R = float(r + s + d)
        match(two(p.intersect_circle(q), what), ends, 1e-15 * (R + mag(a, b)) * (1 + R / float(d)) * (1 + R / float(h)), what)
