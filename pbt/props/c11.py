"""C11: line segments."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *

INSIDE = [0.5, 0.25, 0.75, 0.125, 0.0078125, 0.9921875]
ENDS = [0, 1]
BEYOND = [-1, 2, -0.5, 1.5, 1.0078125, -0.0078125, 10, -7]


@cases
def contains(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4, 6]))
    kind = draw(kinds(['int', 'int', 'med', 'dy', 'fl', 'dec']))
    a = shifted(vec(draw, d, kind), offset(draw, d))
    v = nonzero(draw, d, kind)
    s = draw(sampled([1, 1, 2, 128, 0.5, 1024.0]))
    v = scaled(v, s)
    z = draw(sampled(UNITS2))
    a, v = scaled(a, z), scaled(v, z)
    b = shifted(a, v)
    w = vec(draw, d, 'fl')
    if draw(integers(0, 3)) == 0:                       # close to an end, on the segment, off it or past it
        t = draw(sampled([2.0 ** -8, 2.0 ** -12, 2.0 ** -16, 2.0 ** -20]))
        h = t * draw(sampled([0, 1, 0.1, 0.01, 1e-3, 1e-4, 3e-5, 5e-6]))
        return dict(a=a, b=b, w=w, t=draw(sampled([t, 1 - t, t, 1 - t, -t, 1 + t])), h=h, f=[draw(forms) for _ in range(3)])
    return dict(a=a, b=b, w=w, t=draw(sampled(INSIDE + INSIDE + ENDS * 2 + BEYOND * 2)), h=draw(sampled([0, 0, 0, 0, 1, 1, 0.1, 0.01, 1e-3, 1e-4, 3e-5, 2e-5, 1.5e-5, 1e-5, 5e-6])),
                f=[draw(forms) for _ in range(3)])


@facet('C11', 'contains_point', contains, quick=5000, rule='segment not axis-aligned',
       pinned=[dict(a=[0, 0], b=[4, 2], w=[0, 0], t=t, h=0, f=['list'] * 3) for t in ENDS + INSIDE + BEYOND])
def contains_point(c, ctx):
    a, b = fv(c['a']), fv(c['b'])
    v = sub(b, a)
    if n2(v) == 0 or Point(c['a']).is_close(c['b']):
        return
    sg = LineSegment(form(c['a'], c['f'][0], Point), form(c['b'], c['f'][1], Point))
    rev = LineSegment(c['b'], c['a'])
    x = add(a, mul(F(c['t']), v))
    if c['h']:
        w = fv(c['w'])
        w = sub(w, mul(dot(w, v) / n2(v), v))
        if n2(w) == 0:
            return
        x = add(x, mul(F(c['h'] * norm(v) / norm(w)), w))
    y = c['a'] if c['t'] == 0 and not c['h'] else c['b'] if c['t'] == 1 and not c['h'] else fl(x)
    z = form(y, c['f'][2], Point)
    m = mag(a, b)
    xf = fv(y)
    ctx.nt(sum(t != 0 for t in v) > 1)
    u, w = sub(a, xf), sub(b, xf)
    if not any(u) or not any(w):
        ref = True
        ctx.label('end')
    elif dot(u, w) >= 0:
        if min(norm(u), norm(w)) < 1e-13 * m:
            return
        ref = False
        ctx.label('beyond or wide')
    elif sin2(u, w) > Fraction(3, 10 ** 9):
        if min(norm(u), norm(w)) < 1e-13 * m:
            return
        ref = False
        ctx.label('off')
    elif sin2(u, w) < Fraction(15, 10 ** 10):
        ref = True
        ctx.label('inside')
    else:
        return
    r = boolean(sg.contains_point(z), 'contains_point')
    need(r == ref, f'contains_point is {r} for the point at t={c["t"]}, h={c["h"]}')
    need(boolean(rev.contains_point(y)) == ref, f'contains_point of the reversed segment is {not ref}')


@cases
def two(draw):
    how = draw(sampled(['cross', 'cross', 'cross', 'skew', 'parallel', 'line', 'dims']))
    kind = draw(kinds(['int', 'int', 'med', 'dy']))
    d = draw(sampled([2, 2, 3, 3]))
    if how == 'cross' and d == 2 and draw(booleans()):
        kind = 'fl'
    if how == 'skew':
        d = 3
    u, v = nonzero(draw, d, kind), nonzero(draw, d, kind)
    if how in ('parallel', 'line'):
        v = scaled(u, draw(sampled([1, -1, 2, -3])))
    x = shifted(vec(draw, d, kind), offset(draw, d))
    s, t = draw(sampled(INSIDE + ENDS * 3 + BEYOND)), draw(sampled(INSIDE + ENDS * 3 + BEYOND))
    k, l = draw(sampled([1, 128, 128, 1024])), draw(sampled([1, 128, 128]))
    u, v = scaled(u, k), scaled(v, l)
    a = [p - s * q for p, q in zip(x, u)]
    e = [p - t * q for p, q in zip(x, v)]
    if how in ('skew', 'parallel'):
        e = shifted(e, scaled(vec(draw, d, kind), draw(sampled([1, 1, l]))))
    b, f = shifted(a, u), shifted(e, v)
    z = draw(sampled(UNITS2))
    a, b, e, f = scaled(a, z), scaled(b, z), scaled(e, z), scaled(f, z)
    if how == 'dims':
        i = 5 - d
        e, f = vec(draw, i, kind), nonzero(draw, i, kind)
    return dict(a=a, b=b, e=e, f=f, how=how, s=s, t=t, kind=kind, forms=[draw(forms) for _ in range(4)])


@facet('C11', 'intersect', two, quick=5000, rule='segments whose lines cross',
       pinned=[dict(a=[0, 0], b=[2, 2], e=[0, 2], f=[2, 0], how='cross', s=0.5, t=0.5, kind='int', forms=['list'] * 4),
               dict(a=[0, 0], b=[2, 2], e=[2, 2], f=[5, 0], how='cross', s=1, t=0, kind='int', forms=['list'] * 4),
               dict(a=[0, 0], b=[3, 7], e=[3, 7], f=[11, 2], how='cross', s=1, t=0, kind='int', forms=['list'] * 4)])
def intersect(c, ctx):
    a, b, e, f = map(fv, (c['a'], c['b'], c['e'], c['f']))
    try:
        s1 = LineSegment(form(c['a'], c['forms'][0], Point), form(c['b'], c['forms'][1], Point))
        s2 = LineSegment(form(c['e'], c['forms'][2], Point), form(c['f'], c['forms'][3], Point))
    except ValueError:
        return                        # endpoints too close together for math.isclose
    how = c['how']
    for x in (s1, s2):
        for y in (x, LineSegment(x.point_b, x.point_a)):
            rejects(lambda: x.intersect_line_segment(y), 'intersect_line_segment of a segment with itself')
    if len(a) != len(e):
        rejects(lambda: s1.intersect_line_segment(s2), 'intersect_line_segment in different dimensions')
        return
    pairs = [(s1, s2), (s2, s1), (LineSegment(c['b'], c['a']), s2), (s1, LineSegment(c['f'], c['e']))]
    u, v, w = sub(b, a), sub(f, e), sub(e, a)
    g = sin2(u, v)
    ctx.label(how, f'dim{len(a)}')
    if g == 0:
        for x, y in pairs:
            rejects(lambda: x.intersect_line_segment(y), 'intersect_line_segment of parallel segments')
        return
    if g < Fraction(1, 10 ** 6):
        return
    exact = c['kind'] != 'fl'
    if rank([u, v, w]) > 2:
        if exact:
            for x, y in pairs:
                rejects(lambda: x.intersect_line_segment(y), 'intersect_line_segment of skew segments')
        return
    ctx.nt()
    det = n2(u) * n2(v) - dot(u, v) ** 2
    s = (dot(w, u) * n2(v) - dot(w, v) * dot(u, v)) / det
    t = -(dot(w, v) * n2(u) - dot(w, u) * dot(u, v)) / det
    m = mag(a, b, e, f)
    eps = 1e-12 * m / min(norm(u), norm(v)) / float(g) + 1e-13
    if eps > 1e-8:
        return
    state = []
    for q in (s, t):
        if q == 0 or q == 1 or (not exact and min(abs(q), abs(q - 1)) < eps):
            state.append('end')
        elif eps < q < 1 - eps:
            state.append('in')
        elif q < -max(eps, 1e-8) or q > 1 + max(eps, 1e-8):
            state.append('out')
        else:
            return
    ctx.label('-'.join(sorted(state)))
    ref = add(a, mul(s, u))
    if 'out' in state:
        for x, y in pairs:
            rejects(lambda: x.intersect_line_segment(y), f'intersect_line_segment of segments that do not meet ({state})')
        return
    for x, y in pairs:
        try:
            r = x.intersect_line_segment(y)
        except ValueError as err:
            raise Violation(f'intersect_line_segment refused segments that meet ({state}): {err}') from None
        near_vec(isa(r, Point, 'intersect_line_segment'), ref, 1e-13 * m / float(g), 'intersect_line_segment')
