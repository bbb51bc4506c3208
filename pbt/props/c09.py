"""C09: side_point."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


@cases
def line2(draw):
    d, e = draw(sampled([2] * 12 + [1, 3, 4])), draw(sampled([2] * 12 + [1, 3]))
    kind = draw(kinds(['int', 'int', 'med', 'big', 'dy', 'fl', 'dec']))
    p = vec(draw, d, kind)
    v = nonzero(draw, d, kind)
    x = vec(draw, e, kind)
    how = 'any'
    if d == e == 2 and kind in ('int', 'med', 'dy'):
        how = draw(sampled(['any', 'on', 'on', 'by']))
        k = draw(integers(-20, 20))
        if how != 'any':
            x = [a + k * b for a, b in zip(p, v)]
        if how == 'by':
            x[draw(integers(0, 1))] += draw(sampled([1, -1]))
    elif d == e == 2:
        how = draw(sampled(['any', 'near']))
        if how == 'near':
            t, h = draw(sampled([0, 1, -3, 100])), draw(sampled([1e-3, -1e-3, 1e-6, -1e-6, 1e-9, -1e-9]))
            x = [p[0] + t * v[0] - h * v[1], p[1] + t * v[1] + h * v[0]]
    if d == e:
        o = offset(draw, d)
        p, x = shifted(p, o), shifted(x, o)
    if d == e == 2 and kind in ('int', 'med', 'dy') and draw(integers(0, 3)) == 0:
        # an object far away with a small vector; the coordinates stay exact
        o = [2.0 ** draw(integers(20, 44)) * draw(sampled([1, -1, 3])), 2.0 ** draw(integers(20, 44)) * draw(sampled([1, -1, 0]))]
        p, x, v = shifted(p, o), shifted(x, o), scaled(v, draw(sampled([1, 0.5, 2.0 ** -10, 2.0 ** -20])))
    z = draw(sampled(UNITS2 + [2.0 ** -200, 2.0 ** 200]))
    p, v, x = scaled(p, z), scaled(v, z), scaled(x, z)
    return dict(p=p, v=scaled(v, draw(sampled([1, 1, 0.5, 2.0 ** 10, 2.0 ** -10]))), x=x, kind=kind, how=how, f=[draw(pixels), draw(pixels), draw(query)],
                k=draw(sampled([1, 2, 0.5, 8])), t=draw(integers(-5, 5)))


@facet('C09', 'line', line2, quick=4000, rule='2D line not axis-aligned',
       pinned=[dict(p=[0, 0], v=[0, 1], x=[x, 3], kind='int', how='any', f=['list'] * 3, k=2, t=1) for x in (1, -1, 0)])
def line(c, ctx):
    p, v, x = fv(c['p']), fv(c['v']), fv(c['x'])
    ln = Line(form(c['p'], c['f'][0], Point), form(c['v'], c['f'][1], Vector))
    y = form(c['x'], c['f'][2], Point)
    if len(p) != 2 or len(x) != 2:
        if len(p) == 2 and len(x) == 1 or len(p) == 1 and len(x) == 2:
            pass                       # NumPy broadcasts these
        else:
            ctx.label('not 2D')
            rejects(lambda: ln.side_point(y), f'side_point for a {len(p)}D line and a {len(x)}D point')
        return
    w = sub(x, p)
    det = v[0] * w[1] - v[1] * w[0]
    exact = c['kind'] in ('int', 'med', 'dy', 'big')
    if not exact and abs(det) <= F(4e-15 * norm(v) * mag(x, p)):
        return
    ref = -1 if det > 0 else 1 if det < 0 else 0
    ctx.label(f'side {ref}', c['how'])
    ctx.nt(v[0] != 0 and v[1] != 0)
    s = integer(ln.side_point(y), 'side_point')
    need(s == ref, 'side_point is', s, 'expected', ref)
    need(Line(c['p'], [-t for t in c['v']]).side_point(y) == -ref, 'reversing the direction does not flip the side')
    need(Line(c['p'], [c['k'] * t for t in c['v']]).side_point(c['x']) == ref, 'scaling the direction changes the side')
    if exact:
        q = [a + c['t'] * b for a, b in zip(c['p'], c['v'])]
        if all(F(b) == F(a) + c['t'] * F(e) for a, b, e in zip(c['p'], q, c['v'])):
            need(Line(q, c['v']).side_point(y) == ref, 'moving the base point along the line changes the side')


@cases
def plane3(draw):
    d = draw(sampled([3, 3, 3, 3, 2, 1, 4, 5]))
    kind = draw(kinds(['int', 'int', 'med', 'big', 'dy', 'fl', 'dec']))
    p, n, x = vec(draw, d, kind), nonzero(draw, d, kind), vec(draw, d, kind)
    how = draw(sampled(['any', 'on', 'on', 'by']))
    r = [0] * d
    if d > 1:
        for _ in range(2):
            i, j = draw(sampled([(i, j) for i in range(d) for j in range(d) if i != j]))
            k = draw(integers(-3, 3))
            r[i] += k * n[j]
            r[j] -= k * n[i]
    if how != 'any':
        x = shifted(p, r)
        if how == 'by':
            i = draw(integers(0, d - 1))
            x[i] += draw(sampled([1, -1])) if kind in ('int', 'med', 'big', 'dy') else draw(sampled([1e-3, -1e-3, 1e-6, -1e-6, 1e-10]))
    o = offset(draw, d)
    if kind in ('int', 'med', 'dy') and draw(integers(0, 3)) == 0:
        o = [2.0 ** draw(integers(20, 44)) * draw(sampled([1, -1, 3, 0])) for _ in range(d)]
    if kind in ('int', 'med') and d > 1 and draw(integers(0, 5)) == 0:
        # a point far away within the plane, and near it; every product and sum is exact
        i = draw(integers(0, d - 1))
        n = [1 if j == i else 0 for j in range(d)]
        n[i] = draw(sampled([1, -1, 2, 64]))
        x = [2 ** draw(integers(20, 60)) * draw(sampled([1, -1])) + y if j != i else y for j, y in enumerate(p)]
        p = [y if j == i or draw(booleans()) else z for j, (y, z) in enumerate(zip(p, x))]
        x[i] += draw(sampled([0, 1, -1, 5]))
        o, r, how, kind = [0] * d, [0] * d, 'along', 'int'
    z = draw(sampled(UNITS2 + [2.0 ** -200, 2.0 ** 200]))
    p, x, r, o = scaled(p, z), scaled(x, z), scaled(r, z), scaled(o, z)
    return dict(p=shifted(p, o), n=scaled(n, draw(sampled([1, 1, 0.5, 2.0 ** 10, 2.0 ** -10]))), x=shifted(x, o), r=r, kind=kind, how=how,
                f=[draw(pixels), draw(pixels), draw(query)], k=draw(sampled([1, 2, 0.5, 8])))


@facet('C09', 'plane', plane3, quick=4000, rule='normal not axis-aligned',
       pinned=[dict(p=[0, 0, 0], n=[0, 0, 1], x=[5, 6, z], r=[0, 0, 0], kind='int', how='any', f=['list'] * 3, k=2) for z in (1, -1, 0)])
def plane(c, ctx):
    p, n, x = fv(c['p']), fv(c['n']), fv(c['x'])
    pl = Plane(form(c['p'], c['f'][0], Point), form(c['n'], c['f'][1], Vector))
    y = form(c['x'], c['f'][2], Point)
    q = dot(sub(x, p), n)
    exact = c['kind'] in ('int', 'med', 'dy', 'big')
    if not exact and abs(q) <= F(4e-15 * norm(n) * mag(x, p) * len(p)):
        return
    ref = 1 if q > 0 else -1 if q < 0 else 0
    ctx.label(f'side {ref}', c['how'], f'dim{len(p)}')
    ctx.nt(sum(t != 0 for t in n) > 1)
    s = integer(pl.side_point(y), 'side_point')
    need(s == ref, 'side_point is', s, 'expected', ref)
    need(Plane(c['p'], [-t for t in c['n']]).side_point(y) == -ref, 'reversing the normal does not flip the side')
    need(Plane(c['p'], [c['k'] * t for t in c['n']]).side_point(c['x']) == ref, 'scaling the normal changes the side')
    if exact:
        if all(F(b) == F(a) + F(e) for a, b, e in zip(c['p'], shifted(c['p'], c['r']), c['r'])):
            need(Plane(shifted(c['p'], c['r']), c['n']).side_point(y) == ref, 'moving the base point in the plane changes the side')
