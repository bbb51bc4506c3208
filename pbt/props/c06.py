"""C06: zero, parallel, perpendicular, side, cross product, different direction."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *
from .c05 import BIG, perp


@cases
def pair(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4, 6]))
    rel = draw(sampled(['random', 'random', 'parallel', 'parallel', 'anti', 'perp', 'perp', 'near', 'nearperp', 'zero', 'axes']))
    kind = draw(kinds(EXACT if rel in ('perp', 'axes') else ALL))
    a = nonzero(draw, d, kind)
    if rel == 'random':
        b = nonzero(draw, d, draw(kinds()))
    elif rel in ('parallel', 'anti'):
        k = draw(sampled([1, 2, 3, 0.5, 7, 1e-3, 0.1, 1e4, 1e-9]))
        b = scaled(a, k if rel == 'parallel' else -k)
    elif rel == 'perp':
        b = perp(draw, a, kind)
    elif rel == 'near':
        e = draw(sampled([1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-11]))
        s = draw(sampled([1, -1]))
        b = [s * x + e * y for x, y in zip(a, vec(draw, d, 'fl'))]
    elif rel == 'nearperp':
        e = draw(sampled([1e-1, 1e-3, 1e-6, 1e-8]))
        b = [x + e * y for x, y in zip(perp(draw, a, kind), vec(draw, d, 'fl'))]
    elif rel == 'axes':
        i, j = draw(integers(0, d - 1)), draw(integers(0, d - 1))
        a, b = [0] * d, [0] * d
        a[i], b[j] = draw(sampled([1, -1, 3])), draw(sampled([1, -1, -5]))
    else:
        b = [draw(sampled([0, 0.0, -0.0]))] * d
    s, t = draw(sampled(BIG)), draw(sampled(BIG))
    if draw(integers(0, 19)) == 0:                    # squares just within the floating range
        s, t = draw(sampled([(2.0 ** -500, 2.0 ** -8), (2.0 ** -500, 2.0 ** -500), (2.0 ** 490, 1), (2.0 ** 490, 2.0 ** 490)]))
        if any(0 < abs(x) * k < 1e-151 for v, k in ((a, s), (b, t)) for x in v):
            s = t = 1.0
    a, b = scaled(a, s), scaled(b, t)
    if draw(booleans()):
        a, b = b, a
    return dict(a=a, b=b, rel=rel, form=draw(pixels))


@facet('C06', 'relations', pair, quick=6000, rule='non-zero, and not a multiple of an axis',
       pinned=[dict(a=[0, 0], b=[1, 1], rel='zero', form='list'), dict(a=[1, 1], b=[-1, -1], rel='anti', form='list'),
               dict(a=[1, 0], b=[0, 1], rel='perp', form='list'), dict(a=[1.0], b=[-3.0], rel='anti', form='list')])
def relations(c, ctx):
    a, b = fv(c['a']), fv(c['b'])
    x, y = Vector(c['a']), form(c['b'], c['form'], Vector)
    z = Vector(c['b'])
    ctx.label(c['rel'], f'dim{len(a)}')
    ctx.nt(sum(t != 0 for t in a) > 1 and n2(b) != 0)
    for v, w in ((x, a), (z, b)):
        q = boolean(v.is_zero(), 'is_zero')
        need(q == (n2(w) == 0), 'is_zero is', q, 'for', v)
    par, perp_ = boolean(x.is_parallel(y), 'is_parallel'), boolean(x.is_perpendicular(y), 'is_perpendicular')
    if n2(a) == 0 or n2(b) == 0:
        need(par and perp_, 'zero vector is not parallel and perpendicular to', c['a'], c['b'])
        need(z.is_parallel(x) and z.is_perpendicular(x), 'zero vector is not parallel and perpendicular (swapped)')
        return
    dt, g = dot(a, b), sin2(a, b)
    cos2 = dt * dt / (n2(a) * n2(b))
    neg = Vector([-t for t in c['a']])
    both = [('swapped', z, x), ('with a sign change', neg, y), ('with itself doubled', Vector([2 * t for t in c['a']]), y)]
    if dt == 0 and dot_is_exact(a, b):
        need(perp_, 'perpendicular vectors are not perpendicular', c['a'], c['b'])
    elif cos2 > Fraction(1, 10 ** 24):
        need(not perp_, 'is_perpendicular of vectors with cosine', math.sqrt(cos2), c['a'], c['b'])
    else:
        both = []
    for what, u, v in both:
        need(boolean(u.is_perpendicular(v)) == perp_, f'is_perpendicular changes when {what}', c['a'], c['b'])
    if g < Fraction(1, 10 ** 9):
        need(par, 'is_parallel is False for vectors with sine', math.sqrt(g), c['a'], c['b'])
    elif g > Fraction(4, 10 ** 9):
        need(not par, 'is_parallel is True for vectors with sine', math.sqrt(g), c['a'], c['b'])
    else:
        return
    for what, u, v in (('swapped', z, x), ('with a sign change', neg, y), ('with itself doubled', Vector([2 * t for t in c['a']]), y)):
        need(boolean(u.is_parallel(v)) == par, f'is_parallel changes when {what}', c['a'], c['b'])


@cases
def crosses(draw):
    d, e = draw(sampled([1, 2, 3, 3, 3, 3])), draw(sampled([1, 2, 3, 3, 3, 3]))
    over = draw(integers(0, 14))
    if over == 0:
        d = draw(sampled([4, 5]))
    elif over == 1:
        e = draw(sampled([4, 5]))
    kind = draw(kinds(['int', 'med', 'big', 'dy', 'dec', 'fl']))
    a, b = vec(draw, d, kind), vec(draw, e, kind)
    if draw(integers(0, 5)) == 0 and d == e:
        b = scaled(a, draw(sampled([2, -1, -3])))
        if draw(booleans()):                              # almost parallel
            i, e = draw(integers(0, d - 1)), 2.0 ** -draw(integers(10, 50))
            b, kind = [x + e * (mag(a) or 1) * (j == i) for j, x in enumerate(b)], 'fl'
    return dict(a=a, b=b, kind=kind, form=draw(pixels), s=draw(sampled([1, 1, 1, 1e-6, 1e6, 1024.0])))


@facet('C06', 'cross', crosses, quick=3000, rule='cross product with all components non-zero, or mixed dimensions')
def cross_check(c, ctx):
    a, b = scaled(c['a'], c['s']), c['b']
    x, y = Vector(a), form(b, c['form'], Vector)
    ctx.label(f'{len(a)}x{len(b)}', c['kind'])
    if len(a) > 3 or len(b) > 3:
        rejects(lambda: x.cross(y), 'cross over 3D')
        rejects(lambda: Vector(b).cross(x), 'cross over 3D')
        return
    u, v = fv(a), fv(b)
    w = cross(u, v)
    ctx.nt(all(w) or len(a) != len(b))
    r = isa(x.cross(y), Vector, 'cross')
    need(r.dimension == 3, 'cross is not 3D', r)
    ex = c['kind'] in ('int', 'med', 'big', 'dy') and c['s'] in (1, 1024.0)
    tol = 0 if ex else 4e-16 * norm(u) * norm(v)
    near_vec(r, w, tol, 'cross')
    near_vec(Vector(b).cross(a), [-t for t in w], tol, 'cross with the vectors swapped')
    if ex and all(isinstance(t, int) for t in a + list(b)):
        need(r.dtype.kind == 'i', 'cross of integer vectors has dtype', r.dtype)
    near(float(dot(fv(arr(r)), pad(u))), 0, 1e-15 * norm(u) ** 2 * norm(v), 'cross . a')
    near(float(dot(fv(arr(r)), pad(v))), 0, 1e-15 * norm(u) * norm(v) ** 2, 'cross . b')
    near(r.norm(), sqrt(gram2(pad(u), pad(v))), 1e-13 * norm(u) * norm(v), 'length of cross')


@cases
def sides(draw):
    d = draw(sampled([2] * 9 + [1, 3, 4]))
    e = draw(sampled([2] * 9 + [1, 3]))
    kind = draw(kinds(['int', 'med', 'big', 'dy', 'fl']))
    a, b = vec(draw, d, kind), vec(draw, e, kind)
    if draw(integers(0, 3)) == 0 and d == e and kind != 'fl':
        b = scaled(a, draw(sampled([2, -1, -3, 0, 1])))
    elif kind == 'fl' and d == e == 2 and draw(booleans()):       # almost parallel
        t, h = draw(sampled([1, 2, -1, -3, 0.5])), 2.0 ** -draw(integers(8, 45)) * draw(sampled([1, -1]))
        b = [t * a[0] - h * a[1], t * a[1] + h * a[0]]
    elif draw(integers(0, 4)) == 0 and d == e == 2:
        k = draw(integers(-5, 5))
        b = [k * a[0] + draw(sampled([0, 0, 1, -1])), k * a[1] + draw(sampled([0, 1, -1]))]
    return dict(a=a, b=b, kind=kind, form=draw(pixels), s=draw(sampled([1, 1, 1, 1, 0.5, 2.0 ** 30, 2.0 ** -30, 2.0 ** -490])), t=draw(sampled([1, 1, 1, 2.0 ** 40, 2.0 ** -40, 2.0 ** -490])))


@facet('C06', 'side_vector', sides, quick=3000, rule='2D, not axis-aligned',
       pinned=[dict(a=[0, 1], b=[1, 0], kind='int', form='list', s=1, t=1), dict(a=[0, 1], b=[-1, 0], kind='int', form='list', s=1, t=1),
               dict(a=[1, 2], b=[-2, -4], kind='int', form='list', s=1, t=1)])
def side_vector(c, ctx):
    a, b = scaled(c['a'], c['s']), scaled(c['b'], c['t'])
    x, y = Vector(a), form(b, c['form'], Vector)
    if len(a) != 2 or len(b) != 2:
        ctx.label('not 2D')
        rejects(lambda: x.side_vector(y), f'side_vector for {len(a)}D and {len(b)}D')
        return
    u, v = fv(a), fv(b)
    det = u[0] * v[1] - u[1] * v[0]
    if c['kind'] == 'fl' and abs(det) <= F(1e-14 * norm(u) * norm(v)):
        return
    ref = -1 if det > 0 else 1 if det < 0 else 0
    ctx.label(f'side {ref}')
    ctx.nt(sum(t != 0 for t in u) == 2)
    need(integer(x.side_vector(y), 'side_vector') == ref, 'side_vector is', x.side_vector(y), 'expected', ref)
    need(Vector(b).side_vector(x) == -ref, 'side_vector is not antisymmetric')
    need(x.side_vector([-t for t in b]) == -ref and Vector([-t for t in a]).side_vector(y) == -ref, 'a sign change does not flip the side')
    need(Vector([4 * t for t in a]).side_vector([0.25 * t for t in b]) == ref, 'scaling changes the side')


@cases
def one(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 4, 5, 9]))
    v = vec(draw, d, draw(kinds()))
    m = draw(integers(0, 6))
    if m == 0:
        v = [0 * x for x in v]
    elif m in (1, 2, 3):
        s = draw(sampled([1, -1, 2.5, -1e3]))
        e = draw(sampled([0, 0, 1e-2, 1e-3, 1e-4, 1e-6, 1e-12]))
        i = draw(integers(0, 2 if d > 2 else d - 1))
        v = [s * (1.0 if j == i else e * x) for j, x in enumerate(v)]
    return dict(v=scaled(v, draw(sampled(BIG))), form=draw(pixels))


@facet('C06', 'different_direction', one, quick=2500, rule='near the first axis, or at least two non-zero coordinates',
       pinned=[dict(v=[1], form='list'), dict(v=[-2.5], form='list'), dict(v=[0, 0], form='list'), dict(v=[1, 0, 0], form='list'),
               dict(v=[-1e-5, 0, 0], form='list'), dict(v=[0, 1, 0], form='list')])
def different_direction(c, ctx):
    v = fv(c['v'])
    x = Vector(form(c['v'], c['form'], Vector))
    if n2(v) == 0:
        rejects(x.different_direction, 'different_direction of the zero vector')
        return
    d = isa(x.different_direction(), Vector, 'different_direction')
    w = fv(arr(d, (len(v),)))
    need(n2(w) > 0, 'different_direction is zero for', c['v'])
    ctx.label(f'dim{len(v)}')
    if len(v) == 1:
        need(w[0] * v[0] < 0, 'different_direction in 1D is not the opposite direction', c['v'], d)
        return
    ctx.nt(n2(v) != 0)
    need(sin2(v, w) > Fraction(1, 10 ** 9), 'different_direction is parallel to', c['v'], d)
    need(not x.is_parallel(d), 'different_direction is parallel to the vector', c['v'], d)
