"""C05: norms, unit vectors, cosines and angles."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *

BIG = [1] * 6 + [1e-6, 1e6, 2.0 ** 40, 2.0 ** -40, 1e50, 1e-50, 1e120, 1e-120]


@cases
def single(draw):
    d = draw(sampled([1, 2, 3, 3, 4, 5, 8, 30, 300]))
    kind = draw(kinds())
    if d > 10:
        v = [x * (i % 7 - 3) for i, x in enumerate(nonzero(draw, 7, kind) * (d // 7 + 1))][:d]
    else:
        v = vec(draw, d, kind)
    dt = draw(sampled([None] * 6 + ['i1', 'u1', 'i2', 'u2', 'i4', 'u4']))
    if dt:
        lo, hi = dict(i1=(-128, 127), u1=(0, 255), i2=(-2 ** 15, 2 ** 15 - 1), u2=(0, 2 ** 16 - 1), i4=(-2 ** 31, 2 ** 31 - 1), u4=(0, 2 ** 32 - 1))[dt]
        v = draw(lists(integers(lo, hi), min_size=d, max_size=d)) if d < 10 else [t % (hi + 1) for t in range(17, 17 + 19 * d, 19)]
    return dict(v=v if dt else scaled(v, draw(sampled(BIG))), form='list' if dt else draw(pixels), ord=2 if dt else draw(sampled([1, 2, 'inf', '-inf', 3, 0])), dt=dt)


@facet('C05', 'norm_unit', single, quick=3000, rule='vector with at least two non-zero coordinates',
       pinned=[dict(v=[3, 4], form='list', ord=1), dict(v=[0, 0], form='list', ord=2), dict(v=[-0.0], form='array', ord=2),
               dict(v=[1e-120, 0], form='list', ord=2), dict(v=[-5], form='list', ord=1)])
def norm_unit(c, ctx):
    v = fv(c['v'])
    x = Vector(np.array(c['v'], dtype=c['dt']) if c.get('dt') else form(c['v'], c['form'], Vector))
    n = norm(v)
    ctx.nt(sum(a != 0 for a in v) > 1)
    ctx.label('zero' if n == 0 else 'nonzero', f'dim{len(v)}', c['form'])
    near(x.norm(), n, 1e-13 * n, 'norm')
    near(x.norm(ord=2), n, 1e-13 * n, 'norm(ord=2)')
    a = [abs(t) for t in v]
    o = c['ord']
    if mag(v) < 1e90 and (n == 0 or n > 1e-90):
        ref = {1: lambda: float(sum(a)), 2: lambda: n, 'inf': lambda: float(max(a)), '-inf': lambda: float(min(a)),
               3: lambda: float(sum(t ** 3 for t in a)) ** (1 / 3), 0: lambda: float(sum(t != 0 for t in a))}[o]()
        near(x.norm(ord=float(o) if isinstance(o, str) else o), ref, 1e-12 * ref, f'norm(ord={o})')
    if n == 0:
        rejects(x.unit, 'unit of the zero vector')
        return
    u = isa(x.unit(), Vector, 'unit')
    near_vec(u, [float(t) / n for t in v], 1e-13, 'unit')
    near(norm(fv(u)), 1, 1e-13, 'length of the unit vector')
    near_vec(u.unit(), arr(u), 1e-13, 'unit of unit')


def perp(draw, v, kind):
    """A vector exactly orthogonal to v (for coordinates with exact products)."""
    d = len(v)
    if d == 1:
        return [0]
    i = draw(integers(0, d - 1))
    j = draw(integers(0, d - 2))
    j += j >= i
    w = [0 * t for t in v]
    w[i], w[j] = v[j], -v[i]
    if d == 3 and draw(booleans()):
        r = vec(draw, 3, 'int')
        w = [v[1] * r[2] - v[2] * r[1], v[2] * r[0] - v[0] * r[2], v[0] * r[1] - v[1] * r[0]]
    return w


@cases
def pair(draw, dims=(1, 2, 2, 3, 3, 3, 4, 6)):
    d = draw(sampled(list(dims)))
    rel = draw(sampled(['random', 'random', 'random', 'parallel', 'anti', 'perp', 'near', 'zero']))
    kind = draw(kinds(EXACT if rel == 'perp' else ALL))
    a = nonzero(draw, d, kind)
    if rel == 'random':
        b = nonzero(draw, d, draw(kinds()))
    elif rel in ('parallel', 'anti'):
        k = draw(sampled([1, 2, 3, 0.5, 7, 1e-3, 0.1]))
        b = scaled(a, k if rel == 'parallel' else -k)
    elif rel == 'perp':
        b = perp(draw, a, kind)
    elif rel == 'near':
        e = draw(sampled([1e-2, 1e-3, 1e-5, 1e-7, 1e-9]))
        s = draw(sampled([1, -1]))
        b = [s * x + e * y for x, y in zip(a, vec(draw, d, 'fl'))]
    else:
        b = [0 * x for x in a]
    s = draw(sampled(BIG))
    t = draw(sampled(BIG))
    if s not in (1,) or t not in (1,):
        a, b = scaled(a, s), scaled(b, t)
    if draw(booleans()):
        a, b = b, a
    return dict(a=a, b=b, rel=rel, form=draw(pixels))


def angle_tol(th):
    """Error of arccos of a cosine with a relative error of 1e-14."""
    s = math.sin(th)
    return min(3e-7, 1e-13 / s if s > 0 else 1) + 1e-13


@facet('C05', 'cosine_angle', pair, quick=4000, rule='non-zero vectors, neither equal nor axis-parallel',
       pinned=[dict(a=[1, 0], b=[-1, 0], rel='anti', form='list'), dict(a=[0.1, 0.1, 0.1], b=[0.7, 0.7, 0.7], rel='parallel', form='list'),
               dict(a=[1, 2, 3], b=[0, 0, 0], rel='zero', form='list'), dict(a=[3.3], b=[-7.1], rel='anti', form='array')])
def cosine_angle(c, ctx):
    a, b = fv(c['a']), fv(c['b'])
    x, y = Vector(c['a']), form(c['b'], c['form'], Vector)
    ctx.label(c['rel'], f'dim{len(a)}')
    if n2(a) == 0 or n2(b) == 0:
        rejects(lambda: x.cosine_similarity(y), 'cosine similarity with a zero vector')
        rejects(lambda: x.angle_between(y), 'angle with a zero vector')
        if n2(a) == 0:
            rejects(lambda: x.scalar_projection(y), 'scalar projection onto the zero vector')
        return
    ctx.nt(c['rel'] not in ('zero',) and a != b and sum(t != 0 for t in a) > 1)
    ref = dot(a, b) / 1
    ref = float(Fraction(ref) / (F(norm(a)) * F(norm(b))))
    cs = near(x.cosine_similarity(y), ref, 1e-13, 'cosine_similarity')
    need(-1 <= cs <= 1, 'cosine_similarity out of [-1, 1]:', cs)
    near(Vector(c['b']).cosine_similarity(c['a']), cs, 1e-13, 'cosine_similarity with the vectors swapped')
    th = angle(a, b) if 1e-60 < norm(a) < 1e60 and 1e-60 < norm(b) < 1e60 else math.acos(max(-1, min(1, ref)))
    t = num(x.angle_between(y), 'angle_between')
    need(0 <= t <= math.pi, 'angle_between out of [0, pi]:', t)
    near(t, th, angle_tol(th), 'angle_between')
    near(Vector(c['b']).angle_between(x), t, 2 * angle_tol(th), 'angle_between with the vectors swapped')
    near(math.cos(t), cs, 1e-13, 'cos of angle_between')


@cases
def pair2(draw):
    c = draw(pair)
    k = draw(integers(0, 11))
    if k < 10 or len(c['a']) == 2:
        c['a'] = (list(c['a']) * 2)[:2]
        c['b'] = (list(c['b']) * 2)[:2]
        m = draw(integers(0, 5))
        if m == 0:
            c['b'] = [-c['a'][1], c['a'][0]]
        elif m == 1:
            c['b'] = [c['a'][1], -c['a'][0]]
    return c


def mod2pi(x):
    return abs((x + math.pi) % (2 * math.pi) - math.pi)


@facet('C05', 'angle_signed', pair2, quick=3000, rule='2D, non-zero and not parallel',
       pinned=[dict(a=[1, 0], b=[-1, 0], rel='anti', form='list'), dict(a=[1, 0], b=[0, -1], rel='perp', form='list'),
               dict(a=[1, 0, 0], b=[0, -1, 1], rel='perp', form='list'), dict(a=[1, 0], b=[0, -1, 1], rel='perp', form='list')])
def angle_signed(c, ctx):
    x, y = Vector(c['a']), form(c['b'], c['form'], Vector)
    a, b = fv(c['a']), fv(c['b'])
    if len(a) != 2 or len(b) != 2:
        ctx.label('not 2D')
        rejects(lambda: x.angle_signed(y), 'angle_signed for vectors that are not 2D')
        return
    if n2(a) == 0 or n2(b) == 0:
        return
    na, nb = norm(a), norm(b)
    det, dt = a[0] * b[1] - a[1] * b[0], dot(a, b)
    s, q = float(det / (F(na) * F(nb))), float(dt / (F(na) * F(nb)))
    th = math.atan2(s, q)
    ctx.nt(det != 0)
    ctx.label('ccw' if det > 0 else 'cw' if det < 0 else 'straight', 'obtuse' if dt < 0 else 'acute')
    if not (1e-130 < na * nb < 1e130):
        return
    t = num(x.angle_signed(y), 'angle_signed')
    need(-math.pi <= t <= math.pi, 'angle_signed out of range:', t)
    need(mod2pi(t - th) <= 1e-12, 'angle_signed', t, 'expected', th)
    u = num(Vector(c['b']).angle_signed(c['a']), 'angle_signed')
    need(mod2pi(t + u) <= 1e-12, 'angle_signed is not antisymmetric:', t, u)
    near(abs(t), angle(a, b) if na < 1e60 and nb < 1e60 and na > 1e-60 and nb > 1e-60 else abs(th), 1e-12, '|angle_signed|')


@cases
def triple3(draw):
    kind = draw(kinds())
    how = draw(sampled(['normal', 'normal', 'normal', 'near', 'near', 'tilted', 'parallel', 'dim', 'inplane', 'zerodir']))
    if how == 'parallel':
        kind = draw(kinds(['int', 'med']))
    a = nonzero(draw, 3, kind)
    b = nonzero(draw, 3, draw(kinds()) if how != 'parallel' else kind)
    if how == 'parallel':
        b = scaled(a, draw(sampled([1, 2, -1, -3])))
    elif how == 'near':
        e, k = draw(sampled([1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7])), draw(sampled([1, -1]))
        b = [k * (x + e * y) for x, y in zip(a, b)]
    s, t = draw(sampled(DIRSCALES)), draw(sampled(DIRSCALES))
    if how != 'parallel':
        a, b = scaled(a, s), scaled(b, t)
    return dict(a=a, b=b, how=how, k=draw(sampled([1, -1, 2, -0.5, 1e-3, -1e3, 7, 1e-6, 1e6])), w=vec(draw, 3, 'fl'),
                drop=draw(integers(0, 2)), form=draw(pixels), form2=draw(pixels))


@facet('C05', 'angle_signed_3d', triple3, quick=3000, rule='vectors not parallel and direction perpendicular to both',
       pinned=[dict(a=[1, 0, 0], b=[-1, 0, 0], how='parallel', k=1, w=[0, 0, 1.0], drop=0, form='list', form2='list')])
def angle_signed_3d(c, ctx):
    a, b = fv(c['a']), fv(c['b'])
    x = Vector(c['a'])
    how = c['how']
    ctx.label(how)
    if how == 'dim':
        vs = [c['a'], c['b'], fl(cross(a, b))]
        vs[c['drop']] = vs[c['drop']][:2]
        rejects(lambda: Vector(vs[0]).angle_signed_3d(vs[1], vs[2]), 'angle_signed_3d for vectors that are not 3D')
        return
    g = sin2(a, b)
    if how == 'parallel':
        n = cross(a, fv(c['w']))
        if n2(n) == 0:
            return
        n = fl(mul(F(c['k']), n))
        t = num(x.angle_signed_3d(form(c['b'], c['form'], Vector), n), 'angle_signed_3d')
        near(abs(t), 0 if dot(a, b) > 0 else math.pi, 1e-12, '|angle_signed_3d| of parallel vectors')
        return
    if g < Fraction(1, 10 ** (16 if how == 'near' else 8)):
        return
    n = cross(a, b)
    unit = [float(q / F(norm(n))) for q in n]
    if how == 'zerodir':
        rejects(lambda: x.angle_signed_3d(c['b'], [0, 0, 0]), 'angle_signed_3d with a zero direction')
        return
    if how in ('tilted', 'inplane'):
        e = mul(Fraction(1, 50), fv(c['w'])) if how == 'tilted' else [0, 0, 0]
        w = add(fv(unit), e) if how == 'tilted' else a
        if n2(w) == 0 or sin2(w, n) < Fraction(1, 10 ** 6):
            return
        w = fl(mul(F(c['k']), w))
        rejects(lambda: x.angle_signed_3d(c['b'], w), 'angle_signed_3d with a direction not perpendicular to the vectors')
        return
    ctx.nt()
    w = [c['k'] * q for q in unit]
    if all(float(q) == int(q) and abs(q) < 10 ** 6 for q in n) and c['k'] in (1, -1, 2):
        w = [int(q) * c['k'] for q in n]
    th = angle(a, b) * (1 if c['k'] > 0 else -1)
    y = form(c['b'], c['form'], Vector)
    t = num(x.angle_signed_3d(y, form(w, c['form2'], Vector)), 'angle_signed_3d')
    near(t, th, 1e-11, 'angle_signed_3d')
    near(x.angle_signed_3d(y, [-q for q in w]), -th, 1e-11, 'angle_signed_3d about the opposite direction')
    near(Vector(c['b']).angle_signed_3d(c['a'], w), -th, 1e-11, 'angle_signed_3d with the vectors swapped')
