"""C17: measures and centres of triangles."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


@cases
def tri(draw):
    d = draw(sampled([2, 2, 2, 3, 3, 3, 4]))
    how = draw(sampled(['any', 'any', 'any', 'right', 'iso', 'equi', 'thin', 'obtuse']))
    kind = draw(kinds())
    a = vec(draw, d, kind)
    if how == 'right':
        u = nonzero(draw, d, kind)
        i, j = draw(sampled([(i, j) for i in range(d) for j in range(d) if i != j]))
        w = [0] * d
        w[i], w[j] = u[j], -u[i]
        k = draw(sampled([1, 2, -1, 0.5]))
        pts = [a, shifted(a, u), shifted(a, scaled(w, k))]
    elif how == 'iso':
        u = nonzero(draw, d, kind)
        v = list(u)
        m = draw(integers(0, 2))
        if m == 0:
            v = [-x if i == 0 else x for i, x in enumerate(u)]
        elif m == 1:
            v = u[::-1]
        else:
            v = [u[1], -u[0]] + u[2:]
        pts = [a, shifted(a, u), shifted(a, v)]
    elif how == 'equi' and d >= 3:
        k = draw(integers(1, 50)) * draw(sampled([1, -1]))
        pts = [[x + (k if i == j else 0) for i, x in enumerate(a)] for j in range(3)]
    elif how in ('thin', 'obtuse'):
        u = nonzero(draw, d, kind)
        w = nonzero(draw, d, 'fl')
        e = draw(sampled([1e-1, 1e-2, 1e-3, 3e-4, 1e-4, 1e-5] if how == 'thin' else [0.3, 0.1]))
        t = draw(sampled([0.5, 0.25, 0.9, 0.01, -0.3, 1.5, 0, 1, 0, 1, 1 - 1e-3, 1e-3, 1e-4]))
        pts = [a, shifted(a, u), [x + t * y + e * z for x, y, z in zip(a, u, w)]]
    else:
        pts = [a] + [vec(draw, d, kind) for _ in range(2)]
    pts = [pts[i] for i in draw(st.permutations(range(3)))]
    if how in ('right', 'iso', 'equi'):
        pts[0] = nudge(draw, pts[0])
    o = offset(draw, d)
    s = draw(sampled([1] * 8 + [2.0, 1e3, 1e-3, 1e6, 1e-6, 1e-9, 2.0 ** -30, 2.0 ** -40, 2.0 ** 40]))
    return dict(p=[scaled(shifted(p, o), s) for p in pts], how=how, f=[draw(forms) for _ in range(3)],
                rel=draw(sampled([1e-12, 1e-9, 1e-6, 1e-3, 0.1, 0.5])), abs=draw(sampled([0, 1e-6, 1e-3, 0.1, 1, 10])))


NAMES, SIDES = 'ABC', 'abc'


def setup(c, kmax=1e7):
    P = fm(c['p'])
    u, v, w = sub(P[1], P[0]), sub(P[2], P[0]), sub(P[2], P[1])
    L2 = max(n2(u), n2(v), n2(w))
    g = gram2(u, v)                               # (2 area)^2
    if g == 0 or L2 == 0 or float(L2 * L2 / g) > kmax ** 2 or sqrt(L2) < 1e-8 * mag(*P):
        raise Discard
    T = Triangle(*[form(p, f, Point) for p, f in zip(c['p'], c['f'])])
    return P, T, sqrt(L2), float(L2) / sqrt(g)


PIN = [dict(p=p, how='any', f=['list'] * 3, rel=1e-9, abs=0) for p in (
    [[0, 0], [1, 0], [0, 1]], [[0, 0], [4, 0], [0, 3]], [[0, 0], [1, 0], [1, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[0, 0], [10, 0], [5, 1]], [[1, 2, 3], [4, 5, 7], [-2, 0, 1]], [[0, 0], [1, 0], [10, 1]])]


@facet('C17', 'measures', tri, quick=2500, rule='no right angle at a vertex and sides not axis-aligned', pinned=PIN)
def measures(c, ctx):
    P, T, L, kappa = setup(c)
    d = len(P[0])
    m = mag(*P)
    ctx.label(c['how'], f'dim{d}')
    E = [sub(P[2], P[1]), sub(P[0], P[2]), sub(P[1], P[0])]       # sides a, b, c
    ctx.nt(all(sum(x != 0 for x in e) > 1 for e in E) and all(dot(E[i], E[i - 1]) != 0 for i in range(3)))
    ref = [norm(e) for e in E]
    for i in range(3):
        need(np.array_equal(arr(isa(T.point(NAMES[i]), Point)), np.array(c['p'][i], dtype=float)), f'point({NAMES[i]!r})', T.point(NAMES[i]))
        ln = isa(T.line(SIDES[i]), Line, 'line')
        near_vec(ln.point, P[(i + 1) % 3], 0, f'point of line({SIDES[i]!r})')
        near_vec(ln.direction, E[i], 2 * EPS * mag(E[i]), f'direction of line({SIDES[i]!r})')
        near(T.length(SIDES[i]), ref[i], 1e-14 * ref[i], f'length({SIDES[i]!r})')
    for name, keys in (('length', 'cab'), ('point', 'BA'), ('angle', 'CA'), ('line', 'b'), ('altitude', 'BBA'), ('length', '')):
        got = T.multiple(name, keys)
        need(type(got) is tuple and len(got) == len(keys) and all(same(x, getattr(T, name)(k)) for x, k in zip(got, keys)), f'multiple({name!r}, {keys!r})', got)
    near(T.perimeter(), sum(ref), 1e-13 * sum(ref), 'perimeter')
    total = 0
    ttol = 0
    for i in range(3):
        a, b, e = ref[i], ref[(i + 1) % 3], ref[(i + 2) % 3]
        th = math.pi - angle(E[(i + 1) % 3], E[(i + 2) % 3])
        de = 20 * EPS * (a * a + b * b + e * e) / (2 * b * e)
        t = min(4 * de / max(math.sin(th), 1e-300), 3 * math.sqrt(de)) + 8 * EPS
        x = near(T.angle(NAMES[i]), th, t, f'angle({NAMES[i]!r})')
        need(0 <= x <= math.pi, f'angle({NAMES[i]!r}) is {x!r}')
        total += x
        ttol += t
    near(total, math.pi, ttol, 'sum of the angles')
    ce = mul(Fraction(1, 3), add(add(P[0], P[1]), P[2]))
    near_vec(isa(T.centroid(), Point), ce, 4 * EPS * m, 'centroid')
    if d <= 3:
        n = cross(sub(P[1], P[0]), sub(P[2], P[0]))
        tn = 6 * EPS * mag(E[2]) * mag(E[1])
        near_vec(isa(T.normal(), Vector), n, tn, 'normal')
        near(T.area(), norm(n) / 2, 3 * tn, 'area')


@facet('C17', 'centres', tri, quick=2500, rule='no right angle at a vertex and sides not axis-aligned', pinned=PIN)
def centres(c, ctx):
    P, T, L, kappa = setup(c, 1e5)
    d, m = len(P[0]), mag(*P)
    E = [sub(P[2], P[1]), sub(P[0], P[2]), sub(P[1], P[0])]
    ctx.label(c['how'], f'dim{d}')
    ctx.nt(all(sum(x != 0 for x in e) > 1 for e in E) and all(dot(E[i], E[i - 1]) != 0 for i in range(3)))
    short = min(map(norm, E))
    for i in range(3):
        foot, _ = foot_line(P[(i + 1) % 3], E[i], P[i])
        al = isa(T.altitude(NAMES[i]), Line, 'altitude')
        near_vec(al.point, P[i], 0, f'point of altitude({NAMES[i]!r})')
        t = 30 * EPS * (m + L * L / norm(E[i]))
        near_vec(arr(al.point) + arr(al.direction), foot, t, f'foot of altitude({NAMES[i]!r})')
        h = sub(foot, P[i])
        if norm(h) > 1e-3 * norm(E[i]):
            dd = fv(al.direction)
            need(abs(float(dot(dd, E[i]))) <= 2 * t * norm(E[i]), f'altitude({NAMES[i]!r}) is not perpendicular to the side')
    if d > 3:
        rejects(T.orthocenter, f'orthocenter of a triangle of dimension {d}')
        return
    if min(float(sin2(E[0], E[1])), float(sin2(E[1], E[2])), float(sin2(E[0], E[2]))) < 1e-8:
        return
    ab, ac = pad(sub(P[1], P[0])), pad(sub(P[2], P[0]))
    n = cross(ab, ac)
    O = add(pad(P[0]), mul(1 / (2 * n2(n)), add(mul(n2(ac), cross(n, ab)), mul(n2(ab), cross(ac, n)))))
    H = sub(add(add(pad(P[0]), pad(P[1])), pad(P[2])), mul(2, O))[:d]
    size = L + norm(sub(H, P[0])) + norm(sub(H, P[1]))
    hts = [sqrt(gram2(E[0], E[1])) / norm(e) for e in E]
    t = 200 * EPS * (m + size * (m + L * L / short) / min(hts) * kappa)
    o = isa(T.orthocenter(), Point, 'orthocenter')
    near_vec(o, H, t, 'orthocenter')
    for i in range(3):
        need(abs(float(dot(sub(fv(o), P[i]), E[i]))) <= 4 * t * norm(E[i]), f'the orthocenter is not on altitude {NAMES[i]}')


@facet('C17', 'kinds', tri, quick=2500, rule='right, isosceles or equilateral', pinned=PIN)
def kinds_(c, ctx):
    P, T, L, kappa = setup(c)
    E = [sub(P[2], P[1]), sub(P[0], P[2]), sub(P[1], P[0])]
    ref = sorted(norm(e) for e in E)

    def close(x, y, rel, ab):
        """True / False where math.isclose is clear."""
        gap, lim = abs(x - y), max(rel * max(x, y), ab)
        if gap > 1.0001 * lim + 1e-13 * max(x, y):
            return False
        if gap < 0.9999 * lim - 1e-13 * max(x, y):
            return True
        return None

    for kw in ({}, dict(rel_tol=c['rel']), dict(abs_tol=c['abs']), dict(rel_tol=c['rel'], abs_tol=c['abs'])):
        rel, ab = kw.get('rel_tol', 1e-9), kw.get('abs_tol', 0)
        pairs = [close(x, y, rel, ab) for x, y in ((ref[0], ref[1]), (ref[1], ref[2]), (ref[0], ref[2]))]
        got = T.classify(**kw)
        if None not in pairs:
            want = {0: 'scalene', 3: 'equilateral'}.get(sum(pairs), 'isosceles')
            ctx.label(want)
            ctx.nt(want != 'scalene')
            need(got == want, f'classify({kw}) is {got!r}, the sides are {ref}')
            for q in ((1, 2, 0), (2, 1, 0)):
                need(Triangle(*[c['p'][i] for i in q]).classify(**kw) == want, f'classify({kw}) changes with the order of the vertices')
        x, y = ref[0] ** 2 + ref[1] ** 2, ref[2] ** 2
        r = close(x, y, rel, ab)
        if r is not None:
            b = boolean(T.is_right(**kw), 'is_right')
            need(b == r, f'is_right({kw}) is {b}, the sides are {ref}')
            ctx.nt(r)
            ctx.label('right' if r else 'oblique')
            for q in ((1, 2, 0), (2, 1, 0)):
                need(boolean(Triangle(*[c['p'][i] for i in q]).is_right(**kw)) == r, f'is_right({kw}) changes with the order of the vertices')


@cases
def label(draw):
    return dict(d=draw(sampled([2, 3])), name=draw(sampled(['point', 'line', 'length', 'angle', 'altitude'])),
                key=draw(sampled(['', 'D', 'd', 'AB', 'ab', 'A ', 'Á', '1', 'abc', 'ABC', 'a', 'b', 'c', 'A', 'B', 'C'])))


@facet('C17', 'labels', label, quick=300, rule='label that is not valid')
def labels(c, ctx):
    T = Triangle(*[[0, 0, 1][:c['d']], [4, 0, 2][:c['d']], [1, 3, 5][:c['d']]])
    valid = SIDES if c['name'] in ('line', 'length') else NAMES
    f = getattr(T, c['name'])
    if len(c['key']) == 1 and c['key'] in valid:
        f(c['key'])
        return
    ctx.nt()
    rejects(lambda: f(c['key']), f'{c["name"]}({c["key"]!r})')
    rejects(lambda: T.multiple(c['name'], [valid[0], c['key']]), f'multiple({c["name"]!r}, [{valid[0]!r}, {c["key"]!r}])')
