"""C18: areas and volumes."""
from skspatial.measurement import area_signed, area_triangle, volume_tetrahedron

from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


def simplex(n):
    @cases
    def strategy(draw):
        d = draw(sampled([1, 2, 2, 3, 3, 3, 3, 4]))
        kind = draw(kinds())
        pts = [vec(draw, d, kind) for _ in range(n)]
        if draw(integers(0, 5)) == 0:               # a linear combination of the others
            u, v = [b - a for a, b in zip(pts[0], pts[1])], [b - a for a, b in zip(pts[0], pts[2])]
            k, m = draw(integers(-3, 3)), draw(integers(-3, 3)) if n > 3 else 0
            pts[-1] = [a + k * b + m * e for a, b, e in zip(pts[0], u, v)]
        elif draw(integers(0, 5)) == 0 and d > 1:         # a right angle, or almost
            a, u = pts[0], [b - a for a, b in zip(pts[0], pts[1])]
            w = nudge(draw, scaled([u[1], -u[0]] + [0 * x for x in u[2:]], draw(sampled([1, -1, 2, 0.5]))))
            pts[2] = shifted(a, w)
        o, s = offset(draw, d), scale(draw)
        return dict(p=[scaled(shifted(p, o), s) for p in pts], perm=draw(st.permutations(range(n))), f=[draw(forms) for _ in range(n)], c=vec(draw, d, 'dy'))
    return strategy


@facet('C18', 'triangle', simplex(3), quick=2500, rule='positive area',
       pinned=[dict(p=p, perm=[2, 0, 1], f=['list'] * 3, c=p[0]) for p in ([[0, 0], [0, 1], [1, 0]], [[3, -5, 1], [5, 2, 1], [9, 4, 2]], [[0, 0, 0], [1, 1, 1], [2, 2, 2]])])
def triangle(c, ctx):
    P = fm(c['p'])
    d = len(P[0])
    pts = [form(p, f, Point) for p, f in zip(c['p'], c['f'])]
    ctx.label(f'dim{d}')
    if d > 3:
        rejects(lambda: area_triangle(*pts), f'area_triangle of points of dimension {d}')
        return
    u, v = sub(P[1], P[0]), sub(P[2], P[0])
    w = sub(P[2], P[1])
    ref = norm(cross(u, v)) / 2
    t = 10 * EPS * max(norm(u) * norm(v), norm(u) * norm(w), norm(v) * norm(w))
    ctx.nt(ref > 0)
    a = near(area_triangle(*pts), ref, t, 'area_triangle')
    need(a >= 0, 'area_triangle is negative', a)
    near(area_triangle(*[c['p'][i] for i in c['perm']]), ref, t, 'area_triangle after a permutation')
    if gram2(u, v) > 0 and ref > 1e-4 * max(norm(u), norm(v), norm(w)) ** 2 and norm(u) > 1e-8 * mag(*P):
        near(Triangle(*pts).area(), ref, t, 'Triangle.area')
    if d == 2:
        near(abs(area_signed(c['p'])), ref, 2 * t, 'absolute value of area_signed')


@facet('C18', 'tetrahedron', simplex(4), quick=2500, rule='positive volume',
       pinned=[dict(p=p, perm=[3, 2, 0, 1], f=['list'] * 4, c=p[0]) for p in ([[0, 0], [3, 2], [-3, 5], [1, 8]], [[0, 0, 0], [2, 0, 0], [1, 1, 0], [0, 0, 1]])])
def tetrahedron(c, ctx):
    P = fm(c['p'])
    d = len(P[0])
    pts = [form(p, f, Point) for p, f in zip(c['p'], c['f'])]
    ctx.label(f'dim{d}')
    if d > 3:
        rejects(lambda: volume_tetrahedron(*pts), f'volume_tetrahedron of points of dimension {d}')
        return
    E = [pad(sub(p, P[0])) for p in P[1:]]
    ref = abs(float(det3(*E))) / 6
    L = max(dist(p, q) for p in P for q in P)
    t = 10 * EPS * L ** 3
    ctx.nt(ref > 0)
    v = near(volume_tetrahedron(*pts), ref, t, 'volume_tetrahedron')
    need(v >= 0, 'volume_tetrahedron is negative', v)
    if d < 3:
        need(v == 0, f'volume_tetrahedron of points of dimension {d} is {v!r}')
    near(volume_tetrahedron(*[c['p'][i] for i in c['perm']]), ref, t, 'volume_tetrahedron after a permutation')
    if ref > 1e-6 * L ** 3 and d == 3:
        near(volume_tetrahedron(*pts), ref, 40 * EPS * max(norm(E[0]) * norm(E[1]) * norm(E[2]), ref), 'volume_tetrahedron')


@cases
def polygon(draw):
    how = draw(sampled(['any', 'any', 'star', 'convex', 'few', 'dim']))
    d = 2 if how != 'dim' else draw(sampled([1, 3, 4]))
    n = draw(integers(1, 2)) if how == 'few' else draw(sampled([3, 3, 4, 4, 5, 6, 7, 10, 15] * 3 + [40, 130, 300]))
    kind = draw(kinds())
    if how in ('star', 'convex'):
        rs = [draw(integers(10, 200)) / 10 if how == 'star' else 20.0 for _ in range(min(n, 15))]
        rs = [rs[i * 7 % len(rs)] for i in range(n)]
        pts = [[r * math.cos(2 * math.pi * i / n), r * math.sin(2 * math.pi * i / n)] for i, r in enumerate(rs)]
        if kind in ('int', 'med'):
            pts = [[round(x) for x in p] for p in pts]
    else:
        pts = [vec(draw, d, kind) for _ in range(min(n, 15))]
        pts = [[x + (0 if i < 15 else i // 15) for x in pts[i * 7 % len(pts)]] for i in range(n)]
    if draw(booleans()):
        pts = pts[::-1]
    if n >= 3 and draw(integers(0, 5)) == 0:
        pts.append(draw(sampled([pts[0], pts[-1]])))          # closed or repeated vertex
    o, s = offset(draw, d, OFFSETS + [10 ** 6]), scale(draw)
    return dict(p=[scaled(shifted(p, o), s) for p in pts], how=how, k=draw(integers(0, n - 1)), f=draw(forms))


def shoelace(P):
    return sum((P[i - 1][0] * P[i][1] - P[i][0] * P[i - 1][1] for i in range(len(P))), Fraction(0)) / 2


@facet('C18', 'polygon', polygon, quick=3000, rule='at least four vertices, or refused',
       pinned=[dict(p=p, how='any', k=1, f='list') for p in ([[0, 0], [1, 0], [0, 1]], [[0, 0], [0, 1], [1, 2], [2, 1], [2, 0]], [[10 ** 6 + .25, 10 ** 6], [10 ** 6 + 1, 10 ** 6], [10 ** 6, 10 ** 6 + 1.5]])])
def polygon_(c, ctx):
    x = form(c['p'], c['f'])
    n, d = len(c['p']), len(c['p'][0])
    ctx.label(c['how'])
    if d != 2 or n < 3:
        ctx.nt()
        rejects(lambda: area_signed(x), f'area_signed of {n} points of dimension {d}')
        return
    ctx.nt(n > 3)
    P = fm(c['p'])
    ref = shoelace(P)
    L = max(dist(p, P[0]) for p in P)
    t = 4 * n * EPS * L * L
    if all(isinstance(v, int) for p in c['p'] for v in p):
        t = 0
    near(area_signed(x), ref, t, 'area_signed')
    near(area_signed(c['p'][::-1]), -ref, t, 'area_signed of the reversed polygon')
    k = c['k']
    near(area_signed(c['p'][k:] + c['p'][:k]), ref, 2 * t, 'area_signed from another vertex')
    if 2 <= k <= n - 2:
        one, two = area_signed(c['p'][:k + 1]), area_signed(c['p'][k:] + c['p'][:1])
        near(one + two, ref, 3 * t, 'sum of the areas on both sides of a diagonal')
    if c['how'] == 'convex' and n == len({tuple(p) for p in c['p']}) and abs(ref) > t:
        tri = sum(area_triangle(c['p'][0], c['p'][i], c['p'][i + 1]) for i in range(1, n - 1))
        if not any(isinstance(v, int) for p in c['p'] for v in p):
            near(tri, abs(ref), 10 * t + 10 * n * EPS * L * L, 'sum of the triangles of a convex polygon')


@facet('C18', 'many', crowd([2], sizes=[33, 100, 257, 513, 1025, 2049, 4097]), quick=300, rule='every case')
def many(c, ctx):
    """Polygons with many vertices, all of which count."""
    x, q = crowd_rows(c)
    n = len(x)
    y = crowd_points(c)
    if c['i'] % 2:                                   # around the centre
        a = np.arctan2(*(x - np.array(c['o'])).T)
        order = np.argsort(a)
        x, y = x[order], y[order]
    ctx.nt()
    ctx.label('over 1000' if n > 1000 else 'under 1000')
    z = x - x[0]
    twice = sum(int(a) * int(d) - int(e) * int(b) for (a, b), (e, d) in zip(z, np.roll(z, -1, axis=0)))
    ref = Fraction(twice, 2 * q * q)
    L = float(np.abs(z).max()) / q
    t = 0 if q in (1, 64) and L * 64 < 2 ** 22 else 10 * n * EPS * L * L + 4 * n * EPS * L * np.abs(y).max()
    data = crowd_form(y, c['f'])
    near(area_signed(data), ref, t, f'area_signed of {n} points')
    near(area_signed(y[::-1]), -ref, t, f'area_signed of {n} points reversed')
    k = c['i'] % n
    near(area_signed(np.roll(y, k, axis=0)), ref, t, f'area_signed of {n} points from another vertex')
