"""C16: circles, spheres and cylinders fitted to points."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


def solve(A, b):
    """Exact solution of a regular rational system, or None."""
    n = len(A)
    M = [list(r) + [x] for r, x in zip(A, b)]
    for i in range(n):
        piv = next((j for j in range(i, n) if M[j][i] != 0), None)
        if piv is None:
            return None
        M[i], M[piv] = M[piv], M[i]
        for j in range(n):
            if j != i and M[j][i] != 0:
                f = M[j][i] / M[i][i]
                M[j] = [x - f * y for x, y in zip(M[j], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def ball(o, cls, what):
    isa(o, cls, what)
    need(float(o.radius) > 0 and o.dimension == o.point.dimension, f'{what} is not valid', o)
    return o


@cases
def three(draw):
    how = draw(sampled(['any', 'any', 'any', 'circle', 'collinear', 'dim']))
    d = 2 if how != 'dim' else draw(sampled([1, 3, 4]))
    kind = draw(kinds(ALL + ['big']))
    pts = [vec(draw, d, kind) for _ in range(3)]
    if how == 'circle':
        k = draw(integers(1, 20))
        tri = [(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-4, 3), (-5, 0), (0, -5), (3, -4), (4, -3), (-3, -4), (-4, -3)]
        pts = [[x * k, y * k] for x, y in draw(lists(sampled(tri), min_size=3, max_size=3, unique=True))]
    if how == 'collinear':
        b, v = vec(draw, 2, 'med'), vec(draw, 2, 'int')
        pts = [[x + t * y for x, y in zip(b, v)] for t in draw(lists(integers(-9, 9), min_size=3, max_size=3))]
    o, s = offset(draw, d, OFFSETS + [10 ** 6]), draw(sampled([1] * 6 + [2.0 ** 10, 2.0 ** -10, 2.0 ** -30, 2.0 ** -40, 2.0 ** 40])) if how in ('circle', 'collinear') else draw(sampled(SCALES))
    return dict(p=[scaled(shifted(p, o), s) for p in pts], how=how, f=[draw(forms) for _ in range(3)])


@facet('C16', 'circle_from_points', three, quick=3000, rule='points not centred at the origin',
       pinned=[dict(p=p, how='any', f=['list'] * 3) for p in ([[0, 0], [1, 0], [0, 1]], [[0, -1], [1, 0], [0, 1]], [[5, 5], [6, 5], [6, 6]])])
def circle_from_points(c, ctx):
    pts = [form(p, f, Point) for p, f in zip(c['p'], c['f'])]
    ctx.label(c['how'])
    if c['how'] == 'dim':
        ctx.nt()
        rejects(lambda: Circle.from_points(*pts), f'Circle.from_points with points of dimension {len(c["p"][0])}')
        return
    a, b, e = fm(c['p'])
    D = 2 * ((b[0] - a[0]) * (e[1] - a[1]) - (b[1] - a[1]) * (e[0] - a[0]))
    L = max(dist(a, b), dist(a, e), dist(b, e))
    if D == 0:
        if c['how'] == 'collinear' or all(isinstance(x, int) for p in c['p'] for x in p):
            ctx.nt()
            rejects(lambda: Circle.from_points(*pts), f'Circle.from_points of collinear points {c["p"]}')
        return
    kappa = L * L / abs(float(D))
    if kappa > 1e6 or L < 1e-9 * mag(a, b, e):
        raise Discard
    ab, ae = sub(b, a), sub(e, a)
    u = [(ae[1] * n2(ab) - ab[1] * n2(ae)) / D, (ab[0] * n2(ae) - ae[0] * n2(ab)) / D]
    center, R = add(a, u), norm(u)
    ctx.nt(any(x != 0 for x in center))
    t = 60 * EPS * (kappa * (L + R) + mag(a, b, e)) * (1 + R / L)
    ci = ball(Circle.from_points(*pts), Circle, 'Circle.from_points')
    near_vec(ci.point, center, t, 'centre of Circle.from_points')
    near(ci.radius, R, t, 'radius of Circle.from_points')


def sample_flat(c, d):
    """Points of a circle or sphere: exact lattice, noisy or scattered."""
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    if c['how'] == 'lattice':
        tri = [(3, 4), (5, 0), (4, 3)] if d == 2 else [(1, 2, 2), (3, 0, 0), (2, 1, 2), (2, 2, 1)]
        pts = []
        for _ in range(n):
            p = np.array(tri[rng.integers(len(tri))]) * rng.choice([-1, 1], d)
            pts.append([int(x) * c['m'] for x in rng.permutation(p)])
    elif c['how'] == 'int':
        pts = rng.integers(-c['m'] - 2, c['m'] + 3, (n, d)).tolist()
    else:
        v = rng.normal(size=(n, d))
        if c['how'] == 'arc':
            v[:, 0] = np.abs(v[:, 0]) + 1
        v /= np.linalg.norm(v, axis=1)[:, None]
        pts = (v * c['m'] + rng.normal(size=(n, d)) * c['noise'] * c['m']).tolist()
    if c.get('sym'):                                    # symmetric about the centre, but for a small part of the size
        pts = [[s * x + e for x, e in zip(p, rng.normal(size=d) * c['sym'] * max(map(abs, p)))] for p in pts for s in (1, -1)]
    return [scaled(shifted(p, c['o']), c['s']) for p in pts]


def ballset(d):
    @cases
    def strategy(draw):
        return dict(n=draw(sampled([3, 4, 4, 5, 6, 8, 12, 20, 40])) + d - 2, how=draw(sampled(['lattice', 'int', 'float', 'float', 'arc'])), m=draw(sampled([1, 1, 2, 10, 100])),
                    noise=draw(sampled([0, 0, 1e-6, 1e-3, 0.1])), sym=draw(sampled([0] * 5 + [1e-5, 1e-7, 1e-9, 1e-11])), o=offset(draw, d), s=draw(sampled([1] * 5 + [0.5, 2.0 ** 10, 1e3, 1e-3, 1e4, 1e-4, 1e6, 1e-6, 1e-7, 2.0 ** -24, 1e-12, 1e12, 2.0 ** 40, 2.0 ** -40])), seed=draw(integers(0, 10 ** 7)), f=draw(forms))
    return strategy


def best_ball(cls, d, c, ctx):
    pts = sample_flat(c, d)
    P = fm(pts)
    n = len(P)
    ce = [sum(col, Fraction(0)) / n for col in zip(*P)]
    Q = [sub(p, ce) for p in P]
    S = np.linalg.svd(np.array([fl(q) for q in Q]), compute_uv=False)
    name = f'{cls.__name__}.best_fit'
    x = form(pts, c['f'])
    if rank(Q) < d:
        if c['how'] in ('int', 'lattice') and math.log2(c['s']).is_integer():
            ctx.label('flat')
            rejects(lambda: cls.best_fit(x), f'{name} of points of a smaller dimension')
        return
    kappa = S[0] / S[-1]
    m = mag(*P)
    if kappa > 100 or S[0] < 1e-7 * m:
        raise Discard
    # normal equations of |q|^2 = 2 q.c + k about the centroid
    A = [[4 * sum((q[i] * q[j] for q in Q), Fraction(0)) for j in range(d)] for i in range(d)]
    sol = solve(A, [2 * sum((n2(q) * q[i] for q in Q), Fraction(0)) for i in range(d)])
    center = add(ce, sol)
    R = sqrt(sum(map(n2, Q), Fraction(0)) / n + n2(sol))
    size = max(map(norm, Q))
    rc = norm(sol) + size
    t = 20 * EPS * (kappa * kappa * rc * (1 + rc / size) * math.sqrt(n) + n * m * (1 + rc / size) * kappa)
    ctx.nt(any(v != 0 for v in center))
    ctx.label(c['how'], 'noisy' if c['noise'] and c['how'] in ('float', 'arc') else 'exact')
    b = ball(cls.best_fit(x), cls, name)
    near_vec(b.point, center, t, f'centre of {name}')
    near(b.radius, R, t * (1 + rc / R), f'radius of {name}')
    if c['how'] == 'lattice' and not c.get('sym'):
        true = [F(o) * F(c['s']) for o in c['o']]
        near_vec(b.point, true, t, f'centre of {name} for points on a circle or sphere')
        near(b.radius, (5 if d == 2 else 3) * c['m'] * c['s'], t * (1 + rc / R), f'radius of {name} for points on a circle or sphere')


@facet('C16', 'circle_best_fit', ballset(2), quick=1200, rule='centre away from the origin')
def circle_best_fit(c, ctx):
    best_ball(Circle, 2, c, ctx)


@facet('C16', 'sphere_best_fit', ballset(3), quick=1200, rule='centre away from the origin')
def sphere_best_fit(c, ctx):
    best_ball(Sphere, 3, c, ctx)


@cases
def refused(draw):
    what = draw(sampled(['circle', 'sphere', 'cylinder']))
    how = draw(sampled(['few', 'flat', 'dim']))
    need_d = 2 if what == 'circle' else 3
    least = dict(circle=3, sphere=4, cylinder=6)[what]
    d = need_d
    if how == 'dim':
        d = draw(sampled([e for e in (1, 2, 3, 4, 5) if e != need_d]))
    n = draw(integers(1, least - 1)) if how == 'few' else draw(integers(least, 15))
    k = draw(integers(0, d - 1)) if how == 'flat' else d
    b = [[draw(integers(-4, 4)) for _ in range(d)] for _ in range(k)]
    o = offset(draw, d)
    pts = []
    for _ in range(n):
        co = [draw(integers(-9, 9)) for _ in b]
        pts.append([o[i] + sum(a * e[i] for a, e in zip(co, b)) for i in range(d)])
    return dict(p=pts, what=what, how=how, f=draw(forms))


@facet('C16', 'refused', refused, quick=1500, rule='every case')
def refused_(c, ctx):
    cls = dict(circle=Circle, sphere=Sphere, cylinder=Cylinder)[c['what']]
    x = form(c['p'], c['f'])
    ctx.nt()
    ctx.label(c['what'] + ' ' + c['how'])
    rejects(lambda: cls.best_fit(x), f'{cls.__name__}.best_fit of {len(c["p"])} points ({c["how"]})')


@cases
def tube(draw):
    return dict(n=draw(sampled([8, 9, 10, 12, 14, 20] * 4 + [51, 101, 257])), ratio=draw(sampled([3, 3.5, 4, 5, 6.5, 8])), r=draw(integers(100, 1000)) / draw(sampled([100, 1000, 10])),
                s=draw(sampled([1, 1, 1, 1e3, 1e-3, 1e5, 1e-5, 1e-7, 1e7])), o=offset(draw, 3, [0, 0, 1, 10, 100]), a=nonzero(draw, 3, draw(kinds(['int', 'fl', 'fl']))), w=nonzero(draw, 3, 'fl'),
                th=draw(integers(0, 628)) / 100, noise=draw(sampled([0, 0, 0, 1e-3])), seed=draw(integers(0, 10 ** 6)), f=draw(forms))


@facet('C16', 'cylinder_best_fit', tube, quick=480, rule='axis not along a coordinate axis',
       pinned=[dict(n=10, ratio=4, r=r, s=s, o=[1, 2, 3], a=a, w=[0.3, 0.5, 0.7], th=0.1, noise=0, seed=1, f='list')
               for r, s in ((1, 1), (2.5, 1e-5)) for a in ([0, 0, 1], [1, 0, 0], [-1, 0, 0], [0, -1, 0], [1, 2, 3], [-3, 0, -1])])
def cylinder_best_fit(c, ctx):
    """Points in golden angle steps along the surface of a cylinder three to eight radii long."""
    r, n, s = c['r'], c['n'], c['s']
    a = np.array(c['a'], float)
    a /= np.linalg.norm(a)
    b = np.cross(a, c['w'])
    if np.linalg.norm(b) < 1e-2:
        b = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
    b /= np.linalg.norm(b)
    e = np.cross(a, b)
    th = c['th'] + 2 * np.pi * 0.381966 * np.arange(n)
    t = np.linspace(0, c['ratio'] * r, n)
    o = np.array(c['o']) * r
    rng = np.random.default_rng(c['seed'])
    rr = (r * (1 + c['noise'] * rng.uniform(-1, 1, n)))[:, None]
    P = (o + np.outer(t, a) + rr * (np.outer(np.cos(th), b) + np.outer(np.sin(th), e))) * s
    P = P[rng.permutation(n)]
    ctx.nt(sum(x != 0 for x in c['a']) > 1)
    ctx.label('noisy' if c['noise'] else 'exact')
    cy = isa(Cylinder.best_fit(form(P.tolist(), c['f'])), Cylinder, 'Cylinder.best_fit')
    p, v = arr(cy.point, (3,)), arr(cy.vector, (3,))
    L = np.linalg.norm(v)
    u = v / L
    t = 1e-7 + 30 * c['noise'] + 1e-13 * np.abs(c['o']).max()
    need(np.linalg.norm(np.cross(u, a)) <= t, f'axis of the fitted cylinder is {u.tolist()}, expected {a.tolist()} (tolerance {t:.3g})')
    w = (p - o * s) / s / r
    need(np.linalg.norm(w - (w @ a) * a) <= 10 * t, f'the axis of the fitted cylinder misses that of the points by {np.linalg.norm(w - (w @ a) * a)} radii')
    near(cy.radius, r * s, t * r * s, 'radius of the fitted cylinder')
    tt = (P - p) @ u
    tol = 1e-12 * (L + np.abs(P).max())
    need(abs(tt.min()) <= tol and abs(tt.max() - L) <= tol, f'the fitted cylinder runs from 0 to {L} along its axis, the points from {tt.min()} to {tt.max()}')
    need(L > 0 and float(cy.radius) > 0, 'fitted cylinder is not valid', cy)


@cases
def blob(draw):
    return dict(n=draw(integers(6, 12)), seed=draw(integers(0, 10 ** 6)), kind=draw(sampled(['int', 'float'])), o=offset(draw, 3, [0, 0, 10, 1000]), f=draw(forms))


@facet('C16', 'cylinder_extent', blob, quick=160, rule='every case')
def cylinder_extent(c, ctx):
    """Whatever cylinder is found, it spans the points along its axis and is centred for its direction."""
    rng = np.random.default_rng(c['seed'])
    x = rng.integers(-9, 10, (c['n'], 3)) if c['kind'] == 'int' else rng.normal(size=(c['n'], 3)) * [1, 2, 5]
    P = x + np.array(c['o'])
    if np.linalg.svd(P - P.mean(axis=0), compute_uv=False)[-1] < 0.1:
        raise Discard
    ctx.nt()
    cy = isa(Cylinder.best_fit(form(P.tolist(), c['f'])), Cylinder, 'Cylinder.best_fit')
    p, v = arr(cy.point, (3,)), arr(cy.vector, (3,))
    L = np.linalg.norm(v)
    tt = (P - p) @ (v / L)
    tol = 1e-12 * (L + np.abs(P).max() + np.abs(p).max())
    need(abs(tt.min()) <= tol and abs(tt.max() - L) <= tol, f'the fitted cylinder runs from 0 to {L} along its axis, the points from {tt.min()} to {tt.max()}')
    q = P - p
    q = q - np.outer(q @ (v / L), v / L)
    rms = math.sqrt((q ** 2).sum(axis=1).mean())
    near(cy.radius, rms, 1e-9 * (rms + np.abs(P).max()), 'radius of the fitted cylinder (root mean square distance to its axis)')


@cases
def many_points(draw):
    c = draw(crowd([2, 3], mags=(3, 100, 1000)))
    return dict(c, how=draw(sampled(['box', 'box', 'ring', 'ring', 'half'])), noise=draw(sampled([0, 1e-6, 1e-3, 0.1, 0.3])))


@facet('C16', 'many', many_points, quick=300, rule='every case')
def many(c, ctx):
    """Circles and spheres through many points: all of them count."""
    rng = np.random.default_rng(c['seed'])
    d, n = c['d'], c['n']
    if c['how'] == 'box':
        y = crowd_points(c) * 1.0
    else:
        v = rng.normal(size=(n, d))
        if c['how'] == 'half':
            v[:, 0] = np.abs(v[:, 0])
        v /= np.linalg.norm(v, axis=1)[:, None]
        y = (v * (1 + c['noise'] * rng.uniform(-1, 1, n)[:, None])) * c['m'] / c['q'] + np.array(c['o'])
        y = y[np.argsort(y[:, 0])] if c['k'] == 1 else y            # in order, so that a part is one-sided
    ce = np.array([math.fsum(col) / n for col in y.T.tolist()])
    q = y - ce
    s = np.sqrt((q ** 2).sum() / n)
    if s < 1e-7 * np.abs(y).max() or np.linalg.svd(q / s, compute_uv=False)[-1] < 1e-2:
        raise Discard
    q = q / s
    A = np.hstack([2 * q, np.ones((n, 1))])
    sol = np.linalg.lstsq(A, (q ** 2).sum(axis=1), rcond=None)[0]
    ctx.nt()
    ctx.label(f'dim{d}', c['how'], 'over 1000' if n > 1000 else 'under 1000')
    cls = Circle if d == 2 else Sphere
    b = ball(cls.best_fit(crowd_form(y, c['f'])), cls, 'best_fit')
    t = 1e-9 * s + 1e-11 * np.abs(y).max()
    near_vec(b.point, (sol[:d] * s + ce).tolist(), t, f'centre of {cls.__name__}.best_fit of {n} points')
    near(b.radius, math.sqrt(sol[d] + (sol[:d] ** 2).sum()) * s, t, f'radius of {cls.__name__}.best_fit of {n} points')
