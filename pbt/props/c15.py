"""C15: lines and planes of best fit minimise the squared distances."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


def make_points(c):
    """Points around an affine subspace: integer / float data with noise, then offset and scale."""
    rng = np.random.default_rng(c['seed'])
    d, n, k = c['d'], c['n'], c['k']
    if c['how'] == 'int':
        x = rng.integers(-c['m'], c['m'] + 1, (n, d))
        return [[int(v) for v in r] for r in x + np.array([int(o) for o in c['o']])]
    if c['how'] == 'exact':                      # integer points in an exact k-dimensional flat
        basis = rng.integers(-5, 6, (k, d))
        if c.get('tilt'):                        # far wider along the axes than across
            basis[:, -1] += rng.integers(1, 6, k)
            basis[range(k), rng.permutation(d)[:k]] *= 2 ** c['tilt']
        x = rng.integers(-c['m'], c['m'] + 1, (n, k)) @ basis
        return [[int(v) for v in r] for r in x + np.array([int(o) for o in c['o']])]
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    if c.get('level'):                           # along the axes, or almost
        q = np.linalg.qr(np.eye(d) + rng.normal(size=(d, d)) * (c['level'] - 1e-12))[0]
    sizes = np.array([1.0] * k + [c['noise']] * (d - k)) * rng.uniform(0.2, 1, d)
    x = (rng.normal(size=(n, d)) * sizes) @ q * c['m']
    return ((x + np.array(c['o'])) * c['s']).tolist()


def pointset(dims, ks):
    @cases
    def strategy(draw):
        d = draw(sampled(dims))
        return dict(d=d, n=draw(sampled([2, 3, 3, 4, 4, 5, 6, 7, 10, 25, 80, 250])), k=min(d, draw(sampled(ks))), how=draw(sampled(['int', 'exact', 'float', 'float'])),
                    m=draw(sampled([1, 2, 10, 100])), noise=draw(sampled([1, 0.5, 0.1, 0.01, 1e-4, 1e-8])), o=offset(draw, d), s=draw(sampled([1, 1, 1e3, 1e-3, 1e6, 1e-6, 1e-9, 1e9, 1e-12])),
                    tilt=draw(sampled([0, 0, 0, 10, 20, 26, 32])), level=draw(sampled([0] * 5 + [1e-12, 1e-3, 1e-5, 1e-7, 1e-9])), seed=draw(integers(0, 10 ** 7)), f=draw(forms), cand=draw(integers(0, 10 ** 6)))
    return strategy


def scatter(P):
    n, d = len(P), len(P[0])
    c = [sum(col, Fraction(0)) / n for col in zip(*P)]
    Q = [sub(p, c) for p in P]
    return c, Q, [[sum((q[i] * q[j] for q in Q), Fraction(0)) for j in range(d)] for i in range(d)]


def quad(M, v):
    return sum((v[i] * M[i][j] * v[j] for i in range(len(v)) for j in range(len(v))), Fraction(0))


def ss_line(M, n, c, p, v):
    """Exact sum of squared distances to the line p + t v."""
    w = sub(p, c)
    tr = sum(M[i][i] for i in range(len(M)))
    return tr - quad(M, v) / n2(v) + n * (n2(w) - dot(w, v) ** 2 / n2(v))


def ss_plane(M, n, c, p, v):
    w = sub(p, c)
    return (quad(M, v) + n * dot(w, v) ** 2) / n2(v)


def check_fit(cls, name, ss, c, ctx, degenerate, kw=None):
    pts = make_points(c)
    if degenerate(pts):
        return None
    kw = kw or {}
    x = form(pts, c['f'])
    fit = isa(cls.best_fit(x, **kw), cls, 'best_fit')
    P = fm(pts)
    n, d = len(P), len(P[0])
    ce, Q, M = scatter(P)
    m, tr = mag(*P), float(sum(M[i][i] for i in range(d)))
    p, v = fv(fit.point), fv(fit.vector)
    near_vec(fit.point, ce, (n + 4) * EPS * m, 'point of the fit (centroid)')
    near(norm(v), 1, 1e-13, 'length of the vector of the fit')
    got = float(ss(M, n, ce, p, v))
    ev = np.linalg.eigvalsh(np.array([[float(t) for t in r] for r in M]))
    best = tr - ev[-1] if cls is Line else ev[0]
    best = max(best, 0.0)
    shift = n * ((n + 4) * EPS * m) ** 2                # rounding of the centroid
    sig = math.sqrt(tr) + EPS * m * math.sqrt(n) * n    # rounding of the singular values
    t = 100 * d * EPS * tr + 4 * shift
    need(got <= best + t, f'{name}: sum of squares {got!r}, the smallest possible is {best!r} (tolerance {t:.3g})')
    # other candidates
    rng = np.random.default_rng(c['cand'])
    for _ in range(6):
        w = np.array(fl(v)) + rng.normal(size=d) * rng.choice([1, 0.1, 1e-2, 1e-4])
        o = np.array(fl(p)) + rng.normal(size=d) * rng.choice([0, 0, 0.1]) * math.sqrt(tr / n)
        other = float(ss(M, n, ce, fv(o), fv(w)))
        need(got <= other + t, f'{name}: sum of squares {got!r}, but {other!r} for {w.tolist()} at {o.tolist()}')
    # exactly flat data
    r = rank(Q)
    flat = r <= (1 if cls is Line else 2)
    ctx.nt(not flat)
    ctx.label('flat' if flat else 'spread', c['how'])
    if flat:
        need(math.sqrt(max(got, 0)) <= 40 * n * EPS * (sig + m), f'{name}: flat points are off the fit, sum of squares {got!r}')
    # return_error
    res = cls.best_fit(x, return_error=True, **kw)
    need(type(res) is tuple and len(res) == 2, 'best_fit(return_error=True) is not a pair', res)
    fit2, err = res
    need(same(fit, fit2), 'the fit with return_error=True is another one', fit, fit2)
    u = 20 * math.sqrt(n) * EPS * sig
    te = 2 * math.sqrt(max(got, 0)) * u + u * u + 4 * shift
    err = near(err, got, te, 'returned error')
    need(err >= 0, 'negative error', err)
    ws = near(fit.sum_squares(x), got, 40 * EPS * (m + math.sqrt(tr)) * math.sqrt(n * max(got, 0)) + n * (40 * EPS * (m + math.sqrt(tr))) ** 2, 'sum_squares')
    need(ws >= 0, 'negative sum_squares')
    # other orders of the points
    order = rng.permutation(n)
    fit3 = cls.best_fit([pts[i] for i in order])
    got3 = float(ss(M, n, ce, fv(fit3.point), fv(fit3.vector)))
    need(abs(got3 - got) <= 2 * t, f'{name}: sum of squares {got3!r} after a permutation, {got!r} before')
    return fit


@facet('C15', 'line', pointset([1, 2, 2, 3, 3, 3, 4, 6, 8, 10], [1, 1, 1, 2, 3]), quick=900, rule='points not on one line')
def line(c, ctx):
    check_fit(Line, 'Line.best_fit', ss_line, c, ctx, lambda pts: affine_rank(fm(pts)) == 0)


def nearly_collinear(pts):
    ce, Q, M = scatter(fm(pts))
    if rank(Q) <= 1:
        return True
    S = np.linalg.svd(np.array([fl(q) for q in Q]), compute_uv=False)
    return S[1] < 1e-11 * (S[0] + mag(*fm(pts)))


@facet('C15', 'plane', pointset([3], [1, 2, 2, 2, 3]), quick=900, rule='points not on one plane')
def plane(c, ctx):
    if c['n'] < 3:
        c = dict(c, n=3)
    check_fit(Plane, 'Plane.best_fit', ss_plane, c, ctx, nearly_collinear)


@cases
def refused(draw):
    d = draw(sampled([1, 2, 3, 3, 3, 4, 5]))
    how = draw(sampled(['concurrent', 'collinear', 'dim', 'tol', 'tol']))
    n = draw(integers(1, 12))
    base = [draw(COORD['dec']) if how == 'concurrent' else draw(COORD['med']) for _ in range(d)]
    v = [draw(integers(-4, 4)) for _ in range(d)]
    t = draw(lists(integers(-20, 20), min_size=n, max_size=n))
    s = [draw(integers(1, 4096)) / draw(sampled([1, 16, 4096])) for _ in range(d)]
    return dict(d=d, how=how, base=base, v=v, t=t, s=s, tol=draw(integers(1, 10 ** 6)) / draw(sampled([1, 100, 10 ** 4, 10 ** 6])),
                near=draw(sampled([None, 0.9, 1.1, 0.999, 1.001])), i=draw(integers(0, d - 1)), err=draw(booleans()), f=draw(forms))


@facet('C15', 'refused', refused, quick=1500, rule='a tolerance decides, or more than two points')
def refused_(c, ctx):
    d, how = c['d'], c['how']
    kw = dict(return_error=True) if c['err'] else {}
    ctx.label(how)
    if how == 'concurrent':
        pts = form([c['base']] * len(c['t']), c['f'])
        ctx.nt(len(c['t']) > 2)
        rejects(lambda: Line.best_fit(pts, **kw), f'Line.best_fit of {len(pts)} equal points')
        rejects(lambda: Plane.best_fit(pts, **kw), f'Plane.best_fit of {len(pts)} equal points')
    elif how == 'collinear':
        pts = form([[b + t * x for b, x in zip(c['base'], c['v'])] for t in c['t']], c['f'])
        ctx.nt(len(c['t']) > 2)
        rejects(lambda: Plane.best_fit(pts, **kw), f'Plane.best_fit of collinear points {pts}')
    elif how == 'dim':
        if d == 3:
            raise Discard
        rng = np.random.default_rng(len(c['t']))
        pts = form(rng.integers(-9, 9, (len(c['t']) + 5, d)).tolist(), c['f'])
        ctx.nt()
        rejects(lambda: Plane.best_fit(pts, **kw), f'Plane.best_fit of points of dimension {d}')
    else:
        pts = []
        for i, s in enumerate(c['s']):
            for sign in (1, -1):
                p = [float(x) for x in c['base']]
                p[i] += sign * s
                pts.append(p)
        S = sorted((math.sqrt(2) * s for s in c['s']), reverse=True)
        tol = c['tol'] if c['near'] is None else S[min(c['i'], 1) if d > 1 else 0] * c['near']
        if any(abs(tol - s) < 1e-9 * (tol + s) for s in S[:2]):
            return
        x = form(pts, c['f'])
        for cls, idx in ((Line, 0), (Plane, 1)):
            if cls is Plane and d != 3:
                continue
            ctx.nt()
            if S[idx] <= tol:
                rejects(lambda: cls.best_fit(x, tol=tol, **kw), f'{cls.__name__}.best_fit(tol={tol!r}) of points with singular values {S}')
            else:
                a, b = cls.best_fit(x, tol=tol, **kw), cls.best_fit(x, **kw)
                need(same(a, b), f'{cls.__name__}.best_fit(tol={tol!r}) is another fit than without tol', a, b)


@cases
def many_set(draw):
    c = draw(crowd([1, 2, 3, 3, 3, 4, 7, 9, 12], sizes=[33, 100, 257, 513, 1025, 2049, 4097], mags=(3, 100, 10000)))
    return dict(c, size=draw(lists(sampled([1, 1, 2, 5, 20, 0]), min_size=c['d'], max_size=c['d'])), perm=draw(booleans()), thin=draw(sampled([None, None, 1e-3, 1e-6, 1e-8])))


@facet('C15', 'many', many_set, quick=100, rule='points not on one line')
def many(c, ctx):
    """Lines and planes through many points of any dimension."""
    rng = np.random.default_rng(c['seed'])
    d, n = c['d'], c['n'] if c['d'] < 5 else min(c['n'], 600)
    x = rng.integers(-c['m'], c['m'] + 1, (n, d)) * np.array(c['size'])
    if c['perm'] and d > 1:
        x[:, 0] = x[:, 0] + x[:, -1]
        x[:, -1] = x[:, -1] - x[:, d // 2]
    x = x + np.array(c['o'], int)
    y = x if c['q'] == 1 else x / c['q']
    if c['thin'] and d > 1:                         # nearly on one line, or plane
        k = min(c['k'], d - 1, 2)
        y = np.concatenate([y[:, :k], y[:, :k] @ rng.integers(-3, 4, (k, d - k)) + c['thin'] * rng.normal(size=(n, d - k))], axis=1)
    ce = np.array([math.fsum(col) / n for col in y.T.tolist()])
    q = y - ce
    S2 = np.linalg.svd(q, compute_uv=False) ** 2
    S2 = np.concatenate([S2, np.zeros(d)])[:d]
    if S2[0] <= 0:
        return
    ctx.label(f'dim{d}')
    tr = S2.sum()
    ctx.nt(tr - S2[0] > 1e-9 * tr)
    m = np.abs(y).max()
    shift = 4 * n * ((n + 4) * EPS * m) ** 2
    u = 20 * math.sqrt(n) * EPS * (math.sqrt(tr) + EPS * m * math.sqrt(n) * n) + 20 * math.sqrt(n) * EPS * m
    data = crowd_form(y, c['f'])
    fits = [(Line, S2[1:].sum())]
    if d == 3 and S2[1] > 1e-12 * S2[0]:
        fits.append((Plane, S2[2]))
    for cls, best in fits:
        o, err = cls.best_fit(data, return_error=True)
        p, v = arr(o.point, (d,)), arr(o.vector, (d,))
        near_vec(p, ce.tolist(), (n + 4) * EPS * m, f'point of {cls.__name__}.best_fit of {n} points')
        w = (y - p) @ (v / np.linalg.norm(v))
        got = (w ** 2).sum()
        if cls is Line:
            got = ((y - p - np.outer(w, v / np.linalg.norm(v))) ** 2).sum()
        t = 2 * math.sqrt(best) * u + u * u + shift
        need(got <= best + t, f'{cls.__name__}.best_fit of {n} points of dimension {d}: sum of squares {got!r}, the smallest possible is {best!r}')
        near(err, got, t + 1e-12 * got, f'returned error of {cls.__name__}.best_fit of {n} points')
