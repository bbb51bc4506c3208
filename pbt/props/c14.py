"""C14: affine rank, centroid, centering, normalisation and uniqueness of point sets."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


@cases
def rank_set(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4, 5, 6, 9]))
    k = draw(integers(0, d))
    n = draw(sampled([1, 2, 3, 3, 4, 4, 5, 6, 8, 12, 20, 30]))
    m = draw(sampled([1, 1, 3, 10]))
    if draw(integers(0, 4)) == 0:               # coordinate subspaces
        basis = [[int(i == j) for i in range(d)] for j in draw(st.permutations(range(d)))[:k]]
    else:
        basis = [[draw(integers(-3, 3)) for _ in range(d)] for _ in range(k)]
    pts = []
    for _ in range(n):
        co = [draw(integers(-m, m)) for _ in basis]
        pts.append([sum(a * b[i] for a, b in zip(co, basis)) for i in range(d)])
    o = offset(draw, d, OFFSETS + [10 ** 6, 12345])
    pts = [shifted(p, o) for p in pts]
    if draw(integers(0, 3)) == 0:                # one point off the subspace
        i = draw(integers(0, n - 1))
        pts[i] = shifted(pts[i], [draw(integers(-1, 1)) for _ in range(d)])
    return dict(p=pts, s=draw(sampled([1] * 6 + [0.5, 2.0 ** 20, 2.0 ** -30, 2.0 ** 40])), dup=draw(lists(integers(0, n - 1), max_size=4)),
                t=[draw(integers(-1000, 1000)) for _ in range(d)], f=draw(forms), seed=draw(integers(0, 999)))


def answers(pts, r, what):
    need(integer(pts.affine_rank(), what) == r, f'{what}: affine_rank is {pts.affine_rank()}, exact rank {r}')
    for name, lim in (('are_concurrent', 0), ('are_collinear', 1), ('are_coplanar', 2)):
        b = boolean(getattr(pts, name)(), name)
        need(b == (r <= lim), f'{what}: {name} is {b}, exact rank {r}')


def clear_rank(P, r):
    """The smallest non-zero singular value of the exactly centered points is far above rounding."""
    if r == 0:
        return True
    n = len(P)
    c = [sum(col, Fraction(0)) / n for col in zip(*P)]
    S = np.linalg.svd(np.array([fl(sub(p, c)) for p in P]), compute_uv=False)
    return S[r - 1] > 1e-9 * S[0]


@facet('C14', 'rank', rank_set, quick=3000, rule='rank below the largest possible one, or duplicates',
       pinned=[dict(p=p, s=1, dup=[0, 0], t=[0] * len(p[0]), f='list', seed=1) for p in (
           [[1, 1]], [[0, 0], [1, 1]], [[0, 0, 0], [1, 2, 3], [2, 4, 6]], [[0, 0, 0], [1, 0, 0], [0, 1, 0]],
           [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], [[5]], [[10 ** 6, 10 ** 6], [10 ** 6 + 1, 10 ** 6]])])
def affine_rank_(c, ctx):
    P = sorted({tuple(p) for p in c['p']})
    P = [fv(p) for p in P]
    r = affine_rank(P)
    if not clear_rank(P, r):
        raise Discard
    ctx.label(f'rank {r}', f'dim {len(P[0])}', 'full' if r == min(len(P) - 1, len(P[0])) else 'deficient')
    ctx.nt(r < min(len(c['p']) - 1, len(P[0])))
    pts = [scaled(p, c['s']) for p in c['p']]
    x = Points(form(pts, c['f']))
    before = np.array(x)
    answers(x, r, 'points')
    need(np.array_equal(before, x), 'affine_rank changed the points')
    rng = np.random.default_rng(c['seed'])
    q = pts + [pts[i] for i in c['dup']]
    q = [q[i] for i in rng.permutation(len(q))]
    answers(Points(q), r, 'permuted points with duplicates')
    answers(Points([shifted(p, scaled(c['t'], c['s'])) for p in pts]), r, 'translated points')
    d = len(pts[0])
    perm, sign = rng.permutation(d), rng.choice([-1, 1], d)
    answers(Points([[p[i] * int(e) for i, e in zip(perm, sign)] for p in pts]), r, 'points with axes exchanged')
    answers(Points([p + [0] * 2 for p in pts]), r, 'points with two zero coordinates added')


@cases
def float_set(draw):
    d = draw(sampled([1, 2, 3, 3, 4, 5]))
    k = draw(integers(0, d))
    n = draw(sampled([2, 3, 4, 5, 8, 15]))
    return dict(d=d, k=k, n=n, o=offset(draw, d, [0, 0, 1, 100, 1000]), s=draw(sampled([1, 1, 1e-3, 1e3, 1e-6, 1e6, 0.1])), seed=draw(integers(0, 10 ** 6)), f=draw(forms))


@facet('C14', 'rank_float', float_set, quick=800, rule='dimension over 1')
def rank_float(c, ctx):
    """Float points spread over k dimensions: the rank is at least k, and k with a tolerance above rounding."""
    rng = np.random.default_rng(c['seed'])
    d, k, n = c['d'], c['k'], c['n']
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    co = rng.uniform(-1, 1, (n, k))
    pts = (co @ q[:k] + np.array(c['o'])) * c['s'] if k else np.tile(np.array(c['o']) * c['s'], (n, 1)) * 1.0
    P = [fv(p) for p in pts.tolist()]
    ce = [sum(col, Fraction(0)) / n for col in zip(*P)]
    S = np.linalg.svd(np.array([fl(sub(p, ce)) for p in P]), compute_uv=False)
    r = min(k, n - 1)
    if r and S[r - 1] < 1e-3 * c['s']:
        raise Discard
    ctx.nt(d > 1)
    ctx.label(f'rank {r}')
    x = Points(form(pts.tolist(), c['f']))
    tol = 1e-6 * c['s']
    got = integer(x.affine_rank(), 'affine_rank')
    need(got >= r and (r < min(n - 1, d) or got == r), f'affine_rank is {got}, the points span {r} dimensions')
    need(x.affine_rank(tol=tol) == r, f'affine_rank(tol={tol}) is {x.affine_rank(tol=tol)}, the points span {r} dimensions')
    for name, lim in (('are_concurrent', 0), ('are_collinear', 1), ('are_coplanar', 2)):
        need(boolean(getattr(x, name)(tol=tol), name) == (r <= lim), f'{name}(tol={tol}) of points that span {r} dimensions')


@cases
def thin_set(draw):
    d = draw(sampled([2, 2, 3, 3, 4]))
    k = draw(integers(1, d))                     # the axes from k on are thin
    n = draw(integers(2, 8))
    e = 2.0 ** -draw(integers(8, 38))
    pts = [[draw(integers(-8, 8)) * (e if i >= k else 1) for i in range(d)] for _ in range(n)]
    p = draw(st.permutations(range(d)))
    if d > k and draw(booleans()):               # a sheared thin axis
        i, j = 0, d - 1
        pts = [[x + y[j] * draw(sampled([1])) if a == i else x for a, x in enumerate(y)] for y in pts]
    return dict(p=[[y[i] for i in p] for y in pts], s=draw(sampled([1, 1, 2.0 ** -40, 2.0 ** 30])), e=e, f=draw(forms))


@facet('C14', 'thin', thin_set, quick=1500, rule='a thin direction counts')
def thin(c, ctx):
    """Points that leave a lower dimension by little, but far more than rounding."""
    P = [fv(p) for p in sorted({tuple(p) for p in c['p']})]
    r = affine_rank(P)
    ce = [sum(col, Fraction(0)) / len(P) for col in zip(*P)]
    S = np.linalg.svd(np.array([fl(sub(p, ce)) for p in P]), compute_uv=False).tolist()
    if r and S[r - 1] < 200 * EPS * max(S) * len(c['p']):
        raise Discard
    ctx.nt(r > 0 and S[r - 1] < 1e-2 * S[0])
    ctx.label(f'rank {r}')
    answers(Points(form([scaled(p, c['s']) for p in c['p']], c['f'])), r, 'points')


@cases
def tol_set(draw):
    d = draw(integers(1, 5))
    s = [draw(integers(0, 4096)) / draw(sampled([1, 16, 4096])) for _ in range(d)]
    return dict(s=s, c=[draw(integers(-100, 100)) for _ in range(d)], tol=draw(lists(integers(0, 10 ** 6).map(lambda k: k / draw(sampled([1, 100, 10 ** 4, 10 ** 6]))), min_size=1, max_size=4)),
                mult=draw(lists(tuples(integers(0, d - 1), sampled([0.5, 0.9, 0.999, 1.001, 1.1, 2])), max_size=3)))


@facet('C14', 'tol', tol_set, quick=1500, rule='a tolerance removes some but not all dimensions')
def tol(c, ctx):
    """The points c +- s_i e_i have the centered singular values sqrt(2) s_i."""
    d = len(c['s'])
    pts = []
    for i, s in enumerate(c['s']):
        for sign in (1, -1):
            p = [float(x) for x in c['c']]
            p[i] += sign * s
            pts.append(p)
    x = Points(pts)
    S = [math.sqrt(2) * s for s in c['s']]
    tols = list(c['tol']) + [S[i] * m for i, m in c['mult']]
    last = d
    for t in sorted(tols):
        if any(abs(t - s) <= 1e-9 * (t + s) for s in S if s) or (min([s for s in S if s > 0] + [1]) < 1e-9 * (t + max(S))) or t < 1e-9:
            continue
        r = sum(s > t for s in S)
        ctx.nt(0 < r < sum(s > 0 for s in S))
        got = integer(x.affine_rank(tol=t), 'affine_rank(tol)')
        need(got == r, f'affine_rank(tol={t!r}) is {got}, the singular values are {S}')
        need(got <= last, f'affine_rank grew with the tolerance {t!r}')
        last = got
        for name, lim in (('are_concurrent', 0), ('are_collinear', 1), ('are_coplanar', 2)):
            need(boolean(getattr(x, name)(tol=t), name) == (r <= lim), f'{name}(tol={t!r}) is wrong for the singular values {S}')
    need(x.affine_rank() == sum(s > 0 for s in S) or min([s for s in S if s > 0]) < 1e-9 * max(S), 'affine_rank without tol', x)


@cases
def any_set(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 4, 7]))
    kind = draw(kinds())
    n = draw(sampled([1, 2, 3, 4, 7, 20, 100]))
    pts = draw(lists(lists(COORD[kind], min_size=d, max_size=d), min_size=n, max_size=n)) if n <= 7 else None
    if pts is None:
        base = draw(lists(lists(COORD[kind], min_size=d, max_size=d), min_size=7, max_size=7))
        pts = [[x * (1 + (i * 7 + j) % 5) for j, x in enumerate(base[(i * i + i // 7) % 7])] for i in range(n)]
    o, s = offset(draw, d), draw(sampled(SCALES))
    if kind == 'int' and draw(integers(0, 2)) == 0:         # whole numbers that need many digits
        o, s = [x * draw(sampled([2 ** 22, 2 ** 24 // 3, 2 ** 31 // 3, 2 ** 40, 10 ** 14])) + draw(integers(-9, 9)) for x in draw(lists(integers(-4, 4), min_size=d, max_size=d))], 1
    pts = [scaled(shifted(p, o), s) for p in pts]
    k = max(math.hypot(*p) for p in pts)
    if k and not draw(integers(0, 5)):                      # almost normalized
        k /= 1 + draw(sampled([0, 1e-3, 1e-5, 1e-7, -1e-8, 1e-9, -1e-11]))
        pts = [[x / k for x in p] for p in pts]
    pts += [pts[i] for i in draw(lists(integers(0, n - 1), max_size=5))]
    return dict(p=pts, f=draw(forms), ret=draw(sampled([None, True, False])))


@facet('C14', 'centroid', any_set, quick=2000, rule='more than one distinct point',
       pinned=[dict(p=[[0.0] * d] * n, f=f, ret=True) for d in (1, 2, 3, 4) for n in (1, 2, 5) for f in ('list', 'obj')] + [dict(p=[[0, 0, 0], [0, 0, 1e-9]], f='list', ret=True)])
def centroid(c, ctx):
    x = Points(form(c['p'], c['f']))
    before = np.array(x)
    P = [fv(p) for p in before.tolist()]
    n, m = len(P), mag(*P)
    ctx.nt(len(set(map(tuple, c['p']))) > 1)
    ref = [sum(col, Fraction(0)) / n for col in zip(*P)]
    t = (n + 4) * EPS * m
    ce = isa(x.centroid(), Point, 'centroid')
    near_vec(ce, ref, t, 'centroid')
    if c['ret'] is None:
        ctrd = x.mean_center()
    else:
        ctrd = x.mean_center(return_centroid=c['ret'])
        if c['ret']:
            need(type(ctrd) is tuple and len(ctrd) == 2, 'mean_center(return_centroid=True) is not a pair', ctrd)
            ctrd, ce2 = ctrd
            near_vec(isa(ce2, Point, 'returned centroid'), ref, t, 'returned centroid')
    isa(ctrd, Points, 'centered points')
    near_vec(ctrd, [sub(p, ref) for p in P], t + 2 * EPS * m, 'centered points')
    near_vec(ctrd.centroid(), [0] * len(ref), t + 2 * EPS * m + (n + 4) * EPS * m, 'centroid of the centered points')
    big = max(map(norm, P))
    if big > 0:
        y = isa(x.normalize_distance(), Points, 'normalized points')
        near_vec(y, [[float(a) / big for a in p] for p in P], 1e-14, 'normalized points')
        near(max(np.linalg.norm(np.array(y), axis=1)), 1, 1e-14, 'largest normalized distance')
    else:
        rejects(lambda: x.normalize_distance(), 'normalize_distance of points at the origin')
    if all(isinstance(a, int) and abs(a) <= 127 for p in c['p'] for a in p) and big > 0:
        y = Points(np.array(c['p'], dtype=np.int8)).normalize_distance()
        near_vec(y, [[float(a) / big for a in p] for p in P], 1e-14, 'normalized 8-bit points')
    u = isa(x.unique(), Points, 'unique')
    rows = sorted(set(map(tuple, before.tolist())))
    need(u.dtype == before.dtype and [tuple(r) for r in np.array(u).tolist()] == rows, 'unique', u, rows)
    need(np.array_equal(before, np.array(x)) and not np.shares_memory(u, x), 'the points were changed', x)


@cases
def many_set(draw):
    c = draw(crowd([1, 2, 2, 3, 3, 3, 4, 6, 8, 10, 12], mags=(1, 3, 100, 10000, 10 ** 6)))
    return dict(c, k=draw(integers(0, c['d'])), e=draw(sampled([None, None, None, 1e-7, 1e-5, 1e-9])), ax=draw(booleans()))


@facet('C14', 'many', many_set, quick=300, rule='rank below the dimension')
def many(c, ctx):
    """Large arrays around a flat: rank, centroid, centering, normalisation and distinct rows."""
    rng = np.random.default_rng(c['seed'])
    d, k, n = c['d'], c['k'], c['n']
    basis = np.eye(d, dtype=int)[:k] if c['ax'] else rng.integers(-3, 4, (k, d))
    co = rng.integers(-c['m'], c['m'] + 1, (n, k))
    rows = (co @ basis if k else np.zeros((n, d), int)) + np.array(c['o'], int)
    if c['e']:                                      # rows close together, all different
        rows[:] = rows[:1]
        k, r = 1, None
        y = rows[0] + np.outer(rng.permutation(n), np.full(d, c['e']))
    else:
        y = rows if c['q'] == 1 else rows / c['q']
        co = np.linalg.matrix_rank((rows - rows[0]).astype(float))
        sv = np.linalg.svd((rows - rows.mean(axis=0)), compute_uv=False)
        r = None if c['q'] == 100 else int(co) if co == 0 or sv[:co].min() > 1e-8 * sv[0] and (co == len(sv) or sv[co] <= 1e-10 * sv[0]) else None
    o = Points(crowd_form(y, c['f']))
    ctx.label(f'dim{d}', 'over 1000' if n > 1000 else 'under 1000')
    ctx.nt(r is not None and r < d)
    if r is not None:
        answers(o, r, f'{n} points')
    m = np.abs(y).max()
    ref = np.array([math.fsum(col) / n for col in y.T.tolist()])
    t = (n + 4) * EPS * m                           # summing in any order
    near_vec(isa(o.centroid(), Point, 'centroid'), ref.tolist(), t, f'centroid of {n} points')
    ce = isa(o.mean_center(), Points, 'mean_center')
    need(ce.shape == y.shape and np.abs(np.asarray(ce) - (y - ref)).max() <= t + 2 * EPS * m, f'mean_center of {n} points')
    big = np.linalg.norm(y, axis=1).max()
    if big > 0:
        z = isa(o.normalize_distance(), Points, 'normalize_distance')
        need(z.shape == y.shape and np.abs(np.asarray(z) - y / big).max() <= 1e-14, f'normalize_distance of {n} points')
    u = isa(o.unique(), Points, 'unique')
    distinct = sorted(set(map(tuple, y.tolist())))
    need(list(map(tuple, np.asarray(u).tolist())) == distinct, f'unique of {n} points has {len(u)} rows, expected {len(distinct)}')


@cases
def close_rows(draw):
    d, n = draw(integers(1, 4)), draw(sampled([2, 3, 5, 9, 40]))
    kind = draw(sampled(['int', 'float', 'int', 'uint', 'float32']))
    m = draw(sampled([0, 1, 2 ** 24, 2 ** 31, 2 ** 53, 2 ** 60, 2 ** 62]))
    return dict(kind=kind, base=[draw(sampled([0, 1, m, m, -m])) for _ in range(d)], steps=[[draw(sampled([0, 0, 0, 1, 2, -1])) for _ in range(d)] for _ in range(min(n, 9))], n=n)


@facet('C14', 'distinct', close_rows, quick=1200, rule='rows that differ by the least possible, and duplicates')
def distinct(c, ctx):
    """Rows that differ only in the last digit of one coordinate stay distinct; equal ones are merged."""
    rows = [[b + s for b, s in zip(c['base'], st)] for st in (c['steps'] * c['n'])[:c['n']]]
    if c['kind'] == 'uint':
        a = np.array([[abs(x) for x in r] for r in rows], dtype=np.uint64)
    elif c['kind'] == 'int':
        a = np.array(rows, dtype=np.int64)
    else:
        t = np.float32 if c['kind'] == 'float32' else np.float64
        a = np.array([[t(b) for b in c['base']]] * c['n'], dtype=t)
        for i, st in enumerate((c['steps'] * c['n'])[:c['n']]):
            for j, s in enumerate(st):
                for _ in range(abs(s)):
                    a[i, j] = np.nextafter(a[i, j], t(math.copysign(np.inf, s)))
    want = sorted(set(map(tuple, a.tolist())))
    ctx.nt(1 < len(want) < len(rows))
    ctx.label(c['kind'])
    if c['kind'] in ('float', 'float32'):
        need(boolean(Points(a).are_concurrent(), 'are_concurrent') == (len(want) == 1), f'are_concurrent of {a.tolist()}')
    u = isa(Points(a).unique(), Points, 'unique')
    need(u.dtype == a.dtype and list(map(tuple, np.asarray(u).tolist())) == want, f'unique of {a.tolist()} is {np.asarray(u).tolist()}, expected {want}')
