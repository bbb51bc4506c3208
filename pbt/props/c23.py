"""C23: tolerance keywords.  Every decision is compared with math.isclose (or a singular value threshold) applied to the exact quantity.

The tolerances are placed just below and above the compared quantity; decisions within rounding of the threshold are left open.
"""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *

DEFAULT = {}


class Cmp:
    """A comparison x ~ y of exact difference diff, computed by the library with an error of at most err."""

    def __init__(self, x, y, diff, err):
        self.x, self.y, self.diff, self.err = x, y, diff, err

    def __call__(self, kw):
        """True, False, or None within rounding of the threshold."""
        if self.diff == 0 and self.err == 0:
            return True
        thr = max(kw.get('rel_tol', 1e-9) * max(abs(self.x), abs(self.y)), kw.get('abs_tol', 0.0))
        if abs(self.diff - thr) <= self.err * (1 + kw.get('rel_tol', 1e-9)) + 1e-15 * thr:
            return None
        return self.diff < thr


def or3(*xs):
    return True if any(x is True for x in xs) else None if any(x is None for x in xs) else False


def and3(*xs):
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def c_dot(a, b):
    q = float(dot(a, b))
    return Cmp(q, 0.0, abs(q), 0.0 if dot_is_exact(a, b) else 4 * len(a) * EPS * float(sum(abs(x * y) for x, y in zip(a, b))))


def c_zero(a):
    return c_dot(a, a)


def c_parallel(a, b):
    """|cos| ~ 1."""
    s2 = sin2(a, b)
    cos = sqrt(1 - s2)
    return Cmp(cos, 1.0, float(s2) / (1 + cos), 32 * EPS)


def c_opposite(a, b):
    """cos ~ -1."""
    c = sqrt(1 - sin2(a, b)) * (1 if dot(a, b) > 0 else -1)
    return Cmp(c, -1.0, float(sin2(a, b)) / (1 - c) if c < 0 else 1 + c, 32 * EPS)


def parallel(a, b):
    """Comparisons and decision function of Vector.is_parallel."""
    za, zb = c_zero(a), c_zero(b)
    if n2(a) == 0 or n2(b) == 0:
        return [za, zb], lambda kw: or3(za(kw), zb(kw))
    p = c_parallel(a, b)
    return [p, za, zb], lambda kw: or3(za(kw), zb(kw), p(kw))


def c_distance(q, size):
    return Cmp(q, 0.0, q, 64 * EPS * size)


# ------------------------------------------------------------------------------- the operations

def vec_ops(c):
    """(comparisons, decision, call) where call(kw) gives True for 'accepted as close'."""
    op, f, d = c['op'], c['f'], c['d']
    a, b = c['a'], c['b']
    A, B = fv(a), fv(b)
    x = Vector(a)                        # one object for all calls: nothing of a call may stay with it
    if op == 'is_zero':
        z = c_zero(A)
        return [z], z, lambda kw: boolean(x.is_zero(**kw))
    if op == 'is_perpendicular':
        z = c_dot(A, B)
        return [z], z, lambda kw: boolean(x.is_perpendicular(form(b, f, Vector), **kw))
    if op == 'is_parallel':
        return *parallel(A, B), lambda kw: boolean(x.is_parallel(form(b, f, Vector), **kw))
    if n2(A) == 0 or n2(B) == 0:
        raise Discard
    p, q = c['p'], c['q']
    if op == 'different_direction':
        z, e = c_zero(A), fv([1] + [0] * (d - 1))
        cs, par = parallel(A, e) if d > 1 else ([], lambda kw: False)

        def call(kw):
            ok, r = attempt(lambda: x.different_direction(**kw))
            if not ok:
                return 'zero'
            if d == 1:
                return r.tolist() == [-1.0 if a[0] > 0 else 1.0]
            i = r.tolist().index(1.0)
            need(sum(x != 0 for x in r.tolist()) == 1 and i < 2, 'different_direction', r)
            return 'second' if i else 'first'

        def model(kw):
            zz, pp = z(kw), par(kw)
            if zz is None:
                return None
            if zz:
                return 'zero'
            return True if d == 1 else {None: None, True: 'second', False: 'first'}[pp]
        return [*cs, z], model, call
    def refuses(fn):
        return lambda kw: not attempt(lambda: fn(kw))[0]
    if op == 'Plane.from_vectors':
        return *parallel(A, B), refuses(lambda kw: Plane.from_vectors(p, form(a, f), form(b, f), **kw))
    if op == 'Line.intersect_line':
        l, m = Line(p, a), Line(q, b)
        return *parallel(A, B), refuses(lambda kw: l.intersect_line(m, **({'check_coplanar': False} if d == 3 else {}), **kw))
    if op[:5] == 'Plane':
        pl, qn, l = Plane(p, a), Plane(q, b), Line(q, b)
    if op == 'Plane.intersect_plane':
        return *parallel(A, B), refuses(lambda kw: pl.intersect_plane(qn, **kw))
    if op == 'Plane.intersect_line':
        z = c_dot(A, B)
        return [z], z, refuses(lambda kw: pl.intersect_line(l, **kw))
    if op == 'Plane.project_line':
        cs, par = parallel(A, B)
        z = c_dot(A, B)
        vp = sub(B, mul(dot(A, B) / n2(A), A))          # the direction projected onto the plane

        def call(kw):
            ok, r = attempt(lambda: pl.project_line(l, **kw))
            if not ok:
                return 'refused'
            # kept direction or projected direction, whichever is nearer
            u = np.array(r.direction, float)
            return 'kept' if np.abs(u - np.array(fl(B))).max() <= np.abs(u - np.array(fl(vp))).max() else 'projected'

        def model(kw):
            pp, zz = par(kw), z(kw)
            if pp is None:
                return None
            if pp:
                return 'refused'
            if zz is None or (not zz and norm(sub(vp, B)) < 1e-9 * norm(B)):
                return None
            return 'kept' if zz else 'projected'
        return [z, *cs], model, call
    if op == 'LineSegment.intersect_line_segment':       # segments that cross at x, well inside of both
        x = fv(p)
        s, t = [fl(add(x, mul(k, A))) for k in (Fraction(-1, 2), Fraction(1, 2))], [fl(add(x, mul(k, B))) for k in (Fraction(-1, 2), Fraction(1, 2))]
        U, W = sub(fv(s[1]), fv(s[0])), sub(fv(t[1]), fv(t[0]))
        if d == 3 and affine_rank(fm(s + t)) == 3 or sin2(A, B) < 1e-6 or not Fraction(1, 10 ** 4) < n2(A) / n2(B) < 10 ** 4:
            raise Discard
        g, h = LineSegment(*s), LineSegment(*t)
        return *parallel(U, W), refuses(lambda kw: g.intersect_line_segment(h, **kw))
    if op == 'LineSegment.contains_point':
        # the segment from p + a to p + b and the point p
        P, s, t = fv(p), shifted(p, a), shifted(p, b)
        U, W = sub(fv(s), P), sub(fv(t), P)
        if n2(U) == 0 or n2(W) == 0 or fv(s) == fv(t) or dist(fv(s), fv(t)) < 1e-3:
            raise Discard
        za, zb, o = c_zero(U), c_zero(W), c_opposite(U, W)
        g = LineSegment(s, t)
        return [o, za, zb], lambda kw: or3(za(kw), zb(kw), o(kw)), lambda kw: boolean(g.contains_point(form(p, f), **kw))
    if op == 'Triangle.orthocenter':
        s, t = shifted(p, a), shifted(p, b)
        V = fm([p, s, t])
        if sin2(sub(V[1], V[0]), sub(V[2], V[0])) < Fraction(1, 1000) or n2(sub(V[1], V[0])) == 0:
            raise Discard
        H = [sub(foot_line(V[1], sub(V[2], V[1]), V[0])[0], V[0]), sub(foot_line(V[2], sub(V[0], V[2]), V[1])[0], V[1])]
        feet = [sub(foot_line(V[(i + 1) % 3], sub(V[(i + 2) % 3], V[(i + 1) % 3]), V[i])[0], V[i]) for i in range(3)]
        if min(norm(h) for h in feet) < 1e-3 * mag(*V) or sin2(*H) < Fraction(1, 1000):
            raise Discard
        cs, m = parallel(*H)
        for x in cs:
            x.err += 1e-11 * mag(*V) ** 2 + 1e-12
        tr = Triangle(p, s, t)
        return cs, m, refuses(lambda kw: tr.orthocenter(**kw))
    raise KeyError(op)


def use(c, ctx, comparisons, model, call, what):
    """Place the tolerance by the case and compare the decisions."""
    x = comparisons[c['i'] % len(comparisons)]
    kw = {}
    big = max(abs(x.x), abs(x.y))
    for name, fac in (('abs_tol', c['abs']), ('rel_tol', c['rel'])):
        if fac is not None and (name == 'abs_tol' or big > 0):
            kw[name] = float(x.diff * fac / (1 if name == 'abs_tol' else big))
            if kw[name] == 0 and fac:
                kw[name] = 1e-7
    more = {k: v * c['more'] for k, v in kw.items()}
    more.setdefault('rel_tol', 1e-9)
    want0, want1, want2 = model({}), model(kw), model(more)
    ctx.nt(want1 is not None and bool(kw))
    ctx.label(c['op'], f"accepted {want1}", *([f"{c['op']}: the keyword decides"] if None not in (want0, want1) and want0 != want1 else []))
    first = call({})
    seen = []
    for k, w in (({}, want0), (kw, want1), ({}, want0), (more, want2), ({}, want0), (kw, want1)):
        got = call(k)
        seen.append(got)
        need(w is None or got == w, f'{what} with {k} decided {got!r}, expected {w!r}; compared {x.x!r} with {x.y!r} (difference {x.diff!r})')
    need(seen[0] == seen[2] == seen[4] == first, f'{what}: without keywords decided {first}, and {seen[2]}, {seen[4]} after calls with {kw} and {more}')
    need(seen[1] == seen[5], f'{what}: with {kw} decided {seen[1]} and then {seen[5]}')
    if isinstance(first, bool):
        need(not (seen[1] and not seen[3]), f'{what}: accepted with {kw} but not with {more}')


FACTORS = [0.5, 0.9, 0.999, 1.001, 1.1, 2.0, 100.0, 0.0, 0.0]


def tolerances(draw):
    m = draw(sampled(['abs', 'rel', 'both', 'abs', 'rel', 'none']))
    return dict(i=draw(sampled([0, 0, 0, 1, 2])), abs=draw(sampled(FACTORS)) if m in ('abs', 'both') else None,
                rel=draw(sampled(FACTORS)) if m in ('rel', 'both') else None, more=draw(sampled([1.0, 1.5, 100.0, 1e6])))


UNITS_ = [1] * 8 + [2.0 ** -24, 2.0 ** -40, 2.0 ** -60, 2.0 ** 30]


@cases
def vectors(draw):
    op = draw(sampled(['is_zero', 'is_perpendicular', 'is_parallel', 'different_direction', 'Plane.from_vectors', 'Line.intersect_line', 'Plane.intersect_plane', 'Plane.intersect_line',
                       'Plane.project_line', 'LineSegment.intersect_line_segment', 'LineSegment.contains_point', 'Triangle.orthocenter']))
    d = 3 if op.startswith('Plane') else draw(sampled([2, 3])) if op[0] in 'LT' and op != 'LineSegment.contains_point' else draw(sampled([1, 2, 3, 4]))
    kind = draw(kinds(['int', 'med', 'dec', 'fl', 'dy']))
    a, b = nonzero(draw, d, kind), nonzero(draw, d, kind)
    m = draw(integers(0, 9))
    small = draw(sampled([0.25, 2.0 ** -7, 1e-3, 1e-4, 3e-5, 1e-5]))
    if m < 3:                            # nearly parallel
        t = draw(sampled([1, -1, 2, -3]))
        b = [t * x + small * y for x, y in zip(a, b)]
    elif m < 5 and d > 1:                # nearly perpendicular
        n = draw(integers(0, d - 2))
        w = [0] * d
        w[n], w[n + 1] = -a[n + 1], a[n]
        if any(w):
            b = [x + small * y for x, y in zip(w, b)]
    elif m == 5:
        a = [small * x for x in a]
    elif m == 6:
        b = [small * x for x in b]
    s = draw(sampled(UNITS_))
    a, b, p, q = ([s * e for e in y] for y in (a, b, vec(draw, d, kind), vec(draw, d, kind)))
    return dict(op=op, d=d, a=a, b=b, p=p, q=q, f=draw(forms), **tolerances(draw))


@facet('C23', 'vectors', vectors, quick=6000, rule='a tolerance is given and its threshold is clear of rounding')
def vectors_(c, ctx):
    use(c, ctx, *vec_ops(c), f"{c['op']} on {[c[k] for k in 'abpq']}")


@cases
def contains(draw):
    op = draw(sampled(['Line', 'Plane', 'Circle', 'Sphere', 'Line.is_close', 'Plane.is_close', 'Point.is_close', 'Points.is_close']))
    d = {'Circle': 2, 'Sphere': 3}.get(op) or draw(sampled([1, 2, 3, 4] if 'Plane' not in op else [2, 3]))
    kind = draw(kinds(['int', 'med', 'dec', 'fl', 'dy']))
    p, v, x = vec(draw, d, kind), nonzero(draw, d, kind), vec(draw, d, kind)
    small = draw(sampled([1, 0.25, 2.0 ** -7, 1e-3, 1e-5, 1e-10]))
    w = nonzero(draw, d, kind)
    m = draw(integers(0, 3))
    if 'is_close' in op and m:
        w = [draw(sampled([1, -2])) * a + small * b for a, b in zip(v, w)]
    if m == 1:
        x = [a + 2 * b + small * e for a, b, e in zip(p, v, x)]
    elif m == 2 or op[:5] == 'Point':
        x = [a + small * e for a, e in zip(p, x)]
    if not any(w):
        w = v
    s = draw(sampled(UNITS_))
    p, v, x, w = ([s * e for e in y] for y in (p, v, x, w))
    return dict(op=op, d=d, p=p, v=v, x=x, w=w, r=draw(integers(1, 99)) / draw(sampled([1, 10])) * s, f=draw(forms), **tolerances(draw))


@facet('C23', 'contains', contains, quick=4000, rule='a tolerance is given and its threshold is clear of rounding')
def contains_(c, ctx):
    op, p, v, x, w, f = c['op'], c['p'], c['v'], c['x'], c['w'], c['f']
    P, V, X, W = fv(p), fv(v), fv(x), fv(w)
    size = mag(P, V, X)
    kind, _, close = op.partition('.')
    far = lambda obj: None
    if kind in ('Circle', 'Sphere'):
        q = abs(dist(P, X) - c['r'])
        obj = dict(Circle=Circle, Sphere=Sphere)[kind](p, c['r'])
        cs = [c_distance(q, size + c['r'])]
        model, call = cs[0], lambda kw: boolean(obj.contains_point(form(x, f), **kw))
    elif kind in ('Line', 'Plane'):
        if kind == 'Line':
            q = dist(foot_line(P, V, X)[0], X)
            obj, other = Line(p, v), Line(x, w)
        else:
            q = float(abs(dot(sub(X, P), V))) / norm(V)
            obj, other = Plane(p, v), Plane(x, w)
        dd = c_distance(q, size)
        if close:
            ps, par = parallel(V, W)
            cs, model = [dd, *ps], lambda kw: and3(dd(kw), par(kw))
            call = lambda kw: boolean(obj.is_close(other, **kw))
        else:
            cs, model, call = [dd], dd, lambda kw: boolean(obj.contains_point(form(x, f), **kw))
    else:
        cs = [Cmp(float(a), float(b), float(abs(a - b)), 2 * EPS * float(abs(a) + abs(b)) if a != b else 0.0) for a, b in zip(P, X)]
        model = lambda kw: and3(*[True if e.diff == 0 else e(kw) for e in cs])
        if kind == 'Point':
            pt = Point(p)
            call = lambda kw: boolean(pt.is_close(form(x, f), **kw))
        else:
            pp = Points([p, p])
            call = lambda kw: boolean(pp.is_close(form([p, x], f), **kw))
    use(c, ctx, cs, model, call, f"{op} of {[p, v, c['r']]} and {[x, w]}")


RANKS = ['affine_rank', 'are_concurrent', 'are_collinear', 'are_coplanar', 'Plane.from_points', 'Circle.from_points', 'Line.is_coplanar', 'Line.best_fit', 'Line.best_fit error', 'Plane.best_fit', 'Plane.best_fit error']


@cases
def ranks(draw):
    op = draw(sampled(RANKS))
    d = 3 if op[:5] == 'Plane' else 2 if op[:6] == 'Circle' else draw(sampled([2, 3, 4]))
    n = 3 if 'from_points' in op else 4 if op == 'Line.is_coplanar' else draw(integers(3 if op[:5] == 'Plane' else 2, 8))
    kind = draw(kinds(['int', 'dec', 'fl']))
    pts = [vec(draw, d, kind) for _ in range(n)]
    thin = draw(integers(0, d))          # squash the last axes
    s = draw(sampled([1, 0.1, 1e-3, 2.0 ** -10]))
    pts = [[x if i < thin else s * x for i, x in enumerate(p)] for p in pts]
    o = offset(draw, d, [0, 0, 1, 100])
    return dict(op=op, d=d, pts=[shifted(p, o) for p in pts], i=draw(integers(0, 3)), fac=draw(sampled(FACTORS + [None])), more=draw(sampled([1.0, 1.5, 100.0])), f=draw(forms))


@facet('C23', 'ranks', ranks, quick=4000, rule='the tolerance is clear of all singular values')
def ranks_(c, ctx):
    op, pts, f = c['op'], c['pts'], c['f']
    if op == 'Line.is_coplanar':
        pts = [pts[0], shifted(pts[0], sub(pts[1], pts[0])), pts[2], shifted(pts[2], sub(pts[3], pts[2]))]
        if pts[0] == pts[1] or pts[2] == pts[3]:
            raise Discard
        L, M = Line(pts[0], sub(pts[1], pts[0])), Line(pts[2], sub(pts[3], pts[2]))
        pts = [fl(L.point), fl(add(fv(L.point), fv(L.direction))), fl(M.point), fl(add(fv(M.point), fv(M.direction)))]
    P = [fv(p) for p in sorted(set(map(tuple, pts)))]        # the rank is that of the distinct points
    mean = [sum(x) / len(P) for x in zip(*P)]
    S = np.linalg.svd(np.array([fl(sub(p, mean)) for p in P]), compute_uv=False).tolist()
    err = 1e-13 * (mag(*P) + 1e-3) * len(P)
    clear = lambda t: all(abs(s - t) > err + 1e-10 * s for s in S)
    big = [s for s in S if s > 1e-9]
    if not big:
        raise Discard
    tol = None if c['fac'] is None else big[c['i'] % len(big)] * c['fac']
    rk = lambda t: sum(s > t for s in S) if t is not None else affine_rank(P)
    bound = {'are_concurrent': 0, 'are_collinear': 1, 'are_coplanar': 2, 'Plane.from_points': 1, 'Circle.from_points': 1, 'Line.is_coplanar': 2, 'Line.best_fit': 0, 'Plane.best_fit': 1}.get(op.partition(' ')[0])
    extra = dict(return_error=True) if op.endswith('error') else {}
    X = Points(form(pts, f))             # one object for all calls, so that no tolerance may outlive its call
    arg = X if f == 'obj' else form(pts, f)
    calls = {
        'affine_rank': lambda kw: integer(X.affine_rank(**kw)),
        'are_concurrent': lambda kw: boolean(X.are_concurrent(**kw)),
        'are_collinear': lambda kw: boolean(X.are_collinear(**kw)),
        'are_coplanar': lambda kw: boolean(X.are_coplanar(**kw)),
        'Plane.from_points': lambda kw: not attempt(lambda: Plane.from_points(*form(pts, f), **kw))[0],
        'Circle.from_points': lambda kw: not attempt(lambda: Circle.from_points(*form(pts, f), **kw))[0],
        'Line.is_coplanar': lambda kw: boolean(L.is_coplanar(M, **kw)),
        'Line.best_fit': lambda kw: not attempt(lambda: Line.best_fit(arg, **extra, **kw))[0],
        'Plane.best_fit': lambda kw: not attempt(lambda: Plane.best_fit(arg, **extra, **kw))[0],
    }
    call = calls[op.partition(' ')[0]]
    more = None if tol is None else tol * c['more']

    def model(t):
        if t is None:
            small = [s for s in S if s < 1e-7 * (mag(*P) + 1)]
            if len(small) != len(S) - affine_rank(P):
                return None
            if not all(float(x).is_integer() and abs(x) < 2 ** 20 for p in pts for x in p) and small:
                return None
        elif not clear(t):
            return None
        return rk(t) if bound is None else rk(t) <= bound

    if op.partition('.')[2] == 'from_points' and affine_rank(P) < 2:
        if tol is not None and tol < 1e-9:
            raise Discard
    ctx.nt(tol is not None and clear(tol))
    ctx.label(op, *([f'{op}: the keyword decides'] if None not in (model(None), model(tol)) and model(tol) != model(None) else []))
    seen = []
    for t in (None, tol, None, more, tol):
        for kw in ([{}] if t is None else [dict(tol=t)]) + ([dict(tol=None)] if t is None else []):
            got, want = call(kw), model(t)
            need(want is None or got == want, f'{op} of {pts} with {kw} gave {got}, expected {want}; singular values {S}')
        seen.append(got)
    need(seen[0] == seen[2] and seen[1] == seen[4], f'{op} of {pts} gave {seen} for the tolerances {[None, tol, None, more, tol]}')
    if tol is not None:
        need(seen[3] <= seen[1] if bound is None else seen[3] >= seen[1], f'{op} of {pts} gave {seen[1]} with tolerance {tol} and {seen[3]} with {more}')


@cases
def triangles(draw):
    d = draw(sampled([2, 3]))
    kind = draw(kinds(['int', 'med', 'dec', 'fl', 'dy']))
    p = [vec(draw, d, kind) for _ in range(3)]
    m = draw(integers(0, 3))
    small = draw(sampled([0, 0.25, 0.01, 1e-4, 1e-10, 1e-11]))
    if m == 1:                           # near isosceles
        u = [b - a for a, b in zip(p[0], p[1])]
        p[2] = [a + s * x + small * e for a, s, x, e in zip(p[0], [1, -1, 1], u, p[2])]
    elif m == 2:                         # near right angled at p0
        u = [b - a for a, b in zip(p[0], p[1])]
        w = [-u[1], u[0], 0][:d]
        t = draw(sampled([1, 2, 0.5]))
        p[2] = [a + t * x + small * e for a, x, e in zip(p[0], w, p[2])]
    elif m == 3:                         # near equilateral
        h = draw(sampled([0.866, 0.8660254, 0.8660254037844386, 0.9]))
        p = [shifted(p[0], x + [0] * (d - 2)) for x in ([0, 0], [1, 0], [0.5, h])]
    o = draw(sampled([[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2]]))
    z = draw(sampled(UNITS2 + [2.0 ** -30, 1e-8]))
    return dict(op=draw(sampled(['classify', 'is_right'])), p=[scaled(p[i], z) for i in o], f=draw(forms), **tolerances(draw))


@facet('C23', 'triangles', triangles, quick=2400, rule='a tolerance is given and its threshold is clear of rounding')
def triangles_(c, ctx):
    P = fm(c['p'])
    e = [sub(P[(i + 2) % 3], P[(i + 1) % 3]) for i in range(3)]
    if any(n2(x) == 0 for x in e) or min(sin2(e[0], e[1]), sin2(e[1], e[2]), sin2(e[2], e[0])) < Fraction(1, 10 ** 6):
        raise Discard
    T = Triangle(*form(c['p'], c['f']))
    m = mag(*P)
    ln = [norm(x) for x in e]
    if c['op'] == 'classify':
        cs = []
        for i, j in ((0, 1), (0, 2), (1, 2)):
            diff = float(abs(n2(e[i]) - n2(e[j]))) / (ln[i] + ln[j])
            cs.append(Cmp(ln[i], ln[j], diff, 0.0 if sorted(map(abs, e[i])) == sorted(map(abs, e[j])) and d_int(e[i] + e[j]) else 32 * EPS * m))

        def model(kw):
            xs = [True if x.diff == 0 and x.err == 0 else x(kw) for x in cs]
            if None in xs:
                return None
            return {3: 'equilateral', 0: 'scalene'}.get(sum(xs), 'isosceles')
        use(c, ctx, cs, model, lambda kw: T.classify(**kw), f"Triangle{c['p']}.classify")
    else:
        a, b, h = sorted(map(n2, e))
        x = Cmp(float(a + b), float(h), float(abs(a + b - h)), 64 * EPS * m * max(ln))
        use(c, ctx, [x], x, lambda kw: boolean(T.is_right(**kw)), f"Triangle{c['p']}.is_right")


def d_int(v):
    return all(x.denominator == 1 and abs(x) < 2 ** 20 for x in v)
