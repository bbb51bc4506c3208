"""C21: motions and scaling commute with every query.

`exact`: integer inputs (often in special position) and integer similarity maps, so both runs get exact inputs.
`generic`: floating point inputs (on a lattice, so that they are either exactly or clearly not degenerate) and arbitrary motions; cases whose answer changes under tiny perturbations are left out,
and the tolerance follows the change of the result under these perturbations.
"""
import random

from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *
from ..ops import OPS, arguments, call, draw_op, flat, mapped

BLOCKS = [[[3, -4], [4, 3], 5], [[2, -1, 2], [2, 2, -1], [-1, 2, 2], 3], [[0, -1], [1, 0], 1], [[5, 12], [-12, 5], 13], [[0, 0, 1], [1, 0, 0], [0, 1, 0], 1]]


class Motion:
    """x -> R x + T with R = scale times an orthogonal matrix."""

    def __init__(self, R, scale, T, linear=False):
        self.R, self.k, self.T = R, scale, [0] * len(R) if linear else T
        d = len(R)
        m = np.array(R, float) / float(scale)
        self.det = round(float(np.linalg.det(m)))
        self.Q = m
        need_ok = np.abs(m @ m.T - np.eye(d)).max() < 1e-9
        assert need_ok

    def vector(self, x):
        return [sum(r * a for r, a in zip(row, x)) for row in self.R]

    def point(self, x):
        return [a + t for a, t in zip(self.vector(x), self.T)]

    def raw(self, token, x):
        return mapped(token, x, dict(p=self.point, v=self.vector, r=lambda r: r * self.k, n=lambda n: n, t1=lambda t: t * self.k, t2=lambda t: t * self.k ** 2))

    def apply(self, kind, x):
        """The expected result after the motion."""
        if kind == 'b':
            return x
        a = np.array(x, float)
        if kind == 'an0':
            return a
        kk = float(self.k)
        if kind == 'p':
            return kk * (self.Q @ a) + np.array(self.T, float)
        if kind in ('P', 'set'):
            return kk * (a @ self.Q.T) + np.array(self.T, float)
        if kind == 'ax':
            a = self.Q @ a
            return a
        if kind == 'ang':
            return self.det * a
        c, n = kind[0], int(kind[1])
        if c == 's':
            return kk ** n * a
        if c == 'o':
            return self.det * kk ** n * a
        if c == 'v':
            return kk ** n * (self.Q @ a)
        if c == 'V':
            return kk ** n * (a @ self.Q.T)
        return self.det * kk ** n * (self.Q @ a)                # w


def difference(kind, a, b):
    """Distance of two results of a kind, or None if their shapes differ."""
    if kind == 'b':
        return 0.0 if a == b else math.inf
    a, b = np.array(a, float), np.array(b, float)
    if a.shape != b.shape:
        return math.inf
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return math.inf
    if kind == 'ang':
        return abs((float(a) - float(b) + math.pi) % (2 * math.pi) - math.pi)
    if kind == 'ax':
        a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
        return float(np.abs(np.outer(a, a) - np.outer(b, b)).max())
    if kind == 'set':
        left, worst = [r for r in b], 0.0
        for r in a:
            i = min(range(len(left)), key=lambda i: np.abs(left[i] - r).max())
            worst = max(worst, float(np.abs(left.pop(i) - r).max()))
        return worst
    return float(np.abs(a - b).max()) if a.size else 0.0


def degree(kind):
    return 0 if kind in ('b', 'ang', 'an0', 'ax') else 1 if kind in ('p', 'P', 'set') else int(kind[1])


def perturbed(raws, tokens, m, rng, delta):
    one = lambda x, s: [float(a) + delta * s * rng.uniform(-1, 1) for a in x]
    fns = dict(p=lambda x: one(x, m), v=lambda x: one(x, mag(x)), r=lambda r: r * (1 + delta * rng.uniform(-1, 1)), n=lambda n: n, t1=lambda t: t, t2=lambda t: t)
    return [mapped(t, r, fns) for t, r in zip(tokens, raws)]


def decisions(ok, comps):
    return [ok] + [v for k, v in comps if k in ('b',)] + [np.array(v).tolist() for k, v in comps if k == 'o0'] if ok else [ok]


def run(o, raws, ref, how='list'):
    """(ok, components) of one call, relative to the reference point."""
    ok, r = call(o, raws, how)
    return ok, (o.out(r, ref) if ok else r)


def relation(c, ctx, exact):
    o, d, raws = OPS[c['op']], c['d'], c['raw']
    M = Motion(*c['motion'], linear=o.linear)
    ref = [1] * d
    moved = [M.raw(t, r) for t, r in zip(o.tokens, raws)]
    pts = [x for t, r in zip(o.tokens, raws) for s, x in flat(t, r) if s == 'p']
    pts2 = [x for t, r in zip(o.tokens, moved) for s, x in flat(t, r) if s == 'p']
    vs = [x for t, r in zip(o.tokens, raws) for s, x in flat(t, r) if s in 'v']
    rs = [x for t, r in zip(o.tokens, raws) for s, x in flat(t, r) if s in 'r']
    k = float(M.k)
    m = max(mag(*pts, ref), mag(*pts2, M.point(ref)) / k)
    size = max(m, mag(*vs), max([0, *rs]))
    a_ok, a = run(o, raws, ref)
    b_ok, b = run(o, moved, M.point(ref), c['f'])
    rng = random.Random(c['rnd'])
    delta = 1e-9 if exact else 1e-7
    spread = None
    if not exact or a_ok:
        spread = [0.0] * (len(a) if a_ok else 0)
        for _ in range(3):
            p_ok, p = run(o, perturbed(raws, o.tokens, m, rng, delta), ref)
            if p_ok != a_ok or (p_ok and any(difference(kd, x, y) > 0 for (kd, x), (_, y) in zip(a, p) if kd in ('b', 'o0'))):
                if not exact:
                    ctx.label('near'); raise Discard                       # near a boundary of the decision
                spread = None
                break
            if p_ok:
                spread = [max(s, difference(kd, x, y)) for s, (kd, x), (_, y) in zip(spread, a, p)]
    what = f"{c['op']}{raws}, moved by {c['motion']} to {moved}"
    ctx.label(c['op'])
    if not a_ok:
        ctx.label('refused')
        need(not b_ok, f'{what}: raises {a!r} before the motion but not after it: {b!r}')
        return
    if not exact and not b_ok and any(kd[0] in 'vw' and mag(x) <= 1e-6 * size ** degree(kd) for kd, x in a):
        raise Discard                                       # a vector that vanishes within rounding
    need(b_ok, f'{what}: gives {a!r} before the motion and raises {b!r} after it')
    need([kd for kd, _ in a] == [kd for kd, _ in b], f'{what}: gives {a!r} and {b!r}')
    ctx.nt()
    for i, ((kd, x), (_, y)) in enumerate(zip(a, b)):
        n = degree(kd)
        if kd == 'b':
            need(type(x) is type(y) and x == y, f'{what}: gives {x!r} before and {y!r} after it')
            continue
        want = M.apply(kd, x)
        if kd == 'ax' and exact:
            continue
        diff = difference(kd, want, y) / k ** n
        big = max(1.0 if n == 0 else size ** n, float(np.abs(np.array(x, float)).max()))
        tol = (1e-7 if kd in ('an0', 'ang') else 1e-9) * big        # the arccosine halves the digits at its ends
        if spread is None:
            tol = 1e-6 * big
        elif not math.isfinite(spread[i]):
            raise Discard
        else:
            tol += spread[i] * 1e-6 / delta * 1e-6
        if kd[0] == 'o' and n == 0:
            tol = 0
        need(diff <= tol, f'{what}: result {np.array(x).tolist()} should become {np.array(want).tolist()} but is {np.array(y).tolist()} (difference {diff * k ** n:.3g}, tolerance {tol * k ** n:.3g})')


def orthogonal(d, seed):
    """A random orthogonal matrix (exactly representable entries are not needed)."""
    rng = np.random.RandomState(seed)
    q, r = np.linalg.qr(rng.normal(size=(d, d)))
    return (q * np.sign(np.diag(r))).tolist()


@cases
def generic(draw):
    c = draw_op(draw, lambda o: o.generic, kind=draw(sampled(['fl', 'fl', 'dec', 'med'])), structured=False, offsets=[0, 0, 1, 16, 100])
    d = c['d']
    m = draw(sampled(['rotate', 'rotate', 'move', 'permute', 'scale', 'reflect', 'all', 'all']))
    R = [[float(i == j) for j in range(d)] for i in range(d)]
    k, T = 1.0, [0.0] * d
    if m in ('rotate', 'all'):
        R = orthogonal(d, draw(integers(0, 10 ** 6)))
    if m == 'permute':
        perm = draw(permutations(d))
        R = [R[i] for i in perm]
    if m == 'reflect':
        i = draw(integers(0, d - 1))
        R[i] = [-x for x in R[i]]
    if m in ('scale', 'all'):
        k = draw(sampled([2.0, 0.5, 3.0, 0.1, 1000.0, 1e-3, 7.5, 1e5, 1e-5, 1e-8, 1e8, 2.0 ** -40, 2.0 ** 40]))
        R = [[k * x for x in r] for r in R]
    if m in ('move', 'all'):
        s = draw(sampled([1, 10, 1000])) * k
        T = [s * x for x in vec(draw, d, draw(sampled(['fl', 'dec', 'int'])))]
    return dict(c, motion=[R, k, T], f=draw(forms), rnd=draw(integers(0, 99)))


def permutations(n):
    from hypothesis import strategies as st
    return st.permutations(list(range(n)))


@facet('C21', 'generic', generic, quick=9000, rule='the query gives a result (not an error) before the motion')
def generic_(c, ctx):
    relation(c, ctx, False)


@cases
def exact(draw):
    c = draw_op(draw, lambda o: o.exact, kind=draw(sampled(['int', 'int', 'int', 'med'])), structured=True, offsets=[0, 0, 0, 1, 10])
    d = c['d']
    blocks = [b for b in BLOCKS if len(b) - 1 <= d]
    k, R = 1, [[int(i == j) for j in range(d)] for i in range(d)]
    if blocks and draw(booleans()):
        *rows, k = draw(sampled(blocks))
        n = len(rows)
        R = [[(rows[i][j] if i < n and j < n else k * int(i == j)) for j in range(d)] for i in range(d)]
    R = [R[i] for i in draw(permutations(d))]
    R = [[-x for x in r] if draw(booleans()) else r for r in R]
    s = draw(sampled([1, 1, 2, 3, 16]))
    T = [draw(sampled([0, 1, 100, 1000, 1000, 10 ** 6, 10 ** 7])) * x for x in vec(draw, d, 'int')]
    z = draw(sampled(UNITS2))
    s, T = s * z, scaled(T, z)
    return dict(c, motion=[[[s * x for x in r] for r in R], s * k, T], f=draw(forms), rnd=0)


@facet('C21', 'exact', exact, quick=9000, rule='the query gives a result (not an error) before the motion')
def exact_(c, ctx):
    relation(c, ctx, True)
