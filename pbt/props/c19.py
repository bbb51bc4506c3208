"""C19: meshes and surface points."""
from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *


def mesh_arrays(m, what):
    need(type(m) is tuple and len(m) == 3, f'{what} is not a tuple of three arrays', m)
    X, Y, Z = m
    need(np.ndim(X) == 2 and np.shape(X) == np.shape(Y) == np.shape(Z), f'{what}: shapes {np.shape(X)}, {np.shape(Y)}, {np.shape(Z)}')
    return np.stack([arr(X), arr(Y), arr(Z)], axis=-1)


def surface_points(obj, kw, M):
    pts = obj.to_points(**kw)
    isa(pts, Points, 'to_points')
    need(np.array_equal(arr(pts), M.reshape(-1, 3)), f'to_points({kw}) differs from the mesh', pts, M.reshape(-1, 3).tolist()[:4])


def lims(draw):
    a, b = draw(COORD['dec']), draw(COORD['dec'])
    return [min(a, b), max(a, b)] if draw(integers(0, 4)) else [a, b]


@cases
def plane_case(draw):
    kind = draw(kinds())
    n = nonzero(draw, 3, kind)
    if draw(integers(0, 2)) == 0:
        n = nonzero(draw, 2, kind) + [0] if draw(booleans()) else [draw(sampled([1, -1, 2.5, -3])), 0, 0]
    if draw(integers(0, 6)) == 0:
        n[2] = draw(sampled([1e-3, -1e-6, 1e-9]))
    form_ = draw(sampled(['tuple', 'list', 'array']))
    d = 3
    if draw(integers(0, 7)) == 0 and any(n[:2]):           # a 2D plane is the vertical plane through it
        n, d = n[:2], 2
    return dict(p=shifted(vec(draw, d, draw(kinds())), offset(draw, d)), n=scaled(n, draw(sampled(DIRSCALES))), lx=lims(draw), ly=lims(draw), use=draw(sampled(['xy', 'x', 'y', '', 'xy', 'pos'])), lf=form_, f=[draw(forms), draw(forms)])


@facet('C19', 'plane', plane_case, quick=2000, rule='point not at the origin and limits given',
       pinned=[dict(p=[1, 2, 3], n=n, lx=[-1, 2], ly=[3, 5], use=u, lf='tuple', f=['list'] * 2) for u in ('xy', '') for n in ([0, 0, 1], [0, 1, 0], [1, 0, 0], [1, 1, 0], [1, 2, 3])])
def plane(c, ctx):
    pl = Plane(form(c['p'], c['f'][0], Point), form(c['n'], c['f'][1], Vector))
    lx, ly = (c['lx'] if 'x' in c['use'] or c['use'] == 'pos' else [-1, 1]), (c['ly'] if 'y' in c['use'] or c['use'] == 'pos' else [-1, 1])
    make = {'tuple': tuple, 'list': list, 'array': np.array}[c['lf']]
    kw = {}
    if 'x' in c['use']:
        kw['lims_x'] = make(lx)
    if 'y' in c['use']:
        kw['lims_y'] = make(ly)
    ctx.nt(any(c['p']) and bool(c['use']))
    M = mesh_arrays(pl.to_mesh(make(lx), make(ly)) if c['use'] == 'pos' else pl.to_mesh(**kw), 'Plane.to_mesh')
    need(M.shape == (2, 2, 3), f'Plane.to_mesh has shape {M.shape[:2]}')
    p, n = pad(fv(c['p'])), pad(fv(c['n']))
    axes = (0, 1) if n[2] != 0 else (0, 2) if c['n'][1] != 0 else (1, 2)
    ctx.label(''.join('xyz'[a] for a in axes), f"dim{len(c['p'])}")
    t = 4 * EPS * mag(p, fv(lx), fv(ly))
    for i in range(2):
        for j in range(2):
            x = fv(M[i, j])
            for ax, lim in zip(axes, (lx[j], ly[i])):
                need(abs(float(x[ax] - p[ax] - F(lim))) <= t, f'Plane.to_mesh: corner [{i}, {j}] is {M[i, j].tolist()}, the limits are {lx} {ly} around {c["p"]}')
            d = float(dot(sub(x, p), n)) / norm(n)
            need(abs(d) <= 10 * t, f'Plane.to_mesh: corner {M[i, j].tolist()} is off the plane by {d}')
    surface_points(pl, kw if c['use'] != 'pos' else dict(lims_x=make(lx), lims_y=make(ly)), M)


def count(draw, lo=2):
    return draw(sampled([2, 3, 4, 5, 7, 12, 31, None, 1 if lo == 1 else 2, draw(integers(2, 70))] * 3 + [draw(sampled([101, 128, 180, 257, 361, 500]))]))


@cases
def sphere_case(draw):
    return dict(p=shifted(vec(draw, 3, draw(kinds())), offset(draw, 3)), r=draw(integers(1, 200)) / draw(sampled([1, 10, 1000])), s=draw(sampled([1, 1, 1e3, 1e-3, 1e-8, 1e8])), n=count(draw, 1), pos=draw(booleans()), f=draw(forms))


def turn(M, center, axis, what, n, r, t):
    """Rows of M (n positions of one full turn about the axis): equal steps and closed."""
    if n == 1:
        return
    w = M - center
    w = w - np.multiply.outer(w @ axis, axis)
    need(np.abs(np.linalg.norm(w, axis=-1) - r).max() <= t, f'{what}: distance to the axis is not {r}')
    need(np.abs(M[0] - M[-1]).max() <= t, f'{what}: the turn is not closed')
    chord = 2 * r * abs(math.sin(math.pi / (n - 1)))
    need(np.abs(np.linalg.norm(np.diff(w, axis=0), axis=-1) - chord).max() <= t, f'{what}: steps of the turn are not equal')
    if n > 3:                       # once around: the rotation by one step maps each position to the next
        a = 2 * math.pi / (n - 1)
        for sign in (1, -1):
            z = math.cos(a) * w[:-1] + sign * math.sin(a) * np.cross(axis, w[:-1])
            if np.abs(z - w[1:]).max() <= 4 * t:
                return
        raise Violation(f'{what}: the positions do not go around once')


@facet('C19', 'sphere', sphere_case, quick=1500, rule='centre not at the origin',
       pinned=[dict(p=[1, 2, 3], r=2, s=1, n=n, pos=p, f='list') for n in (None, 2, 5) for p in (True, False)])
def sphere(c, ctx):
    r = c['r'] * c['s']
    s = Sphere(form(c['p'], c['f'], Point), r)
    n = c['n'] or 30
    kw = dict(n_angles=c['n']) if c['n'] else {}
    ctx.nt(any(c['p']))
    M = mesh_arrays(s.to_mesh(*kw.values()) if c['pos'] else s.to_mesh(**kw), 'Sphere.to_mesh')
    need(M.shape == (n, n, 3), f'Sphere.to_mesh({kw}) has shape {M.shape[:2]}')
    p = np.array([float(x) for x in c['p']])
    t = 20 * EPS * (np.abs(p).max() + r)
    need(np.abs(np.linalg.norm(M - p, axis=-1) - r).max() <= t, 'Sphere.to_mesh: a point is not on the sphere')
    z = np.array([0.0, 0, 1])
    th = np.linspace(0, math.pi, n)
    need(np.abs(M[..., 2] - (p[2] + r * np.cos(th))[:, None]).max() <= t or np.abs(M[..., 2] - (p[2] - r * np.cos(th))[:, None]).max() <= t,
         'Sphere.to_mesh: the rows do not run from pole to pole in equal angles')
    for i in range(n):
        turn(M[i], p, z, f'Sphere.to_mesh row {i} of {n}', n, r * math.sin(th[i]), 2 * t)
    surface_points(s, kw, M)


@cases
def cylinder_case(draw):
    return dict(p=shifted(vec(draw, 3, draw(kinds())), offset(draw, 3)), v=scaled(nonzero(draw, 3, draw(kinds())), draw(sampled([1, 1, 1, 1e3, 1e-3, 1e-8]))), r=draw(integers(1, 200)) / draw(sampled([1, 10, 1000, 1e9])),
                n=count(draw), m=count(draw, 1), pos=draw(booleans()), f=[draw(forms), draw(forms)])


@facet('C19', 'cylinder', cylinder_case, quick=1200, rule='axis not along a coordinate axis',
       pinned=[dict(p=[1, 2, 3], v=v, r=2, n=n, m=m, pos=p, f=['list'] * 2) for n, m, p in ((None, None, True), (2, 5, False), (4, None, False), (None, 3, False))
               for v in ([0, 0, 2], [1, 0, 0], [-1, 2, 5], [1, 1, 1])])
def cylinder(c, ctx):
    cy = Cylinder(form(c['p'], c['f'][0], Point), form(c['v'], c['f'][1], Vector), c['r'])
    m, n = c['m'] or 100, c['n'] or 30
    kw = {}
    if c['m']:
        kw['n_along_axis'] = c['m']
    if c['n']:
        kw['n_angles'] = c['n']
    ctx.nt(sum(x != 0 for x in c['v']) > 1)
    if m > 100 and n > 100:
        raise Discard
    M = mesh_arrays(cy.to_mesh(m, n) if c['pos'] else cy.to_mesh(**kw), 'Cylinder.to_mesh')
    need(M.shape == (n, m, 3), f'Cylinder.to_mesh({kw}) has shape {M.shape[:2]}')
    p, v, r = np.array([float(x) for x in c['p']]), np.array([float(x) for x in c['v']]), float(c['r'])
    L = np.linalg.norm(v)
    u = v / L
    t = 20 * EPS * (np.abs(p).max() + L + r) + 1e-13 * r
    ax = (M - p) @ u
    want = np.linspace(0, L, m)
    need(np.abs(ax - want).max() <= t or np.abs(ax - want[::-1]).max() <= t, f'Cylinder.to_mesh: the axial positions are not those from base to top, {ax[0].tolist()[:5]}')
    turn(M, p, u, 'Cylinder.to_mesh', n, r, 2 * t)
    if not c['pos']:
        surface_points(cy, kw, M)
