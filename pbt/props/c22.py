"""C22: plots.  The artists an object adds to the axes are compared with artists made by Matplotlib from the exact geometry."""
import copy

import matplotlib

matplotlib.use('Agg')
import matplotlib.pyplot as plt

from matplotlib.colors import to_rgba
from skspatial import plotting

from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *

_axes = {}


def axes(dim):
    """Two empty axes of the kind, kept for the process."""
    if dim not in _axes:
        fig = plt.figure()
        kw = dict(projection='3d') if dim == 3 else {}
        _axes[dim] = [fig.add_subplot(1, 2, i, **kw) for i in (1, 2)]
    for ax in _axes[dim]:
        for a in drawn(ax):
            a.remove()
    return _axes[dim]


def drawn(ax):
    return list(ax.collections) + list(ax.lines) + list(ax.patches) + list(ax.texts) + list(ax.images) + list(ax.artists)


def order(ax):
    """Artists in the order they were added."""
    mine = {id(a) for a in drawn(ax)}
    return [a for a in ax.get_children() if id(a) in mine]


def data(a):
    """Geometry of an artist as an array."""
    n = type(a).__name__
    if n == 'Line2D':
        return np.array(a.get_data(), float)
    if n == 'Line3D':
        return np.array(a.get_data_3d(), float)
    if n == 'PathCollection':
        return np.ma.getdata(a.get_offsets()).astype(float)
    if n == 'Path3DCollection':
        return np.array([np.ma.getdata(x) for x in a._offsets3d], float)
    if n == 'Poly3DCollection':
        return np.array(a._vec, float)[:3]
    if n == 'Circle':
        return np.array([*a.center, a.width, a.height], float)
    if n == 'FancyArrow':
        return np.array(a.get_xy(), float)
    raise Violation(f'an unexpected artist was drawn: {a!r}')


def style(a, kw):
    """Values of the keywords at an artist.  Colours of 3D collections depend on the projection, so only the hue counts there."""
    out = {}
    for k in kw:
        if k == 'alpha':
            out[k] = a.get_alpha()
        elif k in ('c', 'color'):
            cols = np.atleast_2d(a.get_facecolor() if hasattr(a, 'get_facecolor') else to_rgba(a.get_color()))[:, :3]
            if type(a).__name__ == 'Poly3DCollection':
                cols = (cols > 0.01) * 1.0
            out[k] = np.unique(cols.round(9), axis=0).tolist()
        elif k == 'label':
            out[k] = a.get_label()
        elif k == 's':
            out[k] = np.array(a.get_sizes()).tolist()
        elif k in ('zorder', 'linewidth', 'visible') and hasattr(a, 'get_' + k):
            out[k] = np.array(getattr(a, 'get_' + k)()).tolist()
    return out


def short(x):
    x = str(x)
    return x if len(x) < 300 else x[:300] + '...'


def compare(ax, ref, what, tol, kw):
    got, want = order(ax), order(ref)
    need([type(a).__name__ for a in got] == [type(a).__name__ for a in want], f'{what}: drew {got}, expected {want}')
    for a, b in zip(got, want):
        x, y = data(a), data(b)
        need(x.shape == y.shape, f'{what}: {type(a).__name__} has geometry of shape {x.shape}, expected {y.shape}')
        if type(b).__name__ == 'FancyArrow':                  # Matplotlib cannot always draw an arrow of length 0
            m = ~np.isfinite(y)
            need(not np.isfinite(x[m]).any(), f'{what}: arrow drawn at {x.tolist()}, expected {y.tolist()}')
            x, y = np.where(m, 0, x), np.where(m, 0, y)
        need(np.isfinite(x).all() and np.abs(x - y).max(initial=0) <= tol, f'{what}: {type(a).__name__} drawn at {short(x.tolist())}, expected {short(y.tolist())}')
        for k in (kw, ('alpha', 'zorder', 'linewidth', 'visible')):      # also without a keyword
            need(style(a, k) == style(b, k), f'{what}: keywords {kw} gave {short(style(a, k))}, expected {short(style(b, k))}')


@cases
def thing(draw):
    what = draw(sampled(['Point', 'Vector', 'Points', 'Line', 'LineSegment', 'Circle', 'Triangle', 'Plane', 'Sphere', 'Cylinder']))
    d = {'Circle': 2, 'Plane': 3, 'Sphere': 3, 'Cylinder': 3}.get(what) or draw(sampled([2, 3]))
    kind = draw(kinds())
    o = offset(draw, d, [0, 0, 1, 16, 1000])
    p = [shifted(vec(draw, d, kind), o) for _ in range({'Points': draw(sampled([1, 2, 4, 9])), 'Triangle': 3, 'LineSegment': 2}.get(what, 1))]
    if len(p) > 1 and draw(integers(0, 2)) == 0:             # all at one x, y or z
        i = draw(integers(0, d - 1))
        p = [[p[0][i] if j == i else x for j, x in enumerate(q)] for q in p]
    opts = {}
    dec = lambda: draw(sampled([0, 0.0, 1, -1, 2])) if draw(integers(0, 3)) == 0 else draw(COORD['dec'])
    if what == 'Vector':
        if draw(booleans()):
            opts['point'] = vec(draw, d, draw(kinds()))
        if draw(booleans()):
            opts['scalar'] = dec()
    if what == 'Line':
        for k in ('t_1', 't_2'):
            if draw(booleans()):
                opts[k] = dec()
    if what == 'Triangle' and draw(booleans()):
        opts['part'] = draw(sampled(['points', 'lines']))
    if what == 'Plane':
        for k in ('lims_x', 'lims_y'):
            if draw(booleans()):
                opts[k] = sorted([dec(), dec()])
    if what in ('Sphere', 'Cylinder') and draw(booleans()):
        opts['n_angles'] = draw(integers(2, 9))
    if what == 'Cylinder' and draw(integers(0, 3)):
        opts['n_along_axis'] = draw(integers(2, 7))
    kw = {}
    if draw(booleans()):
        kw['alpha'] = draw(integers(0, 10)) / 10 if draw(booleans()) else draw(sampled([0, 1, 0.0]))
    if draw(booleans()):
        kw['zorder'] = draw(integers(-1, 9))
    if draw(booleans()):
        k = 'color' if what in ('Circle', 'Plane', 'Sphere', 'Cylinder', 'Vector') and not (what == 'Vector' and d == 3) else 'c'
        kw[k] = draw(sampled(['red', 'k', 'blue', '0.5']))
    if draw(integers(0, 3)) == 0:
        kw['label'] = draw(sampled(['a', 'b c', '']))
    scatter = what in ('Point', 'Points') or (what == 'Triangle' and opts.get('part') != 'lines')
    if draw(booleans()):
        if scatter:
            kw['s'] = draw(integers(0, 90))
        elif what not in ('Plane', 'Sphere', 'Cylinder'):
            kw['linewidth'] = draw(integers(0, 9))
            if what == 'Vector' and d == 2:                  # shape of the arrow
                kw.update({k: draw(integers(1, 9)) / 10 for k in draw(sampled([['head_width'], ['head_length'], ['width'], ['head_width', 'head_length'], ['width', 'overhang']]))})
                if draw(booleans()):
                    kw['length_includes_head'] = draw(booleans())
        else:
            kw.update(draw(sampled([dict(rcount=200, ccount=200), dict(rstride=1, cstride=1)])))
    return dict(what=what, d=d, p=p, v=nonzero(draw, d, draw(kinds())), r=draw(integers(1, 99)) / 10, opts=opts, kw=kw, f=draw(forms), how=draw(sampled(['method', 'plotter', 'plotting'])), times=draw(sampled([1, 1, 2])))


def build(c):
    P, v, r = [form(p, c['f'], Point) for p in c['p']], form(c['v'], c['f'], Vector), c['r']
    w = c['what']
    if w in ('Point', 'Vector'):
        return dict(Point=Point, Vector=Vector)[w](c['p'][0])
    if w == 'Points':
        return Points(form(c['p'], c['f']))
    if w == 'Line':
        return Line(P[0], v)
    if w == 'Plane':
        return Plane(P[0], v)
    if w == 'Cylinder':
        return Cylinder(P[0], v, r)
    if w in ('Circle', 'Sphere'):
        return dict(Circle=Circle, Sphere=Sphere)[w](P[0], r)
    P3 = fm(c['p'])
    if w == 'LineSegment':
        if dist(*P3) <= 1e-6 * mag(*P3):
            raise Discard
        return LineSegment(*P)
    u, x = sub(P3[1], P3[0]), sub(P3[2], P3[0])
    if n2(u) == 0 or n2(x) == 0 or sin2(u, x) < Fraction(1, 10 ** 6):
        raise Discard
    return Triangle(*P)


def reference(c, obj, ax):
    """The same drawing by Matplotlib, from the numbers of the case."""
    w, d, o, kw = c['what'], c['d'], c['opts'], c['kw']
    P = np.array([[float(x) for x in p] for p in c['p']])
    v = np.array([float(x) for x in c['v']])

    def connect(a, b):
        ax.plot(*[[x, y] for x, y in zip(a, b)], **kw)

    if w in ('Point', 'Points'):
        ax.scatter(*P.T, **kw)
    elif w == 'Vector':
        at = np.array([float(x) for x in o.get('point', [0] * d)])
        step = o.get('scalar', 1) * P[0]
        if d == 2:
            ax.arrow(*at, *step, **kw)
        else:
            connect(at, at + step)
    elif w == 'Line':
        connect(P[0] + o.get('t_1', 0) * v, P[0] + o.get('t_2', 1) * v)
    elif w == 'LineSegment':
        connect(*P)
    elif w == 'Circle':
        ax.add_artist(plt.Circle(tuple(P[0]), c['r'], **kw))
    elif w == 'Triangle':
        if o.get('part', 'points') == 'points':
            for p in P:
                ax.scatter(*p[:, None], **kw)
        else:
            for i in range(3):
                connect(P[(i + 1) % 3], P[(i + 2) % 3])
    else:
        ax.plot_surface(*obj.to_mesh(**o), **kw)


@facet('C22', 'artists', thing, quick=1200, rule='options or keywords given',
       pinned=[dict(what=w, d=d, p=[[1, 2, 3][:d], [4, 0, 1][:d], [0, 5, 5][:d]][:k], v=[1, 2, -1][:d], r=2.5, opts=o, kw=kw, f='list', how=h)
               for kw in ({}, dict(label='a', alpha=0.5, zorder=3))
               for w, d, k, o in (('Point', 2, 1, {}), ('Point', 3, 1, {}), ('Vector', 2, 1, {}), ('Vector', 2, 1, dict(point=[5, 6], scalar=3)), ('Vector', 3, 1, dict(point=[5, 6, 7], scalar=-2)),
                                  ('Points', 3, 2, {}), ('Line', 2, 1, {}), ('Line', 2, 1, dict(t_1=-2, t_2=3)), ('Line', 3, 1, dict(t_1=4)), ('LineSegment', 2, 2, {}), ('LineSegment', 3, 2, {}), ('Circle', 2, 1, {}),
                                  ('Triangle', 2, 3, {}), ('Triangle', 2, 3, dict(part='lines')), ('Triangle', 3, 3, dict(part='points')), ('Triangle', 3, 3, dict(part='lines')), ('Plane', 3, 1, {}),
                                  ('Plane', 3, 1, dict(lims_x=[0, 2], lims_y=[3, 4])), ('Sphere', 3, 1, {}), ('Sphere', 3, 1, dict(n_angles=5)), ('Cylinder', 3, 1, {}), ('Cylinder', 3, 1, dict(n_along_axis=3, n_angles=6)))
               for h in ('method', 'plotter', 'plotting')])
def artists(c, ctx):
    obj = build(c)
    d, kw = c['d'], c['kw']
    what = f"{c['what']}.plot_{d}d({c['opts']}, {kw}) by {c['how']}"
    ctx.nt(bool(c['opts'] or kw))
    ctx.label(f"{c['what']} {d}D", c['how'])
    ax, ref = axes(d)
    own = None
    before = snap(obj)
    times = range(c.get('times', 1))
    given = copy.deepcopy([c['opts'], kw])
    if c['how'] == 'method':
        for _ in times:
            res = getattr(obj, f'plot_{d}d')(ax, **c['opts'], **kw)
            need(res is None, f'{what} returned {res!r}')
    else:
        f = obj.plotter(**c['opts'], **kw)
        need(not drawn(ax), f'{what}: plotter() itself drew something')
        if c['how'] == 'plotter':
            for _ in times:
                f(ax)
        else:
            own, ax = (plotting.plot_2d if d == 2 else plotting.plot_3d)(*[f for _ in times])
    try:
        for _ in times:
            reference(c, obj, ref)
        need(given == [c['opts'], kw], f'{what}: changed the keywords to', c['opts'], kw)
        m = max([abs(float(x)) for p in c['p'] + [c['v'], c['opts'].get('point', [])] for x in p] + [c['r']])
        t = max([abs(x) for k in ('t_1', 't_2', 'scalar') for x in [c['opts'].get(k, 1)]] + [1])
        need(snap(obj) == before, f'{what}: changed the object to {obj!r}')
        compare(ax, ref, what, 8 * EPS * m * t * 4, kw)
        if kw.get('rcount') and c['what'] in ('Plane', 'Sphere', 'Cylinder'):
            a, *_ = order(ax)
            verts = {tuple(x) for x in np.round(data(a).T, 9).tolist()}
            mesh = {tuple(x) for x in np.round(np.stack([np.ravel(x) for x in obj.to_mesh(**c['opts'])], axis=1), 9).tolist()}
            need(verts == mesh, f'{what}: the drawn vertices are not those of the mesh')
    finally:
        if own is not None:
            plt.close(own)


@cases
def refused(draw):
    what = draw(sampled(['Point', 'Vector', 'Points', 'Line', 'LineSegment', 'Triangle', 'Plane', 'Sphere4']))
    d = draw(sampled([1, 4, 5, 7])) if what != 'Plane' else draw(sampled([1, 2, 4]))
    return dict(what=what, d=d, p=[vec(draw, d, 'int') for _ in range(3)], kw=draw(sampled([{}, dict(c='k')])))


@facet('C22', 'refused', refused, quick=400, rule='every case')
def refused_(c, ctx):
    d, w = c['d'], c['what']
    ctx.nt()
    ctx.label(f'{w} {d}D')
    p, e = c['p'], [1] + [0] * (d - 1)
    if w == 'Sphere4':                                # 3D functions need 3D axes
        ax = axes(2)[0]
        for o in (Point([1, 2, 3]), Vector([1, 2, 3]), Points([[1, 2, 3]]), Line([0, 0, 0], [1, 0, 0]), LineSegment([0, 0, 0], [1, 0, 0]), Triangle([0, 0, 0], [1, 0, 0], [0, 1, 0])):
            rejects(lambda: o.plotter(**c['kw'])(ax), f'3D plot of {o!r} on 2D axes')
        need(not drawn(ax), 'something was drawn on 2D axes')
        return
    if w == 'Triangle':
        if d == 1:
            return
        obj = Triangle([0] * d, e, e[::-1])
    else:
        obj = dict(Point=lambda: Point(p[0]), Vector=lambda: Vector(p[0]), Points=lambda: Points(p), Line=lambda: Line(p[0], e), LineSegment=lambda: LineSegment([0] * d, e), Plane=lambda: Plane(p[0], e))[w]()
    rejects(lambda: obj.plotter(**c['kw']), f'plotter of {obj!r}')


@cases
def scene(draw):
    d = draw(sampled([2, 3]))
    return dict(d=d, items=draw(lists(tuples(sampled(['Point', 'Vector', 'Line', 'Circle', 'Points', 'call', 'open']), lists(integers(-9, 9), min_size=3, max_size=3)), max_size=6)))


@facet('C22', 'scene', scene, quick=160, rule='at least two plotters')
def scene_(c, ctx):
    d = c['d']
    ctx.nt(len(c['items']) > 1)
    calls, want, fs, opened = [], [], [], []
    for i, (w, x) in enumerate(c['items']):
        x = x[:d]
        if w == 'Circle' and d == 3:
            w = 'call'
        if w == 'call':
            inner = None
        elif w == 'open':                              # a plotter with a figure of its own
            inner = lambda _: opened.append(plt.subplots()[0].number)
        elif w == 'Points':
            inner = Points([x, x]).plotter(alpha=0.5)
            want.append('scatter')
        elif w == 'Circle':
            inner = Circle(x, 2).plotter(fill=False)
            want.append('patch')
        elif w == 'Line':
            inner = Line(x, [1] * d).plotter(t_2=3)
            want.append('line')
        else:
            inner = (Point(x) if w == 'Point' else Vector(x)).plotter()
            want.append('scatter' if w == 'Point' else 'line' if d == 3 else 'patch')
        fs.append(lambda ax, i=i, inner=inner: (calls.append((i, ax)), inner and inner(ax)))
    before = set(plt.get_fignums())
    fig, ax = (plotting.plot_2d if d == 2 else plotting.plot_3d)(*fs)
    try:
        need(fig.number not in before and len(set(plt.get_fignums()) - before - set(opened)) == 1, 'plot did not make exactly one new figure')
        need(all(len(drawn(a)) == 0 for n in opened for a in plt.figure(n).axes), 'a plotter drew on the axes of another figure')
        need(fig.axes == [ax], 'the figure does not hold exactly the returned axes', fig.axes)
        need((ax.name == '3d') == (d == 3), f'plot_{d}d made axes of kind {ax.name}')
        need([i for i, _ in calls] == list(range(len(fs))) and all(a is ax for _, a in calls), f'plot_{d}d called the plotters {[i for i, _ in calls]}')
        kinds_ = {'PathCollection': 'scatter', 'Path3DCollection': 'scatter', 'Line2D': 'line', 'Line3D': 'line', 'Circle': 'patch', 'FancyArrow': 'patch'}
        got = [kinds_.get(type(a).__name__, type(a).__name__) for a in order(ax)]
        need(got == want, f'plot_{d}d drew {got}, expected {want}')
    finally:
        for n in set(plt.get_fignums()) - before:
            plt.close(n)


@facet('C22', 'many', crowd([2, 3], sizes=[65, 129, 300, 513, 1025, 2049, 5001]), quick=100, rule='every case')
def many(c, ctx):
    """Every point of a large array is drawn."""
    x, d = crowd_points(c), c['d']
    ctx.nt()
    ax, ref = axes(d)
    before = dict(matplotlib.rcParams)
    o = Points(crowd_form(x, c['f']))
    getattr(o, f'plot_{d}d')(ax) if c['k'] == 1 else o.plotter()(ax)
    ref.scatter(*x.T.astype(float))
    compare(ax, ref, f'{len(x)} points', 0, {})
    need(dict(matplotlib.rcParams) == before, 'the settings of Matplotlib were changed')
