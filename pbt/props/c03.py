"""C03: purity.  Arguments, objects and earlier results keep their values, calls repeat, and objects behave like freshly built ones."""
import copy
import os
import queue
import sys
import threading

from ..engine import facet
from ..exact import *
from ..gen import *
from ..lib import *
from ..ops import CLASS, OPS, PARTS, arguments, build, call, draw_op, received
import skspatial
from skspatial.measurement import area_signed, area_triangle, volume_tetrahedron
from skspatial.transformation import transform_coordinates


def world():
    """Global state a library call has no business with."""
    st = np.random.get_state()
    return np.geterr(), repr(np.get_printoptions()), st[1].tobytes(), st[2]


def outcome(fn):
    ok, r = attempt(fn)
    return (True, r) if ok else (False, type(r).__name__)


def agree(a, b, loose, size):
    """Equality of outcomes; loose: the order of summation may differ."""
    if a[0] != b[0]:
        return False
    return (a[1] == b[1]) if not a[0] else same(a[1], b[1]) or (loose and roughly(a[1], b[1], size))


def roughly(a, b, size):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(roughly(x, y, size) for x, y in zip(a, b))
    if isinstance(a, OBJECTS):
        return fields(a).keys() == fields(b).keys() and all(roughly(fields(a)[k], fields(b)[k], size) for k in fields(a))
    if isinstance(a, (np.ndarray, float, np.floating)) and np.shape(a) == np.shape(b):
        x, y = np.asarray(a, float), np.asarray(b, float)
        return x.size == 0 or bool(np.abs(x - y).max() <= 1e-7 * (1 + max(np.abs(x).max(), size, size ** 3))) or bool(np.array_equal(x, y, equal_nan=True))
    return isinstance(a, str) or a == b


FORM = ['tuple', 'array', 'obj', 'alt', 'readonly', 'strided', 'scalars', 'farray', 'list']


@cases
def single(draw):
    c = draw_op(draw, kind=draw(sampled(['int', 'int', 'med', 'dec', 'fl'])), offsets=[0, 0, 1, 100])
    return dict(c, f=draw(sampled(FORM)))


@facet('C03', 'pure', single, quick=9000, rule='the call gives a result (not an error)')
def pure(c, ctx):
    o, raws, f = OPS[c['op']], c['raw'], c['f']
    ok, args = attempt(lambda: arguments(o, raws, f))
    if not ok:
        raise Discard
    ctx.label(c['op'], f)
    before, w = snap(args), world()
    one = outcome(lambda: o.fn(*args))
    kept = snap(one)
    what = f"{c['op']} of {raws} as {f}"
    need(snap(args) == before, f'{what}: the arguments were changed to {args!r}')
    two = outcome(lambda: o.fn(*args))
    need(agree(one, two, False, 0), f'{what}: gave {one[1]!r} and then {two[1]!r}')
    need(snap(one) == kept, f'{what}: the first result was changed to {one[1]!r} by the second call')
    need(snap(args) == before, f'{what}: the arguments were changed to {args!r} by the second call')
    need(world() == w, f'{what}: changed the error state, print options or random state of NumPy')
    ok, again = attempt(lambda: arguments(o, raws, f))
    poke(two[1])                                          # a caller may do with a result what it likes
    if c['op'] != 'Triangle.points' and not composite(two[1]):
        need(snap(args) == before, f'{what}: a change of the result in place changed the arguments to {args!r}')
    three = outcome(lambda: o.fn(*again))
    need(snap(three) == kept, f'{what}: gave {three[1]!r} after an earlier result was modified by its owner')
    one = three
    plain = outcome(lambda: o.fn(*arguments(o, raws, 'list')))
    size = max([0, *(abs(float(x)) for x in flatten(raws))])
    if f in ('strided', 'farray') and not (exact(raws) and o.exact) and verdict(one) != verdict(plain):
        raise Discard                                   # the order of summation decides about an error, or on a surface
    need(agree(one, plain, f in ('strided', 'farray'), size), f'{what}: gave {one[1]!r}, but as lists {plain[1]!r}')
    ctx.nt(one[0])


KEYWORDS = {
    'Vector.cross': 'other', 'Vector.cosine_similarity': 'other', 'Vector.angle_between': 'other', 'Vector.angle_signed': 'other',
    'Vector.angle_signed_3d': 'other direction_positive', 'Vector.is_perpendicular': 'other', 'Vector.is_parallel': 'other', 'Vector.side_vector': 'other',
    'Vector.scalar_projection': 'other', 'Vector.project_vector': 'other', 'Vector.from_points': 'point_a point_b', 'Vector.is_equal': 'other',
    'Point.distance_point': 'other', 'Point.is_equal': 'other',
    'Line.from_points': 'point_a point_b', 'Line.from_slope': 'slope y_intercept', 'Line.to_point': 't', 'Line.project_point': 'point', 'Line.project_points': 'points',
    'Line.project_vector': 'vector', 'Line.side_point': 'point', 'Line.distance_point': 'point', 'Line.distance_points': 'points', 'Line.distance_line': 'other',
    'Line.is_coplanar': 'other', 'Line.intersect_line': 'other', 'Line.best_fit': 'points', 'Line.transform_points': 'points', 'Line.sum_squares': 'points',
    'LineSegment.contains_point': 'point', 'LineSegment.intersect_line_segment': 'other',
    'Plane.from_vectors': 'point vector_a vector_b', 'Plane.from_points': 'point_a point_b point_c', 'Plane.project_point': 'point', 'Plane.project_points': 'points',
    'Plane.project_vector': 'vector', 'Plane.project_line': 'line', 'Plane.distance_point_signed': 'point', 'Plane.distance_points_signed': 'points',
    'Plane.distance_point': 'point', 'Plane.side_point': 'point', 'Plane.intersect_line': 'line', 'Plane.intersect_plane': 'other', 'Plane.best_fit': 'points', 'Plane.sum_squares': 'points',
    'Circle.from_points': 'point_a point_b point_c', 'Circle.distance_point': 'point', 'Circle.project_point': 'point', 'Circle.intersect_line': 'line',
    'Circle.intersect_circle': 'other', 'Circle.best_fit': 'points', 'Sphere.distance_point': 'point', 'Sphere.project_point': 'point', 'Sphere.intersect_line': 'line', 'Sphere.best_fit': 'points',
    'Cylinder.from_points': 'point_a point_b radius', 'Cylinder.is_point_within': 'point', 'Cylinder.intersect_line': 'line',
    'area_triangle': 'point_a point_b point_c', 'volume_tetrahedron': 'point_a point_b point_c point_d', 'area_signed': 'points',
    'transform_coordinates': 'points point_origin vectors_basis',
}
FUNCTIONS = dict(area_triangle=area_triangle, volume_tetrahedron=volume_tetrahedron, area_signed=area_signed, transform_coordinates=transform_coordinates)


@cases
def named(draw):
    c = draw_op(draw, lambda o: o.name in KEYWORDS, kind=draw(sampled(['int', 'med', 'dec', 'fl'])), offsets=[0, 0, 1, 100])
    return dict(c, f=draw(sampled(FORM)), perm=draw(integers(0, 5)), split=draw(integers(0, 3)))


@facet('C03', 'keywords', named, quick=2000, rule='the call gives a result (not an error)')
def keywords(c, ctx):
    """Arguments by their documented names, in any order, are the positional ones."""
    o, names = OPS[c['op']], KEYWORDS[c['op']].split()
    ok, args = attempt(lambda: arguments(o, c['raw'], c['f']))
    if not ok:
        raise Discard
    one = outcome(lambda: o.fn(*args))
    ok, args = attempt(lambda: arguments(o, c['raw'], c['f']))
    cls, _, method = c['op'].partition('.')
    if not method:
        fn = FUNCTIONS[cls]
    elif '.from_' in c['op'] or method == 'best_fit':
        fn = getattr(globals()[cls], method)
    else:
        fn, args = getattr(args[0], method), args[1:]
    k = min(c['split'], len(names)) if c['split'] < len(names) else 0    # the first ones may be positional
    pairs = list(zip(names, args, strict=True))[k:]
    for i in range(c['perm'] % max(1, len(pairs))):
        pairs.insert(0, pairs.pop())
    two = outcome(lambda: fn(*args[:k], **dict(pairs)))
    need(agree(one, two, False, 0), f"{c['op']} of {c['raw']} as {c['f']}: gave {one[1]!r}, but with keywords {[n for n, _ in pairs]} {two[1]!r}")
    ctx.label(c['op'])
    ctx.nt(one[0])


def composite(x):
    """A line or plane made of another object's point or vector holds that array."""
    return isinstance(x, OBJECTS) or isinstance(x, (tuple, list)) and any(map(composite, x))


def verdict(o):
    """The part of an outcome that rounding may flip."""
    return o[0], int(o[1]) if o[0] and isinstance(o[1], (bool, np.bool_, int, np.integer)) else None


def poke(x):
    """Overwrite every array in a result."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'if':
            x[...] = x * 3 + 7
    elif isinstance(x, (tuple, list)):
        for y in x:
            poke(y)
    elif isinstance(x, OBJECTS):
        for y in fields(x).values():
            poke(y)


def flatten(x):
    return [z for y in x for z in flatten(y)] if isinstance(x, (list, tuple)) else [x]


def exact(raws):
    return all(float(x).is_integer() for x in flatten(raws))


# --------------------------------------------------------------------------------- updates

ATTRS = dict(L=('point', 'direction'), K=('point', 'normal'), G=('point_a', 'point_b'), T=('point_a', 'point_b', 'point_c'), C=('point', 'radius'), S=('point', 'radius'), Y=('point', 'vector', 'radius'))


def apply(obj, t, new, j, assign):
    """Give part j of obj its new value, by assigning the attribute or in place."""
    if t not in CLASS:
        obj[...] = new
        return True
    name, part = ATTRS[t][j], PARTS[t][j]
    if isinstance(getattr(type(obj), name, None), property):
        return False
    if part == 'r':
        setattr(obj, name, new[j])
    elif assign:
        value = (Vector if part == 'v' else Point)(new[j])
        setattr(obj, name, value)
        if part == 'v':
            obj.vector = value
    else:
        getattr(obj, name)[...] = new[j]
    return True


def changed(draw, raw, d, kind, part):
    if part == 'r':
        return float(draw(integers(1, 50)))
    m = draw(integers(0, 3))
    if m == 0:                                            # one coordinate
        i = draw(integers(0, d - 1))
        return [draw(COORD[kind]) if k == i else x for k, x in enumerate(raw)]
    if m == 1:
        return [-x for x in raw]
    if m == 2:
        return raw[1:] + raw[:1]
    return nonzero(draw, d, kind)


@cases
def updated(draw):
    names = sorted(n for n, o in OPS.items() if any(t in CLASS or t in 'pvzxPq' for t in o.tokens))
    o = OPS[draw(sampled(names))]
    d = draw(sampled(o.dims))
    kind = draw(sampled(['int', 'med', 'dec', 'fl']))
    c = draw_op(draw, lambda p: p is o, kind=kind, offsets=[0])
    raws, d = c['raw'], c['d']
    first, steps = raws, []
    for _ in range(draw(sampled([1, 1, 2]))):
        i = draw(sampled([k for k, t in enumerate(o.tokens) if t in CLASS or t in 'pvzxPq']))
        t, raw = o.tokens[i], copy.deepcopy(raws[i])
        if t in CLASS:
            j = draw(integers(0, len(raw) - 1))
            raw[j] = changed(draw, raw[j], d, kind, PARTS[t][j])
        elif t in 'Pq':
            j = draw(integers(0, len(raw) - 1))
            raw[j] = changed(draw, raw[j], d, kind, 'p')
        else:
            j, raw = 0, changed(draw, raw, d, kind, 'v' if t in 'vx' else 'p')
        raws = raws[:i] + [raw] + raws[i + 1:]
        steps.append([i, j, draw(booleans()), raw])
    owner = next((i for i, t in enumerate(o.tokens) if t in CLASS), None)
    touched = {s[0] for s in steps}
    if owner is not None and draw(booleans()):            # points on or in the object, as it was or as it becomes
        for i, t in enumerate(o.tokens):
            if t in 'pP' and i not in touched:
                p = inside(draw, o.tokens[owner], draw(sampled([first, raws]))[owner])
                first = first[:i] + [p if t == 'p' else [p] + first[i][1:]] + first[i + 1:]
    return dict(c, raw=first, steps=steps)


def inside(draw, t, raw):
    p, parts = raw[0], PARTS[t]
    for s, x in zip(parts[1:], raw[1:]):
        u = draw(sampled([0, 0.5, 1, 0.25]))
        if s == 'v':
            p = [a + u * b for a, b in zip(p, x)] if t != 'K' else p
        elif s == 'p':
            p = [a + u * (b - a) for a, b in zip(p, x)]
        elif t != 'Y':
            p = [p[0] + u * x] + p[1:]
    return p


@facet('C03', 'update', updated, quick=9000, rule='the calls before and after the update give different results')
def update(c, ctx):
    o, raws = OPS[c['op']], copy.deepcopy(c['raw'])
    as_float = lambda t, x: x if t in ('n', 't1', 't2') else np.array(x, float).tolist() if t not in CLASS else [float(y) if s == 'r' else np.array(y, float).tolist() for s, y in zip(PARTS[t], x)]
    raws = [as_float(t, x) for t, x in zip(o.tokens, raws)]
    ok, args = attempt(lambda: [build(t, r, 'obj') if t != 'z' else Vector(r) for t, r in zip(o.tokens, raws)])
    if not ok:
        raise Discard
    args = received(o, args)
    ctx.label(c['op'])
    first = kept = snap(outcome(lambda: o.fn(*args)))
    for i, j, assign, new in c['steps']:
        t = o.tokens[i]
        new = as_float(t, new)
        fresh = attempt(lambda: arguments(o, raws[:i] + [new] + raws[i + 1:], 'obj'))[0]
        if not fresh:
            raise Discard                                 # the new data would not be accepted
        if isinstance(args[i], np.ndarray):
            args[i][...] = new
        elif isinstance(args[i], list):
            raise Discard
        elif not apply(args[i], t, new, j, assign):
            raise Discard
        raws[i] = new
        got = outcome(lambda: o.fn(*args))
        want = outcome(lambda: o.fn(*arguments(o, copy.deepcopy(raws), 'obj')))
        need(agree(got, want, False, 0), f"{c['op']} of {raws} after the updates {c['steps']} of {c['raw']}: gave {got[1]!r}; freshly built objects give {want[1]!r}")
        kept = snap(got)
    ctx.nt(kept != first)


@cases
def order(draw):
    kind, n = draw(sampled(['int', 'dec', 'fl'])), draw(integers(2, 5))
    one = draw_op(draw, kind=kind, offsets=[0])
    group = one['op'].partition(' ')[0]
    calls = [one]
    for _ in range(n):
        m = draw(integers(0, 3))
        if m == 0:
            calls.append(draw_op(draw, kind=kind, offsets=[0]))
        else:
            calls.append(draw_op(draw, lambda o: o.name.partition(' ')[0] == group, kind=kind, offsets=[0]))
    for x in calls:
        x['raw'] = [draw(sampled([1e-3, 0.5, 10.0, 1e3])) if t in ('t1', 't2') else r for t, r in zip(OPS[x['op']].tokens, x['raw'])]
    return dict(calls=calls, f=draw(sampled(['list', 'obj', 'array'])))


@facet('C03', 'order', order, quick=4500, rule='the calls have at least two different results')
def order_(c, ctx):
    def go(calls):
        out = []
        for x in calls:
            o = OPS[x['op']]
            out.append(snap(outcome(lambda: o.fn(*arguments(o, x['raw'], c['f'])))))
        return out
    one = go(c['calls'])
    two = go(c['calls'][::-1])[::-1]
    for x, a, b in zip(c['calls'], one, two):
        need(a == b, f"{x['op']} of {x['raw']} gives {a} or {b}, depending on the calls before it: {c['calls']}")
    ctx.nt(len(set(map(repr, one))) > 1)
    ctx.label(c['calls'][0]['op'])


# --------------------------------------------------------------------------------- histories

SLOTS = ['p', 'p', 'p', 'z', 'z', 'P', 'L', 'L', 'G', 'G', 'T']


@cases
def history(draw):
    d = draw(sampled([2, 3, 3]))
    kind = draw(kinds(['int', 'med', 'dec', 'fl']))
    tokens = SLOTS + (['K', 'K', 'S', 'Y'] if d == 3 else ['C', 'C'])
    one = {'p': lambda: vec(draw, d, kind), 'v': lambda: nonzero(draw, d, kind), 'z': lambda: nonzero(draw, d, kind), 'r': lambda: float(draw(integers(1, 9))), 'P': lambda: [vec(draw, d, kind) for _ in range(draw(integers(4, 6)))]}
    slots = []
    for t in tokens:
        raw = [one[s]() for s in PARTS[t]]
        slots.append([t, raw if t in CLASS else raw[0]])
    names = sorted(n for n, o in OPS.items() if d in o.dims and all(x in tokens or x in ('n', 't1', 't2', 'x', 'q', 'v', 'r') for x in o.tokens))
    steps = []
    for _ in range(draw(integers(3, 12))):
        m = draw(integers(0, 9))
        if m < 6:
            op = OPS[draw(sampled(names))]
            steps.append(['call', op.name, [draw(integers(0, 5)) for _ in op.tokens]])
        elif m < 8:
            steps.append(['set', draw(integers(0, len(slots) - 1)), draw(integers(0, 5)), draw(integers(0, 2)), draw(COORD[kind])])
        elif m == 8:
            steps.append(['attr', draw(integers(0, len(slots) - 1)), draw(integers(0, 2)), nonzero(draw, d, kind)])
        elif steps:
            steps.append(draw(sampled(steps)))           # the same step again
    return dict(d=d, slots=slots, steps=steps)


@facet('C03', 'history', history, quick=2600, rule='at least two calls and one update')
def history_(c, ctx):
    d = c['d']
    model = copy.deepcopy(c['slots'])
    ok, objs = attempt(lambda: [build(t, raw, 'obj') if t != 'z' else Vector(raw) for t, raw in model])
    if not ok:
        raise Discard
    results, done = [], []
    calls = updates = 0
    for step in c['steps']:
        what = f"after {done}, {step} on {model}"
        if step[0] == 'call':
            o = OPS[step[1]]
            args, raws = [], []
            for t, i in zip(o.tokens, step[2]):
                if t in ('n', 't1', 't2', 'r'):
                    args.append(0.5 + i)
                    raws.append(0.5 + i)
                    continue
                like = {'v': 'z', 'x': 'z', 'q': 'P'}.get(t, t)
                at = [k for k, (s, _) in enumerate(model) if s == like]
                args.append(objs[at[i % len(at)]])
                raws.append(model[at[i % len(at)]][1])
            before = snap(objs)
            kept = snap(results)
            got = outcome(lambda: o.fn(*received(o, list(args))))
            need(snap(objs) == before, f'{what}: the call changed an object')
            need(snap(results) == kept, f'{what}: the call changed an earlier result')
            want = outcome(lambda: o.fn(*arguments(o, copy.deepcopy(raws), 'obj')))
            need(agree(got, want, False, 0), f'{what}: gave {got[1]!r}; freshly built objects give {want[1]!r}')
            if got[0]:
                results.append(got[1])
            calls += 1
        else:
            k = step[1]
            t, raw = model[k]
            new = copy.deepcopy(raw)
            parts = PARTS[t]
            if t not in CLASS:                            # an array object
                if step[0] == 'attr':
                    new = ([step[3]] + new[1:]) if t == 'P' else step[3]
                else:
                    row = new[step[2] % len(new)] if t == 'P' else new
                    row[step[3] % d] = step[4]
            else:
                j = step[2] % len(parts)
                if parts[j] == 'r':
                    if step[0] == 'set':
                        continue
                    new[j] = 1.0 + abs(float(step[3][0]))
                elif step[0] == 'attr':
                    new[j] = step[3]
                else:
                    new[j][step[3] % d] = step[4]
            if not attempt(lambda: build(t, new, 'obj'))[0]:
                continue                                  # the new data would not be accepted
            updates += 1
            if not apply(objs[k], t, new, j if t in CLASS else 0, step[0] == 'attr'):
                continue                                  # cannot be assigned
            model[k][1] = new
        done.append(step)
    ctx.nt(calls > 1 and updates)
    ctx.label(f'{min(calls, 9)} calls', f'{min(updates, 5)} updates')


@cases
def fits(draw):
    d = [draw(sampled([1, 2, -1, 0.5, 3])) for _ in range(3)]
    return dict(p=vec(draw, 3, 'dec'), v=[x * draw(sampled([1, 4])) for x in d], r=draw(sampled([1.0, 0.5, 2.0])), n=draw(integers(8, 16)), f=draw(sampled(FORM)))


@facet('C03', 'cylinder_fit', fits, quick=48, thorough=400, rule='every case')
def cylinder_fit(c, ctx):
    p, v = np.array(c['p'], float), np.array(c['v'], float)
    u = v / np.linalg.norm(v)
    e = np.cross(u, [1.0, 0, 0] if abs(u[0]) < 0.8 else [0, 1.0, 0])
    e /= np.linalg.norm(e)
    w = np.cross(u, e)
    pts = [(p + 3 * c['r'] * (i / c['n']) * u + c['r'] * (np.cos(2.4 * i) * e + np.sin(2.4 * i) * w)).tolist() for i in range(c['n'])]
    x = form(pts, c['f'])
    before = snap(x)
    one, state = outcome(lambda: Cylinder.best_fit(x)), world()
    need(snap(x) == before, 'Cylinder.best_fit changed its points')
    outcome(lambda: Cylinder.best_fit([[0, 0, 1], [1, 0, 0], [0, 1, 3], [-1, 0, 5], [0, -1, 2], [1, 0, 7], [0, 1, 8], [0.6, 0.8, 9]]))
    two = outcome(lambda: Cylinder.best_fit(x))
    need(agree(one, two, False, 0), f'Cylinder.best_fit of the same points gave {one[1]!r} and then {two[1]!r}')
    need(world() == state, 'Cylinder.best_fit changed global state of NumPy')
    plain = outcome(lambda: Cylinder.best_fit(pts))
    need(agree(one, plain, c['f'] in ('strided', 'farray'), 10), f"Cylinder.best_fit of {c['f']} gave {one[1]!r}, but of lists {plain[1]!r}")
    ctx.nt()


# --------------------------------------------------------------------------------- one object in two places

ARRAY = {'p': 'p', 'v': 'v', 'z': 'v', 'x': 'v'}


def places(o):
    """Pairs of arguments that can be one object: both whole, or the second a part of the first."""
    out = []
    for i, s in enumerate(o.tokens):
        for j, t in enumerate(o.tokens):
            if i < j and (s == t and s in CLASS or s in ARRAY and ARRAY.get(t) == ARRAY[s]):
                out.append((i, j, -1))
            if s in CLASS and t in ARRAY:
                out += [(i, j, k) for k, part in enumerate(PARTS[s]) if part == ARRAY[t]]
            if s in CLASS and t in CLASS and i != j:
                out += [(i, j, k) for k, part in enumerate(PARTS[s]) if part == PARTS[t][0]]
    return out


@cases
def aliased(draw):
    o = OPS[draw(sampled(sorted(n for n, o in OPS.items() if places(o))))]
    c = draw_op(draw, lambda p: p is o, kind=draw(sampled(['int', 'int', 'med', 'dec', 'fl'])), offsets=[0, 0, 1, 100])
    return dict(c, at=draw(sampled(places(o))))


@facet('C03', 'alias', aliased, quick=3000, rule='the call gives a result (not an error)',
       pinned=[dict(op='Line.intersect_line', d=d, raw=[[[1, 2, 3][:d], [2, 0, 1][:d]]] * 2, at=[0, 1, -1]) for d in (2, 3)])
def alias(c, ctx):
    """An object in two places of a call gives what equal objects give."""
    o, raws = OPS[c['op']], copy.deepcopy(c['raw'])
    i, j, k = c['at']
    s, t = o.tokens[i], o.tokens[j]
    if k < 0:
        raws[j] = raws[i]
    elif t in CLASS:
        raws[j][0] = raws[i][k]
    else:
        raws[j] = raws[i][k]
    ok, args = attempt(lambda: [build(x, r, 'obj') for x, r in zip(o.tokens, raws)])
    if not ok:
        raise Discard
    args = received(o, args)
    want = outcome(lambda: o.fn(*received(o, [build(x, copy.deepcopy(r), 'obj') for x, r in zip(o.tokens, raws)])))
    if k < 0:
        if type(args[i]) is not type(args[j]):
            raise Discard
        args[j] = args[i]
    else:
        part = getattr(args[i], ATTRS[s][k])
        if t in CLASS:
            if isinstance(getattr(CLASS[t], ATTRS[t][0], None), property):
                raise Discard
            setattr(args[j], ATTRS[t][0], part)
        elif j == 0 and type(part) is not type(args[0]):
            raise Discard
        else:
            args[j] = part
    ctx.label(c['op'])
    before = snap(args)
    got = outcome(lambda: o.fn(*args))
    what = f"{c['op']} of {raws}, where one object is at {c['at']}"
    need(agree(got, want, False, 0), f'{what}: gave {got[1]!r}, equal objects give {want[1]!r}')
    need(snap(args) == before, f'{what}: the arguments were changed to {args!r}')
    ctx.nt(got[0])


# --------------------------------------------------------------------------------- results that equal an argument

def unit_of(d, i, s=1.0):
    return [s if j == i else 0.0 for j in range(d)]


def trivial_calls(c):
    """name, arguments, call: computations whose result has the values of an argument."""
    d, i, p, v, t = c['d'], c['i'] % c['d'], c['p'], c['v'], c['t']
    a = lambda x: np.array(x, dtype=c['dt'])
    P, V = lambda x: Point(a(x)), lambda x: Vector(a(x))
    e, z = unit_of(d, i), [0.0] * d
    rows = sorted(map(list, set(map(tuple, c['rows'] + [p]))))
    L, K = Line(P(p), V(e)), Plane(P(p), V(e))
    on = [x + t * y for x, y in zip(p, e)]
    off = [x + t * y for x, y in zip(p, unit_of(d, (i + 1) % d))]
    yield 'unit', [V(e)], lambda u: u.unit()
    yield 'round', [V(v)], lambda u: u.round(c['n'])
    yield 'round of Points', [Points(a(rows))], lambda x: x.round(c['n'])
    yield 'set_dimension', [V(v)], lambda u: u.set_dimension(d)
    yield 'set_dimension of Points', [Points(a(rows))], lambda x: x.set_dimension(d)
    yield 'to_array', [V(v)], lambda u: u.to_array()
    yield 'to_array of Points', [Points(a(rows))], lambda x: x.to_array()
    yield 'Points', [a(rows)], lambda x: Points(x)
    yield 'unique', [Points(a(rows))], lambda x: x.unique()
    yield 'centroid', [Points(a([p]))], lambda x: x.centroid()
    yield 'mean_center', [Points(a([v, [-x for x in v]]))], lambda x: x.mean_center()
    yield 'mean_center with centroid', [Points(a([v, [-x for x in v]]))], lambda x: x.mean_center(return_centroid=True)
    yield 'normalize_distance', [Points(a([e, z]))], lambda x: x.normalize_distance()
    yield 'from_points', [a(z), a(v)], lambda x, y: Vector.from_points(x, y)
    yield 'project_vector', [V(e), a([t * x for x in e])], lambda x, y: x.project_vector(y)
    yield 'Line.project_vector', [L, a([t * x for x in e])], lambda l, y: l.project_vector(y)
    yield 'Plane.project_vector', [K, V([t * x for x in unit_of(d, (i + 1) % d)] if d > 1 else z)], lambda k, y: k.project_vector(y)
    yield 'to_point(0)', [L], lambda l: l.to_point(0)
    yield 'to_point(t=0)', [L], lambda l: l.to_point(t=0.0)
    yield 'to_point', [Line(P(z), V(e))], lambda l: l.to_point()
    for x in (p, on):
        yield 'Line.project_point', [L, P(x)], lambda l, y: l.project_point(y)
        yield 'Line.project_point', [L, a(x)], lambda l, y: l.project_point(y)
        yield 'Line.project_points', [L, Points(a([x, p]))], lambda l, y: l.project_points(y)
        yield 'Line.project_points', [L, a([x, p])], lambda l, y: l.project_points(y)
    for x in (p, off if d > 1 else p):
        yield 'Plane.project_point', [K, P(x)], lambda k, y: k.project_point(y)
        yield 'Plane.project_point', [K, a(x)], lambda k, y: k.project_point(y)
        yield 'Plane.project_points', [K, Points(a([x, p]))], lambda k, y: k.project_points(y)
        yield 'Plane.project_points', [K, a([x, p])], lambda k, y: k.project_points(y)
    yield 'Plane.intersect_line', [K, Line(P(p), V(e))], lambda k, l: k.intersect_line(l)
    yield 'own point', [K, L], lambda k, l: k.project_point(l.point)
    if d in (2, 3):
        f = unit_of(d, (i + 1) % d)
        yield 'intersect_line', [L, Line(P(p), V(f))], lambda l, m: l.intersect_line(m)
        q = [x + t * y for x, y in zip(p, f)]
        r = [x + y for x, y in zip(p, e)]
        for m in (LineSegment(P(p), P(q)), LineSegment(P(q), P(p))):
            yield 'intersect_line_segment', [LineSegment(P(p), P(r)), m], lambda g, h: g.intersect_line_segment(h)
        for s in 'ABC':
            yield 'orthocenter', [Triangle(*{'A': (P(p), P(q), P(r)), 'B': (P(q), P(p), P(r)), 'C': (P(q), P(r), P(p))}[s])], lambda x: x.orthocenter()
        yield 'Triangle.centroid', [Triangle(P(p), P(q), P(r))], lambda x: x.centroid()
        S = (Circle if d == 2 else Sphere)(P(p), t)
        yield 'project_point of the surface', [S, P(on)], lambda o, y: o.project_point(y)
        yield 'project_point of the surface', [S, a(on)], lambda o, y: o.project_point(y)
        yield 'tangent', [S, Line(P(on), V(f))], lambda o, l: o.intersect_line(l)
        yield 'secant', [S, Line(P(on), V(e))], lambda o, l: o.intersect_line(l)
        yield 'circle and sphere mesh', [S], lambda o: o.to_mesh(n_angles=3) if o.dimension == 3 else o.area()
    if d == 2:
        yield 'intersect_circle', [Circle(P(p), t), Circle(P([x + 2 * y for x, y in zip(p, [t * w for w in e])]), t)], lambda x, y: x.intersect_circle(y)
    if d == 3:
        lims = [a([-1.0, t]), a([0.0, 2.0])]
        yield 'Plane.to_mesh', [K, *lims], lambda k, x, y: k.to_mesh(x, y)
        yield 'Plane.to_mesh by name', [K, *lims], lambda k, x, y: k.to_mesh(lims_x=x, lims_y=y)
        yield 'Plane.to_points', [K, *lims], lambda k, x, y: k.to_points(lims_x=x, lims_y=y)
        yield 'Plane.to_mesh with lists', [K, [t, -1.0], [2, 0]], lambda k, x, y: k.to_mesh(lims_x=x, lims_y=y)
        yield 'Plane.to_points with lists', [K, [2, 0], [t, -1.0]], lambda k, x, y: k.to_points(lims_x=x, lims_y=y)
        yield 'Plane.to_mesh with one array', [K, lims[0]], lambda k, x: k.to_mesh(x, x)
        Y = Cylinder(P(p), V(e), t)
        yield 'Cylinder.to_mesh', [Y], lambda y: y.to_mesh(2, 2)
        yield 'Cylinder.intersect_line', [Y, Line(P(p), V(e))], lambda y, l: y.intersect_line(l, infinite=False)
        yield 'cylinder side', [Y, Line(P([x + t * y for x, y in zip(p, unit_of(3, (i + 1) % 3))]), V(unit_of(3, (i + 1) % 3)))], lambda y, l: y.intersect_line(l)
        yield 'cross', [V(e), V(unit_of(3, (i + 1) % 3))], lambda x, y: x.cross(y)
        yield 'intersect_plane', [K, Plane(P(p), V(unit_of(3, (i + 1) % 3)))], lambda k, m: k.intersect_plane(m)
    eye = np.eye(d, dtype=c['dt'])
    yield 'transform_coordinates', [a(rows), a(z), eye], lambda x, o, b: transform_coordinates(x, o, b)
    yield 'transform_coordinates of Points', [Points(a(rows)), Point(a(z)), [Vector(r) for r in eye]], lambda x, o, b: transform_coordinates(x, o, b)
    yield 'transform_coordinates of one point', [P(p), a(z), eye], lambda x, o, b: transform_coordinates(x, o, b)
    yield 'transform_points', [Line(P(z), V(e)), Points(a(rows))], lambda l, x: l.transform_points(x)
    yield 'different_direction', [V(v)], lambda x: x.different_direction()
    yield 'area_signed', [Points(a((rows * 3)[:3]))], lambda x: area_signed(x) if x.dimension == 2 else 0
    for cls in (Line, Plane):
        yield f'{cls.__name__}.distance_points', [cls(P(p), V(e)), a(rows)], lambda o, x: (o.distance_points(x), o.sum_squares(x))


@cases
def trivials(draw):
    d = draw(sampled([1, 2, 2, 3, 3, 3, 4]))
    dt = draw(sampled(['float64', 'float64', 'float64', 'int64']))
    return dict(d=d, i=draw(integers(0, 3)), p=vec(draw, d, 'int'), v=nonzero(draw, d, 'int'), rows=[vec(draw, d, 'int') for _ in range(draw(integers(1, 5)))], t=draw(integers(1, 4)), n=draw(sampled([0, 1, 6, 16, 30])), dt=dt)


@facet('C03', 'apart', trivials, quick=500, rule='floating-point arrays')
def apart(c, ctx):
    """A computed array is the caller's own, even where its values are those of an argument."""
    c = dict(c, t=float(c['t']), p=[float(x) for x in c['p']], v=[float(x) for x in c['v']], rows=[[float(x) for x in r] for r in c['rows']])
    ctx.nt(c['dt'] == 'float64')
    ctx.label(f"dim{c['d']}", c['dt'])
    for name, args, fn in trivial_calls(c):
        before = snap(args)
        ok, r = attempt(lambda: fn(*args))
        need(snap(args) == before, f'{name}: the arguments were changed to {args!r}')
        if not ok:
            continue
        kept = snap(r)
        for x in (r if isinstance(r, tuple) else [r]):
            poke(x)
        need(snap(args) == before, f'{name}: a change of the result in place changed the arguments to {args!r}')
        two = fn(*args)
        need(snap(two) == kept, f'{name}: gave {two!r} after the first result was changed in place')


# --------------------------------------------------------------------------------- threads

@cases
def crew(draw):
    n = draw(integers(2, 5))
    first = draw_op(draw, kind=draw(sampled(['int', 'med', 'dec', 'fl'])), offsets=[0, 0, 1, 100])
    same_op = draw(booleans())                     # several calls of one operation, or of several
    return dict(c=[first] + [draw_op(draw, (lambda o: o.name == first['op']) if same_op else (lambda o: True), kind=draw(sampled(['int', 'med', 'dec', 'fl'])), offsets=[0, 0, 1, 100])
                             for _ in range(n - 1)], f=draw(sampled(FORM)), shared=draw(booleans()), reps=draw(integers(2, 6)))


@facet('C03', 'threads', crew, quick=400, rule='at least two calls give a result')
def threads(c, ctx):
    """Calls in several threads at once, on separate or the same objects, give what they give alone."""
    fns, what = [], []
    for x in c['c']:
        o = OPS[x['op']]
        ok, args = attempt(lambda: arguments(o, x['raw'], c['f']))
        if ok:
            fns.append((lambda o, args: lambda: o.fn(*args))(o, args))
            what.append(f"{x['op']} of {x['raw']}")
    good = [outcome(f)[0] for f in fns]
    want = [snap(outcome(f)) for f in fns]
    n = len(fns)
    jobs = [[(i + k) % n for i in range(n)] for k in range(3)] if c['shared'] else [[i] for i in range(n)]
    wrong = []
    gate = threading.Barrier(len(jobs))

    def work(order):
        try:
            gate.wait()
            for _ in range(c['reps']):
                for i in order:
                    got = snap(outcome(fns[i]))
                    if got != want[i]:
                        wrong.append(f'{what[i]}: alone {want[i]!r}, beside other threads {got!r}')
        except BaseException as e:
            wrong.append(f'{type(e).__name__} in a thread: {e}')

    if n < 2:
        raise Discard
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(j,), daemon=True) for j in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    ctx.nt(sum(good) > 1)
    ctx.label('same objects' if c['shared'] else 'own objects')
    need(not wrong, wrong[0] if wrong else '')


# --------------------------------------------------------------------------------- preempted

class Helper:
    """A second thread that runs one call at a time, on demand."""

    def __init__(self):
        self.todo = self.done = None

    def run(self, fn, wait=0.5):
        """fn's outcome, or None if it did not finish in time (it may wait for a lock)."""
        box, end = [], threading.Event()

        def work():
            try:
                box.append(snap(outcome(fn)))
            except BaseException as e:
                box.append(f'{type(e).__name__} in a thread: {e}')
            end.set()
        if self.todo is None:
            self.todo = queue.SimpleQueue()
            threading.Thread(target=self.loop, daemon=True).start()
        self.todo.put(work)
        if end.wait(wait):
            return box[0]
        self.todo = None                            # another thread next time
        return None

    def loop(self):
        todo = self.todo
        while True:
            todo.get()()


HELPER = Helper()
HOME = os.path.dirname(os.path.abspath(skspatial.__file__)) + os.sep


def enlarged(x, s):
    return [enlarged(y, s) for y in x] if isinstance(x, list) else x * s


@cases
def pair_of_calls(draw):
    how = dict(kind=draw(sampled(['int', 'med', 'dec', 'fl', 'fl'])), offsets=[0, 0, 1, 100])
    first = draw_op(draw, **how)
    m = draw(integers(0, 5))
    if m < 3:                                       # the same picture in another size has an answer where the first one has
        s = draw(sampled([2, 3, 0.5, 5]))
        second = dict(first, raw=[r if t in ('n', 't1', 't2') else enlarged(r, s) for r, t in zip(first['raw'], OPS[first['op']].tokens)])
    else:
        second = draw_op(draw, (lambda o: o.name == first['op']) if m < 5 else (lambda o: True), **how)
    return dict(c=[first, second], f=draw(sampled(FORM)), at=draw(integers(0, 99)))


@facet('C03', 'preempted', pair_of_calls, quick=1500, rule='both calls give a result, and one runs inside of the other')
def preempted(c, ctx):
    """A call during which another thread makes a whole other call, between any two of its lines."""
    fns = []
    for x in c['c']:
        o = OPS[x['op']]
        ok, args = attempt(lambda: arguments(o, x['raw'], c['f']))
        if not ok:
            raise Discard
        fns.append((lambda o, args: lambda: o.fn(*args))(o, args))
    good = [outcome(f)[0] for f in fns]
    want = [snap(outcome(f)) for f in fns]
    wrong, count, step = [], [0, 0], 0

    def line(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if step and count[0] % step == c['at'] % step and count[1] < 40:
                count[1] += 1
                got = HELPER.run(fns[1])
                if got is None:
                    count[1] = 40
                elif got != want[1]:
                    wrong.append(f'{c["c"][1]}: alone {want[1]!r}, during {c["c"][0]} at {os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} {got!r}')
        return line

    def traced():
        old = sys.gettrace()
        sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename.startswith(HOME) else None)
        try:
            return snap(outcome(fns[0]))
        finally:
            sys.settrace(old)

    traced()                                        # counts the lines
    step = count[0] // 40 + 1
    count[0] = 0
    got = traced()
    ctx.nt(all(good) and count[1] > 0)
    ctx.label('the same operation' if c['c'][0]['op'] == c['c'][1]['op'] else 'two operations')
    need(not wrong, wrong[0] if wrong else '')
    need(got == want[0], f'{c["c"][0]}: alone {want[0]!r}, interrupted by {c["c"][1]} {got!r}')
