"""Strategies for coordinates, vectors, point sets, frames and input forms.  Every case is a JSON value."""
from hypothesis import strategies as st

integers, sampled, booleans, lists, composite, just, one_of, tuples = (
    st.integers, st.sampled_from, st.booleans, st.lists, st.composite, st.just, st.one_of, st.tuples)

B = 1 << 53

# kind -> one coordinate
COORD = {
    'int': integers(-4, 4),
    'med': integers(-100, 100),
    'big': integers(-10000, 10000),
    'dy': integers(-128, 128).map(lambda k: k / 16),
    'dec': integers(-1000, 1000).map(lambda k: k / 100),
    # uniform with a full mantissa (Hypothesis draws integers outside of +-256 from a log-like distribution)
    'fl': tuples(integers(-250, 250), integers(0, 250)).map(lambda t: (t[0] + t[1] / 251) / 25),
    'log': integers(-B, B).map(lambda k: k / B * 10),
}
EXACT = ['int', 'med', 'dy']          # products of few coordinates are exact in doubles
ALL = ['int', 'med', 'dy', 'dec', 'fl', 'fl', 'log']


def kinds(names=ALL):
    return sampled(names)


def vec(draw, d, kind='fl', zeros=True):
    """A coordinate list of length d; sometimes with forced zeros (axis alignment) or repeated values."""
    v = draw(lists(COORD[kind], min_size=d, max_size=d))
    if zeros and d > 1:
        m = draw(integers(0, 9))
        if m == 0:                       # one axis only
            i = draw(integers(0, d - 1))
            v = [x if j == i else 0 * x for j, x in enumerate(v)]
        elif m == 1:                     # one coordinate zero
            i = draw(integers(0, d - 1))
            v[i] = 0 * v[i]
        elif m == 2:                     # equal magnitudes
            v = [v[0] if draw(booleans()) else -v[0] for _ in v]
        if m < 3 and kind in ('fl', 'log'):
            v = nudge(draw, v)
    return v


NUDGES = [0] * 5 + [1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-9, 1e-11]


def nudge(draw, v, sizes=NUDGES):
    """A special position, or almost: sometimes the coordinates move by a small part of the largest one."""
    e = draw(sampled(sizes))
    if not e:
        return v
    e *= max(map(abs, v)) or 1
    return [x + e * k for x, k in zip(v, draw(lists(integers(-3, 3), min_size=len(v), max_size=len(v))))]


def nonzero(draw, d, kind='fl'):
    v = vec(draw, d, kind)
    if all(abs(x) < 1e-3 for x in v):
        one = 1 if kind in ('int', 'med', 'big') else 1.0
        i = draw(integers(0, d - 1))
        v = [0 * one] * d
        v[i] = one if draw(booleans()) else -one
    return v


SCALES = [1] * 8 + [2.0, 0.5, 1024.0, 2.0 ** -10, 2.0 ** 20, 2.0 ** -20, 10.0, 0.1, 1e3, 1e-3, 1e6, 1e-6, 2.0 ** 40, 2.0 ** -30, 2.0 ** -40, 1e-9]
DIRSCALES = [1] * 6 + [2, 7, 0.5, 0.25, 1024.0, 2.0 ** -10, 1e-3, 1e3, 1e4, 1e-4]
OFFSETS = [0] * 6 + [1, 16, 100, 1000, 1024, 10 ** 5]


# A scale of the whole configuration: absolute tolerances show at extreme ones.
UNITS = [1] * 9 + [2.0 ** -k for k in (20, 27, 34, 40, 60, 100)] + [2.0 ** k for k in (20, 30, 40, 60, 100)] + [1e-7, 1e-9, 1e7]
UNITS2 = [1] * 9 + [2.0 ** -k for k in (20, 27, 34, 40, 60, 100)] + [2.0 ** k for k in (20, 30, 40, 60, 100)]     # exact


def scaled(v, s):
    return v if s == 1 and isinstance(s, int) else [x * s for x in v]


def shifted(v, o):
    return [x + y for x, y in zip(v, o)]


def scale(draw, choices=SCALES):
    return draw(sampled(choices))


def offset(draw, d, choices=OFFSETS):
    m = draw(sampled(choices))
    if m == 0:
        return [0] * d
    return [x * m for x in draw(lists(integers(-4, 4), min_size=d, max_size=d))]


forms = sampled(['list', 'list', 'list', 'tuple', 'array', 'array', 'obj', 'alt', 'readonly', 'strided', 'scalars', 'farray', 'narrow'])
pixels = sampled(['list', 'tuple', 'array', 'obj', 'alt', 'readonly', 'strided', 'scalars', 'farray', 'int32', 'int32'])      # where products have two factors
query = sampled(['list', 'tuple', 'array', 'obj', 'alt', 'readonly', 'strided', 'scalars', 'farray', 'int32', 'single', 'single'])      # for one argument among others that are not narrow
wide = forms.filter(lambda f: f != 'narrow')       # where the dtype shows


def cases(f):
    """Decorator: f(draw) -> JSON value becomes a strategy."""
    @composite
    def strategy(draw):
        return f(draw)
    return strategy()


SIZES = [33, 65, 100, 129, 200, 257, 300, 513, 1000, 1025, 2049, 4097, 5000, 10001]


def crowd(dims, sizes=SIZES, mags=(1, 3, 100, 10000)):
    """Many points, by a seed: n points of dimension d with integer coordinates up to m, or these over 64 or 100, around o."""
    @composite
    def strategy(draw):
        d = draw(sampled(dims))
        return dict(n=draw(sampled(sizes)) + draw(sampled([0, 0, 1, -1])), d=d, m=draw(sampled(mags)), q=draw(sampled([1, 1, 64, 100])), o=offset(draw, d, [0, 0, 1, 100, 10 ** 4]),
                    seed=draw(integers(0, 10 ** 6)), f=draw(sampled(['array', 'array', 'obj', 'list', 'tuple', 'readonly', 'strided', 'farray'])), i=draw(integers(0, 10 ** 6)),
                    k=draw(integers(1, 3)), v=nonzero(draw, d, draw(kinds(['int', 'dy', 'fl']))), p=vec(draw, d, draw(kinds(['int', 'dy', 'fl']))))
    return strategy()


def crowd_rows(c):
    """(integer array, divisor): the points are the quotient."""
    import numpy as np
    rng = np.random.default_rng(c['seed'])
    x = rng.integers(-c['m'], c['m'] + 1, (c['n'], c['d']))
    return x + np.array(c['o'], dtype=int), c['q']


def crowd_points(c):
    x, q = crowd_rows(c)
    return x if q == 1 else x / q


def crowd_form(x, how):
    """Like lib.form, for an array."""
    import numpy as np
    from .lib import Points
    if how in ('list', 'tuple'):
        return x.tolist() if how == 'list' else tuple(map(tuple, x.tolist()))
    if how == 'obj':
        return Points(x)
    if how == 'strided':
        b = np.zeros((2 * x.shape[0] + 1, 2 * x.shape[1] + 1), x.dtype)
        b[1::2, 1::2] = x
        return b[1::2, 1::2]
    x = np.asfortranarray(x) if how == 'farray' else x.copy()
    x.setflags(write=how != 'readonly')
    return x


def crowd_sample(c, n):
    """Some row numbers, with the first, the last and one that the case names."""
    import random
    rng = random.Random(c['i'])
    return sorted({0, n - 1, n // 2, c['i'] % n, *(rng.randrange(n) for _ in range(8))})
