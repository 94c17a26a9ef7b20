"""Strategies of JSON-able case descriptions, and the arrays they describe."""
import numpy as np
from hypothesis import strategies as st

# ---------------------------------------------------------------- numbers
NICE = [0., .25, .5, 1., 2., -1., -.5, 1.5]


def fl(a, b, digits=3):
    """floats of [a, b] with few digits (easy to read, not all dyadic)."""
    m = 10**digits
    return st.integers(int(np.ceil(a*m - 1e-9)),
                       int(np.floor(b*m + 1e-9))).map(lambda k: k/m)


seeds = st.integers(0, 10**6)


# ----------------------------------------------------------------- shapes
@st.composite
def vshapes(draw, max_dims=3, max_side=3, min_dims=0, min_side=1):
    # any number of dimensions is equally likely
    return [draw(st.integers(min_side, max_side))
            for i in range(draw(st.integers(min_dims, max_dims)))]


def shapes(max_dims=2, max_side=3):
    return vshapes(max_dims, max_side)


@st.composite
def broadcast_of(draw, shape, keep_dims=False):
    """A shape broadcastable to the given one."""
    shape = list(shape)
    k = len(shape) if keep_dims else draw(st.integers(0, len(shape)))
    return [n if draw(st.booleans()) else 1 for n in shape[len(shape) - k:]]


# -------------------------------------------------------------- timelines
@st.composite
def timelines(draw, min_size=1, max_size=6, ints=None, lo=-3, hi=3, gap=2.):
    """Strictly increasing timeline: list of floats, or of ints."""
    if ints is None:
        ints = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(min_size, max_size))
    if ints:
        t0 = draw(st.integers(lo, hi))
        d = draw(st.lists(st.integers(1, 4), min_size=n-1, max_size=n-1))
        return [int(z) for z in np.cumsum([t0] + d)]
    style = draw(st.integers(0, 2))
    if style == 0:
        t0 = draw(st.sampled_from([0., 1., -1., .5]))
        step = draw(st.sampled_from([.1, .25, 1., 1/3]))
        return [t0 + i*step for i in range(n)]
    t0 = draw(fl(lo, hi))
    d = draw(st.lists(fl(.001 if style == 1 else .1, gap), min_size=n-1,
                      max_size=n-1))
    return [float(z) for z in np.cumsum([t0] + d)]


# ----------------------------------------------------------------- arrays
KINDS = ('norm', 'unif', 'pos', 'int', 'fint', 'bool', 'cplx', 'f4', 'dup')


def make(shape, seed, kind='norm'):
    """Array of given shape; all of it (memory layout included) follows from
    seed and kind."""
    return relayout(_make(shape, seed, kind), seed)


def relayout(x, seed):
    """The same array, contiguous or not."""
    k = seed % 9
    if x.ndim == 0 or k < 5:
        return x
    if k == 5:
        return np.asfortranarray(x)
    if k == 6:      # every second entry of a larger array
        y = np.empty(x.shape[:-1] + (2*x.shape[-1],), dtype=x.dtype)
        y[...] = x.flat[0] if x.size else 0
        y[..., ::2] = x
        return y[..., ::2]
    if k == 7:      # paths are the slowest axis
        # (no negative strides: x.max(out=) of NumPy 1.26 fails on some)
        return np.moveaxis(np.moveaxis(x, -1, 0).copy(), 0, -1)
    y = np.empty((x.shape[0] + 2,) + x.shape[1:], dtype=x.dtype)
    y[...] = x.flat[0] if x.size else 0
    y[1:-1] = x
    return y[1:-1]


def _make(shape, seed, kind):
    r = np.random.RandomState(seed)
    shape = tuple(shape)
    if kind == 'norm':
        x = r.normal(size=shape)
    elif kind == 'unif':
        x = r.uniform(size=shape)
    elif kind == 'pos':
        x = r.uniform(.2, 2., size=shape)
    elif kind == 'int':
        x = r.randint(-9, 10, size=shape)
    elif kind == 'fint':
        x = r.randint(-4, 5, size=shape).astype(float)
    elif kind == 'bool':
        x = r.randint(0, 2, size=shape).astype(bool)
    elif kind == 'cplx':
        x = r.normal(size=shape) + 1j*r.normal(size=shape)
    elif kind == 'f4':
        x = r.normal(size=shape).astype(np.float32)
    elif kind == 'dup':      # few distinct values, many ties
        x = r.randint(0, 3, size=shape)*.5
    elif kind == 'u1':
        x = r.randint(0, 200, size=shape).astype(np.uint8)
    elif kind == 'i1':
        x = r.randint(-100, 100, size=shape).astype(np.int8)
    else:
        raise KeyError(kind)
    return np.asarray(x)


# ---------------------------------------------------------------- indices
@st.composite
def int_index(draw, n):
    return draw(st.integers(-n, n-1))


@st.composite
def axis_index(draw, n, allow_bool=True, allow_int=True):
    """An index along an axis of length n, keeping at least one entry.
    ['i', k] int; ['n', k] NumPy int; ['s', a, b, c] slice; ['a', ks] integer
    array; ['b', mask]."""
    kind = draw(st.sampled_from((['i', 'n'] if allow_int else []) +
                                ['s', 'a', 'l'] + (['b'] if allow_bool else [])))
    if kind in 'in':
        return [kind, draw(st.integers(-n, n-1))]
    if kind == 's':
        a = draw(st.integers(0, n-1))
        b = draw(st.integers(a+1, n))
        c = draw(st.sampled_from([None, 1, 2]))
        form = draw(st.integers(0, 4))
        if form == 4:        # backwards
            return ['s'] + draw(st.sampled_from([[None, None], [b - 1, None],
                                                 [-1, None]])) + [-(c or 1)]
        if form == 1:
            a = a - n        # negative start
        if form == 2 and b == n:
            b = None
        if form == 3 and a == 0:
            a = None
        return ['s', a, b, c]
    if kind in 'al':
        return [kind, draw(st.lists(st.integers(-n, n-1), min_size=1,
                                    max_size=n+1))]
    m = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    if not any(m):
        m[draw(st.integers(0, n-1))] = True
    return ['b', m]


def index(d):
    """The index described by axis_index."""
    k = d[0]
    if k == 'i':
        return int(d[1])
    if k == 'n':
        return np.int64(d[1])
    if k == 's':
        return slice(d[1], d[2], d[3])
    if k == 'a':
        return np.array(d[1], dtype=int)
    if k == 'l':
        return list(d[1])
    if k == 'B':
        return [bool(z) for z in d[1]]
    if k == 'b':
        return np.array(d[1], dtype=bool)
    if k == 't':
        return bool(d[1])
    if k == 'nt':
        return np.bool_(d[1])
    if k == '...':
        return Ellipsis
    if k == 'new':
        return None
    raise KeyError(k)


# -------------------------------------------------------------- equality
def same(a, b, rtol=1e-9, atol=1e-12):
    """Same shape and values up to rounding, equal_nan."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol,
                                              equal_nan=True)


def identical(a, b):
    """Same shape, dtype and values."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in 'fc':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def raises(excs, f, *args, **kw):
    """True if f raises one of excs; other exceptions propagate."""
    try:
        f(*args, **kw)
    except excs:
        return True
    return False
