"""Stub sources, generated parameters, and a reference Euler recursion."""
import numpy as np
from hypothesis import strategies as st
import sdepy
from pbt.strat import fl, seeds, timelines, broadcast_of, make

BIG = 1e6       # results beyond this are not compared


# ---------------------------------------------------------------- sources
class Stub:
    """Source with increments given by a smooth function of (t, dt).
    Records calls."""
    def __init__(self, paths, vshape, seed, ints=False):
        self.paths, self.vshape = paths, tuple(vshape)
        shape = self.vshape + (paths,)
        r = np.random.RandomState(seed)
        self.a, self.b, self.c = r.uniform(-1, 1, size=(3,) + shape)
        self.ints = ints
        self.calls = []

    def value(self, t, dt):
        if self.ints:
            return np.sign(dt)*np.round(2*abs(self.a)).astype(int)
        return (self.a*np.cos(3*t) + self.b)*dt + self.c*dt*abs(dt)

    def __call__(self, t, dt):
        self.calls.append((float(t), float(dt)))
        return self.value(t, dt)


# ------------------------------------------------------------- parameters
FORMS = ['scalar', 'scalar', 'int', 'list', 'array', 'array', 'call', 'call0',
         'calllist', 'bump', 'bump0', 'saw', 'saw0', 'process', 'procpaths']
CONST = ['scalar', 'int', 'list', 'array', 'npfloat']


@st.composite
def params(draw, shape, lo, hi, const=False):
    """A parameter broadcastable to shape (paths as last axis) with values
    between lo and hi."""
    return dict(form=draw(st.sampled_from(CONST if const else FORMS)),
                shape=draw(broadcast_of(shape)), seed=draw(seeds),
                lo=lo, hi=hi)


def param(d):
    """The parameter given by the user, and its value as a function of t."""
    r = np.random.RandomState(d['seed'])
    f, lo, hi, shape = d['form'], d['lo'], d['hi'], tuple(d['shape'])
    if f in ('scalar', 'npfloat'):
        v = float(r.uniform(lo, hi))
        return (v if f == 'scalar' else np.float64(v)), lambda t: v
    if f == 'int':
        v = int(r.randint(int(np.ceil(lo)), int(np.floor(hi)) + 1))
        return v, lambda t: v
    base = r.uniform(lo, hi, size=shape)
    if f == 'list':
        return base.tolist(), lambda t: base
    if f == 'array':
        return base.copy(), lambda t: base
    other = r.uniform(lo, hi, size=shape)

    def g(t):
        w = (1 + np.cos(t))/2
        return w*base + (1-w)*other
    if f == 'call':
        return g, g
    if f == 'call0':
        a, b = float(np.ravel(base)[0]), float(np.ravel(other)[0])

        def h(t):
            w = (1 + np.cos(t))/2
            return w*a + (1-w)*b
        return h, h
    if f in ('bump', 'bump0'):     # a constant, but in a short time interval
        a = r.uniform(-2, 2)
        b = a + r.uniform(.1, 1.5)
        if f == 'bump0':
            base, other = float(np.ravel(base)[0]), float(np.ravel(other)[0])

        def bump(t):
            return other if a < t < b else base
        return bump, bump
    if f in ('saw', 'saw0'):       # periodic, equal at all integers
        if f == 'saw0':
            base, other = float(np.ravel(base)[0]), float(np.ravel(other)[0])

        def saw(t):
            w = t - np.floor(t)
            return (1-w)*base + w*other
        return saw, saw
    if f == 'calllist':
        return (lambda t: g(t).tolist()), g
    # processes
    if f == 'process' or not shape:
        pshape = shape[:-1] + (1,) if shape else (1,)
    else:
        pshape = shape
    T = np.array([-60., -1., 0., .5, 2., 60.])
    x = r.uniform(lo, hi, size=(T.size,) + pshape)
    p = sdepy.process(T, x=x)

    def value(t):
        k = min(max(int(np.searchsorted(T, t, side='right')) - 1, 0), T.size - 2)
        w = (t - T[k])/(T[k+1] - T[k])
        return (1-w)*x[k] + w*x[k+1]
    return p, value


# ------------------------------------------------------------- timelines
@st.composite
def grids(draw, max_size=5, first=False, min_size=1):
    """timeline, steps and i0."""
    t = draw(timelines(min_size=min_size, max_size=max_size, lo=-2, hi=2, gap=1.))
    if isinstance(t[0], int):
        t = [t[0] + k for k in range(len(t))]
    n = len(t)
    steps = draw(st.sampled_from(['none', 'none', 'int', 'list']))
    d = dict(t=t, steps=None, i0=0)
    if steps == 'int':
        d['steps'] = draw(st.integers(0, 8))
    if steps == 'list':
        d['steps'] = draw(st.lists(fl(t[0] - .5, t[-1] + .5), max_size=5))
    if not first and draw(st.booleans()):
        d['i0'] = draw(st.integers(-n, n-1))
    return d


def grid_kw(d):
    kw = {}
    if d['steps'] is not None:
        kw['steps'] = d['steps']
    if d['i0']:
        kw['i0'] = d['i0']
    return kw


def visited(d):
    """Time points backwards and forwards of timeline[i0], both starting
    there."""
    t = np.array(d['t'], dtype=float)
    s = d['steps']
    if s is None or t.size == 1:
        s = []
    elif not isinstance(s, list):
        s = np.linspace(t[0], t[-1], s)
    s = [z for z in s if t[0] <= z <= t[-1]]
    s = np.unique(np.concatenate((t, s)))
    t0 = t[d['i0']]
    return s[s <= t0][::-1], s[s >= t0]


def reference(d, x0, step, shape, dtype=float):
    """Values along the timeline, from x0 at timeline[i0], with
    step(s, ds, x) the value at s + ds."""
    t = np.array(d['t'], dtype=float)
    out = {}
    for s in visited(d):
        x = np.empty(shape, dtype=dtype)
        x[...] = x0
        out[s[0]] = x
        for a, b in zip(s[:-1], s[1:]):
            y = np.empty(shape, dtype=dtype)
            y[...] = step(a, b - a, x)
            out[b] = x = y
    return np.array([out[z] for z in t])


def nsteps(d):
    back, forth = visited(d)
    return len(back) + len(forth) - 2


def tame(x):
    x = np.asarray(x)
    return bool(np.all(np.isfinite(x)) and np.all(abs(x) < BIG))


def close(got, want, rtol=1e-8):
    """Equal up to rounding, relative to the largest value."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    scale = max(1e-3, float(abs(want).max()) if want.size else 0.)
    return bool(np.all(abs(got - want) <= rtol*scale))
