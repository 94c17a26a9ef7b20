import numpy as np
import scipy.interpolate
from hypothesis import strategies as st
from sdepy import process
from pbt.core import Subs, check, fail
from pbt.strat import timelines, vshapes, seeds, make, same, identical, fl

subs = Subs('a process of generated shape/dtype and query times in any shape '
            'at, between and outside the time points, one kind of '
            'interpolation; oracle: own formulas (linear, steps), '
            'interp1d (splines). Non-trivial: more than one time point and a '
            'query strictly between two of them, or at all of them')

KINDS = ['linear', 'nearest', 'zero', 'previous', 'next', 'quadratic', 'cubic',
         'slinear']
DT = ['norm', 'int', 'bool', 'cplx', 'f4', 'norm', 'u1']


@st.composite
def procs(draw, max_size=7):
    t = draw(timelines(max_size=max_size))
    return dict(t=t, vshape=draw(vshapes(2, 3)), paths=draw(st.integers(1, 3)),
                seed=draw(seeds), dt=draw(st.sampled_from(DT)))


# a query: ['n', i] node, ['i', i, f] inside segment i at fraction f,
# ['<', d] or ['>', d] outside by d
@st.composite
def queries(draw, n):
    def one():
        k = draw(st.sampled_from(['n', 'i', 'i', 'i', '<', '>'] if n > 1
                                 else 'n<>'))
        if k == 'n':
            return ['n', draw(st.integers(0, n-1))]
        if k == 'i':
            # away from middle points (ties of 'nearest')
            f = draw(fl(.02, .96, 2))
            return ['i', draw(st.integers(0, n-2)), f if f < .49 else f + .02]
        return [k, draw(st.sampled_from([.001, .5, 3., 1e6]))]
    shape = draw(st.sampled_from([[], [1], [3], [5], [2, 2], [3, 1], [0]]))
    return dict(shape=shape,
                q=[one() for _ in range(int(np.prod(shape)))])


def times(t, q):
    s = []
    for z in q['q']:
        if z[0] == 'n':
            s.append(t[z[1]])
        elif z[0] == 'i':
            a, b = t[z[1]], t[z[1]+1]
            s.append(a + (b - a)*z[2])
        elif z[0] == '<':
            s.append(t[0] - z[1])
        else:
            s.append(t[-1] + z[1])
    return s


def build(c):
    x = make([len(c['t'])] + c['vshape'] + [c['paths']], c['seed'], c['dt'])
    return process(np.array(c['t']), x=x), np.array(c['t'], dtype=float), x.copy()


def expected(t, x, s, z, kind):
    """Value at one time s described by z: (value, exact)."""
    if len(t) == 1:
        return x[0], True
    if z[0] == 'n':
        return x[z[1]], True
    if z[0] in '<>':
        return x[0 if z[0] == '<' else -1], True
    i, f = z[1], z[2]
    if kind in ('linear', 'slinear'):
        return x[i] + (x[i+1].astype(np.result_type(x, float)) - x[i])*f, False
    if kind == 'nearest':
        return x[i if f < .5 else i+1], True
    if kind in ('zero', 'previous'):
        return x[i], True
    if kind == 'next':
        return x[i+1], True
    g = scipy.interpolate.interp1d(
        t, x.astype(np.result_type(x, float)), axis=0, kind=kind,
        assume_sorted=True)
    return g(s), False


def compare(got, x, want, exact, where):
    """got, of the dtype of x, is the requested interpolated value."""
    want = np.asarray(want)
    if exact and x.dtype.kind in 'iub':
        ok = np.array_equal(got, want)
    elif exact:
        ok = np.allclose(got, want, rtol=1e-5 if x.dtype.itemsize <= 4 else 1e-9,
                         atol=1e-6 if x.dtype.itemsize <= 4 else 1e-9)
    elif x.dtype.kind in 'iub':
        # some integer next to the interpolated value
        w = np.clip(want, 0, 1) if x.dtype.kind == 'b' else want
        if x.dtype.kind == 'u':
            return      # splines may be negative
        ok = np.all(abs(got.astype(float) - w) < 1 + 1e-9)
    else:
        r = 1e-4 if x.dtype.itemsize <= 4 else 1e-8
        ok = np.allclose(got, want, rtol=r, atol=r*10*(1 + abs(x).max()))
    check(ok, 'at {}: {} instead of {}', where, got, want)


def usable(kind, n):
    return not (kind == 'quadratic' and n == 2) and \
        not (kind == 'cubic' and n in (2, 3))


@st.composite
def cases(draw):
    c = draw(procs())
    kinds = [k for k in KINDS if usable(k, len(c['t']))]
    c['kind'] = draw(st.sampled_from([None, None] + kinds))
    c['q'] = draw(queries(len(c['t'])))
    c['form'] = draw(st.sampled_from(['array', 'list', 'interp', 'attr']))
    return c


def evaluate(p, s, c):
    kind = c['kind']
    if c['form'] == 'interp':
        return p.interp(kind=kind)(s) if kind else p.interp()(s)
    if c['form'] == 'attr' and kind:
        p.interp_kind = kind
        return p(s)
    if c['form'] == 'list':
        s = np.asarray(s).tolist()
    return p(s, kind=kind) if kind else p(s)


@subs(cases(), quick=2500, thorough=60000, shards=2)
def interpolation(c, ctx):
    p, t, x = build(c)
    sl = times(t, c['q'])
    s = np.array(sl, dtype=float).reshape(c['q']['shape'])
    y = evaluate(p, s, c)
    kind = c['kind'] or 'linear'
    ctx.label(kind, 'dt:' + c['dt'])
    qs = [z[0] for z in c['q']['q']]
    ctx.nt(len(t) > 1 and 'i' in qs)
    check(type(y) is np.ndarray, 'p(s) is a {}', type(y))
    check(y.shape == s.shape + x.shape[1:], 'shape {} for s {} and x {}',
          y.shape, s.shape, x.shape)
    check(y.dtype == x.dtype, 'dtype {} instead of {}', y.dtype, x.dtype)
    y2 = y.reshape((-1,) + x.shape[1:]) if s.size else y
    for k, z in enumerate(c['q']['q']):
        want, exact = expected(t, x, sl[k], z, kind)
        if c['dt'] == 'u1' and not exact and kind in ('quadratic', 'cubic'):
            continue
        if c['dt'] == 'bool' and kind in ('quadratic', 'cubic') and not exact:
            continue
        if x.dtype.kind == 'u' and not exact:
            check(np.all(abs(y2[k].astype(float) - want) < 1 + 1e-9),
                  'at {}: {} instead of {}', sl[k], y2[k], want)
            continue
        compare(y2[k], x, want, exact, sl[k])
    check(identical(p.x, x), 'the process was modified')


@st.composite
def nodes_cases(draw):
    c = draw(procs())
    c['kind'] = draw(st.sampled_from([None] + [k for k in KINDS
                                               if usable(k, len(c['t']))]))
    c['form'] = draw(st.sampled_from(['array', 'list', 'interp', 'attr']))
    return c


@subs(nodes_cases(), quick=800)
def nodes(c, ctx):
    """At the very time points: the stored values."""
    p, t, x = build(c)
    ctx.nt(len(t) > 1)
    ctx.label(c['kind'])
    y = evaluate(p, p.t, c)
    check(y.shape == x.shape and y.dtype == x.dtype, 'shape, dtype {}', y.dtype)
    if x.dtype.kind in 'iub' or c['kind'] in ('nearest', 'zero', 'previous',
                                              'next'):
        check(identical(y, x), '{} instead of {}', y, x)
    else:
        r = 1e-4 if x.dtype.itemsize <= 4 or c['dt'] == 'f4' else 1e-8
        check(np.allclose(y, x, rtol=r, atol=r), '{} instead of {}', y, x)
    far = evaluate(p, np.array([t[0] - 1, t[0] - 1e9, t[-1] + 1e-3, t[-1] + 1e9]),
                   c)
    r = 0 if x.dtype.kind in 'iub' else 1e-5
    check(np.allclose(far, x[[0, 0, -1, -1]], rtol=r, atol=r),
          'outside: {} instead of {}', far, x[[0, 0, -1, -1]])


@st.composite
def inc_cases(draw):
    c = draw(procs(5))
    c['q'] = draw(queries(len(c['t'])))
    c['dshape'] = draw(st.sampled_from(['same', 'scalar', 'row']))
    c['ds'] = draw(st.one_of(
        st.lists(fl(-3, 3), min_size=1, max_size=9),
        st.lists(st.integers(-3, 3), min_size=1, max_size=4),
        st.lists(st.just(0.), min_size=1, max_size=3)))
    c['form'] = draw(st.sampled_from(['array', 'list', 'array']))
    c['kind'] = draw(st.sampled_from([None, 'nearest', 'next']))
    return c


@subs(inc_cases(), quick=800)
def increments(c, ctx):
    p, t, x = build(c)
    s = np.array(times(t, c['q']), dtype=float).reshape(c['q']['shape'])
    if c['dshape'] == 'scalar':
        ds = c['ds'][0]
    elif c['dshape'] == 'row':
        ds = np.array(c['ds'])[:, None] if s.ndim < 2 else np.array(c['ds'][:1])
    else:
        ds = np.resize(c['ds'], s.shape)
    if c['dt'] == 'bool':
        return       # NumPy does not subtract booleans
    ctx.nt(len(t) > 1)
    kw = {} if c['kind'] is None else dict(kind=c['kind'])
    s0, ds0 = s.copy(), np.array(ds)
    if c['form'] == 'list':
        y = p(s.tolist(), ds0.tolist(), **kw)
    else:
        y = p(s, ds, **kw)
    check(identical(s, s0) and identical(np.array(ds), ds0), 'arguments modified')
    shape = np.broadcast_shapes(s.shape, np.shape(ds))
    check(y.shape == shape + x.shape[1:], 'shape {}', y.shape)
    want = p(s + ds, **kw) - p(s, **kw)
    check(same(y, want) and y.dtype == x.dtype, '{} instead of {}', y, want)


@st.composite
def rebase_cases(draw):
    c = draw(procs(5))
    c['s'] = draw(timelines(max_size=5))
    c['sdt'] = draw(st.sampled_from([None, 'f4', 'f8']))
    c['scalar'] = draw(st.booleans())
    c['kind'] = draw(st.sampled_from([None, 'nearest', 'next']))
    return c


@subs(rebase_cases(), quick=500)
def rebase(c, ctx):
    p, t, x = build(c)
    s = np.array(c['s'], dtype=c['sdt']) if not c['scalar'] else c['s'][0]
    kw = {} if c['kind'] is None else dict(kind=c['kind'])
    q = p.rebase(s, **kw)
    s1 = np.atleast_1d(s)
    ctx.nt(len(t) > 1 and s1.size > 1)
    check(isinstance(q, process), 'not a process')
    check(identical(q.t, s1), 'timeline {}', q.t)
    want = p(s1, **kw)
    check(identical(q.x, want), '{} instead of {}', q.x, want)
    check(identical(p.x, x), 'the process was modified')


@subs(procs(5), quick=200)
def default_kind(c, ctx):
    """interp_kind, of the class or of the instance, is the default."""
    if len(c['t']) == 1:
        return
    ctx.nt()
    p, t, x = build(c)
    check(process.interp_kind == 'linear', 'class default')

    class step(process):
        interp_kind = 'previous'
    q = step(p.t, x=x)
    s = t[:-1] + .8*np.diff(t)
    check(np.array_equal(q(s), x[:-1]), 'subclass default kind')
    check(np.array_equal(q(s, kind='next'), x[1:]), 'kind overrides')
    q.interp_kind = 'nearest'
    check(np.array_equal(q(s), x[1:]), 'instance default kind')
    check(np.array_equal(step(p.t, x=x)(s), x[:-1]), 'default kind leaked')


@st.composite
def inplace_cases(draw):
    c = draw(procs(5))
    kinds = [k for k in KINDS if usable(k, len(c['t']))]
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        ops.append(dict(op=draw(st.sampled_from(['set', 'item', 'view', 'none',
                                                 'shift', 'kind'])),
                        i=draw(st.integers(0, len(c['t']) - 1)), seed=draw(seeds),
                        kind=draw(st.sampled_from([None] + kinds)),
                        form=draw(st.sampled_from(['array', 'list', 'interp',
                                                   'attr']))))
    c.update(q=draw(queries(len(c['t']))), ops=ops)
    return c


@subs(inplace_cases(), quick=500, thorough=20000)
def inplace(c, ctx):
    """Interpolation follows values and timelines modified in place."""
    p, t, x = build(c)
    p.t = p.t.astype(float)
    ctx.nt(len(c['ops']) > 2)
    for o in c['ops']:
        new = make(x.shape, o['seed'], c['dt'])
        if o['op'] == 'set':
            p[...] = new
            x = new
        elif o['op'] == 'item':
            p[o['i']] = new[o['i']]
            x[o['i']] = new[o['i']]
        elif o['op'] == 'view':
            p.x[...] = new
            x = new
        elif o['op'] == 'shift':
            p.t += 1.
            t = t + 1.
        elif o['op'] == 'kind' and o['kind']:
            p.interp_kind = o['kind']
        s = np.array(times(t, c['q']), dtype=float).reshape(c['q']['shape'])
        fresh = process(t.copy(), x=x.copy())
        fresh.interp_kind = p.interp_kind
        got, want = evaluate(p, s, o), evaluate(fresh, s, o)
        check(identical(got, want), 'after {}: {} instead of {}', o['op'], got, want)
        p.interp_kind = 'linear'
