import numpy as np
from hypothesis import strategies as st
from sdepy import process
from pbt.core import Subs, check, fail
from pbt.strat import timelines, vshapes, seeds, make, identical, raises

subs = Subs('timeline as scalar/list/tuple/array of ints or floats, one of '
            'x/v/c of generated shape and dtype as list or array, requested '
            'dtype or none; or a malformed combination. Non-trivial: more '
            'than one time point, or a dtype other than float64, or malformed')

TARGETS = dict(norm=[None, 'f8', 'f4', 'c16'], int=[None, 'f8', 'i4', 'i8', 'c16'],
               bool=[None, '?', 'i8', 'f8'], cplx=[None, 'c16', 'c8'],
               f4=[None, 'f4', 'f8'], fint=[None, 'f8', 'i8'],
               i1=[None, 'i1', 'f4'], u1=[None, 'u1', 'i8'])


@st.composite
def valid(draw):
    kind = draw(st.sampled_from(sorted(TARGETS)))
    t = draw(timelines(max_size=5))
    return dict(
        t=t, tform=draw(st.sampled_from(
            ['list', 'array', 'tuple', 'f4', 'strided', 'frozen'] +
            ['u1', 'i2', 'u8']*(isinstance(t[0], int) and t[0] >= 0)*2 +
            ['scalar', '0d', 'npscalar', 'default']*(len(t) == 1))),
        vshape=draw(vshapes(3, 3)), paths=draw(st.integers(1, 4)),
        which=draw(st.sampled_from('xvc')), kind=kind, seed=draw(seeds),
        form=draw(st.sampled_from(['array', 'list', 'F'])),
        dtype=draw(st.sampled_from(TARGETS[kind])))


def timeline(c):
    t = c['t']
    f = c['tform']
    if f == 'scalar':
        return t[0]
    if f == '0d':
        return np.array(t[0])
    if f == 'tuple':
        return tuple(t)
    if f == 'array':
        return np.array(t)
    if f == 'npscalar':
        return np.array(t)[0]
    if f in ('f4', 'u1', 'i2', 'u8'):
        return np.array(t, dtype=f)
    if f == 'strided':
        return np.repeat(np.array(t), 2)[::2]
    if f == 'frozen':
        t = np.array(t)
        t.flags.writeable = False
        return t
    return list(t)


@subs(valid(), quick=1500, shards=2)
def construction(c, ctx):
    N = len(c['t'])
    vshape, paths = tuple(c['vshape']), c['paths']
    shape = dict(x=(N,) + vshape + (paths,), v=(N,) + vshape, c=vshape)
    val = make(shape[c['which']], c['seed'], c['kind'])
    if c['form'] == 'F' and val.ndim > 1:
        val = np.asfortranarray(val)
    given = val.tolist() if c['form'] == 'list' else val
    keep = np.array(val)
    kw = {c['which']: given}
    if c['dtype'] is not None:
        kw['dtype'] = c['dtype']
    if c['tform'] == 'default':
        p, t_exp, t = process(**kw), np.array([0.]), None
    else:
        t = timeline(c)
        t_exp = np.array(t).reshape(-1)
        p = process(t, **kw)
    ctx.nt(N > 1 or c['kind'] != 'norm' or c['dtype'])
    ctx.label(c['which'], 'dtype:' + str(c['dtype']), 'N=%d' % min(N, 2))

    arr = np.array(given)
    dtype = np.dtype(c['dtype']) if c['dtype'] else arr.dtype
    exp = arr.astype(dtype)
    P = paths if c['which'] == 'x' else 1
    want = np.empty((N,) + vshape + (P,), dtype=dtype)
    for i in range(N):
        for k in range(P):
            want[i][..., k] = exp if c['which'] == 'c' else \
                exp[i] if c['which'] == 'v' else exp[i][..., k]
    check(type(p) is process, 'type {}', type(p))
    check(p.shape == want.shape, 'shape {} instead of {}', p.shape, want.shape)
    check(identical(p.view(np.ndarray), want),
          'dtype or values: {} {} instead of {} {}', p.dtype, p.x, want.dtype,
          want)
    check(identical(p.x, want), 'x')
    check(p.t.shape == (N,) and identical(p.t, t_exp), 'timeline {} for {}',
          p.t, t_exp)
    check(p.vshape == vshape and p.paths == P, 'vshape, paths')
    check(np.array_equal(keep, val), 'given values modified')
    # by reference
    if isinstance(t, np.ndarray):
        check(np.shares_memory(p.t, t), 'timeline array was copied')
    if c['form'] != 'list' and dtype == arr.dtype and \
            (c['which'] != 'c' or N == 1):
        check(np.shares_memory(p.x, val), 'values array was copied')
    if c['which'] == 'c' and N > 1 and c['form'] != 'list':
        # each time point has values of its own
        q = np.array(p.x)
        for i in (0, N - 1):
            p.x[i] = q[i] = 0
            check(identical(p.x, q) and np.array_equal(keep, val), 'setting values '
                  'at point {} gives {} instead of {}', i, p.x, q)


BAD = ['none', 'two', 'three', 'empty', '2d', 'mismatch', 'timeless', '1pt']


@st.composite
def invalid(draw):
    return dict(t=draw(timelines(max_size=4)), bad=draw(st.sampled_from(BAD)),
                vshape=draw(vshapes(2, 3)), paths=draw(st.integers(1, 3)),
                which=draw(st.sampled_from('xv')), seed=draw(seeds),
                other=draw(st.integers(0, 2)), d=draw(st.sampled_from([-1, 1, 2])))


@subs(invalid(), quick=400)
def malformed(c, ctx):
    ctx.nt()
    ctx.label(c['bad'])
    t = list(c['t'])
    N = len(t)
    vshape, paths = tuple(c['vshape']), c['paths']
    x = make((N,) + vshape + (paths,), c['seed'])
    v, k = x[..., 0], x[0][..., 0]
    bad = c['bad']
    kw = dict(x=x) if c['which'] == 'x' else dict(v=v)
    if bad == 'none':
        kw = {}
    elif bad == 'two':
        kw = [dict(x=x, v=v), dict(x=x, c=k), dict(v=v, c=k)][c['other']]
    elif bad == 'three':
        kw = dict(x=x, v=v, c=k)
    elif bad == 'empty':
        t = []
        kw = [dict(x=x[:0]), dict(v=v[:0]), dict(c=k)][c['other']]
    elif bad == '2d':
        t = [[z] for z in t] if c['other'] else [t]
        kw = [dict(x=x), dict(v=v), dict(c=k)][c['other']]
    elif bad == 'mismatch':
        n = N + c['d'] if N + c['d'] > 0 else N + 1
        y = make((n,) + vshape + (paths,), c['seed'])
        kw = dict(x=y) if c['which'] == 'x' else dict(v=y[..., 0])
    elif bad == 'timeless':
        kw = dict(x=3.)
    elif bad == '1pt':   # one value is not spread over time, unless as c
        t = t + [t[-1] + 1]
        kw = dict(x=x[:1]) if c['which'] == 'x' else dict(v=v[:1])
    try:
        p = process(t, **kw)
    except ValueError:
        return
    fail('accepted: process({}, {}) -> shape {}', t,
         {a: np.shape(b) for a, b in kw.items()}, p.shape)
