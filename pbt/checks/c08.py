import numpy as np
from hypothesis import strategies as st
from sdepy import process
from pbt.core import Subs, check
from pbt.strat import timelines, vshapes, seeds, make, identical, fl

subs = Subs('a process of two or more points with generated (irregular) '
            'timeline, shape and dtype; increments, derivative and integral '
            'against loops over time points. Non-trivial: all')


@st.composite
def procs(draw, min_size=2):
    t = draw(timelines(min_size=min_size, max_size=6))
    return dict(t=t, vshape=draw(vshapes(2, 3)), paths=draw(st.integers(1, 3)),
                seed=draw(seeds),
                kind=draw(st.sampled_from(['norm', 'int', 'f4', 'cplx', 'fint',
                                           'offset', 'sub', 'u1', 'i1', 'bool'])))


def build(c):
    shape = [len(c['t'])] + c['vshape'] + [c['paths']]
    x = make(shape, c['seed'], c['kind']) if c['kind'] not in ('offset', 'sub') \
        else make(shape, c['seed'])
    if c['kind'] == 'offset':
        x = 1000 + x
    cls = type('derived', (process,), {}) if c['kind'] == 'sub' else process
    t = np.array(c['t'])
    # values that do not fit in their dtype once subtracted
    return cls(t, x=x.copy()), t, x.astype(int) if c['kind'] in ('u1', 'i1', 'bool') \
        else x


def close(c, a, b, scale=1.):
    r = 2e-5 if c['kind'] == 'f4' else 1e-10
    return np.shape(a) == np.shape(b) and \
        np.allclose(a, b, rtol=r, atol=r*scale)


@st.composite
def diff_cases(draw):
    c = draw(procs())
    ints = all(isinstance(z, int) for z in c['t'])
    c['dt_exp'] = draw(st.one_of(
        st.sampled_from([None, 0, 1, .5, 2, 0., 1.]), fl(0., 2.)) if ints else
        st.one_of(st.sampled_from([None, 0, 1, .5, 2, -1, 0., 1.]), fl(-1., 2.)))
    c['fwd'] = draw(st.sampled_from([None, True, False, 1, 0]))
    return c


@subs(diff_cases(), quick=1500, thorough=50000)
def tdiff(c, ctx):
    ctx.nt()
    p, t, x = build(c)
    kw = {k: c[k] for k in ('dt_exp', 'fwd') if c[k] is not None}
    q = p.tdiff(**kw)
    e = c['dt_exp'] or 0
    ctx.label('e=%s' % (e if e in (0, 1, .5, 2, -1) else 'other'), 'fwd=%s' % c['fwd'])
    fwd = c['fwd'] is None or bool(c['fwd'])
    check(isinstance(q, process), 'not a process')
    check(identical(q.t, t[:-1] if fwd else t[1:]), 'timeline {}', q.t)
    check(q.shape == (len(t)-1,) + x.shape[1:], 'shape {}', q.shape)
    dt = np.diff(t.astype(float))
    for i in range(len(t) - 1):
        w = dt[i]**e
        want = (x[i+1] - x[i])/w
        check(close(c, q.x[i], want, 2*abs(x).max()/w + 1e-3),
              'increment {}: {} instead of {}', i, q.x[i], want)
    check(np.array_equal(p.x, x) and identical(p.t, t), 'the process was modified')


@subs(procs(), quick=800)
def tder(c, ctx):
    ctx.nt()
    p, t, x = build(c)
    q = p.tder()
    check(identical(q.t, t[:-1]), 'timeline {}', q.t)
    dt = np.diff(t.astype(float))
    for i in range(len(t) - 1):
        check(close(c, q.x[i], (x[i+1] - x[i])/dt[i], 2*abs(x).max()/dt[i]),
              'derivative at {}: {}', i, q.x[i])
    check(np.array_equal(p.x, x) and identical(p.t, t), 'the process was modified')


@subs(procs(1), quick=1200, thorough=50000)
def tint(c, ctx):
    p, t, x = build(c)
    ctx.nt(len(t) > 1)
    q = p.tint()
    check(isinstance(q, process) and identical(q.t, t), 'timeline {}', q.t)
    check(q.shape == x.shape, 'shape {}', q.shape)
    acc = np.zeros(x.shape[1:], dtype=np.result_type(x, float))
    scale = abs(x).max()*(t[-1] - t[0]) + 1e-3
    for i in range(len(t)):
        if i:
            acc = acc + x[i-1]*float(t[i] - t[i-1])
        check(close(c, q.x[i], acc, scale), 'integral at {}: {} instead of {}',
              i, q.x[i], acc)
    check(np.all(q.x[0] == 0), 'initial value {}', q.x[0])
    check(np.array_equal(p.x, x) and identical(p.t, t), 'the process was modified')


@subs(procs(), quick=800)
def round_trips(c, ctx):
    ctx.nt()
    p, t, x = build(c)
    a = p.tder().tint()
    b = process(t, x=x)
    b = b['t', :-1] - b['t', 0]
    dt = np.diff(t.astype(float))
    r = (t[-1] - t[0])/dt.min()     # growth of rounding errors
    check(identical(a.t, t[:-1]), 'timeline')
    check(close(c, a.x, b.x, 10*r*(abs(x).max() + 1)), 'tder().tint(): {} not {}',
          a.x, b.x)
    a = p.tint().tder()
    check(identical(a.t, t[:-1]), 'timeline')
    check(close(c, a.x, x[:-1], 10*r*(abs(x).max() + 1)),
          'tint().tder(): {} not {}', a.x, x[:-1])
