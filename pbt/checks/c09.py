import cmath
import numpy as np
import scipy.interpolate
from hypothesis import strategies as st
from sdepy import process
from pbt.core import Subs, check
from pbt.strat import timelines, vshapes, seeds, make, raises, fl, identical

subs = Subs('a process, times (omitted, scalar, array) and u or x values of '
            'generated shape, ties with process values included, against '
            'averages over paths entry by entry. Non-trivial: more than one '
            'path and one value of u or x')
SHAPES = [[], [1], [3], [2, 2], [1, 3]]


@st.composite
def cases(draw):
    t = draw(timelines(max_size=4))
    c = dict(t=t, vshape=draw(vshapes(2, 3)), paths=draw(st.one_of(st.integers(1, 6),
                                                    st.just(700))),
             seed=draw(seeds), kind=draw(st.sampled_from(
                 ['norm', 'int', 'dup', 'f4', 'dup', 'i1'])),
             ushape=draw(st.sampled_from(SHAPES)), useed=draw(seeds),
             ukind=draw(st.sampled_from(['norm', 'dup', 'ties', 'near', 'int', 'i1'])),
             lists=draw(st.booleans()),
             f=draw(st.sampled_from(['chf', 'cdf'])))
    c['tshape'] = draw(st.sampled_from([None] + SHAPES))
    if c['paths'] > 6:      # counts beyond the range of small integers
        c['t'] = c['t'][:2]
        c['vshape'] = c['vshape'][:1]
        c['tshape'] = draw(st.sampled_from([None, [], [1]]))
        c['ushape'] = draw(st.sampled_from([[], [1], [2]]))
        t = c['t']
    if c['tshape'] is not None:
        n = int(np.prod(c['tshape']))
        c['s'] = [draw(st.one_of(st.sampled_from(t), fl(-5, 8)))
                  for _ in range(n)]
    c['kindi'] = draw(st.sampled_from([None, None, 'nearest', 'previous']))
    c['how'] = draw(st.sampled_from(['pos', 'kw']))
    return c


@subs(cases(), quick=2000, thorough=50000, shards=2)
def averages(c, ctx):
    x = make([len(c['t'])] + c['vshape'] + [c['paths']], c['seed'], c['kind'])
    p = process(np.array(c['t']), x=x.copy())
    if c['kindi']:
        p.interp_kind = c['kindi']
    n = int(np.prod(c['ushape']))
    if c['ukind'] == 'ties':
        u = np.resize(x.ravel()[::-1], n).reshape(c['ushape'])
    elif c['ukind'] == 'near':      # just above or below process values
        u = np.resize(x.ravel()[::-1], n).astype(float).reshape(c['ushape'])
        u = np.nextafter(u, np.inf*(-1)**c['useed'])
    else:
        u = make(c['ushape'], c['useed'], c['ukind'])
    ua = u.tolist() if c['lists'] else u
    name = 'u' if c['f'] == 'chf' else 'x'
    f = getattr(p, c['f'])
    if c['tshape'] is None:
        got = f(ua) if c['how'] == 'pos' else f(**{name: ua})
        tshape, xs = x.shape[:1], x
    else:
        s = np.array(c['s'], dtype=float).reshape(c['tshape'])
        sa = s.tolist() if c['lists'] else s
        got = f(sa, ua) if c['how'] == 'pos' else f(t=sa, **{name: ua})
        tshape, xs = s.shape, p(s)
        if c['kindi'] and len(c['t']) > 1:
            near = scipy.interpolate.interp1d(
                np.array(c['t'], dtype=float), np.arange(len(c['t'])),
                kind=c['kindi'], bounds_error=False,
                fill_value=(0, len(c['t']) - 1))(s).astype(int)
            gap = np.append(np.array(c['t']), (np.array(c['t'][1:]) + c['t'][:-1])/2)
            if abs(s[..., None] - gap).min() > 1e-9:
                check(np.array_equal(xs, x[near]), 'p(t)')
    ctx.nt(c['paths'] > 1 and n > 1)
    ctx.label(c['f'], 'u:' + c['ukind'], 't:%s' % c['tshape'])
    shape = tshape + u.shape + tuple(c['vshape'])
    check(got.shape == shape, 'shape {} instead of {}', got.shape, shape)
    nt, nu = len(tshape), u.ndim
    tol = 1e-5 if c['kind'] == 'f4' and c['f'] == 'chf' else 1e-11
    for idx in np.ndindex(*shape):
        it, iu, iv = idx[:nt], idx[nt:nt+nu], idx[nt+nu:]
        path = xs[it + iv]
        if c['f'] == 'chf':
            want = sum(cmath.exp(1j*float(u[iu])*float(z)) for z in path)
        else:
            want = sum(1 for z in path if z <= u[iu])
        want = want/len(path)
        check(abs(got[idx] - want) < tol, '{} at {}: {} instead of {}', c['f'],
              idx, got[idx], want)
    check(identical(p.x, x), 'the process was modified')


@st.composite
def large_cases(draw):
    return dict(paths=draw(st.sampled_from([127, 128, 129, 255, 256, 257, 4096, 32767,
                                            32768, 32769, 65535, 65536, 65537, 10**5])),
                below=draw(st.sampled_from(['all', 'all', 'none', 'some', 'one'])),
                dtype=draw(st.sampled_from(['f8', 'f4', 'i8', 'i2', 'i1'])),
                seed=draw(seeds), u=draw(fl(-3, 3)))


@subs(large_cases(), quick=150, thorough=5000)
def large(c, ctx):
    """Counts of paths beyond the range of small integers."""
    ctx.nt()
    ctx.label(c['below'])
    n = c['paths']
    rng = np.random.default_rng(c['seed'])
    x = rng.integers(1, 9, (2, n)).astype(c['dtype'])
    below = dict(all=n, none=0, one=1, some=int(rng.integers(n + 1)))[c['below']]
    x[:, rng.permutation(n)[:below]] *= -1
    p = process([0., 1.], x=x)
    for args in ((0,), (0., 0), (1., [0, 0])):
        got = np.asarray(p.cdf(*args))
        check(np.all(abs(got - below/n) < 1e-12), 'cdf with {} values out of {}: {}',
              below, n, got)
    u = c['u']
    want = sum(np.exp(1j*u*float(k))*int((x[0] == k).sum())
               for k in range(-8, 9))/n
    got = complex(p.chf(0., u))
    check(abs(got - want) < (1e-5 if c['dtype'] == 'f4' else 1e-6), 'chf with {} paths: '
          '{} instead of {}', n, got, want)


@subs(cases(), quick=150)
def missing(c, ctx):
    ctx.nt()
    x = make([len(c['t'])] + c['vshape'] + [c['paths']], c['seed'], c['kind'])
    p = process(np.array(c['t']), x=x)
    check(raises(TypeError, p.chf) and raises(TypeError, p.cdf), 'no argument')
