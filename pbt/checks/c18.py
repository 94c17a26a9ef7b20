import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, raises

subs = Subs('a montecarlo instance updated with 1 to 6 generated batches, with '
            'components indexed at generated moments, vs. statistics of the '
            'pooled sample. Non-trivial: two or more batches, and three or '
            'more pooled points')


@st.composite
def batches(draw, vshape, use, first=False):
    shape = list(vshape) if first else draw(broadcast_of(vshape))
    n = draw(st.integers(1, 6))
    if draw(st.integers(0, 3)) == 0:
        n = draw(st.integers(7, 60))
    if use != 'all':
        n *= 2
    axis = draw(st.integers(-len(shape) - 1, len(shape)))
    return dict(shape=shape, n=n, axis=draw(st.sampled_from([axis, None])),
                seed=draw(seeds), off=draw(st.sampled_from([0., 0., 0., .5, -3.])),
                kind=draw(st.sampled_from(['norm', 'norm', 'pos', 'int', 'fint',
                                           'bool', 'f4', 'dup', 'u1', 'i1'])),
                form=draw(st.sampled_from(['array', 'array', 'list', 'view',
                                           'ro'])))


@st.composite
def histories(draw):
    vshape = draw(vshapes(2, 3))
    use = draw(st.sampled_from(['all', 'all', 'even', 'odd']))
    n = draw(st.integers(1, 6))
    b = [draw(batches(vshape, use, first=k == 0)) for k in range(n)]
    if not vshape and use == 'all' and draw(st.integers(0, 5)) == 0:
        b[0].update(scalar=True, n=1, form='array', axis=None)
    probes = []
    for k in range(draw(st.integers(0, 3))):
        i = draw(st.one_of(st.just('...'), st.lists(st.one_of(
            st.integers(-1, 0), st.just('s')), max_size=len(vshape))))
        probes.append([draw(st.integers(0, n-1)), i])
    return dict(vshape=vshape, use=use, batches=b, probes=probes,
                init=draw(st.booleans()),
                off=draw(st.sampled_from([0., 0., 0., 1., 1e3, -1e6])),
                bins=draw(st.sampled_from(['none', 'default', 'int', 'auto'])),
                dtype=draw(st.sampled_from([None, None, None, 'f4', 'f8',
                                            'f2no', 'g'])))


def batch(b, c):
    """The sample given by the user, and the one to be pooled."""
    if b.get('scalar'):
        x = make([], b['seed'], b['kind'])
        return x[()], np.array([x], dtype=float)
    x = make(b['shape'] + [b['n']], b['seed'], b['kind'])
    if x.dtype.kind == 'f' and x.dtype != np.float32:
        x = x + (c['off'] + b['off'])
    pool = x.astype(np.longdouble)
    if b['axis'] is not None:
        x = np.moveaxis(x, -1, b['axis'])
    if b['form'] == 'list':
        x = x.tolist()
    elif b['form'] == 'view':
        y = np.zeros((2,) + x.shape[::-1], dtype=x.dtype)
        y[1] = x.T
        x = y[1].T
    else:
        x = np.array(x)
        if b['form'] == 'ro':
            x.flags.writeable = False
    return x, pool


def half(pool, use):
    if use == 'all':
        return pool
    n = pool.shape[-1]//2
    s = 1 if use == 'even' else -1
    return (pool[..., :n] + s*pool[..., n:])/2


def eps(c):
    first = c['batches'][0]
    d = c['dtype'] if c['dtype'] in ('f4', 'f8', 'g') else None
    if d == 'f4' or (d is None and first['kind'] == 'f4'
                     and first['form'] != 'list'):
        return 1.2e-7
    if any(b['kind'] == 'f4' and b['form'] != 'list' for b in c['batches']):
        return 1.2e-7   # means of such samples are those of NumPy
    return 2.3e-16


def compare(a, pool, center, e, what):
    """Statistics of montecarlo a vs. those of the pooled sample."""
    n = pool.shape[-1]
    vshape = pool.shape[:-1]
    check(a.paths == n, '{}: paths {} instead of {}', what, a.paths, n)
    check(a.vshape == vshape, '{}: vshape {} instead of {}', what, a.vshape,
          vshape)
    check(a.shape == pool.shape, '{}: shape {} instead of {}', what, a.shape,
          pool.shape)
    m = pool.mean(axis=-1)
    d = pool - m[..., None]
    v = (d**2).mean(axis=-1)
    # scale of rounding errors: deviations from the first mean
    R = abs(pool - center[..., None]).max(axis=-1) + \
        20*e*abs(pool).max(axis=-1)
    big = abs(pool).max(axis=-1)
    k = 100*e*(1 + n/50)

    def eq(got, want, tol, name, sel=None):
        got = np.asarray(got)
        check(got.shape == vshape, '{}: {} has shape {} instead of {}', what,
              name, got.shape, vshape)
        bad = ~(abs(got - want) <= tol)
        if sel is not None:
            bad = bad & sel
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0])
            fail('{}: {} is {} instead of {} at {} (tolerance {})', what, name,
                 got[i], np.asarray(want)[i], i, np.broadcast_to(tol, bad.shape)[i])
    tolv = k*R**2 + 20*e*big*R + 1e-30
    eq(a.mean(), m, k*big + 1e-30, 'mean')
    eq(a.m, m, k*big + 1e-30, 'm')
    eq(a.var(), v, tolv, 'var')
    # elsewhere, rounding errors in the variance are relevant
    sel = v > 1e4*tolv
    vs = np.where(sel, v, 1.)
    s = np.sqrt(vs)
    rel = tolv/vs
    eq(a.std(), s, rel*s, 'std', sel)
    eq(a.s, s, rel*s, 's', sel)
    st_ = a.stats
    check(set(st_) == {'mean', 'stderr', 'std', 'skew', 'kurtosis'},
          '{}: stats has {}', what, sorted(st_))
    if n > 1:
        se = s/np.sqrt(np.longdouble(n - 1))
        eq(a.stderr(), se, rel*se, 'stderr', sel)
        eq(a.e, se, rel*se, 'e', sel)
        eq(st_['stderr'], se, rel*se, "stats['stderr']", sel)
        sk = (d**3).mean(axis=-1)/vs**1.5
        tol = 10*rel*(abs(sk) + R/s) + 10*k*(R/s)**3
        eq(a.skew(), sk, tol, 'skew', sel & (tol < .1))
        eq(st_['skew'], sk, tol, "stats['skew']", sel & (tol < .1))
        ku = (d**4).mean(axis=-1)/vs**2
        tol = 10*rel*(abs(ku) + (R/s)**2) + 20*k*(R/s)**4
        eq(a.kurtosis(), ku, tol, 'kurtosis', sel & (tol < .1))
        eq(st_['kurtosis'], ku, tol, "stats['kurtosis']", sel & (tol < .1))
    else:
        check(np.all(np.isnan(a.stderr())), '{}: stderr of one point is {}',
              what, a.stderr())
        check(not np.any(a.var()), '{}: var of one point is {}', what, a.var())
    eq(st_['mean'], m, k*big + 1e-30, "stats['mean']")
    eq(st_['std'], s, rel*s, "stats['std']", sel)


def probe_index(i):
    if i == '...':
        return Ellipsis
    return tuple(slice(None) if z == 's' else z for z in i)


@subs(histories(), quick=2500, thorough=200000, shards=4)
def pooled(c, ctx):
    kw = {}
    if c['bins'] != 'default':
        kw['bins'] = dict(none=None, int=7, auto='auto')[c['bins']]
    if c['batches'][0]['kind'] in ('i1', 'u1') and c['bins'] == 'auto':
        kw['bins'] = None    # NumPy rules overflow on small integers
    if c['dtype'] in ('f4', 'f8', 'g'):
        kw['dtype'] = np.dtype(c['dtype'])
    e = eps(c)
    vshape = tuple(c['vshape'])
    a, pool, probes = None, None, []
    for k, b in enumerate(c['batches']):
        x, p = batch(b, c)
        before = np.array(x)
        p = half(p, c['use'])
        p = np.broadcast_to(p, vshape + p.shape[-1:])
        ax = {} if b['axis'] is None else dict(axis=b['axis'])
        if k == 0:
            if c['init']:
                a = sdepy.montecarlo(x, use=c['use'], **ax, **kw)
            else:
                a = sdepy.montecarlo(use=c['use'], **kw)
                check(a.paths == 0, 'an empty instance has paths {}', a.paths)
                a.update(x, **ax)
            pool, center = p, p.mean(axis=-1)
        else:
            a.update(x, **ax)
            pool = np.concatenate((pool, p), axis=-1)
        check(np.array_equal(before, np.array(x)), 'the sample was modified')
        compare(a, pool, center, e, 'after {} updates'.format(k + 1))
        if k == 0 or 'dtype' in kw:
            d = kw.get('dtype', np.float32 if b['kind'] == 'f4' and
                       b['form'] != 'list' else float)
            check(a.mean().dtype == d, 'mean of dtype {} instead of {}',
                  a.mean().dtype, d)
        for j, i in c['probes']:
            if j == k:
                i = probe_index(i)
                probes.append((i, a[i]))
        for i, ai in probes:
            j = i if i is Ellipsis else i + (Ellipsis,)
            compare(ai, pool[j + (slice(None),)] if i is not Ellipsis else pool,
                    center[j], e, 'a[{}] after {} updates'.format(i, k + 1))
    ctx.nt(len(c['batches']) > 1 and pool.shape[-1] > 2)
    ctx.label(c['use'], 'bins-' + c['bins'], *{b['kind'] for b in c['batches']})


@st.composite
def split_cases(draw):
    n = draw(st.integers(2, 40))
    cuts = sorted(draw(st.sets(st.integers(1, n-1), max_size=5)))
    return dict(vshape=draw(vshapes(2, 2)), n=n, cuts=cuts, seed=draw(seeds),
                perm=draw(st.booleans()),
                kind=draw(st.sampled_from(['norm', 'pos', 'int', 'dup'])),
                off=draw(st.sampled_from([0., 1., 100.])))


@subs(split_cases(), quick=600, thorough=40000)
def batching(c, ctx):
    """Any split, in any order, gives the same as the sample at once."""
    x = make(c['vshape'] + [c['n']], c['seed'], c['kind']) + c['off']
    r = np.random.RandomState(c['seed'])
    one = sdepy.montecarlo(x, bins=None)
    many = sdepy.montecarlo(bins=None)
    parts = np.split(x, c['cuts'], axis=-1)
    if c['perm']:
        parts = [parts[i] for i in r.permutation(len(parts))]
    for z in parts:
        many.update(z)
    ctx.nt(len(parts) > 1)
    center = parts[0].mean(axis=-1)
    pool = x.astype(np.longdouble)
    compare(one, pool, x.mean(axis=-1), 2.3e-16, 'at once')
    compare(many, pool, center, 2.3e-16, 'in batches')


@st.composite
def refused_cases(draw):
    return dict(what=draw(st.sampled_from(['odd length', 'use', 'vshape',
                                           'shape'])),
                use=draw(st.sampled_from(['even', 'odd'])),
                vshape=draw(vshapes(2, 3)), n=draw(st.integers(1, 5)),
                axis=draw(st.sampled_from([0, -1])), seed=draw(seeds),
                later=draw(st.booleans()))


@subs(refused_cases(), quick=200, thorough=5000)
def refused(c, ctx):
    ctx.nt()
    v = c['vshape']

    def sample(n, vshape=v):
        x = make(vshape + [n], c['seed'])
        return np.moveaxis(x, -1, c['axis'])
    kw = dict(axis=c['axis'])
    if c['what'] == 'odd length':
        bad = sample(2*c['n'] - 1)
        if c['later']:
            a = sdepy.montecarlo(sample(2*c['n']), use=c['use'], **kw)
            ok = raises(ValueError, a.update, bad, **kw)
            check(a.paths == c['n'], 'paths changed by a refused update')
        else:
            ok = raises(ValueError, sdepy.montecarlo, bad, use=c['use'], **kw)
    elif c['what'] == 'use':
        ok = raises(ValueError, sdepy.montecarlo, sample(2*c['n']), use='both',
                    **kw)
    elif c['what'] == 'vshape':
        a = sdepy.montecarlo()
        check(a.paths == 0, 'paths {} of an empty instance', a.paths)
        ok = raises(ValueError, lambda: a.vshape)
    else:
        a = sdepy.montecarlo(sample(c['n']), **kw)
        bad = make([7] + v + [c['n']], c['seed'])
        mean = np.array(a.mean())
        ok = raises(ValueError, a.update, bad)
        check(a.paths == c['n'] and np.array_equal(mean, a.mean()),
              'a refused update changed the statistics')
    check(ok, '{} not refused', c['what'])
