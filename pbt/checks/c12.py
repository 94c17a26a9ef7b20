import numpy as np
import scipy.stats
import sdepy
from sdepy import process
from hypothesis import strategies as st
from pbt import srcs, stats
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of

subs = Subs('Poisson sources with constant, per component, per path or '
            'time-dependent intensities, several t and dt of both signs: sign '
            'and integrality of all counts, goodness of fit of large samples, '
            'exact zeros where the intensity vanishes; intensities that do '
            'not fit. Non-trivial: several components or times, or a malformed '
            'intensity')
FORMS = ['const', 'list', 'call', 'calllist', 'process', 'lazy']


@st.composite
def cases(draw, paths=None):
    many = paths is not None
    paths = paths or draw(st.integers(1, 4))
    vshape = draw(vshapes(2, 3))
    shape = draw(broadcast_of(vshape + [paths]))
    form = draw(st.sampled_from(FORMS))
    nt = draw(st.integers(1, 3))
    return dict(name=draw(st.sampled_from(['poisson', 'poisson',
                                           'even_poisson'])),
                vshape=vshape, paths=paths, shape=shape,
                form=form, lseed=draw(seeds), zeros=draw(st.booleans()),
                scale=draw(st.sampled_from([.3, 1., 5., 30.] + [3e4, 1e8]*(not many))),
                unit=draw(st.sampled_from([1., 1., 1e-7, 1e5])),
                t=draw(st.lists(fl(-2, 2, 2), min_size=nt, max_size=nt)),
                dt=draw(st.lists(fl(-2, 2, 2).filter(lambda z: abs(z) > .05),
                                 min_size=nt, max_size=nt)),
                step=draw(st.booleans()), cut=draw(st.sampled_from(
                    [.03, .25, .45, .55, .75, .97])),
                dtype=draw(st.sampled_from(['omit', 'int', 'f8'])),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


def lam_at(c, t, shape=None):
    r = np.random.RandomState(c['lseed'])
    shape = c['shape'] if shape is None else shape
    L = r.uniform(.2, 1.5, size=shape)*c['scale']
    if c['zeros']:
        L = L*r.randint(0, 2, size=shape)
    M = r.uniform(.2, 1.5, size=shape)*c['scale']
    if c['form'] in ('const', 'list'):
        return L
    cut = c['t'][0] + c['cut']*c['dt'][0]
    if c['step']:
        return L if t < cut else M
    w = (t + 5)/10
    return (1 - w)*L + w*M


def parameter(c, unit=1.):
    f = c['form']
    if f in ('const', 'list'):
        L = lam_at(c, 0.)/unit
        return L.tolist() if f == 'list' else L
    if f == 'process':
        shape = c['shape'] or [1]
        if c['step']:
            cut = c['t'][0] + c['cut']*c['dt'][0]
            s = [cut - 1, cut + 1]
            return sdepy.piecewise(
                s, x=[lam_at(c, z).reshape(shape) for z in s])
        return process([-5., 5.], x=[lam_at(c, z).reshape(shape)
                                     for z in (-5., 5.)])

    def lam(t):
        if f == 'lazy' and t == 1.:
            raise RuntimeError('not defined at 1')
        z = lam_at(c, t)
        return z.tolist() if f == 'calllist' else z
    return lam


def usable(c):
    mid = [t + dt/2 for t, dt in zip(c['t'], c['dt'])]
    cut = c['t'][0] + c['cut']*c['dt'][0]
    return all(abs(m - 1) > 1e-9 and abs(m - cut) > 1e-4 for m in mid)


@subs(cases(), quick=280, thorough=10000, shards=7)
def law(c, ctx):
    """Each (component, path) has its own intensity: many draws of each."""
    if not usable(c):
        return
    R = 1500
    # a different unit of time
    unit = c['unit'] if c['form'] in ('const', 'list') else 1.
    ctx.label(c['form'], c['name'], 'x%g' % c['scale'])
    ctx.nt(len(c['t']) > 1 or c['vshape'] or c['shape'])
    paths = c['paths']*(2 if c['name'] == 'even_poisson' else 1)
    kw = {} if c['dtype'] == 'omit' else \
        dict(dtype=int if c['dtype'] == 'int' else c['dtype'])
    dn = srcs.cls(c['name'])(paths=paths, vshape=tuple(c['vshape']),
                             lam=parameter(c, unit), **kw,
                             rng=srcs.rng(c['rng'], c['seed']))
    t, dt = np.array(c['t']), np.array(c['dt'])
    T = np.resize(t, (R, t.size))
    n = dn(T, dt*unit)[..., :c['paths']]
    check(n.shape == (R, t.size) + tuple(c['vshape']) + (c['paths'],), 'shape')
    check((n == np.rint(n)).all(), 'not integer')
    for k in range(t.size):
        s = np.sign(dt[k])
        check((n[:, k]*s >= 0).all(), 'counts over dt={} of the wrong sign',
              dt[k])
        L = np.broadcast_to(lam_at(c, t[k] + dt[k]/2),
                            c['vshape'] + [c['paths']])
        mu = L*abs(dt[k])
        m = np.abs(n[:, k])
        check((m[:, mu == 0] == 0).all(), 'counts with zero intensity')
        # mean and variance of each entry
        tot = m.sum(axis=0)
        z = abs(tot - R*mu)/np.sqrt(R*mu + 30)
        check(z.max() < 7.5 + 20/np.sqrt(R*mu.max() + 30),
              'mean counts {} instead of {}', tot/R, mu)
        # law of each entry
        for i in np.ndindex(*mu.shape):
            if mu[i] > 2000:
                y = (m[(slice(None),) + i] - mu[i])/np.sqrt(mu[i])
                for msg in (stats.ks_test(y, 'norm', 'counts of mean %g' % mu[i]),
                            stats.mean_test(y**2, 1., np.sqrt(2.), 'variance')):
                    check(msg is None, '{}', msg)
            elif mu[i] > 0:
                msg = stats.count_test(m[(slice(None),) + i],
                                       scipy.stats.poisson(mu[i]),
                                       'dt={}, entry {}'.format(dt[k], i))
                check(msg is None, '{}', msg)
    # independence of entries and times
    x = np.abs(n).reshape(R, -1).astype(float)
    mu = np.array([np.broadcast_to(lam_at(c, a + b/2), c['vshape'] +
                                   [c['paths']])*abs(b)
                   for a, b in zip(t, dt)]).ravel()
    ok = mu > .15
    x, mu = x[:, ok], mu[ok]
    if mu.size > 1:
        y = (x - mu)/np.sqrt(mu)
        cc = y.T @ y/R
        off = cc[~np.eye(mu.size, dtype=bool)]
        check(abs(off).max() < 11/np.sqrt(R), 'correlated counts: {}',
              abs(off).max())
    if R > 1:
        y = (x - mu)/np.sqrt(mu)
        lag = (y[1:]*y[:-1]).mean() if y.size else 0.
        check(abs(lag) < 9/np.sqrt(max(y.size, R)), 'correlated realizations')


@subs(cases(paths=30000), quick=300, thorough=8000, shards=2)
def many_paths(c, ctx):
    """The law across paths, for intensities not depending on the path."""
    if not usable(c):
        return
    c['shape'] = c['shape'][:-1] + [1] if c['shape'] else []
    ctx.nt(len(c['t']) > 1 or c['vshape'])
    two = c['name'] == 'even_poisson'
    P = c['paths']
    dn = srcs.cls(c['name'])(paths=P*(2 if two else 1),
                             vshape=tuple(c['vshape']), lam=parameter(c),
                             rng=srcs.rng(c['rng'], c['seed']))
    for t, dt in zip(c['t'], c['dt']):
        n = dn(t, dt)[..., :P]*np.sign(dt)
        L = np.broadcast_to(lam_at(c, t + dt/2), c['vshape'] + [1])
        for i in np.ndindex(*c['vshape']):
            mu = L[i][0]*abs(dt)
            check(n[i].min() >= 0, 'sign')
            if mu == 0:
                check((n[i] == 0).all(), 'counts with zero intensity')
                continue
            msg = stats.count_test(n[i], scipy.stats.poisson(mu),
                                   'dt={}, entry {}'.format(dt, i))
            check(msg is None, '{}', msg)
            y = (n[i] - mu)/np.sqrt(mu)
            if mu > .15:
                h = P//2
                for a, b in ((y[:h], y[h:]), (y[:-1:2], y[1::2])):
                    m = (a*b).mean()
                    check(abs(m) < 9/np.sqrt(h), 'correlated paths: {}', m)


@st.composite
def bad_cases(draw):
    vshape = draw(vshapes(2, 3))
    paths = draw(st.integers(1, 4))
    full = vshape + [paths]
    k = draw(st.integers(0, len(full)-1))
    bad = draw(st.sampled_from(['size', 'long']))
    shape = list(full)
    if bad == 'size':
        shape[k] = full[k] + draw(st.integers(1, 2)) if full[k] > 1 else \
            draw(st.integers(2, 3))
        shape = shape[draw(st.integers(0, k)):]
    else:
        shape = [draw(st.integers(1, 2))] + shape
    return dict(vshape=vshape, paths=paths, shape=shape,
                form=draw(st.sampled_from(['const', 'list', 'call', 'process'])),
                name=draw(st.sampled_from(['poisson', 'true_poisson',
                                           'even_poisson', 'cpoisson'])))


@subs(bad_cases(), quick=400)
def malformed(c, ctx):
    ctx.nt()
    L = np.ones(c['shape'])
    paths = c['paths']*(2 if c['name'] == 'even_poisson' else 1)
    lam = L.tolist() if c['form'] == 'list' else L if c['form'] == 'const' \
        else process(x=L[None]) if c['form'] == 'process' else lambda t: L
    try:
        srcs.cls(c['name'])(paths=paths, vshape=tuple(c['vshape']), lam=lam)
    except ValueError:
        return
    fail('lam of shape {} accepted for vshape {}, {} paths', c['shape'],
         c['vshape'], c['paths'])
