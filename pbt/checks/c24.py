import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt import euler, srcs
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, raises, identical

subs = Subs('a preset process with generated parameters (any form, some left to '
            'their defaults), integrated over a generated grid with recording '
            'sources, vs. the reference recursion of its documented equation. '
            'Non-trivial: two or more steps')

# documented parameters: default, and range of generated values
WIENER = dict(mu=(0., -1, 1), sigma=(1., 0, 1.5))
PARAMS = dict(
    wiener=WIENER, lognorm=WIENER,
    ornstein_uhlenbeck=dict(theta=(0., -1, 1), k=(1., 0, 2), sigma=(1., 0, 1.5)),
    cox_ingersoll_ross=dict(theta=(1., .1, 2), k=(1., .1, 2), xi=(1., 0, 3)),
    full_heston=dict(mu=(0., -1, 1), sigma=(1., 0, 1.5), theta=(1., .1, 2),
                     k=(1., .1, 2), xi=(1., 0, 4)),
    jumpdiff=WIENER, merton_jumpdiff=WIENER, kou_jumpdiff=WIENER)
PARAMS['hull_white'] = PARAMS['hull_white_1factor'] = PARAMS['ornstein_uhlenbeck']
PARAMS['heston'] = PARAMS['full_heston']
NAMES = sorted(PARAMS)
X0 = dict(wiener=0., ornstein_uhlenbeck=0., hull_white=0., hull_white_1factor=0.)
LOG = ('lognorm', 'full_heston', 'heston', 'jumpdiff', 'merton_jumpdiff',
       'kou_jumpdiff')


@st.composite
def cases(draw, names=NAMES, first=False):
    name = draw(st.sampled_from(names))
    vshape = draw(vshapes(2, 2))
    paths = draw(st.integers(1, 3))
    factors = None
    pshape = vshape
    if name == 'hull_white':
        factors = draw(st.sampled_from([None, 1, 2, 3]))
        pshape = vshape + [factors or 1]
    wshape = pshape
    if 'heston' in name:
        wshape = vshape[:-1] + [2*vshape[-1]] if vshape else [2]
    # any value: the documented equation is well defined for negative ones too
    neg = draw(st.sampled_from([0, 0, 0, 1]))
    params = {k: draw(euler.params(pshape + [paths], -hi if neg else lo, hi))
              for k, (z, lo, hi) in PARAMS[name].items() if draw(st.integers(0, 3))}
    lo = -1. if name in X0 else .2
    c = dict(name=name, vshape=vshape, paths=paths, factors=factors,
             pshape=pshape, wshape=wshape, params=params,
             grid=draw(euler.grids(max_size=5, first=first)), seed=draw(seeds),
             dshape=draw(broadcast_of(wshape)), jshape=draw(broadcast_of(vshape)),
             mixin=draw(st.booleans()), dtype=draw(st.sampled_from([None, None,
                                                                    'f8', 'f4'])),
             getinfo=draw(st.booleans()))
    for k in ('x0', 'y0'):
        if k == 'x0' or 'heston' in name:
            low = lo
            if k == 'y0' or name == 'cox_ingersoll_ross':   # negative ones too
                low = draw(st.sampled_from([lo, lo, -.5]))
            c[k] = draw(st.one_of(st.none(), euler.params(
                pshape + [paths], low, 1.5, const=True)))
    return c


def process_class(c):
    name = c['name']
    if c.get('mixin') and name != 'hull_white_1factor':
        return type('mixed', (getattr(sdepy, name + '_SDE'), sdepy.integrator), {})
    return getattr(sdepy, name + '_process')


def arguments(c):
    """Keywords, and the value of each parameter as a function of t."""
    kw = dict(euler.grid_kw(c['grid']), paths=c['paths'],
              vshape=tuple(c['vshape']))
    if c['dtype']:
        kw['dtype'] = np.dtype(c['dtype'])
    if not c['getinfo']:
        kw['getinfo'] = False
    if c['factors'] is not None:
        kw['factors'] = c['factors']
    value = {k: (lambda t, z=z[0]: z) for k, z in PARAMS[c['name']].items()}
    for k, d in c['params'].items():
        kw[k], value[k] = euler.param(d)
    x0, y0 = X0.get(c['name'], 1.), 1.
    if c['x0'] is not None:
        kw['x0'], f = euler.param(c['x0'])
        x0 = f(0)
    if c.get('y0') is not None:
        kw['y0'], f = euler.param(c['y0'])
        y0 = f(0)
    return kw, value, x0, y0


def expected(c, value, x0, y0, dw, dj=None):
    """Reference values: of the process, or both of them for Heston."""
    name, grid = c['name'], c['grid']
    shape = tuple(c['pshape']) + (c['paths'],)
    W = tuple(c['wshape']) + (c['paths'],)
    P = {}

    def at(s):
        return [np.broadcast_to(value[k](s), shape) for k in PARAMS[name]]

    if name in ('wiener', 'lognorm', 'jumpdiff', 'merton_jumpdiff',
                'kou_jumpdiff'):
        def step(s, ds, x):
            mu, sigma = at(s)
            if name != 'wiener':
                mu = mu - sigma**2/2
            y = x + mu*ds + sigma*dw(s, ds)
            return y if dj is None else y + dj(s, ds)
    elif name in ('ornstein_uhlenbeck', 'hull_white', 'hull_white_1factor'):
        def step(s, ds, x):
            theta, k, sigma = at(s)
            return x + k*(theta - x)*ds + sigma*dw(s, ds)
    elif name == 'cox_ingersoll_ross':
        def step(s, ds, x):
            theta, k, xi = at(s)
            v = np.where(x > 0, x, 0.)
            return x + k*(theta - v)*ds + xi*np.sqrt(v)*dw(s, ds)
    else:
        def step(s, ds, xy):
            mu, sigma, theta, k, xi = at(s)
            x, y = xy
            z = np.broadcast_to(dw(s, ds), W)
            if c['vshape']:
                N = c['vshape'][-1]
                zx, zy = z[..., :N, :], z[..., N:, :]
            else:
                zx, zy = z[0], z[1]
            v = np.where(y > 0, y, 0.)
            return np.array([
                x + (mu - sigma**2*v/2)*ds + sigma*np.sqrt(v)*zx,
                y + k*(theta - v)*ds + xi*np.sqrt(v)*zy])
        start = np.array([np.broadcast_to(np.log(x0), shape),
                          np.broadcast_to(y0, shape)])
        xy = euler.reference(grid, start, step, (2,) + shape)
        return np.exp(xy[:, 0]), xy[:, 1], xy
    start = np.log(x0) if name in LOG else x0
    x = euler.reference(grid, start, step, shape)
    raw = x
    if name == 'hull_white':
        x = x.sum(axis=-2)
    return (np.exp(x) if name in LOG else x), None, raw


def compare(c, got, want, what):
    check(isinstance(got, sdepy.process), '{} of type {}', what,
          type(got).__name__)
    check(got.shape == want.shape, '{}: shape {} instead of {}', what, got.shape,
          want.shape)
    check(got.dtype == np.dtype(c['dtype'] or float), '{}: dtype {}', what,
          got.dtype)
    check(identical(got.t, np.asarray(c['grid']['t'])), '{}: timeline {}', what,
          got.t)
    check(euler.close(got, want, rtol=1e-7 if c['dtype'] != 'f4' else 2e-3),
          '{}: {} instead of {}', what, got, want)


@subs(cases(), quick=2500, thorough=250000, shards=4)
def recursion(c, ctx):
    kw, value, x0, y0 = arguments(c)
    if c['dtype'] == 'f4' and c['name'] in ('cox_ingersoll_ross', 'heston',
                                            'full_heston'):
        c['dtype'] = None    # the sign of values close to 0 is relevant
        del kw['dtype']
    dw = euler.Stub(c['paths'], c['dshape'], c['seed'])
    kw['dw'] = dw
    dj = None
    if 'jump' in c['name']:
        kw['dj'] = dj = euler.Stub(c['paths'], c['jshape'], c['seed'] + 1)
    p = process_class(c)(**kw)
    res = p(c['grid']['t'])
    x, y, raw = expected(c, value, x0, y0, dw.value, dj and dj.value)
    ctx.label(c['name'])
    ctx.nt(euler.nsteps(c['grid']) > 1)
    if not euler.tame(raw) or not euler.tame(x) or (c['dtype'] == 'f4' and
                                                    abs(raw).max() > 50):
        ctx.label('diverged')
        return
    if c['name'] == 'full_heston':
        check(isinstance(res, tuple) and len(res) == 2, 'full_heston returns {}',
              type(res))
        compare(c, res[0], x, 'full_heston[0]')
        compare(c, res[1], y, 'full_heston[1]')
    else:
        compare(c, res, x, c['name'])
    if c['name'] in ('heston', 'full_heston') and (y < 0).any():
        ctx.label('negative variance')


@subs(cases(names=['heston']), quick=300, thorough=20000)
def heston(c, ctx):
    """heston is the first of full_heston, with default sources too."""
    kw, value, x0, y0 = arguments(c)
    ctx.nt(euler.nsteps(c['grid']) > 1)
    kw['rho'] = .3 if c['wshape'][-1] == 2 else [.3]*(c['wshape'][-1]//2)
    x = sdepy.heston_process(rng=srcs.rng('gen', c['seed']), **kw)(c['grid']['t'])
    xf, yf = sdepy.full_heston_process(rng=srcs.rng('gen', c['seed']), **kw)(
        c['grid']['t'])
    check(x.shape == xf.shape == yf.shape, 'shapes')
    check(np.array_equal(x, xf, equal_nan=True), 'heston differs from the first '
          'output of full_heston: {} vs. {}', x, xf)


@st.composite
def jump_cases(draw):
    c = draw(cases(names=['jumpdiff', 'merton_jumpdiff', 'kou_jumpdiff'],
                   first=True))
    c.update(lam=draw(st.sampled_from([None, 0., 1., 3., 'call', 'array'])),
             law=draw(srcs.laws()), a=draw(fl(.1, 1.5, 1)), b=draw(fl(.1, 1.5, 1)),
             pa=draw(fl(0, 1, 1)), args=draw(st.booleans()),
             form=draw(st.sampled_from(['scalar', 'call', 'array'])),
             ptype=draw(st.sampled_from([None, 'f8', 'i4', 'i8'])),
             dn=draw(st.booleans()), rng=draw(st.sampled_from(srcs.RNGS)))
    return c


@subs(jump_cases(), quick=800, thorough=50000, shards=2)
def jumps(c, ctx):
    """The default jump source of each process has the documented law."""
    kw, value, x0, y0 = arguments(c)
    dw = kw['dw'] = euler.Stub(c['paths'], c['dshape'], c['seed'])
    paths, v = c['paths'], tuple(c['vshape'])
    ks = {}
    if c['lam'] is not None:
        ks['lam'] = c['lam']
        if c['lam'] == 'call':
            ks['lam'] = lambda t: 1.5 + np.cos(t)
        if c['lam'] == 'array':
            ks['lam'] = make(v + (paths,), c['seed'], 'pos')
    if c['ptype']:
        ks['ptype'] = np.dtype(c['ptype'])
    name = c['name']
    a, b, pa = c['a'], c['b'], c['pa']

    def form(z):
        if c['form'] == 'call':
            return lambda t: z
        if c['form'] == 'array':
            return np.full(v + (paths,), z)
        return z
    kj = {}
    if name == 'merton_jumpdiff':
        if c['args']:
            kj = dict(a=form(a), b=form(b))
        else:
            a, b = 0., 1.
        y = sdepy.norm_rv(a=form(a), b=form(b)) if c['args'] else \
            sdepy.norm_rv(a=a, b=b)
    elif name == 'kou_jumpdiff':
        if c['args']:
            kj = dict(a=form(a), b=form(b), pa=form(pa))
            y = sdepy.double_exp_rv(a=form(a), b=form(b), pa=form(pa))
        else:
            y = sdepy.double_exp_rv(a=.5, b=.5, pa=.5)
    else:
        y = srcs.law(c['law'])
        if c['args']:
            kj = dict(y=y)
        else:
            y = sdepy.uniform_rv(0, 1)
    kd = dict(ks)
    if c['dn']:
        def dn():
            return sdepy.poisson_source(paths=paths, vshape=v, lam=kd.get('lam', 1.),
                                        rng=srcs.rng(c['rng'], c['seed'] + 1))
        ks['dn'], kd['dn'] = dn(), dn()
    dj = sdepy.cpoisson_source(paths=paths, vshape=v, y=y,
                               rng=srcs.rng(c['rng'], c['seed']),
                               **dict(dict(lam=1.), **kd))
    if c['dtype']:
        c['dtype'] = None
        kw.pop('dtype', None)
    p = process_class(c)(rng=srcs.rng(c['rng'], c['seed']), **kw, **ks, **kj)
    x = p(c['grid']['t'])
    want, _, raw = expected(c, value, x0, y0, dw.value, dj)
    ctx.label(name, c['form'], 'defaults' if not c['args'] else 'given')
    ctx.nt(euler.nsteps(c['grid']) > 1)
    if euler.tame(raw) and euler.tame(want):
        compare(c, x, want, name)


def _defaults():
    ex = []
    for n in NAMES:
        ex.append(dict(name=n, vshape=[], paths=2, factors=None,
                       pshape=[1] if n == 'hull_white' else [],
                       wshape=[2] if 'heston' in n else
                       [1] if n == 'hull_white' else [], params={},
                       grid=dict(t=[0., .5, 1.], steps=5, i0=0), seed=1,
                       dshape=[], jshape=[], mixin=False, dtype=None, getinfo=True,
                       x0=None, y0=None))
    return ex


@subs(st.sampled_from(_defaults()), quick=10, thorough=10, examples=_defaults())
def defaults(c, ctx):
    recursion_fn(c, ctx)


recursion_fn = recursion
