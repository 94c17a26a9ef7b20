import numpy as np
import scipy.stats
import scipy.integrate
import sdepy
from hypothesis import strategies as st
from pbt import srcs, stats
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, same, identical, raises

subs = Subs('norm/uniform/exp/double_exp distributions with scalar or array '
            'parameters, constant or callable: moments against integrals of '
            'the documented density, variates against the documented law, '
            'rvmap against the mapped variates of an equal generator. '
            'Non-trivial: array or callable parameters, or large samples, or '
            'parameters outside the domain')

NAMES = ['norm', 'uniform', 'exp', 'dexp']


def par_ranges(name):
    if name == 'norm':
        return dict(a=(-2, 2), b=(.1, 2))
    if name == 'uniform':
        return dict(a=(-2, .5), b=(.7, 2))
    if name == 'exp':
        return dict(a=(-2, 3))
    return dict(a=(.1, 2.5), b=(.1, 2), pa=(0, 1))


@st.composite
def cases(draw, array=True):
    name = draw(st.sampled_from(NAMES))
    shape = draw(vshapes(2, 3, min_dims=int(array == 'always'))) if array else []
    par = {}
    for k, (lo, hi) in par_ranges(name).items():
        form = draw(st.sampled_from(['array', 'list'] if array == 'always' else
                                    ['scalar', 'scalar', 'array', 'list', 'omit']
                                    if array else ['scalar', 'scalar', 'omit']))
        v = draw(st.one_of(fl(lo, hi, 2), st.sampled_from(
            [lo, hi] + [60., -40.]*(name == 'norm' and k == 'a'))))
        if name == 'exp' and abs(v) < .05:
            v = .5
        s = draw(broadcast_of(shape)) if form in ('array', 'list') else []
        par[k] = dict(form=form, v=v, shape=s, seed=draw(seeds))
    call = draw(st.sampled_from([None, None, 'some', 'all']))
    return dict(name=name, shape=shape, par=par, call=call,
                which=draw(st.sampled_from(sorted(par))), t=draw(fl(0, 1, 2)),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


DEFAULTS = dict(norm=dict(a=0, b=1), uniform=dict(a=0, b=1), exp=dict(a=1),
                dexp=dict(a=1, b=1, pa=.5))
FUN = dict(norm=sdepy.norm_rv, uniform=sdepy.uniform_rv, exp=sdepy.exp_rv,
           dexp=sdepy.double_exp_rv)


def par_at(c, k, t):
    """Value of parameter k at time t."""
    d = c['par'][k]
    lo, hi = par_ranges(c['name'])[k]
    if d['form'] == 'omit':
        return np.array(float(DEFAULTS[c['name']][k]))
    if d['form'] == 'scalar':
        v = np.array(d['v'])
    else:
        v = np.random.RandomState(d['seed']).uniform(lo, hi, size=d['shape'])
        if c['name'] == 'exp':
            v = np.where(abs(v) < .05, .5, v)
    if is_call(c, k):
        v = v + (.1*t if k == 'b' or c['name'] == 'norm' else 0)
        if k == 'pa':
            v = v*(1 - .5*t)
        elif c['name'] == 'exp':
            v = v*(1 + t)
    return v


def is_call(c, k):
    return c['par'][k]['form'] != 'omit' and (
        c['call'] == 'all' or c['call'] == 'some' and c['which'] == k)


def build(c):
    """Distribution at time c['t'], and whether it was time-dependent."""
    kw, varies = {}, False
    for k, d in c['par'].items():
        if d['form'] == 'omit':
            continue
        if is_call(c, k):
            varies = True
            kw[k] = (lambda k: lambda t: par_at(c, k, t))(k)
        else:
            v = par_at(c, k, 0.)
            kw[k] = v.tolist() if d['form'] in ('list', 'scalar') else v
    y = FUN[c['name']](**kw)
    check(callable(y) == varies, 'callable: {}', callable(y))
    return (y(c['t']) if varies else y), varies


def density(name, p):
    """pdf, split points."""
    if name == 'norm':
        a, b = p['a'], p['b']
        return (lambda x: np.exp(-(x-a)**2/2/b**2)/b/np.sqrt(2*np.pi)), \
            [a - 14*b, a, a + 14*b]
    if name == 'uniform':
        a, b = p['a'], p['b']
        return (lambda x: 1/(b - a) + 0*x), [a, b]
    if name == 'exp':
        a = p['a']
        s = np.sign(a)
        ends = sorted([0., 40*a, 4*a])
        return (lambda x: np.exp(-x/a)/abs(a)*(x*s >= 0)), ends
    a, b, q = p['a'], p['b'], p['pa']
    return (lambda x: np.where(x >= 0, q*np.exp(-abs(x)/a)/a,
                               (1-q)*np.exp(-abs(x)/b)/b)), \
        [-40*b, -4*b, 0., 4*a, 40*a]


def integral(f, ends):
    x, w = np.polynomial.legendre.leggauss(80)
    tot = 0.
    for a, b in zip(ends, ends[1:]):
        m = max(1, int(np.ceil((b-a)/max(1e-9, (ends[-1]-ends[0])/12))))
        e = np.linspace(a, b, m + 1)
        for u, v in zip(e, e[1:]):
            tot += (v-u)/2*(w*f((v-u)/2*x + (u+v)/2)).sum()
    return tot


@subs(st.one_of(cases(), cases('always')), quick=1200, thorough=40000, shards=2)
def moments(c, ctx):
    rv, varies = build(c)
    P = {k: par_at(c, k, c['t']) for k in c['par']}
    shape = np.broadcast_shapes(*[v.shape for v in P.values()])
    P = {k: np.broadcast_to(v, shape) for k, v in P.items()}
    ctx.nt(shape or varies)
    ctx.label(c['name'], 'varies' if varies else 'still')
    got = {k: np.asarray(getattr(rv, k)()) for k in
           ('mean', 'var', 'std', 'exp_mean')}
    for k, v in got.items():
        v = got[k] = np.broadcast_to(v, shape) if v.ndim < len(shape) else v
        check(v.shape == shape, '{} shape {} instead of {}', k, v.shape, shape)
    for i in np.ndindex(*shape):
        p = {k: float(v[i]) for k, v in P.items()}
        f, ends = density(c['name'], p)
        tot = integral(f, ends)
        assert abs(tot - 1) < 1e-7, (tot, p)
        m = integral(lambda x: x*f(x), ends)
        v = integral(lambda x: (x - m)**2*f(x), ends)
        e = integral(lambda x: np.exp(x)*f(x), ends)
        if c['name'] in ('exp', 'dexp'):
            a = p['a']
            q = p.get('pa', 1.)
            if q == 0:
                e = 1/(1 + p['b'])
            elif a >= 1:
                e = np.inf
            elif a > 0:
                e = q/(1-a) + ((1-q)/(1 + p['b']) if 'b' in p else 0.)
        tol = 1e-6
        for k, want in (('mean', m), ('var', v), ('std', np.sqrt(v)),
                        ('exp_mean', e)):
            g = got[k][i]
            ok = g == want if np.isinf(want) else \
                abs(g - want) <= tol*(1 + abs(want))
            check(ok, '{} of {}{}: {} instead of {}', k, c['name'], p, g, want)


@subs(cases(array=False), quick=500, thorough=20000, shards=2)
def variates(c, ctx):
    """Law of a large sample."""
    ctx.nt()
    ctx.label(c['name'])
    rv, varies = build(c)
    p = {k: float(par_at(c, k, c['t'])) for k in c['par']}
    n = 40000
    g = srcs.rng(c['rng'], c['seed'])
    x = np.asarray(rv.rvs(size=(n//10, 10), random_state=g))
    check(x.shape == (n//10, 10), 'shape {}', x.shape)
    law_test(c['name'], p, x.ravel())
    g2 = srcs.rng(c['rng'], c['seed'])
    check(identical(np.asarray(rv.rvs(size=(n//10, 10), random_state=g2)), x)
          and srcs.state(g) == srcs.state(g2), 'not reproducible')


def law_test(name, p, x):
    n = x.size
    S = scipy.stats
    if name == 'norm':
        cdf = S.norm(p['a'], p['b']).cdf
    elif name == 'uniform':
        cdf = S.uniform(p['a'], p['b'] - p['a']).cdf
    elif name == 'exp':
        s = np.sign(p['a'])
        check((x*s >= 0).all(), 'sign of variates')
        x, cdf = x*s, S.expon(scale=abs(p['a'])).cdf
    else:
        q, a, b = p['pa'], p['a'], p['b']
        pos = x > 0
        k = pos.sum()
        check(abs(k - n*q) <= 7.5*np.sqrt(n*q*(1-q)) + 1e-9,
              '{} of {} variates are positive for pa={}', k, n, q)
        for y, s in ((x[pos], a), (-x[~pos], b)):
            if y.size > 50:
                msg = stats.ks_test(y, S.expon(scale=s).cdf, 'double_exp_rv')
                check(msg is None, '{} {}', msg, p)
        lag = pos[1:].astype(int) @ pos[:-1].astype(int)/(n-1)
        check(abs(lag - q*q) < 8/np.sqrt(n), 'signs are correlated')
        return
    msg = stats.ks_test(x, cdf, name)
    check(msg is None, '{} {}', msg, p)
    y = cdf(x) - .5
    check(abs((y[1:]*y[:-1]).mean()*12) < 8/np.sqrt(n), 'correlated variates')


@subs(cases(array='always'), quick=250, thorough=10000, shards=2)
def array_variates(c, ctx):
    """Array parameters: each entry has its own law."""
    rv, varies = build(c)
    P = {k: par_at(c, k, c['t']) for k in c['par']}
    shape = np.broadcast_shapes(*[v.shape for v in P.values()])
    P = {k: np.broadcast_to(v, shape) for k, v in P.items()}
    ctx.nt(shape)
    n = 4000
    x = rv.rvs(size=(n,) + shape, random_state=srcs.rng(c['rng'], c['seed']))
    check(np.shape(x) == (n,) + shape, 'shape')
    for i in np.ndindex(*shape):
        law_test(c['name'], {k: float(v[i]) for k, v in P.items()},
                 np.asarray(x)[(slice(None),) + i])


@st.composite
def bad_cases(draw):
    name = draw(st.sampled_from(['exp', 'dexp']))
    n = draw(st.sampled_from([None, 1, 3]))
    return dict(name=name, n=n, k=draw(st.integers(0, 2)),
                par=draw(st.sampled_from(['a'] if name == 'exp' else
                                         ['a', 'b', 'pa', 'pa'])),
                v=draw(fl(.01, 3, 2)), call=draw(st.booleans()),
                pw=draw(st.sampled_from([1, 2, 5])))


@subs(bad_cases(), quick=300)
def out_of_domain(c, ctx):
    ctx.nt()
    v = 0. if c['name'] == 'exp' or (c['par'] != 'pa' and c['v'] < 1) else \
        -c['v'] if c['v'] < 1.5 or c['par'] != 'pa' else \
        1 + (c['v'] - 1.49)**c['pw']
    if c['n'] is not None:
        z = np.full(c['n'], .5)
        z[c['k'] % c['n']] = v
        v = z
    f = FUN[c['name']]
    if c['call']:
        check(raises(ValueError, lambda: f(**{c['par']: lambda t: v})(.5)),
              '{}={} accepted', c['par'], v)
    else:
        check(raises(ValueError, f, **{c['par']: v}), '{}={} accepted',
              c['par'], v)


# ------------------------------------------------------------------- rvmap
class own_rv:
    def rvs(self, size, random_state=None):
        return random_state.uniform(1, 2, size=size)


MAPS = {
    'y': lambda y: 2*y + 1, 'z': lambda z: z**2, 'ty': lambda t, y: t + 3*y,
    'sy': lambda s, y: y*s, 'tdef': lambda t, y, k=2: y + k*t,
    'ydef': lambda y, t=5: y + t, 'exp': np.exp, 'abs': abs,
    'x': lambda x: np.where(x > .5, x, -x), 'theta': lambda theta: theta + 1,
    'sample': lambda sample, scale=2.: sample*scale,
    'time': lambda time: time/2, 'T': lambda T: -T}
TIMED = ('ty', 'sy', 'tdef')


@st.composite
def map_cases(draw):
    return dict(f=draw(st.sampled_from(sorted(MAPS))),
                y=draw(st.sampled_from(['norm', 'dexp', 'own', 'scipy', 'tnorm',
                                        'twice', 'town'])),
                size=draw(vshapes(3, 4)), t=draw(fl(-1, 2)),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


@subs(map_cases(), quick=800)
def mapping(c, ctx):
    ctx.nt()
    f, name = MAPS[c['f']], c['y']
    y = dict(norm=lambda: sdepy.norm_rv(1, 2), dexp=lambda: sdepy.double_exp_rv(),
             own=own_rv, scipy=lambda: scipy.stats.gamma(2.),
             tnorm=lambda: sdepy.norm_rv(lambda t: t, 1),
             town=lambda: (lambda t: scipy.stats.norm(t)),
             twice=lambda: sdepy.rvmap(lambda t, z: z - t,
                                       sdepy.norm_rv(0, 2)))[name]()
    new = sdepy.rvmap(f, y)
    varies = callable(y) or c['f'] in TIMED
    check(callable(new) == varies, 'callable: {}', callable(new))
    t = c['t']
    g, h = srcs.rng(c['rng'], c['seed']), srcs.rng(c['rng'], c['seed'])
    size = tuple(c['size'])
    got = (new(t) if varies else new).rvs(size=size, random_state=g)
    base = (y(t) if callable(y) else y).rvs(size=size, random_state=h)
    want = f(t, base) if c['f'] in TIMED else f(base)
    check(np.shape(got) == size and np.array_equal(got, want),
          '{} instead of {}', got, want)
    check(srcs.state(g) == srcs.state(h), 'generator state')
