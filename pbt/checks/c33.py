import numpy as np
import scipy.stats
import sdepy
import sdepy.analytical
from hypothesis import strategies as st
from pbt import analytic, srcs
from pbt.core import Subs, check, fail
from pbt.stats import mean_test, ks_test, Z, PV
from pbt.strat import seeds, fl

subs = Subs('preset processes at generated parameters (one set for each component), '
            'timelines and generators, 20000 paths each: sample mean, variance, '
            'distribution, characteristic function, correlations of components, of '
            'successive values and of neighbouring paths vs. the analytical functions '
            '(with the time-step error of the moments, computed by recursion, as slack). '
            'Non-trivial: all')

AN = sdepy.analytical
N = 20000

# processes whose increments have the exact law for any step
EXACT = dict(wiener=('wiener', analytic.W), lognorm=('lognorm', analytic.L),
             jumpdiff=(None, analytic.L),
             merton_jumpdiff=('mjd', analytic.MJD), kou_jumpdiff=('kou', analytic.KOU))
OU = ['ornstein_uhlenbeck', 'hull_white_1factor', 'hull_white']
FELLER = ['cox_ingersoll_ross', 'heston', 'full_heston']


def draw_params(draw, params, vshape, factors=None):
    """Values of some parameters: one value, or one per component."""
    out = {}
    for k, (z, lo, hi) in params.items():
        if draw(st.integers(0, 5)) == 0:
            continue
        lo = max(lo, .3) if k == 'lam' else lo
        if draw(st.booleans()):
            out[k] = draw(fl(lo, hi, 2))
        else:
            n = int(np.prod(vshape + ([factors] if factors else []), dtype=int))
            out[k] = [draw(fl(lo, hi, 2)) for _ in range(n)]
    return out


def as_arrays(p, params, vshape, factors=None):
    """Keywords, and arrays of shape vshape for each parameter (defaults
    included)."""
    kw, val = {}, {}
    shape = tuple(vshape) + ((factors,) if factors else ())
    for k, (z, lo, hi) in params.items():
        if k in p:
            v = p[k]
            if isinstance(v, list):
                v = np.array(v).reshape(shape)
                kw[k] = v[..., None]
            else:
                kw[k] = v
        else:
            v = z
        val[k] = np.broadcast_to(np.asarray(v, dtype=float), shape)
    return kw, val


@st.composite
def timeline(draw, unit=1.):
    gaps = draw(st.lists(fl(.1, 1, 2), min_size=1, max_size=3))
    t0 = draw(st.sampled_from([0., 0., 1., -2.5, 10., .3]))
    return [float(round(z, 6)) for z in t0 + np.cumsum([0.] + gaps)]


VSHAPES = [[], [], [1], [2], [2], [3], [2, 2]]


@st.composite
def exact_cases(draw):
    name = draw(st.sampled_from(sorted(EXACT)))
    vshape = draw(st.sampled_from(VSHAPES))
    P = EXACT[name][1]
    c = dict(name=name, vshape=vshape, p=draw_params(draw, P, vshape),
             t=draw(timeline()), seed=draw(seeds), rng=draw(st.sampled_from(
                 ['gen', 'rs', 'mt'])),
             steps=draw(st.sampled_from([None, None, 2, 5, 11])),
             rho=draw(st.none() | fl(-.95, .95, 2)))
    if name == 'jumpdiff':
        c['y'] = draw(st.sampled_from(['norm', 'double_exp', 'exp', 'uniform',
                                       'callable', 'none']))
        c['lam'] = draw(fl(.3, 3, 1))
    if name in ('wiener', 'lognorm') and draw(st.booleans()):
        c['odd'] = False
    c['spread'] = draw(fl(.3, 1, 1))
    return c


def rng_of(c):
    return np.random.default_rng(c['seed']) if c['rng'] == 'gen' else \
        np.random.RandomState(c['seed']) if c['rng'] == 'rs' else \
        np.random.Generator(np.random.MT19937(c['seed']))


def jump_law(c):
    """y, and the characteristic function of a jump."""
    y = c['y']
    if y == 'norm':
        return sdepy.norm_rv(a=.2, b=.3), lambda u: np.exp(.2j*u - .09*u*u/2)
    if y == 'double_exp':
        return sdepy.double_exp_rv(a=.3, b=.4, pa=.25), \
            lambda u: .25/(1 - .3j*u) + .75/(1 + .4j*u)
    if y == 'exp':
        return sdepy.exp_rv(a=.4), lambda u: 1/(1 - .4j*u)
    if y == 'callable':
        return (lambda t: sdepy.norm_rv(a=-.3, b=.2)), \
            lambda u: np.exp(-.3j*u - .04*u*u/2)
    # the default is uniform between 0 and 1
    if y == 'none':
        return None, lambda u: np.where(u == 0, 1., (np.exp(1j*u) - 1)/np.where(
            u == 0, 1, 1j*u))
    return sdepy.uniform_rv(a=-.5, b=1.), \
        lambda u: (np.exp(1j*u) - np.exp(-.5j*u))/(1.5j*u)


def log_chf(c, T, u, val, i):
    """Characteristic function at u, not 0, after a time T, for component i: of the
    value, if wiener, or of its logarithm."""
    name = c['name']
    p = {k: float(v[i]) for k, v in val.items()}
    if name == 'wiener':
        return AN.wiener_chf(T, u, **p)
    if name == 'jumpdiff':
        f = jump_law(c)[1]
        return AN.lognorm_log_chf(T, u, **p)*np.exp(c['lam']*T*(f(u) - 1))
    return getattr(AN, EXACT[name][0] + '_log_chf')(T, u, **p)


def cumulants(f):
    """Mean and variance from a characteristic function."""
    h = 1e-3
    a = np.log(f(h))
    return a.imag/h, -2*a.real/h**2


def must(msg):
    if msg:
        fail('{}', msg)


def var_test(x, m, v, what, slack=0.):
    d = (x - m)**2
    se = np.sqrt(max(((d - v)**2).mean(), 2*v*v)/x.size)
    if abs(d.mean() - v) > Z*se + slack + 1e-12:
        fail('{}: variance {} instead of {} (s.e. {:.2g})', what, d.mean(), v, se)


def chf_test(x, u, phi, what, slack=0.):
    z = np.exp(1j*u*x)
    n = x.size
    for got, want, s in ((z.real, phi.real, 'real'), (z.imag, phi.imag, 'imaginary')):
        sd = max(got.std(), 1e-3)
        check(abs(got.mean() - want) < Z*sd/np.sqrt(n) + slack + 1e-9, '{}: {} part of '
              'the characteristic function at {} is {} instead of {} (s.e. {:.2g})',
              what, s, u, got.mean(), want, sd/np.sqrt(n))


def zero_corr(a, b, what, want=0., slack=0.):
    """a and b normalized to mean 0 and variance 1."""
    d = a*b
    se = max(d.std(), .5)/np.sqrt(d.size)
    check(abs(d.mean() - want) < (Z + 1)*se + slack, '{}: correlation {} instead of {} '
          '(s.e. {:.2g})', what, d.mean(), want, se)


def normalize(x):
    return (x - x.mean(axis=-1, keepdims=True))/x.std(axis=-1, keepdims=True)


def structure(x, rho, decay, what, corr=None, slack=0.):
    """Independence of components, paths and successive increments; x of shape
    times, vshape, paths, starting time excluded; decay is such that
    x[j] - decay(i, j)*x[i] is independent of x[i]. corr(time, rest of the index) is
    the expected correlation of the first two components, if any."""
    z = normalize(x)
    vshape = x.shape[1:-1]
    zz = z.reshape((x.shape[0], -1, x.shape[-1]))
    for k in range(zz.shape[0]):
        zero_corr(zz[k][..., 1:].ravel(), zz[k][..., :-1].ravel(),
                  '{}: neighbouring paths'.format(what))
        check(np.unique(zz[k][0]).size > .99*x.shape[-1], '{}: repeated paths', what)
        # components
        for a, i in enumerate(np.ndindex(*vshape)):
            for b, j in enumerate(np.ndindex(*vshape)):
                if a >= b:
                    continue
                want = 0.
                if rho is not None and i[:-1] == j[:-1] and {i[-1], j[-1]} == {0, 1} \
                        and vshape[-1] == 2:
                    want = corr(k, i, j)
                    if want is None:
                        continue
                zero_corr(zz[k, a], zz[k, b], '{}: components {} and {} at time {}'
                          .format(what, i, j, k), want, slack)
    if decay is None:
        return
    for k in range(1, zz.shape[0]):
        for i in np.ndindex(*vshape):
            y = x[k][i] - decay(k - 1, k, i)*x[k - 1][i]
            zero_corr(zz[k - 1].reshape(vshape + (-1,))[i], normalize(y),
                      '{}: increments from time {} to {}'.format(what, k - 1, k), 0.,
                      slack)


@subs(exact_cases(), quick=500, thorough=20000, shards=8)
def exact(c, ctx):
    name, vshape = c['name'], c['vshape']
    P = EXACT[name][1]
    kw, val = as_arrays(c['p'], P, vshape)
    t = np.array(c['t'])
    rho = c['rho'] if vshape and vshape[-1] == 2 else None
    if rho is not None:
        kw['rho'] = rho
    if name == 'jumpdiff':
        y, f = jump_law(c)
        kw['lam'] = c['lam']
        if y is not None:
            kw['y'] = y
    ctx.nt()
    ctx.label(name)
    p = getattr(sdepy, name + '_process')(paths=N, vshape=tuple(vshape), rng=rng_of(c),
                                          steps=c['steps'], **kw)
    x = np.asarray(p(t))
    check(x.shape == (t.size,) + tuple(vshape) + (N,), 'shape {}', x.shape)
    check(np.all(np.isfinite(x)), '{} has non finite values', name)
    z = x if name == 'wiener' else np.log(x)
    x0 = val['x0'][..., None]
    check(np.all(abs(x[0] - x0) < 1e-9), '{} starts at {}', name, x[0])
    sds = {}
    for k in range(1, t.size):
        T = t[k] - t[0]
        for i in np.ndindex(*vshape):
            what = '{}{} after {:.6g}'.format(name, list(i), T)
            phi = lambda u: complex(log_chf(c, T, u, val, i))
            pv = {a: float(b[i]) for a, b in val.items()}
            m, v = cumulants(phi)
            sds[k, i] = np.sqrt(v)
            zi = z[k][i]
            must(mean_test(zi, m, np.sqrt(v), what, slack=1e-5))
            var_test(zi, m, v, what, slack=1e-5)
            for u in (.5, 1.3):
                u = u*c['spread']/np.sqrt(v)
                chf_test(zi, u, phi(u), what)
                chf_test(zi, 2.5*u, phi(2.5*u), what)
            if name == 'wiener':
                must(mean_test(zi, AN.wiener_mean(T, **pv), AN.wiener_std(T, **pv), what))
                var_test(zi, AN.wiener_mean(T, **pv), AN.wiener_var(T, **pv), what)
                must(ks_test(zi, lambda s: AN.wiener_cdf(T, s, **pv), what))
            elif name == 'lognorm':
                must(ks_test(x[k][i], lambda s: AN.lognorm_cdf(T, s, **pv), what))
                if v < .5:
                    must(mean_test(x[k][i], AN.lognorm_mean(T, **pv),
                                   AN.lognorm_std(T, **pv), what))
                if v < .1:
                    var_test(x[k][i], AN.lognorm_mean(T, **pv), AN.lognorm_var(T, **pv),
                             what)
            elif name != 'jumpdiff' and v < .5 and pv['a'] < .25:
                # (the variance of the exponential of jumps is infinite for larger a)
                mean = getattr(AN, EXACT[name][0] + '_mean')(T, **pv)
                must(mean_test(x[k][i], mean, 1.2*x[k][i].std(), what))

    def corr(k, i, j):
        T = t[k + 1] - t[0]
        return rho*val['sigma'][i]*val['sigma'][j]*T/sds[k + 1, i]/sds[k + 1, j]
    structure(z[1:], rho, lambda a, b, i: 1., name, corr)


# ---------------------------------------------------------- mean reversion
@st.composite
def ou_cases(draw):
    name = draw(st.sampled_from(OU + ['hull_white']))
    vshape = draw(st.sampled_from([[], [], [2], [3], [2, 2]]))
    factors = draw(st.sampled_from([1, 2, 2, 3])) if name == 'hull_white' else None
    P = dict(analytic.OU, k=(1., .1, 2))
    return dict(name=name, vshape=vshape, factors=factors,
                p=draw_params(draw, P, vshape, factors),
                t=draw(timeline()), seed=draw(seeds),
                rng=draw(st.sampled_from(['gen', 'rs', 'mt'])),
                steps=draw(st.integers(30, 60)), rho=draw(st.none() | fl(-.95, .95, 2)))


def visited(c):
    t = np.array(c['t'])
    return np.unique(np.concatenate((t, np.linspace(t[0], t[-1], c['steps']))))


@subs(ou_cases(), quick=250, thorough=8000, shards=8)
def reverting(c, ctx):
    name, vshape, F = c['name'], c['vshape'], c['factors']
    P = dict(analytic.OU, k=(1., .1, 2))
    kw, val = as_arrays(c['p'], P, vshape, F)
    t = np.array(c['t'])
    if F is not None:
        kw['factors'] = F
    rho = None
    if (F == 2 if F is not None else vshape and vshape[-1] == 2):
        rho = c['rho']
        if rho is not None:
            kw['rho'] = rho
    ctx.nt()
    ctx.label(name, F)
    p = getattr(sdepy, name + '_process')(paths=N, vshape=tuple(vshape), rng=rng_of(c),
                                          steps=c['steps'], **kw)
    x = np.asarray(p(t))
    check(x.shape == (t.size,) + tuple(vshape) + (N,), 'shape {}', x.shape)
    k, th, s = val['k'], val['theta'], val['sigma']
    f = F or 1
    if F is None:
        k, th, s = k[..., None], th[..., None], s[..., None]
        x0 = val['x0'][..., None]
    else:
        x0 = val['x0']
    # moments along the time steps: m, and second moments by pairs of factors
    C = np.eye(f)
    if F == 2 and rho is not None:
        C[0, 1] = C[1, 0] = rho
    D = None        # covariance of the first two components
    m, V = np.array(x0), np.zeros(k.shape + (f,))
    g = visited(c)
    M, VV, G, DD = [m.sum(-1)], [V.sum((-1, -2))], [np.ones(vshape)], [0.]
    acc, D = np.ones(k.shape), 0.
    for a, b in zip(g[:-1], g[1:]):
        h = b - a
        m = m + k*(th - m)*h
        e = 1 - k*h
        V = V*e[..., :, None]*e[..., None, :] + C*s[..., :, None]*s[..., None, :]*h
        acc = acc*e
        if F is None and rho is not None:
            D = D*e[..., 0, 0]*e[..., 1, 0] + rho*s[..., 0, 0]*s[..., 1, 0]*h
        if np.any(t == b):
            M.append(m.sum(-1))
            VV.append(V.sum((-1, -2)))
            G.append(acc[..., 0])
            DD.append(D)
    hmax = np.diff(g).max()
    fam = 'oruh' if name == 'ornstein_uhlenbeck' else 'hw1f'
    for j in range(1, t.size):
        T = t[j] - t[0]
        for i in np.ndindex(*vshape):
            what = '{}{} after {:.6g}'.format(name, list(i), T)
            mE, vE = float(M[j][i]), float(VV[j][i])
            z = x[j][i]
            must(mean_test(z, mE, np.sqrt(vE), what))
            var_test(z, mE, vE, what)
            must(ks_test(z, scipy.stats.norm(mE, np.sqrt(vE)).cdf, what))
            if f == 3:
                continue
            if f == 1:
                pv = {a: float(np.ravel(val[a][i])[0]) for a in val}
                F_ = {a: getattr(AN, fam + '_' + a) for a in ('mean', 'var', 'cdf')}
            else:
                pv = {a: [float(w) for w in val[a][i]] for a in val}
                pv['rho'] = rho or 0.
                F_ = {a: getattr(AN, 'hw2f_' + a) for a in ('mean', 'var', 'cdf')}
            m1, v1 = float(F_['mean'](T, **pv)), float(F_['var'](T, **pv))
            dm, dv = abs(m1 - mE), abs(v1 - vE)
            amp = np.sum(abs(k[i])*(abs(th[i]) + abs(x0[i])))
            check(dm <= (4*k[i].max()*hmax)*amp*T + 1e-9 and
                  dv <= 4*k[i].max()*hmax*np.sum(s[i])**2*T, '{}: moments {} {} instead '
                  'of {} {}', what, m1, v1, mE, vE)
            must(mean_test(z, m1, np.sqrt(v1), what, slack=dm))
            var_test(z, m1, v1, what, slack=dv + dm*dm)
            q = np.linspace(-3, 3, 25)*np.sqrt(v1) + m1
            cdf = np.asarray(F_['cdf'](T, q, **pv))
            bias = abs(cdf - scipy.stats.norm(mE, np.sqrt(vE)).cdf(q))
            # of normal laws with these moments
            bound = .4*dm/np.sqrt(min(v1, vE)) + .25*abs(np.log(v1/vE))/2 + 1e-9
            check(bias.max() < bound, '{}: cdf {} at {} instead of {}', what, cdf, q,
                  scipy.stats.norm(mE, np.sqrt(vE)).cdf(q))
            emp = np.searchsorted(np.sort(z), q)/N
            check(np.all(abs(emp - cdf) < Z*.5/np.sqrt(N) + bias), '{}: cdf at {} is {} '
                  'instead of {}', what, q, emp, cdf)

    def corr(a, i, j):
        w = DD[a + 1][i[:-1]]
        return float(w/np.sqrt(VV[a + 1][i]*VV[a + 1][j]))
    decay = None
    if f == 1:
        def decay(a, b, i):
            return G[b + 1][i]/G[a + 1][i]
    structure(x[1:], rho if F is None else None, decay, name, corr)


# ------------------------------------------------------ square root processes
@st.composite
def feller_cases(draw):
    name = draw(st.sampled_from(FELLER))
    vshape = draw(st.sampled_from([[], [], [2], [2, 2]]))
    P = params_of(name)
    c = dict(name=name, vshape=vshape, p=draw_params(draw, P, vshape),
             t=draw(timeline()), seed=draw(seeds),
             rng=draw(st.sampled_from(['gen', 'rs', 'mt'])),
             steps=draw(st.integers(60, 100)))
    c['rho'] = draw(st.none() | fl(-.9, .9, 2))
    return c


def params_of(name):
    if name == 'cox_ingersoll_ross':
        return dict(analytic.CIR, theta=(1., .5, 2), k=(1., .3, 2), xi=(.5, .1, .7),
                    x0=(1., .5, 2))
    return {k: v for k, v in dict(
        analytic.H, theta=(1., .5, 2), k=(1., .3, 2), xi=(.5, .1, .7), y0=(1., .5, 2),
        sigma=(1., .3, 1)).items() if k != 'rho'}


@subs(feller_cases(), quick=200, thorough=8000, shards=8)
def square_root(c, ctx):
    name, vshape = c['name'], c['vshape']
    cir = name == 'cox_ingersoll_ross'
    kw, val = as_arrays(c['p'], params_of(name), vshape)
    kw.setdefault('xi', .5)
    t = np.array(c['t'])
    rho, rhos = None, np.zeros(vshape)
    if c['rho'] is not None:
        if cir:
            if vshape and vshape[-1] == 2:
                kw['rho'] = rho = c['rho']
        else:
            n = vshape[-1] if vshape else 1
            r = [c['rho']*(-1)**j/(1 + j) for j in range(n)]
            kw['rho'] = r if vshape else r[0]
            rhos = np.broadcast_to(r if vshape else r[0], vshape)
    ctx.nt()
    ctx.label(name)
    p = getattr(sdepy, name + '_process')(paths=N, vshape=tuple(vshape), rng=rng_of(c),
                                          steps=c['steps'], **kw)
    res = p(t)
    y = None
    if name == 'full_heston':
        x, y = map(np.asarray, res)
    else:
        x = np.asarray(res)
    check(x.shape == (t.size,) + tuple(vshape) + (N,), 'shape {}', x.shape)
    k, th, xi = val['k'], val['theta'], val['xi']
    g = visited(c)
    hmax = np.diff(g).max()
    # moments along the time steps, values staying positive
    m, v = np.array(val['x0' if cir else 'y0']), np.zeros(vshape)
    out = [(m, v)]
    if not cir:
        s, mu = val['sigma'], val['mu']
        l, w, q = np.log(val['x0']), np.zeros(vshape), np.zeros(vshape)
        out = [(m, v, l, w, q)]
    for a, b in zip(g[:-1], g[1:]):
        h = b - a
        if not cir:
            l = l + (mu - s*s/2*m)*h
            w = w + (s*s/2*h)**2*v - s*s*h*q + s*s*m*h
            q = (1 - k*h)*(q - s*s/2*h*v) + rhos*s*xi*m*h
        v = v*(1 - k*h)**2 + xi*xi*m*h
        m = m + k*(th - m)*h
        if np.any(t == b):
            out.append((m, v) if cir else (m, v, l, w, q))
    z = x if cir else np.log(x)
    for j in range(1, t.size):
        T = t[j] - t[0]
        for i in np.ndindex(*vshape):
            what = '{}{} after {:.6g}'.format(name, list(i), T)
            E = [float(e[i]) for e in out[j]]
            pv = {a: float(b[i]) for a, b in val.items()}
            small = 1e-3        # allowance for negative values
            if cir:
                square_root_law(x[j][i], E, pv, T, hmax, what, small)
                continue
            if y is not None:
                square_root_law(y[j][i], E, dict(
                    theta=pv['theta'], k=pv['k'], xi=pv['xi'], x0=pv['y0']), T, hmax,
                    what + ' (variance)', small)
                a, b = z[j][i] - E[2], y[j][i] - E[0]
                d = a*b
                check(abs(d.mean() - E[4]) < (Z + 1)*d.std()/np.sqrt(N) + small,
                      '{}: covariance with the variance {} instead of {}', what,
                      d.mean(), E[4])
            pv['rho'] = float(rhos[i])
            zi = z[j][i]
            must(mean_test(zi, E[2], np.sqrt(E[3]), what, slack=small))
            var_test(zi, E[2], E[3], what, slack=small)
            m1, v1 = [float(f(T, **pv)) for f in (AN.heston_log_mean, AN.heston_log_var)]
            dm, dv = abs(m1 - E[2]), abs(v1 - E[3])
            check(dm < 5*hmax and dv < 10*hmax, '{}: moments {} {} instead of {} {}',
                  what, m1, v1, E[2], E[3])
            must(mean_test(zi, m1, np.sqrt(v1), what, slack=small + dm))
            var_test(zi, m1, v1, what, slack=small + dv + dm*dm)
            for u in (.7, 1.5):
                u = u/np.sqrt(v1)
                chf_test(zi, u, complex(AN.heston_log_chf(T, u, **pv)), what,
                         slack=.01 + u*dm + u*u*dv)

    structure(z[1:], rho, None, name, lambda *a: None)
    if y is not None:
        structure(y[1:], None, lambda a, b, i: float(np.prod(
            1 - k[i]*np.diff(g[(g >= t[a + 1]) & (g <= t[b + 1])]))), name + ' (variance)')


def square_root_law(z, E, pv, T, hmax, what, small):
    must(mean_test(z, E[0], np.sqrt(E[1]), what, slack=small))
    var_test(z, E[0], E[1], what, slack=small)
    m1, v1 = float(AN.cir_mean(T, **pv)), float(AN.cir_var(T, **pv))
    dm, dv = abs(m1 - E[0]), abs(v1 - E[1])
    check(dm < 8*hmax and dv < 8*hmax, '{}: moments {} {} instead of {} {}', what, m1, v1,
          E[0], E[1])
    must(mean_test(z, m1, np.sqrt(v1), what, slack=small + dm))
    var_test(z, m1, v1, what, slack=small + dv + dm*dm)
    # distribution, at some points
    sd = np.sqrt(v1)
    q = np.linspace(max(m1 - 10*sd, 1e-9), m1 + 6*sd, 4001)
    pdf = np.asarray(AN.cir_pdf(T, q, **pv))
    cdf = np.concatenate([[0.], np.cumsum((pdf[1:] + pdf[:-1])/2)*(q[1] - q[0])])
    emp = np.searchsorted(np.sort(z), q)/N
    bias = .4*dm/sd + .3*dv/v1 + .01
    err = abs(emp - cdf).max()
    check(err < Z*.5/np.sqrt(N) + bias, '{}: distribution (distance {})', what, err)
