import numpy as np
import scipy.integrate
import scipy.linalg
import scipy.stats
import sdepy
import sdepy.analytical
from hypothesis import strategies as st
from pbt import analytic
from pbt.core import Subs, check, fail
from pbt.strat import seeds, fl, broadcast_of, same, raises

subs = Subs('analytical functions at generated parameters, times and points, vs. '
            'quadrature, numerical solutions of moment and Riccati equations and '
            'independent closed forms; array arguments vs. entries one at a time. '
            'Non-trivial: some parameter away from its default')

AN = sdepy.analytical
trapz = np.trapz


def close(a, b, rtol, atol=0.):
    a, b = np.asarray(a), np.asarray(b)
    return bool(np.all(abs(a - b) <= rtol*np.maximum(abs(a), abs(b)) + atol))


def scalar(z, what):
    check(np.ndim(z) == 0 and np.isfinite(z), '{} is {}', what, z)
    return complex(z) if np.iscomplexobj(z) else float(z)


# ------------------------------------------------ independent moments, laws
def linear_moments(matrix, start, t):
    """Solution of y' = M y."""
    M = np.array(matrix, dtype=float)*t
    n = int(abs(M).max()/20) + 1
    E, y = scipy.linalg.expm(M/n), np.array(start, dtype=float)
    for k in range(n):
        y = E @ y
    return y


def moments(fam, t, p):
    """Mean and variance (of the logarithm, for Heston)."""
    if fam == 'wiener':
        return p['x0'] + p['mu']*t, p['sigma']**2*t
    if fam == 'lognorm':
        # d E x = mu E x, d E x^2 = (2 mu + s^2) E x^2
        m = p['x0']*np.exp(p['mu']*t)
        v = p['x0']**2*np.exp(2*p['mu']*t)*np.expm1(p['sigma']**2*t)
        return m, v
    if fam in ('oruh', 'hw1f'):
        k, th, s = p['k'], p['theta'], p['sigma']
        m = linear_moments([[-k, k*th], [0, 0]], [p['x0'], 1], t)[0]
        v = linear_moments([[-2*k, s*s], [0, 0]], [0, 1], t)[0]
        return m, v
    if fam == 'hw2f':
        (k1, k2), (a, b), (s1, s2) = p['k'], p['theta'], p['sigma']
        m = sum(linear_moments([[-k, k*th], [0, 0]], [x, 1], t)[0]
                for k, th, x in zip(p['k'], p['theta'], p['x0']))
        v = sum(linear_moments([[-z, w], [0, 0]], [0, 1], t)[0]
                for z, w in ((2*k1, s1*s1), (2*k2, s2*s2),
                             (k1 + k2, 2*p['rho']*s1*s2)))
        return m, v
    if fam == 'cir':
        k, th, xi = p['k'], p['theta'], p['xi']
        # E x, Var x, 1
        y = linear_moments([[-k, 0, k*th], [xi*xi, -2*k, 0], [0, 0, 0]],
                           [p['x0'], 0, 1], t)
        return y[0], y[1]
    if fam == 'heston':
        k, th, xi, s, rho, mu = [p[z] for z in ('k', 'theta', 'xi', 'sigma', 'rho',
                                                'mu')]
        # E l, Var l, Cov(l, y), Var y, E y, 1, with l the logarithm of x
        M = np.zeros((6, 6))
        M[0, 4], M[0, 5] = -s*s/2, mu
        M[1, 2], M[1, 4] = -s*s, s*s
        M[2, 2], M[2, 3], M[2, 4] = -k, -s*s/2, rho*s*xi
        M[3, 3], M[3, 4] = -2*k, xi*xi
        M[4, 4], M[4, 5] = -k, k*th
        y = linear_moments(M, [np.log(p['x0']), 0, 0, 0, p['y0'], 1], t)
        return y[0], y[1]
    raise KeyError(fam)


def jump_chf(fam, u, p):
    """Characteristic function of one jump, by quadrature of its density."""
    if fam == 'mjd':
        z = np.linspace(-12, 12, 4001)
        w = np.exp(-z*z/2)
        j = p['a'] + p['b']*z
        return (w*np.exp(1j*u*j)).sum()/w.sum()
    return (p['pa']*1/(1 - 1j*u*p['a']) + (1 - p['pa'])*1/(1 + 1j*u*p['b']))


def chf(fam, t, u, p):
    """Independent characteristic function (of the logarithm, but for wiener)."""
    if fam == 'wiener':
        return np.exp(1j*u*(p['x0'] + p['mu']*t) - u*u*p['sigma']**2*t/2)
    m0 = 1j*u*np.log(p['x0'])
    if fam in ('lognorm', 'mjd', 'kou'):
        s = p['sigma']
        e = m0 + t*(1j*u*(p['mu'] - s*s/2) - s*s*u*u/2)
        if fam != 'lognorm':
            e = e + t*p['lam']*(jump_chf(fam, u, p) - 1)
        return np.exp(e)
    k, th, xi, s, rho, mu = [p[z] for z in ('k', 'theta', 'xi', 'sigma', 'rho', 'mu')]

    def f(s_, y):
        D = y[0]
        return [xi*xi*D*D/2 + (rho*s*xi*1j*u - k)*D - s*s*(u*u + 1j*u)/2, k*th*D]
    r = scipy.integrate.solve_ivp(f, (0, t), [0j, 0j], method='DOP853', rtol=1e-10,
                                  atol=1e-12)
    return np.exp(m0 + 1j*u*mu*t + r.y[1, -1] + r.y[0, -1]*p['y0'])


# ---------------------------------------------------------------- densities
DENS = dict(wiener=analytic.W, lognorm=analytic.L, oruh=analytic.OU,
            hw1f=analytic.OU, hw2f=analytic.HW2, cir=analytic.CIR)


def wide(params):
    """Somewhat wider ranges of parameters."""
    out = {}
    for k, (z, lo, hi) in params.items():
        if k in ('sigma', 'k', 'xi') and lo > 0:
            lo = .05
        if k in ('xi',):
            hi = 2.
        out[k] = (z, lo, hi)
    return out


@st.composite
def density_cases(draw):
    fam = draw(st.sampled_from(sorted(DENS)))
    return dict(fam=fam, p=draw(analytic.values(wide(DENS[fam]))),
                t=draw(st.one_of(fl(.05, 3, 2), fl(.002, .1, 3), fl(.0002, .01, 4),
                                 st.integers(1, 4))),
                q=draw(st.lists(fl(-4, 4, 1), min_size=1, max_size=4)))


@subs(density_cases(), quick=1200, thorough=100000, shards=4)
def densities(c, ctx):
    fam, p, t = c['fam'], c['p'], c['t']
    f = {z: getattr(AN, fam + '_' + z) for z in ('mean', 'var', 'std', 'pdf')}
    ctx.nt()
    ctx.label(fam)
    mean, var, std = [scalar(f[z](t, **p), z) for z in ('mean', 'var', 'std')]
    m, v = moments(fam, t, p)
    scale = abs(m) + np.sqrt(v) + 1
    check(close(mean, m, 1e-9, 1e-9*scale), '{}_mean is {} instead of {}', fam, mean, m)
    check(close(var, v, 1e-7, 1e-10), '{}_var is {} instead of {}', fam, var, v)
    check(close(std**2, var, 1e-9), '{}_std is {}, the variance {}', fam, std, var)
    sd = np.sqrt(v)
    # grid of points
    if fam in ('lognorm', 'cir'):
        if fam == 'cir':
            d = 2*p['k']*p['theta']/p['xi']**2      # decay at 0, as x**d
            if d < .3:
                ctx.label('singular')
                return
            lo = np.log(min(m, p['x0'])) - 60/d
            hi = np.log(m + 30*sd + 60*p['xi']**2*(-np.expm1(-p['k']*t))/p['k'])
            # sd at small t is much less than m
            if sd < m/20:
                y = np.linspace(np.log(m - 12*sd), np.log(m + 16*sd), 4001)
            else:
                y = np.unique(np.concatenate([
                    np.linspace(lo, hi, 40001),
                    np.log(m + sd*np.linspace(max(-12, -.95*m/sd), 12, 20001))]))
        else:
            s = p['sigma']*np.sqrt(t)
            y = np.log(m) - s*s/2 + s*s*1. + s*np.linspace(-12, 12, 8001)
        x = np.exp(y)
        g = x
    else:
        x = m + sd*np.linspace(-12, 12, 4001)
        y, g = x, 1.
    pdf = np.asarray(f['pdf'](t, x, **p))
    check(pdf.shape == x.shape and pdf.dtype == float, 'shape {}', pdf.shape)
    check(np.all(pdf >= 0), '{}_pdf is negative, or nan', fam)
    w = pdf*g
    tol = 1e-6 if fam == 'cir' else 1e-8
    if fam == 'lognorm' and p['sigma']**2*t > 9:
        tol = 1e-5
    one = trapz(w, y)
    check(abs(one - 1) < tol, '{}_pdf integrates to {}', fam, one)
    check(abs(trapz(w*x, y) - m) < tol*10*scale, '{}_pdf has mean {} instead of {}',
          fam, trapz(w*x, y), m)
    var1 = trapz(w*(x - m)**2, y)
    check(abs(var1 - v) < tol*10*max(v, tol) + (1e-9*m*m if fam == 'cir' else 0),
          '{}_pdf has variance {} instead of {}', fam, var1, v)
    # outside of the support
    if fam == 'lognorm':
        check(np.all(f['pdf'](t, np.array([-1., -.1, -5.]), **p) == 0), 'density of '
              'negative values')
    # the law is the stated one
    pts = np.array([m + z*sd for z in c['q']])
    if fam in ('wiener', 'oruh', 'hw1f', 'hw2f'):
        law = scipy.stats.norm(m, sd)
    elif fam == 'lognorm':
        s = p['sigma']*np.sqrt(t)
        law = scipy.stats.lognorm(s, scale=m*np.exp(-s*s/2))
        pts = m*np.exp(-s*s/2 + s*np.array(c['q']))
    else:
        law = None
    if law is not None:
        check(same(f['pdf'](t, pts, **p), law.pdf(pts), rtol=1e-5, atol=1e-8),
              '{}_pdf at {} is {} instead of {}', fam, pts, f['pdf'](t, pts, **p),
              law.pdf(pts))
        F = getattr(AN, fam + '_cdf')
        cdf = np.asarray(F(t, pts, **p))
        check(same(cdf, law.cdf(pts), rtol=1e-7, atol=1e-9), '{}_cdf at {} is {} '
              'instead of {}', fam, pts, cdf, law.cdf(pts))
        # cdf as the integral of pdf
        G = np.concatenate([[0.], np.cumsum((w[1:] + w[:-1])/2*np.diff(y))])
        check(np.max(abs(np.asarray(F(t, x, **p)) - G)) < 1e-5, '{}_cdf is not the '
              'integral of {}_pdf', fam, fam)


@st.composite
def start_cases(draw):
    fam = draw(st.sampled_from(sorted(DENS) + ['heston']))
    P = analytic.H if fam == 'heston' else DENS[fam]
    return dict(fam=fam, p=draw(analytic.values(P)))


@subs(start_cases(), quick=200, thorough=5000)
def initial(c, ctx):
    """At t=0."""
    fam, p = c['fam'], c['p']
    ctx.nt()
    pre = fam + ('_log' if fam == 'heston' else '')
    f = {z: getattr(AN, pre + '_' + z) for z in ('mean', 'var', 'std')}
    x0 = p['x0']
    want = np.log(x0) if fam == 'heston' else sum(x0) if fam == 'hw2f' else x0
    for t in (0, 0., np.array([0., 0.])):
        check(close(f['mean'](t, **p), want, 1e-12), '{}_mean at 0', fam)
        check(close(f['var'](t, **p), 0, 0, 1e-12), '{}_var at 0', fam)
        with np.errstate(invalid='ignore'):
            sd = np.nan_to_num(f['std'](t, **p))
        check(close(sd, 0, 0, 1e-6), '{}_std at 0', fam)


EXTREME = dict(
    wiener=dict(x0=(0, -1e3, 1e3), mu=(0, -20, 20), sigma=(1, -20, 20)),
    lognorm=dict(x0=(1, 1e-3, 1e3), mu=(0, -3, 3), sigma=(1, -4, 4)),
    oruh=dict(x0=(0, -50, 50), theta=(0, -50, 50), k=(1, -3, 8), sigma=(1, -5, 5)),
    hw2f=dict(x0=((0,), -50, 50), theta=((0,), -50, 50), k=((1,), .001, 8),
              sigma=((1,), -5, 5), rho=(0, -1, 1)),
    cir=dict(x0=(1, 0, 50), theta=(1, 0, 50), k=(1, -3, 8), xi=(1, -5, 5)),
    heston=dict(x0=(1, 1e-3, 100), mu=(0, -3, 3), sigma=(1, -3, 3), y0=(1, 0, 9),
                theta=(1, 0, 9), k=(1, -1.5, 4), xi=(1, -3, 3), rho=(0, -1, 1)))
EXTREME['hw1f'] = EXTREME['oruh']


@st.composite
def extreme_cases(draw):
    fam = draw(st.sampled_from(sorted(EXTREME)))
    p = draw(analytic.values(EXTREME[fam]))
    if fam in ('oruh', 'hw1f', 'cir') and draw(st.integers(0, 2)) == 0:
        p['k'] = draw(st.sampled_from([1e-3, 2e-4, -1e-3, 20., 50.]))
    return dict(fam=fam, p=p, t=draw(st.one_of(
        fl(.05, 3, 2), fl(.0001, .01, 4), fl(3, 25, 1), st.integers(1, 30))))


@subs(extreme_cases(), quick=2000, thorough=100000, shards=2)
def extremes(c, ctx):
    """Moments away from ordinary parameters (the signs of sigma and xi do not
    matter, but for that of the correlation; k may be negative)."""
    fam, p, t = c['fam'], c['p'], c['t']
    ctx.label(fam)
    ks = np.atleast_1d(p.get('k', 1.))
    if np.any(abs(ks) < (.05 if fam == 'heston' else 1e-4)) or np.any(ks*t < -8):
        return
    ctx.nt()
    if fam == 'lognorm' and max(p['sigma']**2*t, abs(p['mu'])*t) > 200:
        return
    pre = fam + ('_log' if fam == 'heston' else '')
    f = {z: getattr(AN, pre + '_' + z) for z in ('mean', 'var', 'std')}
    m, v = moments(fam, t, p)
    scale = 1 + sum(np.sum(np.abs(z)) for k, z in p.items() if k in (
        'x0', 'theta', 'y0'))
    eps = 1e-11*scale*np.exp(max(0, -ks.min()*t))
    if fam == 'heston':
        eps = eps*100/abs(ks).min()**3
    if fam != 'lognorm':
        eps = eps*(1 + (p.get('sigma', 0) if fam != 'hw2f' else 5)**2 +
                   p.get('xi', 0)**2)*(1 + t)/abs(ks).min()
    mean, var = [scalar(f[z](t, **p), z) for z in ('mean', 'var')]
    check(close(mean, m, 1e-8, eps), '{}_mean is {} instead of {}', pre, mean, m)
    check(close(var, v, 1e-7, eps*np.exp(max(0, -2*ks.min()*t))),
          '{}_var is {} instead of {}', pre, var, v)
    if var > 0:
        check(close(f['std'](t, **p), np.sqrt(var), 1e-12), '{}_std is {}, the variance '
              '{}', pre, f['std'](t, **p), var)


@st.composite
def factor_cases(draw):
    return dict(name=draw(st.sampled_from(['mean', 'var', 'std', 'pdf', 'cdf'])),
                n=draw(st.sampled_from([3, 3, 4, 5])),
                which=draw(st.sampled_from(['x0', 'theta', 'k', 'sigma'])),
                others=draw(st.sampled_from(['scalar', 'same', 'one'])),
                rest=draw(st.sampled_from([[], [1], [2], [3]])),
                front=draw(st.sampled_from([[], [2]])))


@subs(factor_cases(), quick=100, thorough=2000)
def factors(c, ctx):
    """Numbers of factors other than one or two are refused."""
    ctx.nt()
    f = getattr(AN, 'hw2f_' + c['name'])
    shape = (c['front'] if c['rest'] else []) + [c['n']] + c['rest']
    kw = {}
    for k in ('x0', 'theta', 'k', 'sigma'):
        s = shape if k == c['which'] or c['others'] == 'same' else \
            [1]*len(shape) if c['others'] == 'one' else []
        kw[k] = np.full(s, .7)
    pos = [1.] if c['name'] in ('mean', 'var', 'std') else [1., .5]
    check(raises(ValueError, f, *pos, **kw), '{} factors not refused: {}', c['n'],
          {k: z.shape for k, z in kw.items()})


# ------------------------------------------------ characteristic functions
CHF = dict(wiener=('wiener_chf', analytic.W), lognorm=('lognorm_log_chf', analytic.L),
           heston=('heston_log_chf', analytic.H), mjd=('mjd_log_chf', analytic.MJD),
           kou=('kou_log_chf', analytic.KOU))


def fixed(fam, p):
    return p


@st.composite
def chf_cases(draw):
    fam = draw(st.sampled_from(sorted(CHF) + ['heston']))
    return dict(fam=fam, p=draw(analytic.values(wide(CHF[fam][1]))),
                t=draw(st.one_of(fl(.05, 3, 2), st.integers(1, 6), fl(.0001, .02, 4))),
                u=draw(st.lists(fl(-12, 12, 1), min_size=1, max_size=4)),
                scaled=draw(st.integers(0, 2)) == 0)


@subs(chf_cases(), quick=1200, thorough=100000, shards=4)
def characteristic(c, ctx):
    fam, p, t = c['fam'], c['p'], c['t']
    name = CHF[fam][0]
    f = getattr(AN, name)
    ctx.nt()
    ctx.label(fam)
    check(abs(f(t, 0, **p) - 1) < 1e-9, '{} at 0 is {}', name, f(t, 0, **p))
    u = np.array(c['u'])
    if c['scaled']:
        # to the standard deviation of the diffusive part
        u = u/3/p['sigma']/np.sqrt(t)
    z = np.asarray(f(t, u, **p))
    check(z.shape == u.shape and z.dtype == complex, 'shape {}, dtype {}', z.shape,
          z.dtype)
    check(np.all(abs(z) <= 1 + 1e-9), '{} has absolute value {}', name, abs(z))
    check(same(f(t, -u, **p), z.conj(), rtol=1e-8, atol=1e-10), '{} is not '
          'Hermitian: {} and {} at {}', name, f(t, -u, **p), z, u)
    for a, b in zip(u, z):
        w = chf(fam, t, a, p)
        check(abs(w - b) < 1e-6, '{} at {} is {} instead of {}', name, a, b, w)
    check(abs(f(0., u, **p) - np.exp(1j*u*(p['x0'] if fam == 'wiener' else
                                           np.log(p['x0'])))).max() < 1e-9,
          '{} at t=0', name)
    # moments of the exponential, from complex arguments
    if fam in ('mjd', 'kou'):
        mean = scalar(getattr(AN, fam + '_mean')(t, **p), 'mean')
        m = complex(chf(fam, t, -1j, p))
        check(close(mean, m.real, 1e-7), '{}_mean is {} instead of {}', fam, mean, m)
        check(close(mean, f(t, -1j, **p), 1e-8), '{}_mean is {}, but {} at -1j is {}',
              fam, mean, name, f(t, -1j, **p))
    elif fam == 'lognorm':
        check(close(f(t, -1j, **p), AN.lognorm_mean(t, **p), 1e-8),
              'lognorm_log_chf at -1j')
    elif fam == 'heston':
        m, v = moments(fam, t, p)
        k, th, xi, s, rho = [p[z] for z in ('k', 'theta', 'xi', 'sigma', 'rho')]
        for z, w in (('mean', m), ('var', v)):
            got = scalar(getattr(AN, 'heston_log_' + z)(t, **p), z)
            check(close(got, w, 1e-6, 1e-8), 'heston_log_{} is {} instead of {}',
                  z, got, w)
        sd = scalar(AN.heston_log_std(t, **p), 'std')
        check(close(sd**2, v, 1e-6, 1e-8), 'heston_log_std is {}, the variance {}',
              sd, v)
        # martingale property of x*exp(-mu*t): an imaginary u, where the expression
        # used is regular
        if k - rho*s*xi > .1:
            check(close(f(t, -1j, **p), p['x0']*np.exp(p['mu']*t), 1e-6),
                  'heston_log_chf at -1j')


# ---------------------------------------------- densities from chf (slower)
@st.composite
def inverse_cases(draw):
    fam = draw(st.sampled_from(['heston', 'mjd', 'kou']))
    return dict(fam=fam, p=draw(analytic.values(CHF[fam][1])),
                t=draw(st.one_of(fl(.2, 3, 2), fl(.2, 3, 2), fl(.0002, .05, 4))),
                q=draw(st.lists(fl(-3, 3, 1), min_size=1, max_size=3)),
                form=draw(st.sampled_from(['scalar', 'array', 'list', 'tarray',
                                           'matrix', 'tmatrix', 'ints', 'tints'])))


@subs(inverse_cases(), quick=250, thorough=20000, shards=4)
def inverted(c, ctx):
    fam, p, t = c['fam'], c['p'], c['t']
    f = getattr(AN, fam + '_log_pdf')
    ctx.nt()
    ctx.label(fam, c['form'])
    q = np.array(c['q'])
    if fam == 'heston':
        m, v = moments(fam, t, p)
    else:
        h = 1e-3
        l = [np.log(chf(fam, t, z, p)) for z in (h, -h)]
        m = (l[0] - l[1]).imag/(2*h)
        v = -(l[0] + l[1]).real/h**2
    x = m + q*np.sqrt(v)
    times = [t]*len(x)
    if c['form'] == 'ints':
        x = np.round(x).astype(int)
        got = f(t, x if c['q'][0] > 0 else x.tolist(), **p)
    elif c['form'] == 'tints':
        times = np.arange(1, len(x) + 1)
        x = np.full(len(x), x[0])
        got = f(times if c['q'][0] > 0 else times.tolist(), x[0], **p)
    elif c['form'] == 'scalar':
        got = [f(t, float(z), **p) for z in x]
        check(all(np.shape(z) == () for z in got), 'shape')
    elif c['form'] == 'array':
        got = f(t, x, **p)
    elif c['form'] == 'list':
        got = f(t, list(map(float, x)), **p)
    elif c['form'] == 'matrix':
        got = f(t, x[:, None], **p)
        check(np.shape(got) == (len(x), 1), 'shape {}', np.shape(got))
        got = got[:, 0]
    else:
        times = [t*(1 + .1*k) for k in range(len(x))]
        x = np.full(len(x), x[0])
        if c['form'] == 'tmatrix':
            got = f(np.array(times)[None, :, None], x[0], **p)
            check(np.shape(got) == (1, len(x), 1), 'shape {}', np.shape(got))
            got = got.ravel()
        else:
            got = f(np.array(times), x[0], **p)
    got = np.asarray(got)
    check(got.shape == x.shape, 'shape {}', got.shape)
    for s, z, y in zip(times, x, got):
        w = invert(fam, s, z, p)
        if w is None:
            ctx.label('slowly decaying')
            continue
        check(y > -1e-5, 'density {}', y)
        check(abs(y - w) < 2e-4*(1 + 1/np.sqrt(v)), '{}_log_pdf at {} {} is {} '
              'instead of {}', fam, s, z, y, w)


def invert(fam, t, x, p):
    """Density at x, by the trapezoidal rule, from the package's chf, checked
    elsewhere against independent ones."""
    f = getattr(AN, CHF[fam][0])
    U = 10.
    while U < 5000 and abs(f(t, U, **p)) > 1e-9:
        U *= 1.5
    if U >= 5000:
        return None
    u = np.linspace(0, U, 40001)
    return trapz((f(t, u, **p)*np.exp(-1j*u*x)).real, u)/np.pi


@st.composite
def mixture_cases(draw):
    return dict(p=draw(analytic.values(analytic.MJD)), t=draw(fl(.2, 3, 2)),
                x=draw(fl(-2, 2, 1)))


@subs(mixture_cases(), quick=100, thorough=5000)
def mixture(c, ctx):
    """Merton's density is a Poisson mixture of normal ones."""
    p, t, x = c['p'], c['t'], c['x']
    ctx.nt()
    n = np.arange(80)
    w = scipy.stats.poisson.pmf(n, p['lam']*t)
    m = np.log(p['x0']) + (p['mu'] - p['sigma']**2/2)*t + n*p['a']
    s = np.sqrt(p['sigma']**2*t + n*p['b']**2)
    d = (w*scipy.stats.norm.pdf(x, m, s)).sum()
    got = float(AN.mjd_log_pdf(t, x, **p))
    check(abs(got - d) < 1e-4*(1 + 1/s[0]), 'mjd_log_pdf is {} instead of {}', got, d)


# ---------------------------------------------------------- array arguments
ENTRY = sorted(z for z in analytic.FUNCS if z not in analytic.SLOW and
               not z.startswith('bs'))


@st.composite
def entry_cases(draw):
    name = draw(st.sampled_from(ENTRY))
    V, P = analytic.FUNCS[name]
    shape = draw(st.lists(st.integers(1, 3), max_size=3))
    args = {}
    # single: all factors on an axis of size 1, if any
    single = name.startswith('hw2f') and draw(st.integers(0, 3)) == 0
    for k in list(V) + sorted(P):
        if k in P and not single and draw(st.integers(0, 3)) == 0:
            continue
        args[k] = dict(shape=draw(broadcast_of(shape)), seed=draw(seeds),
                       form=draw(st.sampled_from(['array', 'array', 'list', 'scalar',
                                                  'tuple', 'int'])))
    return dict(name=name, args=args, single=single)


def entry_value(d, lo, hi):
    r = np.random.RandomState(d['seed'])
    if d['form'] == 'scalar':
        z = float(r.uniform(lo, hi))
        return z, np.array(z)
    if d['form'] == 'int' and hi >= 1:
        z = r.randint(max(int(np.ceil(lo)), 0), int(hi) + 1, size=d['shape'])
        return np.maximum(z, int(np.ceil(lo))), np.maximum(z, int(np.ceil(lo)))
    z = r.uniform(lo, hi, size=d['shape'])
    if d['form'] == 'list':
        return z.tolist(), z
    if d['form'] == 'tuple' and z.ndim == 1:
        return tuple(z), z
    return z.copy(), z


@subs(entry_cases(), quick=2500, thorough=150000, shards=2)
def entries(c, ctx):
    name = c['name']
    V, P = analytic.FUNCS[name]
    f = getattr(AN, name)
    two = name.startswith('hw2f')
    user, arr = {}, {}
    for k, d in c['args'].items():
        lo, hi = analytic.RANGE[k] if k in V else P[k][1:]
        if two and k in P and k != 'rho':
            # axis of factors, of size 2, is the last but one, or the only one
            s = d['shape']
            if len(s) == 0:
                s = [1 if c['single'] else 2] if d['seed'] % 2 else []
            elif len(s) == 1:
                s = [1 if c['single'] else 2] + s
            else:
                s = s[:-1] + [2 if d['seed'] % 3 and not c['single'] else 1] + s[-1:]
            if d['seed'] % 50 == 0 and s:
                # neither one nor two factors
                s[0 if len(s) == 1 else -2] = 3
            d = dict(d, shape=s, form='array' if d['form'] == 'tuple' else d['form'])
        user[k], arr[k] = entry_value(d, lo, hi)
    pos = [user[k] for k in V]
    kw = {k: user[k] for k in user if k in P}
    if two:
        entries_two(c, ctx, f, V, pos, kw, arr)
        return
    shape = np.broadcast_shapes(*[z.shape for z in arr.values()])
    ctx.nt(len(shape) > 0)
    ctx.label(name)
    before = {k: np.array(z) for k, z in user.items()}
    with np.errstate(all='ignore'):
        got = np.asarray(f(*pos, **kw))
        check(got.shape == shape, '{}: shape {} instead of {}', name, got.shape, shape)
        full = {k: np.broadcast_to(z, shape) for k, z in arr.items()}
        for i in np.ndindex(*shape):
            w = f(*[float(full[k][i]) for k in V],
                  **{k: float(full[k][i]) for k in kw})
            check(same(got[i], w), '{}: {} at {} instead of {}', name, got[i], i, w)
    for k in user:
        check(np.array_equal(before[k], np.asarray(user[k])), 'argument modified')


def entries_two(c, ctx, f, V, pos, kw, arr):
    """Two factors: either no axis, or the only one, or the last but one."""
    fk = [k for k in ('x0', 'theta', 'k', 'sigma') if k in kw]
    ctx.label(c['name'])
    given = {k: arr[k] for k in fk}
    # defaults have shape (2,)
    for k in ('x0', 'theta', 'k', 'sigma'):
        if k not in given:
            given[k] = np.array(analytic.HW2[k][0])
    try:
        fs = np.broadcast_shapes(*[z.shape for z in given.values()])
    except ValueError:
        return
    if len(fs) > 1 and any(z.ndim == 1 and z.shape != (1,) for z in given.values()):
        return      # a vector of factors would be taken as one of paths
    if fs and fs[0 if len(fs) == 1 else -2] not in (1, 2):
        ctx.nt()
        check(raises(ValueError, f, *pos, **kw), '{}: factors of shape {} not refused',
              c['name'], fs)
        return
    full = {k: np.broadcast_to(z, fs) for k, z in given.items()}

    def factor(z, i):
        if z.ndim == 0:
            return z
        if z.ndim == 1:
            return z[min(i, len(z) - 1)]
        return z[..., min(i, z.shape[-2] - 1), :]
    parts = {k: (factor(z, 0), factor(z, 1)) for k, z in full.items()}
    rho = arr.get('rho', np.array(0.))
    others = [arr[k] for k in V]
    try:
        shape = np.broadcast_shapes(parts['x0'][0].shape, rho.shape,
                                    *[z.shape for z in others])
    except ValueError:
        return
    ctx.nt(len(shape) > 0)
    with np.errstate(all='ignore'):
        got = np.asarray(f(*pos, **kw))
        check(got.shape == shape, '{}: shape {} instead of {}', c['name'], got.shape,
              shape)
        for i in np.ndindex(*shape):
            def at(z):
                return float(np.broadcast_to(z, shape)[i])
            k = {n: [at(z[0]), at(z[1])] for n, z in parts.items()}
            w = f(*[at(z) for z in others], rho=at(rho), **k)
            check(same(got[i], w), '{}: {} at {} instead of {}', c['name'], got[i], i,
                  w)


@st.composite
def default_cases(draw):
    name = draw(st.sampled_from(sorted(z for z in analytic.FUNCS
                                       if not z.startswith('bs'))))
    V, P = analytic.FUNCS[name]
    p = draw(analytic.values(P))
    return dict(name=name, p=p, drop=draw(st.lists(st.sampled_from(sorted(P)),
                                                   min_size=1, unique=True)),
                v=[draw(fl(*analytic.RANGE[z], 2)) for z in V],
                named=draw(st.booleans()))


@subs(default_cases(), quick=600, thorough=20000)
def defaults(c, ctx):
    """Parameters not given have their documented values; variables may be given by
    name."""
    V, P = analytic.FUNCS[c['name']]
    f = getattr(AN, c['name'])
    ctx.nt()
    p = {z: w for z, w in c['p'].items() if z not in c['drop']}
    full = dict(c['p'], **{z: P[z][0] for z in c['drop']})
    named = dict(zip(V, c['v']))
    got = f(**named, **p) if c['named'] else f(*c['v'], **p)
    want = f(*c['v'], **full)
    check(same(got, want), '{} without {} is {} instead of {}', c['name'], c['drop'],
          got, want)
