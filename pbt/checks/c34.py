import numpy as np
import scipy.special
import sdepy
import sdepy.analytical
from hypothesis import strategies as st
from pbt import analytic
from pbt.core import Subs, check, fail
from pbt.strat import seeds, fl, broadcast_of, same

subs = Subs('Black-Scholes functions at generated parameters, from ordinary to '
            'extreme and limiting ones, vs. quadrature of the payoff, parity, bounds, '
            'finite differences; array arguments vs. entries one at a time. '
            'Non-trivial: some parameter away from its default')

AN = sdepy.analytical
NODES, WEIGHTS = np.polynomial.legendre.leggauss(120)


def ncdf(z):
    return scipy.special.ndtr(z)


def quadrature(k, t, x0, r, q, sigma):
    """Discounted expectations of the payoffs of call and put, and of their
    derivatives in x0."""
    s = sigma*np.sqrt(t)
    a = (r - q - sigma*sigma/2)*t
    zk = (np.log(k/x0) - a)/s
    disc = np.exp(-r*t)
    out = []
    for sign in (1, -1):
        lo, hi = min(-13., s - 13), max(13., s + 13)
        if sign == 1:
            lo = max(lo, zk)
        else:
            hi = min(hi, zk)
        total = delta = 0.
        if lo < hi:
            cuts = np.linspace(lo, hi, 9)
            for u, v in zip(cuts[:-1], cuts[1:]):
                z = (u + v)/2 + (v - u)/2*NODES
                w = WEIGHTS*(v - u)/2/np.sqrt(2*np.pi)
                g = np.exp(a + s*z - z*z/2)     # x/x0 times the density
                total += (w*(x0*g - k*np.exp(-z*z/2))).sum()
                delta += (w*g).sum()
        out += [sign*disc*total, sign*disc*delta]
    return out


def four(k, t, **kw):
    return [float(f(k, t, **kw)) for f in (AN.bscall, AN.bscall_delta, AN.bsput,
                                           AN.bsput_delta)]


@st.composite
def value_cases(draw):
    d = dict(draw(analytic.values(analytic.BS)))
    d['k'] = draw(fl(.2, 3, 2))
    d['t'] = draw(fl(.05, 3, 2))
    for z, lo, hi, nd in (('sigma', .01, 4, 2), ('t', .001, 30, 3), ('k', .001, 1, 3),
                          ('k', 3, 1000, 0), ('x0', .001, 1, 3), ('x0', 3, 1000, 0),
                          ('r', -2.5, 1, 2), ('q', -2.5, 1, 2)):
        if draw(st.integers(0, 7)) == 0:
            d[z] = draw(fl(lo, hi, nd))
    d['ints'] = draw(st.booleans())
    if d.pop('ints'):
        for z in ('k', 't', 'x0', 'r', 'q', 'sigma'):
            if draw(st.booleans()):
                d[z] = max(int(round(d[z])), 1 if z not in 'rq' else -9)
    d['default'] = [z for z in ('x0', 'r', 'q', 'sigma') if draw(st.integers(0, 5)) == 0]
    return d


DEFAULT = dict(x0=1., r=0., q=0., sigma=1.)


@subs(value_cases(), quick=3000, thorough=300000, shards=4)
def values(c, ctx):
    p = {z: c[z] for z in DEFAULT if z not in c['default']}
    k, t = c['k'], c['t']
    full = dict(DEFAULT, **p)
    x0, r, q, sigma = [float(full[z]) for z in ('x0', 'r', 'q', 'sigma')]
    if abs(r*t) > 20 or abs(q*t) > 20 or sigma**2*t > 200:
        ctx.label('extreme')
        return
    ctx.nt(len(p) > 0)
    call, cd, put, pd = four(k, t, **p)
    D, Q = np.exp(-r*t), np.exp(-q*t)
    scale = x0*Q + k*D
    tol = 1e-11*scale
    want = quadrature(float(k), float(t), x0, r, q, sigma)
    for name, got, w, eps in zip(('bscall', 'bscall_delta', 'bsput', 'bsput_delta'),
                                 (call, cd, put, pd), want,
                                 (scale, Q, scale, Q)):
        check(abs(got - w) < 1e-9*eps, '{} is {} instead of {}', name, got, w)
    # exact relations
    check(abs(call - put - (x0*Q - k*D)) <= tol, 'parity: {} - {} is not {} - {}',
          call, put, x0*Q, k*D)
    check(abs(cd - pd - Q) <= 1e-12*Q, 'parity of deltas: {} {} {}', cd, pd, Q)
    check(max(0, x0*Q - k*D) - tol <= call <= x0*Q + tol, 'call {} out of bounds', call)
    check(max(0, k*D - x0*Q) - tol <= put <= k*D + tol, 'put {} out of bounds', put)
    check(0 <= cd <= Q*(1 + 1e-12) and -Q*(1 + 1e-12) <= pd <= 0, 'deltas {} {}',
          cd, pd)
    d1, d2 = AN.bsd1d2(k, t, **p)
    s = sigma*np.sqrt(t)
    check(abs(d1 - d2 - s) <= 1e-12*(abs(d1) + s), 'd1 - d2 is {} instead of {}',
          d1 - d2, s)
    w1 = (np.log(x0/k) + (r - q + sigma**2/2)*t)/s
    check(abs(d1 - w1) <= 1e-9*(1 + abs(w1)), 'd1 is {} instead of {}', d1, w1)
    # formula in the documentation, and vega
    e = 1e-3*sigma
    up = four(k, t, **dict(full, sigma=sigma + e))
    check(up[0] >= call - tol and up[2] >= put - tol, 'values decrease with volatility')
    # homogeneity
    big = four(k*4, t, **dict(full, x0=x0*4))
    check(abs(big[0] - 4*call) <= 10*tol and abs(big[2] - 4*put) <= 10*tol and
          abs(big[1] - cd) <= 1e-11*Q, 'not homogeneous: {} and {}', big,
          (call, cd, put, pd))
    # deltas as finite differences
    h = 1e-4*x0*min(s, 1.)
    a, b = [four(k, t, **dict(full, x0=x0 + z)) for z in (h, -h)]
    for i in (0, 2):
        fd = (a[i] - b[i])/(2*h)
        got = (cd, pd)[i//2]
        check(abs(fd - got) < 1e-6*Q + 1e-13*scale/h, '{} is {}, but the derivative of '
              'the value {}', ('bscall_delta', '', 'bsput_delta')[i], got, fd)


@st.composite
def limit_cases(draw):
    d = dict(draw(analytic.values(analytic.BS)))
    d['k'] = draw(st.one_of(fl(.2, 3, 1), st.sampled_from([1, 1.])))
    d['x0'] = draw(st.one_of(fl(.2, 3, 1), st.just(d['k'])))
    d['t'] = draw(fl(.05, 3, 2))
    d['zero'] = draw(st.sampled_from(['t', 'sigma', 'both', 'tinyt', 'tinysigma',
                                      'hugesigma', 'huget', 'tinyk', 'hugek']))
    d['same'] = draw(st.booleans())
    d['int0'] = draw(st.booleans())
    return d


@subs(limit_cases(), quick=1500, thorough=100000, shards=2)
def limits(c, ctx):
    zero = 0 if c['int0'] else 0.
    k, t = c['k'], c['t']
    p = {z: c[z] for z in ('x0', 'r', 'q', 'sigma')}
    if c['same']:
        p['q'] = p['r']
    what = c['zero']
    ctx.nt()
    ctx.label(what)
    tol = 1e-12
    if what in ('t', 'both'):
        t = zero
    if what in ('sigma', 'both'):
        p['sigma'] = zero
    if what == 'tinyt':
        t, tol = 1e-20, 1e-8
    if what == 'tinysigma':
        p['sigma'], tol = 1e-10, 1e-8
    if what == 'hugesigma':
        p['sigma'] = 1e4
    if what == 'huget':
        t = 1e5
        p['r'] = p['q'] = 0
    if what == 'tinyk':
        k = 1e-200
    if what == 'hugek':
        k = 1e200
        p['x0'] = max(p['x0'], 1e-3)
    x0, r, q = p['x0'], p['r'], p['q']
    D, Q = np.exp(-r*t), np.exp(-q*t)
    with np.errstate(divide='raise', invalid='raise', over='ignore', under='ignore'):
        call, cd, put, pd = four(k, t, **p)
        d1, d2 = AN.bsd1d2(k, t, **p)
    if what in ('hugesigma', 'huget'):
        if what == 'huget' and p['sigma']**2*t < 2000:
            return
        want = x0*Q, Q, k*D, 0.
    else:
        m = x0*Q - k*D
        want = max(m, 0.), Q*(m > 0), max(-m, 0.), -Q*(m < 0)
        if abs(m) < 1e-6*max(x0*Q, k*D):
            # at the money: deltas are not determined in the limit
            check(0 <= cd <= Q and -Q <= pd <= 0 and abs(cd - pd - Q) < 1e-12,
                  'deltas {} {}', cd, pd)
            want = want[0], cd, want[2], pd
    for name, got, w in zip(('bscall', 'bscall_delta', 'bsput', 'bsput_delta'),
                            (call, cd, put, pd), want):
        check(abs(got - w) <= tol*(1 + abs(w)), '{} is {} instead of {}', name, got, w)
    s = p['sigma']*np.sqrt(t)
    check(not np.isnan(d1) and not np.isnan(d2), 'd1, d2 are {} {}', d1, d2)
    if np.isfinite(d1):
        check(abs(d1 - d2 - s) <= 1e-12*(abs(d1) + s), 'd1 - d2 is {} instead of {}',
              d1 - d2, s)
    elif s == 0:
        check(d1 == d2, 'd1, d2 are {} {}', d1, d2)


# ---------------------------------------------------------- array arguments
NAMES = ['bsd1d2', 'bscall', 'bscall_delta', 'bsput', 'bsput_delta']


@st.composite
def entry_cases(draw):
    shape = draw(st.lists(st.integers(1, 3), max_size=3))
    args = {}
    for k in ('k', 't', 'x0', 'r', 'q', 'sigma'):
        if k in DEFAULT and draw(st.integers(0, 3)) == 0:
            continue
        args[k] = dict(shape=draw(broadcast_of(shape)), seed=draw(seeds),
                       form=draw(st.sampled_from(['array', 'list', 'scalar', 'tuple',
                                                  'int', 'ints', 'f4', 'zeros'])))
    return dict(name=draw(st.sampled_from(NAMES)), args=args,
                err=draw(st.sampled_from(['ignore', 'warn', 'raise'])),
                bad=draw(st.sampled_from([None, None, None, 'k', 'shapes'])))


def make_arg(k, d):
    r = np.random.RandomState(d['seed'])
    lo, hi = dict(analytic.RANGE, **{z: analytic.BS[z][1:] for z in analytic.BS})[k]
    f = d['form']
    if f == 'scalar':
        return float(r.uniform(lo, hi))
    if f in ('int', 'ints'):
        a = r.randint(0 if k in 'rq' else 1, 3, size=d['shape'] if f == 'ints' else ())
        return a if f == 'ints' else int(a)
    z = r.uniform(lo, hi, size=d['shape'])
    if f == 'zeros' and k in ('t', 'sigma', 'r', 'q'):
        z = z*(r.uniform(size=z.shape) < .5)
    if f == 'f4':
        z = z.astype(np.float32)
    if f == 'list' or f == 'tuple' and z.ndim != 1:
        return z.tolist()
    return tuple(z.tolist()) if f == 'tuple' else z


@subs(entry_cases(), quick=2500, thorough=150000, shards=2)
def entries(c, ctx):
    f = getattr(AN, c['name'])
    user = {k: make_arg(k, d) for k, d in c['args'].items()}
    arr = {k: np.asarray(z) for k, z in user.items()}
    shape = np.broadcast_shapes(*[z.shape for z in arr.values()])
    ctx.nt(len(shape) > 0)
    ctx.label(c['name'], c['err'], c['bad'])
    before = {k: np.array(z) for k, z in user.items()}
    f4 = any(z.dtype == np.float32 for z in arr.values())
    pos = [user.pop('k'), user.pop('t')]
    if c['bad'] == 'k':
        pos[0] = -1.
    elif c['bad'] == 'shapes':
        pos = [np.ones(4), np.ones(5)]
    old = np.geterr()
    with np.errstate(all=c['err']):
        mine = np.geterr()
        try:
            with np.testing.suppress_warnings() as sup:
                sup.filter(RuntimeWarning)
                got = f(*pos, **user)
        except (AssertionError, FloatingPointError, ValueError) as e:
            if c['bad'] is None and not (isinstance(e, FloatingPointError) and
                                         'under' in str(e)):
                raise
            got = None
        check(np.geterr() == mine, '{} left the floating-point error settings changed '
              'from {} to {}', c['name'], mine, np.geterr())
    check(np.geterr() == old, 'settings')
    if c['bad'] == 'shapes':
        check(got is None, 'arguments of shapes (4,) and (5,) accepted')
    if got is None or c['bad']:
        return
    two = c['name'] == 'bsd1d2'
    full = {k: np.broadcast_to(z, shape) for k, z in arr.items()}
    with np.errstate(all='ignore'):
        for j, g in enumerate(got if two else [got]):
            g = np.asarray(g)
            check(g.shape == shape, '{}: shape {} instead of {}', c['name'], g.shape,
                  shape)
            for i in np.ndindex(*shape):
                w = f(*[float(full[k][i]) for k in ('k', 't')],
                      **{k: float(full[k][i]) for k in user})
                w = w[j] if two else w
                if f4 and two and abs(w) > 1e3:
                    continue
                check(same(g[i], w, **(dict(rtol=1e-4, atol=1e-5) if f4 else {})),
                      '{}: {} at {} instead of {}', c['name'], g[i], i, w)
    for k, z in dict(user, k=pos[0], t=pos[1]).items():
        check(np.array_equal(before[k], np.asarray(z)), 'argument modified')


@st.composite
def settings_cases(draw):
    return dict(k=draw(fl(.2, 3, 1)), t=draw(fl(.1, 3, 1)),
                sigma=10.**draw(st.integers(-320, -290)),
                exp=draw(st.booleans()), name=draw(st.sampled_from(NAMES)),
                raises=draw(st.sampled_from(['over', 'under', 'divide', 'invalid', 'all'])))


@subs(settings_cases(), quick=300, thorough=20000)
def settings(c, ctx):
    """Floating-point errors, made to raise exceptions, along the way."""
    ctx.nt()
    k = c['k']*(1e-300 if c['exp'] else 1.)
    with np.errstate(**{c['raises']: 'raise'}):
        mine = np.geterr()
        try:
            getattr(AN, c['name'])(k, c['t'], x0=1e5 if c['exp'] else 1.,
                                   sigma=c['sigma'])
        except FloatingPointError as e:
            ctx.label('raised')
            check('overflow' in str(e) or 'underflow' in str(e), 'raised {}', e)
        check(np.geterr() == mine, '{} left the floating-point error settings changed '
              'from {} to {}', c['name'], mine, np.geterr())
