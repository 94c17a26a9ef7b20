import numpy as np
import scipy.stats
import sdepy
from sdepy import process
from hypothesis import strategies as st
from pbt import srcs, stats
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, raises

subs = Subs('Wiener sources of generated vshape with no, constant, callable or '
            'process-valued corr or rho, several t and dt of both signs: '
            'covariances and distribution of a large sample; exact linear '
            'relations for perfect correlations; malformed correlations. '
            'Non-trivial: more than one component or time, or malformed')

FORMS = ['const', 'const1', 'list', 'call', 'call1', 'process', 'lazy',
         'calllist']


def corr_at(c, t):
    """The correlation matrix at time t: from matrix A to B, in [-3, 3]."""
    M = c['vshape'][-1]
    A = srcs.corr_matrix(M, c['cseed'], c['rank'])
    if not c['vary']:
        return A
    B = srcs.corr_matrix(M, c['cseed'] + 1, c['rank'])
    w = (t + 3)/6
    return (1 - w)*A + w*B


def rho_at(c, t):
    K = c['vshape'][-1]//2
    a = np.random.RandomState(c['cseed']).uniform(-1, 1, size=K)
    b = np.random.RandomState(c['cseed']+1).uniform(-1, 1, size=K)
    if c['rank'] == 'near':
        a, b = .998*np.sign(a), .998*np.sign(b)
    w = (t + 3)/6
    r = (1-w)*a + w*b if c['vary'] else a
    return r


def matrix(c, t):
    if c['which'] == 'corr':
        return corr_at(c, t)
    K = c['vshape'][-1]//2
    R = np.eye(2*K)
    for i, r in enumerate(rho_at(c, t)):
        R[i, K+i] = R[K+i, i] = r
    return R


def value(c, t, scalar=False):
    v = corr_at(c, t) if c['which'] == 'corr' else rho_at(c, t)
    if c['which'] == 'rho' and c['vshape'][-1] == 2 and c['scalar']:
        v = v[0]
    return v


def parameter(c):
    f = c['form']
    if c['which'] == 'none':
        return {}
    if f in ('const', 'const1', 'list'):
        v = value(c, 0)
        v = v.tolist() if f == 'list' else v
        if f == 'const1' and np.ndim(v):
            v = v[..., None]
    elif f == 'process':
        t = np.array([-3., 3.]) if c['vary'] else 0.
        v = process(t, v=[value(c, -3.), value(c, 3.)]) if c['vary'] else \
            process(c=value(c, 0))
    else:
        def v(t):
            if f == 'lazy' and t == 1.:
                raise RuntimeError('not defined at 1')
            z = value(c, t)
            return z.tolist() if f == 'calllist' else \
                z[..., None] if f == 'call1' and np.ndim(z) else z
    return {c['which']: v}


@st.composite
def cases(draw):
    which = draw(st.sampled_from(['corr', 'rho', 'corr', 'rho', 'none']))
    vshape = draw(vshapes(2, 3, min_dims=0 if which == 'none' else 1))
    if draw(st.integers(0, 5)) == 0:
        vshape = [2, 2, 2]
    if which == 'corr':
        vshape[-1] = draw(st.integers(1, 4))
    if which == 'rho':
        vshape[-1] = draw(st.sampled_from([2, 2, 4, 6]))
    form = draw(st.sampled_from(FORMS))
    vary = form not in ('const', 'const1', 'list') and draw(st.booleans())
    nt = draw(st.integers(1, 2))
    return dict(
        name=draw(st.sampled_from(['wiener', 'wiener', 'odd_wiener'])),
        which=which, vshape=vshape, form=form, vary=vary,
        scalar=draw(st.booleans()), cseed=draw(seeds),
        unit=draw(st.sampled_from([1., 1., 1e-10, 1e-5, 1e7])),
        rank=draw(st.sampled_from([None, None, 1, 'near'])),
        t=draw(st.lists(fl(-1.5, 1.4, 2), min_size=nt, max_size=nt)),
        dt=draw(st.lists(fl(-1.5, 1.5, 2).filter(lambda z: abs(z) > .05),
                         min_size=nt, max_size=nt)),
        tform=draw(st.sampled_from(['vector', 'column', 'calls'])),
        seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


def sample(c, paths):
    """Increments shaped (times,) + vshape + (paths,), independent paths."""
    anti = c['name'] == 'odd_wiener'
    dw = srcs.cls(c['name'])(paths=2*paths if anti else paths,
                             vshape=tuple(c['vshape']),
                             rng=srcs.rng(c['rng'], c['seed']), **parameter(c))
    unit = 1. if c['vary'] else c['unit']
    t, dt = np.array(c['t']), np.array(c['dt'])*unit
    if c['tform'] == 'calls':
        x = np.stack([dw(a, b) for a, b in zip(t, dt)])
    elif c['tform'] == 'column':
        x = dw(t[:, None], dt[:, None])[:, 0]
    else:
        x = dw(t, dt)
    return x[..., :paths]/np.sqrt(unit)


def expected(c):
    """Covariance of the flattened (times,) + vshape components."""
    v = c['vshape']
    n = int(np.prod(v))
    cov = np.zeros((len(c['t'])*n,)*2)
    for k, (t, dt) in enumerate(zip(c['t'], c['dt'])):
        b = np.eye(n) if c['which'] == 'none' else \
            np.kron(np.eye(n//v[-1]), matrix(c, t + dt/2))
        cov[k*n:(k+1)*n, k*n:(k+1)*n] = b*abs(dt)
    return cov


N = 40000


@subs(cases(), quick=800, thorough=20000, shards=4)
def law(c, ctx):
    if any(abs(t + dt/2 - 1) < 1e-9 for t, dt in zip(c['t'], c['dt'])):
        return
    ctx.label(c['which'], c['form'], 'vary' if c['vary'] else 'constant')
    x = sample(c, N)
    check(x.shape == (len(c['t']),) + tuple(c['vshape']) + (N,), 'shape')
    x = x.reshape(-1, N)
    ctx.nt(len(x) > 1)
    cov = expected(c)
    sd = np.sqrt(np.diag(cov))
    for msg in (stats.mean_test(x, 0, sd, 'increments'),
                stats.cov_test(x, cov, 'increments'),
                stats.white_test(x, cov, 'increments'),
                stats.ks_test((x/sd[:, None])[0], 'norm', 'first component'),
                stats.ks_test((x/sd[:, None])[-1], 'norm', 'last component')):
        check(msg is None, '{}', msg)
    # independent paths
    y = x/sd[:, None]
    h = N//2
    for a, b in ((y[:, :h], y[:, h:]), (y[:, :-1:2], y[:, 1::2]),
                 (y[:, :h], y[:, ::-1][:, :h])):
        msg = stats.mean_test(a*b, 0., 1., 'product of different paths')
        check(msg is None, '{}', msg)


@st.composite
def exact_cases(draw):
    K = draw(st.integers(1, 3))
    return dict(lead=draw(vshapes(2, 2)), K=K, cols=draw(st.integers(0, 2)),
                sign=draw(st.lists(st.sampled_from([-1, 1]), min_size=K,
                                   max_size=K)),
                which=draw(st.sampled_from(['rho', 'corr'])),
                form=draw(st.sampled_from(['const', 'call', 'step', 'step',
                                           'process'])),
                tail=draw(st.booleans()),
                t=draw(st.lists(fl(-2, 2, 2), min_size=1, max_size=3)),
                dt=draw(st.lists(fl(-2, 2, 2).filter(lambda z: abs(z) > .02),
                                 min_size=3, max_size=3)),
                cut=draw(st.sampled_from([.03, .25, .45, .55, .75, .97])),
                cutk=draw(st.integers(0, 2)),
                name=draw(st.sampled_from(['wiener', 'odd_wiener'])),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


@subs(exact_cases(), quick=800, thorough=30000)
def exact(c, ctx):
    """With correlations of 1 and -1, paired components are equal or opposite:
    at each time, according to the correlation half-way of the increment."""
    K, sign = c['K'], np.array(c['sign'], dtype=float)
    ctx.nt()
    ctx.label(c['which'], c['form'])
    n = len(c['t'])
    t, dt = np.array(c['t']), np.array(c['dt'][:n])
    k = c['cutk'] % n
    cut = t[k] + c['cut']*dt[k]
    if np.any(abs(t + dt/2 - cut) < 1e-3):
        return

    def val(s):
        r = sign if c['form'] in ('const', 'call') or s < cut else -sign
        if c['which'] == 'corr':
            r = np.block([[np.eye(K), np.diag(r)], [np.diag(r), np.eye(K)]])
        return r[..., None] if c['tail'] else r
    p = val(0.) if c['form'] == 'const' else val
    if c['form'] == 'process':
        # piecewise constant
        s = [cut - 1, cut + 1]
        p = sdepy.piecewise(s, v=[np.squeeze(val(s[0]), -1) if c['tail'] else
                                  val(s[0]),
                                  np.squeeze(val(s[1]), -1) if c['tail'] else
                                  val(s[1])])
    vshape = tuple(c['lead']) + (2*K,)
    dw = srcs.cls(c['name'])(paths=4, vshape=vshape, **{c['which']: p},
                             rng=srcs.rng(c['rng'], c['seed']))
    if c['cols']:       # the same times, several times
        x = dw(np.repeat(t[:, None], c['cols'], axis=1), dt[:, None])
    else:
        x = dw(t, dt)
    u = x[..., :K, :2]/np.sqrt(abs(dt)).reshape((n,) + (1,)*(x.ndim - 1))
    u = np.sort(abs(u).ravel())
    check(np.all(np.diff(u) > 1e-13), 'repeated increments {}', u)
    for i in range(n):
        r = sign if c['form'] in ('const', 'call') or t[i] + dt[i]/2 < cut \
            else -sign
        a, b = x[i][..., :K, :], x[i][..., K:, :]
        check(np.allclose(b, r[:, None]*a, atol=1e-6), 'at t={}, dt={}: '
              'components {} and {} for correlations {}', t[i], dt[i], a, b, r)
        check(np.all(abs(a) > 1e-12), 'null increments')


BAD = ['nonsquare', 'tall', 'size', 'smaller', 'scalar_values', '1d', '4d', 'tail', 'rho2d',
       'rhosize', 'rhotail']


@st.composite
def bad_cases(draw):
    return dict(bad=draw(st.sampled_from(BAD)), M=draw(st.integers(1, 4)),
                lead=draw(vshapes(1, 2)), d=draw(st.integers(1, 2)),
                form=draw(st.sampled_from(['const', 'call', 'process', 'list'])),
                name=draw(st.sampled_from(['wiener', 'odd_wiener',
                                           'true_wiener'])),
                which=draw(st.sampled_from(['corr', 'rho'])))


@subs(bad_cases(), quick=500)
def malformed(c, ctx):
    ctx.nt()
    ctx.label(c['bad'])
    M, d, bad = c['M'], c['d'], c['bad']
    vshape = tuple(c['lead']) + (M,)
    which, val = 'corr', None
    if bad == 'nonsquare':
        val = np.eye(M, M + d)
    elif bad == 'tall':
        val = np.eye(M + d, M)
    elif bad == 'size':
        val = np.eye(M + d)
    elif bad == 'smaller':
        vshape = tuple(c['lead']) + (M + d,)
        val = np.eye(M)
    elif bad == 'scalar_values':
        vshape = ()
        which = c['which']
        val = np.eye(M) if which == 'corr' else np.zeros(()) if M == 1 else \
            np.zeros(M)
    elif bad == '1d':
        val = np.ones(M)
    elif bad == '4d':
        val = np.eye(M).reshape(M, M, 1, 1)
    elif bad == 'tail':
        val = np.repeat(np.eye(M)[..., None], 1 + d, axis=-1)
    elif bad == 'rho2d':
        which, val = 'rho', np.zeros((M, 1 + d))
    elif bad == 'rhotail':
        which, val = 'rho', np.zeros((M, 1, 1))
    elif bad == 'rhosize':
        K = M if d == 1 else M + d      # 2*K is not M
        which, val = 'rho', np.zeros(K)
    f = c['form']
    if bad == '1d' and M == 1 and f == 'process':
        return      # as one path of values [1], a valid 1x1 matrix
    if f == 'process' and val.ndim and bad not in ('tail', 'rho2d'):
        par = process(c=val)
    elif f == 'process' and val.ndim:
        par = process(x=val[None])      # several paths
    elif f == 'list':
        par = val.tolist()
    elif f == 'call':
        def par(t):
            return val
    else:
        par = val
    try:
        dw = srcs.cls(c['name'])(paths=2, vshape=vshape, **{which: par})
    except ValueError:
        return
    fail('vshape {} accepted with {} of shape {} ({})', vshape, which, val.shape,
         f)
