import numpy as np
import scipy.stats
import sdepy
from sdepy import process
from hypothesis import strategies as st
from pbt import srcs, stats
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of

subs = Subs('a source with memory with many paths, asked 2 to 6 times in a '
            'generated order on either side of t0, one by one, as arrays or as '
            'increments; covariances, goodness of fit and independence of '
            'the increments between consecutive times. Non-trivial: '
            'some time is asked after two times around it')


@st.composite
def histories(draw):
    t0 = draw(st.sampled_from([0., 0., 1., -.7]))
    n = draw(st.integers(2, 6))
    ks = draw(st.lists(st.integers(-20, 20).filter(bool), min_size=n,
                       max_size=n, unique=True))
    return dict(t0=t0, t=[t0 + k/8 for k in ks],
                how=draw(st.sampled_from(['one', 'one', 'array', 'inc', 'pairs'])))


def ask(dz, c):
    """Puts the questions; returns increments between consecutive times,
    shaped (intervals,) + vshape + (paths,), and times."""
    t, t0 = c['t'], c['t0']
    if c['how'] == 'one':
        for s in t:
            dz(s)
    elif c['how'] == 'array':
        dz(np.array(t))
    elif c['how'] == 'inc':
        for a, b in zip(t[:-1], t[1:]):
            dz(a, b - a)
    else:
        for k in range(0, len(t), 2):
            dz(np.array(t[k:k+2]))
    s = np.array(sorted(t + [t0]))
    return np.diff(dz(s), axis=0), s


def refined(c):
    seen = [c['t0']]
    for s in c['t']:
        if min(seen) < s < max(seen):
            return True
        seen.append(s)
    return False


@st.composite
def wiener_cases(draw):
    c = draw(histories())
    c['which'] = which = draw(st.sampled_from(['none', 'corr', 'corr', 'rho',
                                               'rho']))
    vshape = draw(vshapes(2, 2, min_dims=0 if which == 'none' else 1))
    if which == 'corr':
        vshape[-1] = draw(st.integers(1, 3))
    if which == 'rho':
        vshape[-1] = draw(st.sampled_from([2, 4]))
    c.update(vshape=vshape, cseed=draw(seeds), form=draw(st.sampled_from(
        ['const', 'call', 'linear', 'linear', 'process', 'linproc'])),
        rank=draw(st.sampled_from([None, None, 1, 2, 'near'])), seed=draw(seeds),
        rng=draw(st.sampled_from(srcs.RNGS)), scalar=draw(st.booleans()))
    return c


def matrix(c, t):
    M = c['vshape'][-1]
    w = (t + 5)/10 if c['form'] in ('linear', 'linproc') else 0.
    r = np.random.RandomState(c['cseed'])
    if c['which'] == 'rho':
        a, b = r.uniform(-1, 1, size=(2, M//2))
        if c['rank'] == 1:
            a, b = np.sign(a), np.sign(b)
        if c['rank'] == 'near':
            a, b = .998*np.sign(a), .998*np.sign(b)
        return (1-w)*a + w*b
    A = srcs.corr_matrix(M, c['cseed'], c['rank'])
    B = srcs.corr_matrix(M, c['cseed'] + 1, c['rank'])
    return (1-w)*A + w*B


def full(c, t):
    m = matrix(c, t)
    if c['which'] == 'rho':
        K = len(m)
        return np.block([[np.eye(K), np.diag(m)], [np.diag(m), np.eye(K)]])
    return m


def wiener_kw(c):
    if c['which'] == 'none':
        return {}
    f = c['form']

    def val(t):
        v = matrix(c, t)
        return v[0] if c['which'] == 'rho' and v.size == 1 and c['scalar'] else v
    if f == 'const':
        v = val(0)
    elif f == 'process':
        v = process(c=val(0))
    elif f == 'linproc':
        v = process([-5., 5.], v=[val(-5.), val(5.)])
    else:
        v = val
    return {c['which']: v}


@subs(wiener_cases(), quick=400, thorough=20000, shards=4)
def wiener(c, ctx):
    N = 20000
    ctx.label(c['which'], c['form'], c['how'])
    ctx.nt(refined(c))
    z0 = 2.
    dw = sdepy.true_wiener_source(paths=N, vshape=tuple(c['vshape']),
                                  t0=c['t0'], z0=z0,
                                  rng=srcs.rng(c['rng'], c['seed']),
                                  **wiener_kw(c))
    x, s = ask(dw, c)
    check((dw(c['t0']) == z0).all(), 'value at t0')
    n = int(np.prod(c['vshape']))
    x = x.reshape(-1, N)
    cov = np.zeros((len(x),)*2)
    for k in range(len(s) - 1):
        b = np.eye(n) if c['which'] == 'none' else np.kron(
            np.eye(n//c['vshape'][-1]), full(c, (s[k] + s[k+1])/2))
        cov[k*n:(k+1)*n, k*n:(k+1)*n] = b*(s[k+1] - s[k])
    sd = np.sqrt(np.diag(cov))
    what = 'increments between {} asked as {}'.format(s.tolist(), c['t'])
    for msg in (stats.mean_test(x, 0, sd, what), stats.cov_test(x, cov, what),
                stats.white_test(x, cov, what),
                stats.ks_test(x[0]/sd[0], 'norm', what),
                stats.ks_test(x[-1]/sd[-1], 'norm', what),
                stats.ks_test(x[len(x)//2]/sd[len(x)//2], 'norm', what)):
        check(msg is None, '{}', msg)
    y, h = x/sd[:, None], N//2
    for a, b in ((y[:, :h], y[:, h:]), (y[:, :-1:2], y[:, 1::2])):
        msg = stats.mean_test(a*b, 0., 1., 'product of different paths')
        check(msg is None, '{}', msg)


@st.composite
def poisson_cases(draw):
    c = draw(histories())
    vshape = draw(vshapes(2, 2))
    c.update(vshape=vshape, lam=draw(st.sampled_from([.5, 1., 3., 10.])),
             lform=draw(st.sampled_from(['const', 'array', 'call', 'process'])),
             lshape=draw(broadcast_of(vshape)), lseed=draw(seeds),
             seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)),
             dtype=draw(st.sampled_from(['omit', 'f8'])),
             law=draw(st.sampled_from(['none', 'norm', 'exp', 'scipy', 'array'])))
    return c


def lam_of(c):
    """lam parameter and its values for each component."""
    v = np.random.RandomState(c['lseed']).uniform(.5, 1.5, size=c['lshape']) * \
        c['lam']
    L = np.broadcast_to(v, c['vshape'])
    p = v[..., None]
    if c['lform'] == 'const':
        return c['lam'], np.full(c['vshape'], c['lam'])
    if c['lform'] == 'array':
        return p, L
    if c['lform'] == 'call':
        return (lambda t: p), L
    return process(c=v), L


def count_tests(n, mu, what):
    """n shaped (intervals, components, N), mu (intervals, components)."""
    N = n.shape[-1]
    check((n >= 0).all() and (n == np.rint(n)).all(), '{}: counts', what)
    for i in np.ndindex(*mu.shape):
        msg = stats.count_test(n[i], scipy.stats.poisson(mu[i]),
                               '{}, interval and component {}'.format(what, i))
        check(msg is None, '{}', msg)
        d = abs(n[i].mean() - mu[i])
        check(d < 8*np.sqrt(mu[i]/N) + 20/N, '{}: mean count {} instead of {}',
              what, n[i].mean(), mu[i])
    y = ((n - mu[..., None])/np.sqrt(mu[..., None])).reshape(-1, N)
    cc = y @ y.T/N
    off = abs(cc - np.diag(np.diag(cc)))
    check(off.max() < 10/np.sqrt(N), '{}: correlated counts {}', what, cc)
    # of the path next to it
    m = (y[:, 1:]*y[:, :-1]).mean(axis=1)
    check(abs(m).max() < 10/np.sqrt(N), '{}: correlated paths', what)


@subs(poisson_cases(), quick=300, thorough=15000, shards=3)
def poisson(c, ctx):
    N = 20000
    ctx.label(c['lform'], c['how'])
    ctx.nt(refined(c))
    lam, L = lam_of(c)
    kw = {} if c['dtype'] == 'omit' else dict(dtype=c['dtype'])
    dn = sdepy.true_poisson_source(
        paths=N, vshape=tuple(c['vshape']), t0=c['t0'], z0=3, lam=lam,
        rng=srcs.rng(c['rng'], c['seed']), **kw)
    x, s = ask(dn, c)
    check((dn(c['t0']) == 3).all(), 'value at t0')
    x = x.reshape(len(x), -1, N)
    count_tests(x, np.diff(s)[:, None]*L.ravel(),
                'between {} asked as {}'.format(s.tolist(), c['t']))


@subs(poisson_cases(), quick=200, thorough=8000, shards=3)
def cpoisson(c, ctx):
    N = 12000
    if c['lam'] > 3:
        c['lam'] = 2.
    ctx.label(c['law'], c['lform'], c['how'])
    ctx.nt(refined(c))
    lam, L = lam_of(c)
    S = scipy.stats
    n = int(np.prod(c['vshape']))
    r = np.random.RandomState(c['lseed'])
    laws = [S.uniform()]*n
    kw = dict(y=None)
    if c['law'] == 'norm':
        kw, laws = dict(y=sdepy.norm_rv(1, .5)), [S.norm(1, .5)]*n
    elif c['law'] == 'exp':
        kw, laws = dict(y=sdepy.exp_rv(.5)), [S.expon(scale=.5)]*n
    elif c['law'] == 'scipy':
        kw, laws = dict(y=S.gamma(2.)), [S.gamma(2.)]*n
    elif c['law'] == 'array':
        m = r.uniform(-1, 1, size=tuple(c['vshape']) + (1,))
        # full paths axis: each entry with its own parameters
        kw = dict(y=sdepy.norm_rv(np.broadcast_to(
            m, tuple(c['vshape']) + (N,)), .5))
        laws = [S.norm(k, .5) for k in m.ravel()]
    if c['dtype'] == 'f8':
        kw['ptype'] = 'f8'
    dj = sdepy.true_cpoisson_source(
        paths=N, vshape=tuple(c['vshape']), t0=c['t0'], z0=1., lam=lam,
        rng=srcs.rng(c['rng'], c['seed']), **kw)
    x, s = ask(dj, c)
    check((dj(c['t0']) == 1).all(), 'value at t0')
    k = np.diff(dj.dn(s), axis=0)
    x, k = x.reshape(len(x), -1, N), k.reshape(len(x), -1, N)
    what = 'between {} asked as {}'.format(s.tolist(), c['t'])
    count_tests(k, np.diff(s)[:, None]*L.ravel(), what)
    d = np.empty_like(x)
    for i in np.ndindex(*x.shape[:2]):
        law = laws[i[1]]
        m, v = law.mean(), law.var()
        d[i] = x[i] - k[i]*m
        tot = k[i].sum()
        check(abs(d[i].sum()) < 8*np.sqrt(v*(tot + 30)), '{}: mean jump {} '
              'instead of {}', what, x[i].sum()/max(tot, 1), m)
        one = x[i][k[i] == 1]
        if one.size > 100:
            msg = stats.ks_test(one, law.cdf, what + ', single jumps')
            check(msg is None, '{}', msg)
        for j in (2, 3):
            e = d[i][k[i] == j]
            if e.size > 1500:
                q = (e**2).mean()
                se = np.sqrt(((e**2).var() + 4*(j*v)**2)/e.size)
                check(abs(q - j*v) < 9*se, '{}: variance of the sum of {} jumps: '
                      '{} instead of {}', what, j, q, j*v)
    # compensated increments over different intervals are not correlated
    y = d.reshape(-1, N)
    sd = np.sqrt(np.diff(s)[:, None]*L.ravel() *
                 np.array([g.var() for g in laws])).ravel()
    y = y/sd[:, None]
    cc = y @ y.T/N
    off = abs(cc - np.diag(np.diag(cc)))
    check(off.max() < 14/np.sqrt(N), '{}: correlated increments {}', what, cc)


@st.composite
def cell_cases(draw):
    n1, n2 = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    if n1 + n2 == 0:
        n2 = 2
    w = [draw(fl(.3, 1.2, 1)) for _ in range(n1 + n2)]
    order = draw(st.permutations([-1]*n1 + [1]*n2))
    inner = draw(st.lists(st.tuples(st.integers(0, n1 + n2 - 1),
                                    st.sampled_from([.1, .25, .5, .6, .85])),
                          min_size=1, max_size=4, unique=True))
    vshape = draw(vshapes(1, 2))
    return dict(t0=draw(st.sampled_from([0., 1., -.7])), n1=n1, n2=n2, w=w,
                order=list(order), inner=[list(z) for z in inner],
                vshape=vshape, zero=draw(st.booleans()),
                lform=draw(st.sampled_from(['call', 'process', 'call'])),
                name=draw(st.sampled_from(['true_poisson', 'true_cpoisson'])),
                pseed=draw(seeds), seed=draw(seeds),
                how=draw(st.sampled_from(['one', 'array', 'inc'])),
                rng=draw(st.sampled_from(srcs.RNGS)))


@subs(cell_cases(), quick=250, thorough=8000, shards=2)
def cells(c, ctx):
    """Intensity and jumps constant within each of a few cells, asked first at
    the ends of the cells, then inside."""
    N, n1, n = 6000, c['n1'], c['n1'] + c['n2']
    ctx.nt()
    ctx.label(c['name'], c['lform'])
    ends = c['t0'] + np.cumsum([0.] + c['w'])
    ends -= ends[n1] - c['t0']
    r = np.random.RandomState(c['pseed'])
    shape = tuple(c['vshape'])
    lam = r.uniform(.3, 3, size=(n,) + shape)
    val = r.uniform(-2, 2, size=n)
    if c['zero']:
        lam[r.randint(n)] = 0

    def cell(t):
        return min(max(int(np.searchsorted(ends, t)) - 1, 0), n - 1)
    if c['lform'] == 'call':
        def L(t):
            return lam[cell(t)][..., None]
    else:
        # steps well inside the neighbourhoods of the ends of the cells
        s, v = [], []
        for k in range(n):
            d = ends[k+1] - ends[k]
            s += [ends[k] + 1e-9*d, ends[k+1] - 1e-9*d]
            v += [lam[k], lam[k]]
        L = process(np.array(s), v=np.array(v))
    kw = dict(paths=N, vshape=shape, t0=c['t0'], lam=L,
              rng=srcs.rng(c['rng'], c['seed']))
    if c['name'] == 'true_cpoisson':
        kw['y'] = sdepy.norm_rv(lambda t: val[cell(t)], 0.)
    dz = srcs.cls(c['name'])(**kw)
    lo = hi = n1
    for d in c['order']:
        if d > 0:
            hi += 1
            dz(ends[hi])
        else:
            lo -= 1
            dz(ends[lo])
    inner = [ends[k] + f*(ends[k+1] - ends[k]) for k, f in c['inner']]
    if c['how'] == 'array':
        dz(np.array(inner))
    elif c['how'] == 'inc':
        dz(np.array(inner), inner[0] - np.array(inner))
    else:
        for t in inner:
            dz(t)
    s = np.array(sorted(list(ends) + inner))
    x = np.diff(dz(s), axis=0)
    k = x if c['name'] == 'true_poisson' else np.diff(dz.dn(s), axis=0)
    what = 'cells {}, first asked in the order {}, then at {}'.format(
        ends, c['order'], inner)
    mid = [cell((a + b)/2) for a, b in zip(s[:-1], s[1:])]
    mu = np.array([lam[i] for i in mid])*np.diff(s).reshape((-1,) + (1,)*len(shape))
    if c['name'] == 'true_cpoisson':
        v = val[mid].reshape((-1,) + (1,)*(x.ndim - 1))
        check(np.allclose(x, k*v, atol=1e-9), '{}: jumps', what)
    mu, k = mu.reshape(len(mid), -1), k.reshape(len(mid), -1, N)
    check((k[mu == 0] == 0).all(), '{}: counts with zero intensity', what)
    keep = (mu > 0).all(axis=1)
    if keep.any():
        count_tests(k[keep], mu[keep], what)
