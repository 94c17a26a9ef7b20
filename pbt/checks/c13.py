import numpy as np
import scipy.stats
import sdepy
from sdepy import process
from hypothesis import strategies as st
from pbt import srcs, stats
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, same

subs = Subs('compound Poisson sources with generated intensities, jump laws '
            '(coded, constant, continuous, discrete, with array and '
            'time-dependent parameters), explicit or default counts of '
            'several dtypes, t and dt of generated shapes and signs; '
            'increments recomputed from the recorded counts and variates. '
            'Non-trivial: some count is at least 1 (2 for coded variates)')

TSHAPES = [([], []), ([3], []), ([], [2]), ([2], [2]), ([2, 1], [2]), ([4], [4])]


@st.composite
def base(draw, lam=(.4, 1., 3.)):
    vshape = draw(vshapes(2, 3))
    ts, ds = draw(st.sampled_from(TSHAPES))
    d = st.one_of(fl(-2, 2, 2), st.just(0.))
    return dict(vshape=vshape, paths=draw(st.integers(1, 5)), ts=ts, ds=ds,
                t=[draw(fl(-2, 2, 2)) for _ in range(int(np.prod(ts)))],
                dt=[draw(d) for _ in range(int(np.prod(ds)))],
                lam=draw(st.sampled_from(lam)), lform=draw(st.sampled_from(
                    ['const', 'array', 'call'])),
                dn=draw(st.sampled_from(['none', 'none', 'ptype', 'class',
                                         'source', 'stub', 'lower', 'true'])),
                ptype=draw(st.sampled_from(['int', 'f8', 'i4', 'i1'])),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


class stub:
    """Given counts."""
    def __init__(self, n, vshape, paths):
        self.n, self.vshape, self.paths = n, vshape, paths
        self.calls = []

    def __call__(self, t, dt):
        self.calls.append((np.array(t), np.array(dt)))
        return self.n


def build(c, y, ydt=None):
    """Source, times and (if explicit) counts."""
    vshape, paths = tuple(c['vshape']), c['paths']
    g = srcs.rng(c['rng'], c['seed'])
    t = np.array(c['t']).reshape(c['ts'])
    dt = np.array(c['dt']).reshape(c['ds'])
    lam = c['lam']
    if c['lform'] == 'array':
        lam = lam*make(vshape + (paths,), c['seed'], 'pos')
    elif c['lform'] == 'call':
        base = lam

        def lam(t):
            return base
    kw = dict(paths=paths, vshape=vshape, rng=g, y=y)
    counts, dn = None, None
    T, DT = np.broadcast_arrays(t, dt)
    if c['dn'] in ('none', 'ptype'):
        kw['lam'] = lam
        if c['dn'] == 'ptype':
            kw['ptype'] = int if c['ptype'] == 'int' else c['ptype']
    elif c['dn'] == 'class':
        kw['dn'], kw['lam'] = sdepy.poisson_source, lam
    elif c['dn'] in ('source', 'true'):
        cls = sdepy.poisson_source if c['dn'] == 'source' \
            else sdepy.true_poisson_source
        dn = cls(paths=paths, vshape=vshape, lam=c['lam'],
                 rng=srcs.rng('gen', c['seed'] + 1),
                 dtype=int if c['ptype'] == 'int' else c['ptype'])
        kw['dn'], kw['lam'] = dn, 50.   # overridden
    else:
        r = np.random.RandomState(c['seed'])
        v = vshape[1:] if c['dn'] == 'lower' else vshape
        sign = np.sign(DT).astype(int)
        counts = r.poisson(c['lam'], size=T.shape + v + (paths,)) * \
            sign.reshape(T.shape + (1,)*(len(v) + 1))
        counts = counts.astype(int if c['ptype'] == 'int' else c['ptype'])
        kw['dn'] = dn = stub(counts, v, paths)
    return sdepy.cpoisson_source(**kw), t, dt, T, DT, counts


def realize(c, y, ctx, ydt=None):
    dj, t, dt, T, DT, counts = build(c, y)
    z = dj(t, dt)
    full = T.shape + tuple(c['vshape']) + (c['paths'],)
    check(z.shape == full, 'shape {} instead of {}', z.shape, full)
    n = np.asarray(dj.dn_value)
    if c['dn'] != 'stub' and c['dn'] != 'lower':
        d = np.dtype(int if c['ptype'] == 'int' or c['dn'] in ('none', 'class')
                     else c['ptype'])
        check(n.dtype == d, 'counts of dtype {} instead of {}', n.dtype, d)
    if counts is not None:
        check(n.shape == counts.shape and (n == counts).all(),
              'dn_value {} instead of {}', n, counts)
        check(len(dj.dn.calls) == 1 and
              np.array_equal(dj.dn.calls[0][0] + 0*dj.dn.calls[0][1], T) and
              np.array_equal(dj.dn.calls[0][1] + 0*dj.dn.calls[0][0], DT),
              'calls to dn {}', dj.dn.calls)
        n = n.reshape(T.shape + (1,)*(len(full) - n.ndim) +
                      n.shape[T.ndim:])
    n = np.broadcast_to(n, full)
    check((n == np.rint(n)).all(), 'counts {}', n)
    s = np.sign(DT).reshape(T.shape + (1,)*(z.ndim - T.ndim))
    check((n*s >= 0).all() and (n[np.broadcast_to(s == 0, full)] == 0).all(),
          'sign of counts')
    check((z[n == 0] == 0).all(), 'jumps without counts: {}', z[n == 0])
    total = int(np.abs(n).sum())
    used = sum(np.size(k) for k in dj.y_value)
    check(used == total, '{} variates in y_value, {} counted', used, total)
    ctx.label(c['dn'], 'max%d' % min(np.abs(n).max(initial=0), 4))
    return dj, z, n, s, T, DT


# ------------------------------------------------------- coded variates
class coded_rv:
    """The k-th variate is 2**k: sums tell which variates they consist of."""
    def __init__(self):
        self.k = 0
        self.rngs = []

    def rvs(self, size, random_state=None):
        m = int(np.prod(size))
        self.rngs.append(random_state)
        z = np.ldexp(1., self.k + np.arange(m))
        self.k += m
        return z.reshape(size)


@subs(base(lam=(.3, .6, 1.)), quick=2000, thorough=60000, shards=2)
def coded(c, ctx):
    y = coded_rv()
    dj, z, n, s, T, DT = realize(c, y, ctx)
    if y.k > 52:
        return
    ctx.nt(np.abs(n).max(initial=0) >= 2)
    a, m = (z*s).ravel(), np.abs(n).ravel()
    seen = 0
    for x, k in zip(a, m):
        check(x == int(x) >= 0, 'increment {}', x)
        x = int(x)
        check(bin(x).count('1') == k, 'count {} but increment {}', k, bin(x))
        check(seen & x == 0, 'variates used twice')
        seen |= x
    kept = sorted(int(v) for q in dj.y_value for v in np.ravel(q))
    check(kept == [1 << i for i in range(60) if seen >> i & 1],
          'y_value {} but variates used {}', kept, bin(seen))
    check(all(g is dj.rng for g in y.rngs), 'generator of y')


# -------------------------------------------------------- constant variates
@st.composite
def const_cases(draw):
    c = draw(base(lam=(.5, 2., 6., 150.)))
    if c['lam'] > 100:
        c['ptype'] = 'int'
        c['ts'], c['ds'] = [], c['ds'][:1]
        c['t'], c['dt'] = c['t'][:1] or [0.], (c['dt'] or [1.])[:2]
        c['ds'] = [len(c['dt'])]
    c['law'] = draw(st.sampled_from(['const', 'uniform', 'norm', 'rvmap',
                                     'trvmap']))
    c['time'] = draw(st.booleans())
    c['pshape'] = draw(st.one_of(
        st.just([]), broadcast_of(c['vshape'] + [c['paths']])))
    if c['law'] == 'const':
        c['pshape'] = []
    c['pseed'] = draw(seeds)
    return c


@subs(const_cases(), quick=2000, thorough=60000, shards=2)
def constant(c, ctx):
    """Degenerate laws: increments are counts times a known value."""
    A = np.random.RandomState(c['pseed']).uniform(-2, 2, size=c['pshape'])

    def val(t):
        return A*(1 + .3*t) if c['time'] else A
    par = val if c['time'] else A
    k = c['law']
    if k == 'const':
        y = (lambda t: srcs.const_rv(float(val(t)))) if c['time'] else \
            srcs.const_rv(float(A))
    elif k == 'norm':
        y = sdepy.norm_rv(par, 0.)
    else:
        y = sdepy.uniform_rv(par, par)
    if k == 'rvmap':
        y = sdepy.rvmap(lambda z: 2*z + 1, y)
    if k == 'trvmap':
        y = sdepy.rvmap(lambda t, z: z + t, y)
    dj, z, n, s, T, DT = realize(c, y, ctx)
    ctx.nt(np.abs(n).max(initial=0) >= 1)
    ctx.label('law:' + k, 'time' if c['time'] else 'still')
    for i in np.ndindex(*T.shape):
        mid = T[i] + DT[i]/2
        v = val(mid)
        v = 2*v + 1 if k == 'rvmap' else v + mid if k == 'trvmap' else v
        want = n[i]*np.broadcast_to(v, n[i].shape)
        check(np.allclose(z[i], want, rtol=1e-9, atol=1e-9),
              't={}, dt={}: {} instead of {} (counts {})', T[i], DT[i], z[i],
              want, n[i])


# ----------------------------------------------------------- any laws
@st.composite
def law_cases(draw):
    c = draw(base(lam=(.5, 1., 2.)))
    c['law'] = draw(srcs.laws())
    c['dn'] = draw(st.sampled_from(['none', 'ptype', 'stub', 'source', 'true']))
    return c


@subs(law_cases(), quick=1000, thorough=30000)
def sums(c, ctx):
    """The total of the increments is the total of the variates."""
    dj, z, n, s, T, DT = realize(c, srcs.law(c['law']), ctx)
    ctx.nt(np.abs(n).max(initial=0) >= 1)
    for q in dj.y_value:
        check(np.isfinite(q).all(), 'y_value {}', q)
    if T.ndim == 0:     # one sign for all
        tot = sum(np.sum(q) for q in dj.y_value)*np.sign(DT)
        check(abs(z.sum() - tot) < 1e-8*(1 + abs(tot) + abs(z).sum()),
              'total {} instead of {}', z.sum(), tot)
    if c['law']['name'] not in ('const', 'scipy_poisson'):
        u = np.sort(np.concatenate([np.ravel(q) for q in dj.y_value] + [[]]))
        check((np.diff(u) > 0).all(), 'repeated variates: {}', dj.y_value)
    ones = np.abs(n) == 1
    kept = np.sort(np.concatenate([np.ravel(q) for q in dj.y_value] + [[]]))
    if ones.any() and kept.size:
        for v in (z*s)[ones]:
            k = np.searchsorted(kept, v)
            near = kept[max(k-1, 0):k+1]
            check(near.size and abs(near - v).min() < 1e-9,
                  'increment {} of one jump is not among the variates', v)


@st.composite
def stat_cases(draw):
    return dict(law=draw(srcs.laws()), lam=draw(st.sampled_from([.5, 1.5, 4.])),
                vshape=draw(vshapes(1, 2)), dt=draw(st.sampled_from([1., -1., .5])),
                t=draw(fl(-1, 1)), seed=draw(seeds),
                name=draw(st.sampled_from(['cpoisson', 'even_cpoisson'])),
                rng=draw(st.sampled_from(srcs.RNGS)))


def frozen(d, t):
    """The scipy law of variates, or None."""
    n, a, b = d['name'], d['a'], d['b']
    S = scipy.stats
    if n == 'none':
        return S.uniform()
    if n in ('norm', 'scipy_norm'):
        return S.norm(a, b)
    if n == 'tnorm':
        return S.norm(a + .1*t, b)
    if n == 'uniform':
        return S.uniform(a, b)
    if n == 'exp':
        return S.expon(scale=b) if a < 0 else None
    return None


def moments(d, t):
    n, a, b, p = d['name'], d['a'], d['b'], d['pa']
    if n == 'exp':
        return (b if a < 0 else -b), b**2
    if n == 'dexp':
        m = p*b - (1-p)*b/2
        return m, 2*p*b**2 + 2*(1-p)*(b/2)**2 - m**2
    if n == 'scipy_poisson':
        return b, b
    if n == 'const':
        return a, 0.
    f = frozen(d, t)
    return f.mean(), f.var()


@subs(stat_cases(), quick=250, thorough=10000, shards=3)
def law(c, ctx):
    """Given the counts, increments have the mean, variance and law of sums
    of independent variates."""
    ctx.nt()
    ctx.label(c['law']['name'])
    P = 30000
    anti = c['name'] == 'even_cpoisson'
    kw = dict(y=srcs.law(c['law'])) if c['law']['name'] != 'none' else {}
    dj = srcs.cls(c['name'])(paths=2*P if anti else P, vshape=tuple(c['vshape']),
                             lam=c['lam'], rng=srcs.rng(c['rng'], c['seed']),
                             **kw)
    t, dt = c['t'], c['dt']
    z = dj(t, dt)[..., :P]*np.sign(dt)
    n = np.broadcast_to((dj._dz if anti else dj).dn_value*np.sign(dt), z.shape)
    m, v = moments(c['law'], t + dt/2)
    z, n = z.reshape(-1, P), n.reshape(-1, P)
    for x, k in zip(z, n):
        msg = stats.count_test(k, scipy.stats.poisson(c['lam']*abs(dt)), 'counts')
        check(msg is None, '{}', msg)
        tot = k.sum()
        d = x - k*m
        check(abs(d.sum()) < 7.5*np.sqrt(tot*v) + 1e-6*tot, 'mean jump {} '
              'instead of {}', x.sum()/tot, m)
        # variance of sums: independent variates
        for j in (1, 2, 3):
            e = d[k == j]
            if e.size > 2000:
                q = (e**2).mean()
                se = np.sqrt(((e**2).var() + 4*(j*v)**2)/e.size)
                check(abs(q - j*v) < 9*se + 1e-9, 'variance of the sum of {} '
                      'jumps: {} instead of {}', j, q, j*v)
        f = frozen(c['law'], t + dt/2)
        if f is not None:
            e = x[k == 1]
            msg = stats.ks_test(e, f.cdf, 'single jumps')
            check(msg is None, '{}', msg)
        # independence across paths, within the same count
        for j in (1, 2):
            e = d[k == j]
            if e.size > 4000 and v > 0:
                lag = (e[1:]*e[:-1]).mean()/(j*v)
                check(abs(lag) < 10/np.sqrt(e.size)*3, 'correlated jumps {}', lag)


@st.composite
def entry_cases(draw):
    vshape, paths = draw(vshapes(2, 2)), draw(st.integers(1, 3))
    return dict(vshape=vshape, paths=paths,
                shape=draw(broadcast_of(vshape + [paths])),
                law=draw(st.sampled_from(['norm', 'uniform', 'exp', 'dexp'])),
                call=draw(st.booleans()), mapped=draw(st.booleans()),
                lam=draw(st.sampled_from([.5, 2., 6.])),
                dt=draw(st.sampled_from([1., -1., .5])),
                pseed=draw(seeds), seed=draw(seeds),
                rng=draw(st.sampled_from(srcs.RNGS)))


@subs(entry_cases(), quick=80, thorough=3000, shards=2)
def entries(c, ctx):
    """Array parameters: the law of the increments of each entry."""
    R = 800
    shape, full = c['shape'], tuple(c['vshape']) + (c['paths'],)
    ctx.nt(shape and np.prod(shape) > 1)
    ctx.label(c['law'])
    r = np.random.RandomState(c['pseed'])
    A, B = r.uniform(-1, 1, size=shape), r.uniform(.2, 1.5, size=shape)
    Q = r.uniform(.1, .9, size=shape)

    def p(z):
        return (lambda t: z) if c['call'] else z
    k = c['law']
    if k == 'norm':
        y, m, v = sdepy.norm_rv(p(A), p(B)), A, B**2
    elif k == 'uniform':
        y, m, v = sdepy.uniform_rv(p(A), p(A + B)), A + B/2, B**2/12
    elif k == 'exp':
        s = np.sign(A)
        y, m, v = sdepy.exp_rv(p(s*B)), s*B, B**2
    else:
        y = sdepy.double_exp_rv(p(B), p(B/2), p(Q))
        m = Q*B - (1 - Q)*B/2
        v = 2*Q*B**2 + 2*(1 - Q)*B**2/4 - m**2
    if c['mapped']:
        y = sdepy.rvmap(lambda z: 2*z, y)
        m, v = 2*m, 4*v
    dj = sdepy.cpoisson_source(paths=c['paths'], vshape=tuple(c['vshape']),
                               lam=c['lam'], y=y,
                               rng=srcs.rng(c['rng'], c['seed']))
    z = dj(np.zeros(R), c['dt'])*np.sign(c['dt'])
    n = np.abs(dj.dn_value)
    u = np.sort(np.concatenate([np.ravel(q) for q in dj.y_value]))
    check(u.size == n.sum() and (np.diff(u) == 0).sum() < 3, '{} variates for {} '
          'jumps, {} repeated', u.size, n.sum(), (np.diff(u) == 0).sum())
    m, v = np.broadcast_to(m, full), np.broadcast_to(v, full)
    for i in np.ndindex(*full):
        a, b = z[(slice(None),) + i], n[(slice(None),) + i]
        d = (a - b*m[i])/np.sqrt(np.maximum(b, 1)*v[i])
        d = d[b > 0]
        se = np.sqrt(d.size)
        check(abs(d.sum()) < 8*se + 30, 'mean jump at {}: {} instead of {}', i,
              a.sum()/b.sum(), m[i])
        # standardized fourth moments are small, if tails are not
        check(abs((d**2).mean() - 1) < 12*np.sqrt(9.)/se + 300/d.size, 'variance of jumps '
              'at {}: {} times the expected one', i, (d**2).mean())
