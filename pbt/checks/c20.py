import numpy as np
import scipy.stats
import scipy.integrate
import scipy.interpolate
import sdepy
from hypothesis import strategies as st
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, make, raises, same

subs = Subs('pdf and cdf estimates of a generated sample and generated bins at '
            'generated points, vs. kernel mixture and interpolation formulas. '
            'Non-trivial: two or more non-empty bins')


@st.composite
def samples(draw):
    bins = draw(st.sampled_from(['int', 'auto', 'edges', 'edges', 'iedges']))
    return dict(n=draw(st.integers(1, 60)), seed=draw(seeds),
                kind=draw(st.sampled_from(['norm', 'pos', 'int', 'dup'])),
                bins=bins, nbins=draw(st.integers(1, 8)), bseed=draw(seeds),
                more=draw(st.booleans()), comp=draw(st.integers(0, 2)))


def setup(c):
    r = np.random.RandomState(c['bseed'])
    x = make([3, c['n']], c['seed'], c['kind'])
    k = c['bins']
    if k in ('edges', 'iedges'):
        e = np.cumsum(r.randint(1, 5, size=c['nbins'] + 1)) - 4
        e = e*.5 if k == 'edges' else e
        x[:, 0] = e[0]         # not out of the bins altogether
        bins = np.array([e]*3)
        if c['comp'] == 2:
            x, bins = x[0], e
    else:
        bins = c['nbins'] if k == 'int' else k
        if c['comp'] == 2:
            x = x[0]
    a = sdepy.montecarlo(x, bins=bins)
    if c['more']:
        a.update(x*.7)
    if c['comp'] < 2:
        a = a[c['comp']]
    return a


@st.composite
def points(draw):
    return dict(shape=draw(vshapes(2, 3)), seed=draw(seeds),
                form=draw(st.sampled_from(['array', 'list', 'int', 'grid'])))


def xs(c, e):
    r = np.random.RandomState(c['seed'])
    w = e[-1] - e[0]
    x = r.uniform(e[0] - .5*w, e[-1] + .5*w, size=c['shape'])
    if c['form'] == 'int':
        return np.round(x).astype(int)
    if c['form'] == 'grid':
        g = np.concatenate((e, (e[1:] + e[:-1])/2, [e[0] - 1e-9, e[-1] + 1e-9,
                                                    e[0] - 1, e[-1] + 1]))
        return r.choice(g, size=c['shape'])
    return x.tolist() if c['form'] == 'list' else x


def probs(a):
    h, e = a.histogram()
    h, e = h.astype(float), np.asarray(e).astype(float)
    return h/h.sum(), e


@st.composite
def kde_cases(draw):
    c = draw(samples())
    c.update(x=draw(points()), bandwidth=draw(st.one_of(
                 st.sampled_from([1, 1., .5, 2., .1, 3., .01, 10., 40]),
                 fl(-2., 1.7).map(lambda b: round(10**b, 3)))),
             explicit=draw(st.booleans()), quad=draw(st.integers(0, 9)) == 0)
    return c


@subs(kde_cases(), quick=1500, thorough=100000, shards=2)
def gaussian_kde(c, ctx):
    a = setup(c)
    p, e = probs(a)
    ctx.nt((p > 0).sum() > 1)
    ctx.label(c['bins'], c['x']['form'])
    x = xs(c['x'], e)
    kw = {} if c['bandwidth'] == 1. and not c['explicit'] else \
        dict(bandwidth=c['bandwidth'])
    if c['explicit']:
        kw['method'] = 'gaussian_kde'
    mid, sd = (e[1:] + e[:-1])/2, np.diff(e)*c['bandwidth']
    X = np.asarray(x, dtype=float)[..., None]
    pdf = (p*scipy.stats.norm.pdf(X, mid, sd)).sum(axis=-1)
    cdf = (p*scipy.stats.norm.cdf(X, mid, sd)).sum(axis=-1)
    before = np.array(x)
    got = a.pdf(x, **kw)
    check(same(got, pdf), 'pdf{}: {} instead of {}', kw, got, pdf)
    got = a.cdf(x, **kw)
    check(same(got, cdf, rtol=1e-8, atol=1e-12), 'cdf{}: {} instead of {}', kw,
          got, cdf)
    check(np.array_equal(before, x), 'x was modified')
    far = 40*max(1, c['bandwidth'])*np.diff(e).max()
    lo, hi = e[0] - far, e[-1] + far
    check(same(a.cdf([lo, hi], **kw), [0., 1.], atol=1e-12), 'cdf limits {}',
          a.cdf([lo, hi], **kw))
    g = np.sort(np.concatenate((np.linspace(lo, hi, 50), e)))
    check((np.diff(a.cdf(g, **kw)) >= -1e-12).all(), 'cdf decreases')
    check((a.pdf(g, **kw) >= 0).all(), 'negative pdf')
    if c['quad']:
        ends = np.sort(np.random.RandomState(c['seed']).uniform(lo, hi, size=2))
        pts = np.concatenate([mid + k*sd for k in (-9, -5, -2, 0, 2, 5, 9)])
        pts = np.unique(pts[(pts > ends[0]) & (pts < ends[1])])
        tot = sum(scipy.integrate.quad(lambda z: float(a.pdf(z, **kw)), s, t)[0]
                  for s, t in zip(np.r_[ends[0], pts], np.r_[pts, ends[1]]))
        d = np.diff(a.cdf(ends, **kw))[0]
        check(abs(tot - d) < 1e-6, 'the cdf grows by {}, the integral of the pdf '
              'is {}', d, tot)


@st.composite
def interp_cases(draw):
    c = draw(samples())
    c.update(x=draw(points()), interp=draw(st.sampled_from(
        ['linear', 'linear', None, 'nearest', 'zero', 'slinear', 'quadratic', 'cubic',
         'previous', 'next'])))
    return c


@subs(interp_cases(), quick=1500, thorough=100000, shards=2)
def interp(c, ctx):
    a = setup(c)
    p, e = probs(a)
    ctx.nt((p > 0).sum() > 1)
    ctx.label(c['bins'], str(c['interp']))
    if c['interp'] in ('quadratic', 'cubic') and len(e) < 5:
        return              # too few points for the interpolation
    kw = dict(method='interp')
    if c['interp']:
        kw['kind'] = c['interp']
    dens = p/np.diff(e)
    mid = (e[1:] + e[:-1])/2
    nodes = np.concatenate((e[:1], mid, e[-1:]))
    vals = np.concatenate(([0.], dens, [0.]))
    cum = np.concatenate(([0.], p.cumsum()))
    out = np.array([e[0] - 2., e[0] - 1e-6, e[-1] + 1e-6, e[-1] + 3.])
    tol = dict(rtol=1e-7, atol=1e-7*max(1, dens.max())) \
        if c['interp'] in ('quadratic', 'cubic') else {}

    got = a.cdf(e, **kw)
    check(same(got, cum, **tol), 'cdf at bin edges: {} instead of {}', got, cum)
    got = a.cdf(out, **kw)
    check(same(got, [0, 0, 1, 1]), 'cdf outside: {}', got)
    # midpoints as computed by the interpolator may differ by rounding: for
    # step-like interpolations, look nearby only
    if c['interp'] not in ('zero', 'previous', 'next'):
        got = a.pdf(nodes, **kw)
        check(same(got, vals, **tol), 'pdf at nodes: {} instead of {}', got, vals)
    got = a.pdf(out, **kw)
    check(same(got, [0, 0, 0, 0]), 'pdf outside: {}', got)
    x = xs(c['x'], e)
    X = np.asarray(x, dtype=float)
    before = np.array(x)
    pdf, cdf = a.pdf(x, **kw), a.cdf(x, **kw)
    check(np.shape(pdf) == X.shape and np.shape(cdf) == X.shape,
          'shapes {}, {} instead of {}', np.shape(pdf), np.shape(cdf), X.shape)
    check(np.array_equal(before, x), 'x was modified')
    if c['interp'] in ('linear', None, 'slinear'):
        want = np.interp(X, e, cum, left=0., right=1.)
        check(same(cdf, want), 'cdf: {} instead of {}', cdf, want)
        want = np.interp(X, nodes, vals, left=0., right=0.)
        check(same(pdf, want, atol=1e-6*dens.max()), 'pdf: {} instead of {}', pdf,
              want)
    else:
        # at points where no kind of interpolation jumps
        for got, xx, yy, what in ((pdf, nodes, vals, 'pdf'), (cdf, e, cum, 'cdf')):
            jumps = np.concatenate((xx, (xx[1:] + xx[:-1])/2))
            ok = abs(X[..., None] - jumps).min(axis=-1) > 1e-9*(e[-1] - e[0])
            want = scipy.interpolate.interp1d(
                xx, yy, kind=c['interp'], bounds_error=False,
                fill_value=(0., 0. if what == 'pdf' else 1.))(X)
            check(same(np.where(ok, got, 0), np.where(ok, want, 0),
                       rtol=1e-7, atol=1e-7*max(1, abs(yy).max())),
                  '{} ({}): {} instead of {}', what, c['interp'], got, want)


@st.composite
def bad_cases(draw):
    c = draw(samples())
    c.update(method=draw(st.sampled_from(['kde', 'linear', '', 'Interp', 'gaussian',
                                          'x'])),
             f=draw(st.sampled_from(['pdf', 'cdf'])), x=draw(points()))
    return c


@subs(bad_cases(), quick=100, thorough=2000)
def refused(c, ctx):
    ctx.nt()
    a = setup(c)
    x = xs(c['x'], np.array([0., 1.]))
    check(raises(ValueError, getattr(a, c['f']), x, method=c['method']),
          'method {!r} not refused', c['method'])
