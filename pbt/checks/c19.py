import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, raises, same

subs = Subs('a montecarlo instance with generated bins updated with 1 to 5 '
            'generated batches, histograms of each component vs. counts of the '
            'pooled sample. Non-trivial: two or more batches with some point '
            'out of the bins, or on a bin edge')

RULES = ['auto', 'fd', 'sturges', 'sqrt', 'scott', 'rice', 'doane']


@st.composite
def histories(draw):
    vshape = draw(vshapes(2, 2))
    use = draw(st.sampled_from(['all', 'all', 'all', 'even', 'odd']))
    n = draw(st.integers(1, 5))
    b = []
    for k in range(n):
        b.append(dict(shape=list(vshape) if k == 0 else draw(broadcast_of(vshape)),
                      n=draw(st.sampled_from([1, 2, 3, 5, 8, 30]))*(1 + (use != 'all')),
                      axis=draw(st.sampled_from([-1, -1, 0])), seed=draw(seeds),
                      scale=draw(st.sampled_from([1., 1., .3, 3.])),
                      kind=draw(st.sampled_from(['norm', 'norm', 'fint', 'dup',
                                                 'int', 'bool', 'f4', 'u1']))))
    bins = draw(st.sampled_from(['default', 'int', 'npint', 'rule', 'edges',
                                 'edges', 'iedges', 'object', 'tenths']))
    rng = None
    if draw(st.booleans()):
        lo = draw(fl(-3, 1, 1))
        rng = [lo, lo + draw(fl(.5, 4, 1))]
    return dict(vshape=vshape, use=use, batches=b, bins=bins,
                nbins=draw(st.integers(1, 9)), bseed=draw(seeds), range=rng,
                rule=draw(st.sampled_from(RULES)), init=draw(st.booleans()),
                ctype=draw(st.sampled_from([None, None, 'f8', 'i4', 'u4', 'u8'])),
                blist=draw(st.booleans()),
                probe=draw(st.sampled_from(['fresh', 'early', 'chain'])))


def batch(b, c, edges):
    x = make(b['shape'] + [b['n']], b['seed'], b['kind'])
    if c['bins'] == 'tenths' and b['seed'] % 2:
        # points at bin edges, or next to them
        r = np.random.RandomState(b['seed'])
        e = np.asarray(edges((0,)*len(c['vshape'])))
        x = r.choice(np.concatenate((e, np.nextafter(e, 9), np.nextafter(e, -9),
                                     e[:2]*0)), size=x.shape)
    elif x.dtype.kind == 'f' and b['scale'] != 1. and c['bins'] != 'rule':
        # (NumPy rules may ask for 10**16 bins, if points are nearly tied)
        x = x*x.dtype.type(b['scale'])
    return np.moveaxis(x, -1, b['axis']), x


def half(x, use):
    if use == 'all':
        return x
    if x.dtype.kind in 'biu':
        x = x.astype(float)
    n = x.shape[-1]//2
    s = 1 if use == 'even' else -1
    return (x[..., :n] + s*x[..., n:])/2


def counts(x, e):
    """Points of x in each bin, one by one."""
    c = []
    for j in range(len(e) - 1):
        hi = x <= e[j+1] if j == len(e) - 2 else x < e[j+1]
        c.append(int(((x >= e[j]) & hi).sum()))
    return np.array(c)


def bins_arg(c):
    """Bins argument, and function of component giving its edges, if fixed."""
    v, n = tuple(c['vshape']), c['nbins']
    r = np.random.RandomState(c['bseed'])
    k = c['bins']
    if k == 'default':
        return {}, None
    if k == 'int':
        return dict(bins=n), None
    if k == 'npint':
        return dict(bins=np.int64(n)), None
    if k == 'rule':
        return dict(bins=c['rule']), None
    if k == 'edges':
        e = np.cumsum(r.randint(1, 5, size=v + (n + 1,)), axis=-1)*.5 - 3.
    elif k == 'tenths':
        # nearly uniform: arithmetic progressions, as computed in several ways
        m = n + 2
        h = r.choice([.1, .3, .7, 1/3])
        e = [np.arange(m + 1)*h, np.cumsum(np.full(m + 1, h)) - h,
             np.linspace(0, m*h, m + 1)*(1 + 1e-9*r.uniform(size=m + 1))
             ][r.randint(3)] - r.choice([0., 1., .1])
        e = np.array(np.broadcast_to(e, v + (m + 1,)))
    elif k == 'iedges':
        e = np.cumsum(r.randint(1, 4, size=v + (n + 1,)), axis=-1) - 4
    else:
        e = np.empty(v, dtype=object)
        for i in np.ndindex(v):
            m = r.randint(1, 6)
            e[i] = np.cumsum(r.randint(1, 5, size=m + 1))*.5 - 3.
        if v == ():
            e = e[()]
        return dict(bins=e), lambda i: e if v == () else e[i]
    arg = e.tolist() if c['blist'] else e
    return dict(bins=arg), lambda i: e[i]


@subs(histories(), quick=2000, thorough=150000, shards=4)
def counted(c, ctx):
    v = tuple(c['vshape'])
    kw, edges = bins_arg(c)
    if c['range'] and (edges is None):
        kw['range'] = tuple(c['range'])
    if c['ctype']:
        kw['ctype'] = np.dtype(c['ctype'])
    first, pool, early, bins = None, None, None, None
    special = False
    if c['bins'] == 'rule' and c['batches'][0]['kind'] in ('u1', 'i1'):
        kw['bins'] = 10      # NumPy rules may overflow on small integers
    for k, b in enumerate(c['batches']):
        x, p = batch(b, c, edges)
        p = half(p, c['use'])
        p = np.broadcast_to(p, v + p.shape[-1:])
        if k == 0:
            first = p
            if c['init']:
                a = sdepy.montecarlo(x, axis=b['axis'], use=c['use'], **kw)
            else:
                a = sdepy.montecarlo(use=c['use'], **kw)
                a.update(x, axis=b['axis'])
            pool = p.astype(float)
            bins = {i: edges(i) if edges else np.histogram_bin_edges(
                first[i], bins=kw.get('bins', 100), range=kw.get('range'))
                for i in np.ndindex(v)}
        else:
            a.update(x, axis=b['axis'])
            pool = np.concatenate((pool, p), axis=-1)
        if k == 0:
            early = {i: a[i] for i in np.ndindex(v)}
        for i in np.ndindex(v):
            if c['probe'] == 'fresh' or k == 0:
                ai = a[i]
            elif c['probe'] == 'early':
                ai = early[i]
            else:
                ai = a
                for z in i:
                    ai = ai[z]
            if v == () and c['probe'] == 'chain':
                ai = a
            what = '{} after {} updates'.format(i, k + 1)
            h, e = ai.histogram()
            check(same(e, bins[i]), '{}: bins {} instead of {}',
                  what, e, bins[i])
            if k == 0:
                bins[i] = np.array(e)       # rounding errors aside
            check(np.array_equal(e, bins[i]), '{}: bins changed to {}', what, e)
            want = counts(pool[i], np.asarray(bins[i]))
            check(h.shape == want.shape and np.array_equal(h, want),
                  '{}: counts {} instead of {} (bins {})', what, h, want, e)
            ctype = np.dtype(c['ctype'] or np.int64)
            check(h.dtype == ctype, '{}: counts of dtype {}', what, h.dtype)
            out = ai.outpaths
            check(np.shape(out) == () and out == pool.shape[-1] - want.sum(),
                  '{}: outpaths {} instead of {}', what, out,
                  pool.shape[-1] - want.sum())
            check(h.sum() + out == ai.paths == pool.shape[-1],
                  '{}: {} counted, {} outside, {} paths', what, h.sum(), out,
                  ai.paths)
            check(same(ai.outerr(), out/pool.shape[-1]), '{}: outerr {}', what,
                  ai.outerr())
            check(np.array_equal(ai.h[0], h) and np.array_equal(ai.h[1], e),
                  '{}: h differs from histogram()', what)
            special |= bool(out) or bool(np.isin(pool[i], bins[i]).any())
            if want.sum():
                d, e2 = ai.density_histogram()
                tol = 1e-5 if np.asarray(e2).dtype.itemsize < 8 else 1e-9
                check(same(d, want/want.sum()/np.diff(bins[i]), rtol=tol) and
                      np.array_equal(e, e2), '{}: density {}', what, d)
                check(same((d*np.diff(e2)).sum(), 1., rtol=tol), '{}: total density', what)
                check(np.array_equal(ai.dh[0], d), '{}: dh', what)
    ctx.nt(len(c['batches']) > 1 and special)
    ctx.label(c['bins'], c['use'], 'out' if special else 'in')


@st.composite
def refused_cases(draw):
    return dict(what=draw(st.sampled_from(['empty', 'none', 'multi', 'bins',
                                           'bins2', 'flat'])),
                vshape=draw(vshapes(2, 3)), n=draw(st.integers(1, 6)),
                how=draw(st.sampled_from(['histogram', 'density_histogram',
                                          'outpaths', 'outerr', 'pdf', 'cdf',
                                          'h', 'dh'])),
                seed=draw(seeds), init=draw(st.booleans()),
                extra=draw(st.integers(1, 3)))


@subs(refused_cases(), quick=300, thorough=10000)
def refused(c, ctx):
    ctx.nt()
    v = list(c['vshape'])

    def ask(a):
        f = c['how']
        if f in ('h', 'dh', 'outpaths'):
            return getattr(a, f)
        return getattr(a, f)(0.) if f in ('pdf', 'cdf') else getattr(a, f)()
    if c['what'] == 'empty':
        ok = raises(Exception, ask, sdepy.montecarlo())
    elif c['what'] == 'none':
        x = make(v + [c['n']], c['seed'])
        a = sdepy.montecarlo(x, bins=None)
        ok = raises(Exception, ask, a)
        if v:
            ok = ok and raises(Exception, ask, a[0])
    elif c['what'] == 'multi':
        v = v + [2]
        a = sdepy.montecarlo(make(v + [c['n']], c['seed']))
        ok = raises(Exception, ask, a)
        ok = ok and raises(Exception, ask, a[...])
    else:
        x = make(v + [c['n']], c['seed'])
        edges = np.arange(6.)
        if c['what'] == 'flat':     # one row of edges for several values
            v = v + [2]
            x = make(v + [c['n']], c['seed'])
            bad = edges
        elif c['what'] == 'bins':
            bad = np.broadcast_to(edges, [c['extra'] + 3] + v + [6])
        else:
            v = v + [2]
            x = make(v + [c['n']], c['seed'])
            bad = np.broadcast_to(edges, v[:-1] + [2 + c['extra'], 6])
        if c['init']:
            ok = raises(ValueError, sdepy.montecarlo, x, bins=bad)
        else:
            ok = raises(ValueError, sdepy.montecarlo(bins=bad).update, x)
    check(ok, '{} not refused by {}', c['what'], c['how'])
