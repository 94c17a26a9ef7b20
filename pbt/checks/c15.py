import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt import srcs
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, identical, raises

subs = Subs('antithetic sources with generated parameters, 2K paths, vshape, '
            'dtype and call sequences, against their first half and against '
            'the plain source with K paths and an equal generator. '
            'Non-trivial: some increment is not zero')
PLAIN = dict(odd_wiener='wiener', even_poisson='poisson',
             even_cpoisson='cpoisson')


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(PLAIN)))
    K = draw(st.sampled_from([1, 2, 3, 4, 5, 5, 150]))
    vshape = draw(vshapes(2, 4))
    k = srcs.kind(name)
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        ts, ds = draw(st.sampled_from([([], []), ([3], []), ([2, 1], [2]),
                                       ([], [2]), ([2], [2])]))
        d = st.one_of(fl(-2, 2), st.just(0))
        calls.append(dict(
            ts=ts, ds=ds, t=[draw(fl(-2, 2)) for _ in range(int(np.prod(ts)))],
            dt=[draw(d) for _ in range(int(np.prod(ds)))]))
    return dict(name=name, K=K, vshape=vshape,
                par=draw(srcs.params(name, vshape, 2*K)), calls=calls,
                dtype=draw(st.sampled_from(
                    ['int', 'f8', 'i4'] if k == 'poisson' else
                    ['omit', 'none', 'f8', 'f4'])),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


def make(c, name, paths, g):
    kw = srcs.kwargs(c['name'], c['par'], c['vshape'], 2*c['K'])
    if c['dtype'] != 'omit':
        kw['dtype'] = {'none': None, 'int': int}.get(c['dtype'], c['dtype'])
    return srcs.cls(name)(paths=paths, vshape=tuple(c['vshape']), rng=g, **kw)


@subs(cases(), quick=2500, thorough=80000, shards=2)
def mirror(c, ctx):
    K, name = c['K'], c['name']
    g, h = srcs.rng(c['rng'], c['seed']), srcs.rng(c['rng'], c['seed'])
    dz, plain = make(c, name, 2*K, g), make(c, PLAIN[name], K, h)
    ctx.label(name)
    check(dz.paths == 2*K, 'paths {}', dz.paths)
    check(dz.vshape == tuple(c['vshape']), 'vshape {}', dz.vshape)
    check(dz.dtype == plain.dtype, 'dtype {}', dz.dtype)
    check(dz.rng is g, 'rng')
    check(isinstance(dz, sdepy.source), 'not a source')
    sign = -1 if name == 'odd_wiener' else 1
    for q in c['calls']:
        t, dt = np.array(q['t']).reshape(q['ts']), np.array(q['dt']).reshape(
            q['ds'])
        x, y = dz(t, dt), plain(t, dt)
        ctx.nt((x != 0).any())
        check(x.shape == (t + dt).shape + tuple(c['vshape']) + (2*K,),
              'shape {}', x.shape)
        check(x.dtype == y.dtype, 'dtype {} instead of {}', x.dtype, y.dtype)
        check(np.array_equal(x[..., K:], sign*x[..., :K]),
              'mirror paths {} of {}', x[..., K:], x[..., :K])
        check(identical(x[..., :K], y), 'first half {} instead of {}',
              x[..., :K], y)
    check(srcs.state(g) == srcs.state(h), 'generator states differ')


@st.composite
def odd_cases(draw):
    return dict(draw(cases()), many=draw(st.sampled_from([1, 1, 20, 1000])))


@subs(odd_cases(), quick=300)
def odd_paths(c, ctx):
    ctx.nt()
    n = 2*c['K']*c['many'] - 1
    c['par'].pop('lam', None)
    check(raises(ValueError, make, c, c['name'], n, None), '{} paths accepted', n)
