import numpy as np
import sdepy
from sdepy import infrastructure
from hypothesis import strategies as st
from pbt import srcs
from pbt.core import Subs, check
from pbt.strat import vshapes, seeds, fl, identical, raises

subs = Subs('a source class with generated parameters, paths, vshape, dtype, '
            'generator (explicit or default), and t, dt of generated shapes '
            'and signs. Non-trivial: t or dt is not a scalar, or '
            'vshape is not (), or the default generator is used')

TSHAPES = [([], []), ([3], []), ([], [2]), ([2], [2]), ([3, 1], [2]),
           ([1], [1, 2]), ([2, 1], [1, 3]), ([0], []), ([2, 1, 2], [])]
DTYPES = dict(wiener=['none', 'f8', 'f4', 'omit'],
              poisson=['int', 'f8', 'i4', 'omit', 'f4'],
              cpoisson=['none', 'f8', 'f4', 'omit'])


@st.composite
def cases(draw, rngs=srcs.RNGS):
    name = draw(st.sampled_from(srcs.ALL))
    vshape = draw(vshapes(2, 4))
    paths = draw(st.integers(1, 5))*(2 if srcs.antithetic(name) else 1)
    ts, ds = draw(st.sampled_from(TSHAPES))
    n, m = int(np.prod(ts)), int(np.prod(ds))
    ints = draw(st.booleans())
    num = st.integers(-3, 3) if ints else fl(-3, 3)
    return dict(name=name, vshape=vshape, paths=paths,
                par=draw(srcs.params(name, vshape, paths)),
                dtype=draw(st.sampled_from(DTYPES[srcs.kind(name)])),
                ts=ts, ds=ds, t=[draw(num) for _ in range(n)],
                dt=[draw(st.one_of(num, st.just(0))) for _ in range(m)],
                lists=draw(st.booleans()), rng=draw(st.sampled_from(rngs)),
                seed=draw(seeds), int_vshape=draw(st.booleans()))


def make_source(c, **kw):
    kw.update(srcs.kwargs(c['name'], c['par'], c['vshape'], c['paths']))
    if c['dtype'] != 'omit':
        kw['dtype'] = {'none': None, 'int': int}.get(c['dtype'], c['dtype'])
    vs = tuple(c['vshape'])
    if len(vs) == 1 and c['int_vshape']:
        vs = vs[0]
    return srcs.cls(c['name'])(paths=c['paths'], vshape=vs, **kw)


def times(c):
    t = np.array(c['t']).reshape(c['ts'])
    dt = np.array(c['dt']).reshape(c['ds'])
    if c['lists'] and t.size and dt.size:
        return t.tolist(), dt.tolist(), t, dt
    return t, dt, t, dt


@subs(cases(), quick=2500, thorough=60000, shards=2)
def shape_and_dtype(c, ctx):
    dz = make_source(c, rng=srcs.rng(c['rng'], c['seed']))
    t, dt, ta, dta = times(c)
    tail = tuple(c['vshape']) + (c['paths'],)
    ctx.label(c['name'], c['dtype'])
    ctx.nt(c['ts'] or c['ds'] or c['vshape'])
    check(dz.paths == c['paths'] and dz.vshape == tuple(c['vshape']),
          'paths, vshape {} {}', dz.paths, dz.vshape)
    z = dz(t, dt)
    want = (ta + dta).shape + tail
    check(z.shape == want, 'shape {} instead of {}', z.shape, want)
    k = srcs.kind(c['name'])
    exp = {'omit': z.dtype if c['name'] == 'even_poisson' else
           int if k == 'poisson' else float, 'none': float,
           'int': int}.get(c['dtype'], c['dtype'])
    check(z.dtype == np.dtype(exp), 'dtype {} instead of {}', z.dtype, exp)
    check(np.isfinite(z).all(), 'values {}', z)
    zero = np.broadcast_to(dta == 0, (ta + dta).shape)
    check((z[zero] == 0).all(), 'increments over dt=0: {}', z[zero])
    z0 = dz(t, 0)
    check(z0.shape == ta.shape + tail and (z0 == 0).all(),
          'increments over dt=0: {}', z0)
    if c['name'] in srcs.TRUE:
        y = dz(t)
        check(y.shape == ta.shape + tail, 'shape {}', y.shape)
        check(y.dtype == np.dtype(exp), 'dtype {} instead of {}', y.dtype, exp)
    else:
        check(dz.size == 0 and dz.t.size == 0, 'memory of {}', c['name'])


@subs(cases(), quick=1500, thorough=40000, shards=2)
def generators(c, ctx):
    """All randomness from the generator in force."""
    t, dt, ta, dta = times(c)
    ctx.label(c['rng'], c['name'])
    ctx.nt()

    def realize(explicit):
        g = srcs.rng(c['rng'], c['seed'])
        other = srcs.rng('gen', c['seed'] + 1)
        np.random.seed(99)
        before = srcs.global_state()
        infrastructure.default_rng = other if explicit else g
        dz = make_source(c, **(dict(rng=g) if explicit else {}))
        check(dz.rng is g, 'rng is not the generator in force')
        if not explicit:
            infrastructure.default_rng = other   # too late
        s = srcs.state(other)
        z = [dz(t, dt), dz(t, dt)]
        if c['name'] in srcs.TRUE:
            z.append(dz(t))
        check(srcs.state(other) == s, 'another generator was used')
        check(srcs.global_state() == before, 'the global generator was used')
        check(dz.rng is g, 'rng changed')
        return z, srcs.state(g)
    (z1, s1), (z2, s2), (z3, s3) = realize(True), realize(True), realize(False)
    check(all(identical(a, b) for a, b in zip(z1, z2)) and s1 == s2,
          'not reproducible')
    check(all(identical(a, b) for a, b in zip(z1, z3)) and s1 == s3,
          'default generator gives other values')


@st.composite
def seed_cases(draw):
    c = draw(cases())
    c['bad'] = draw(st.sampled_from(['int', 'np', 'list', 'array', 'zero', 'i4', 'u8',
                                      'u1']))
    return c


@subs(seed_cases(), quick=300)
def seeds_refused(c, ctx):
    ctx.nt()
    n = c['seed']
    bad = dict(int=n, np=np.int64(n), list=[n], array=np.array([n]), zero=0,
               i4=np.int32(n % 2**31), u8=np.uint64(n), u1=np.uint8(n % 256))
    check(raises(TypeError, make_source, c, rng=bad[c['bad']]),
          'rng={!r} accepted', bad[c['bad']])


@subs(cases(), quick=300)
def default_generator(c, ctx):
    """Set on import to a Generator: new sources use it."""
    ctx.nt()
    infrastructure.default_rng = g = np.random.default_rng(c['seed'])
    dz = make_source(c, rng=None)
    check(dz.rng is g, 'rng=None')
