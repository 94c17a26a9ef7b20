import numpy as np
import sdepy
from sdepy import SDEs, integrator
from hypothesis import strategies as st
from pbt import euler, srcs
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, raises, identical

subs = Subs('generated systems of 1 to 4 polynomial equations, with recording '
            'sources or Wiener sources replayed from the same generator state, '
            'vs. a reference recursion per equation. Non-trivial: two or more '
            'equations and steps')

IDS = ['dt', 'dw', 'dn', 'dj']


@st.composite
def terms(draw, q, names):
    return draw(st.lists(st.fixed_dictionaries(dict(
        c=st.sampled_from([1, -1, .5, .3]), p=st.lists(
            st.integers(0, q-1), max_size=2),
        r=st.sampled_from([0, 0, 0, 1]),
        a=st.sampled_from([None] + names))), min_size=1, max_size=2))


def evaluate(tt, t, xs, args):
    v = 0
    for k in tt:
        z = k['c']
        for i in k['p']:
            z = z*xs[i]
        if k['r']:
            z = z*t
        if k['a'] is not None:
            z = z*args[k['a']]
        v = v + z
    return v


@st.composite
def systems(draw):
    q = draw(st.integers(1, 4))
    vshape = draw(vshapes(2, 3))
    paths = draw(st.integers(1, 3))
    shape = vshape + [paths]
    addaxis = draw(st.booleans())
    names = ['a', 'b'][:draw(st.integers(0, 2))]
    ids = draw(st.lists(st.sampled_from(IDS), min_size=1, max_size=4, unique=True))
    coeffs = [{i: draw(terms(q, names)) for i in ids if draw(st.integers(0, 4))}
              for k in range(q)]
    if addaxis or not vshape:
        wshape = vshape + [q]
    else:
        wshape = vshape[:-1] + [vshape[-1]*q]
    log = draw(st.integers(0, 3)) == 0
    x0 = draw(st.sampled_from(['default', 'scalar', 'list', 'array', 'tuple']))
    return dict(q=q, vshape=vshape, paths=paths, addaxis=addaxis, wshape=wshape,
                ids=ids, coeffs=coeffs, log=log, grid=draw(euler.grids()),
                params={n: draw(euler.params(shape, -.9, .9)) for n in names},
                x0=x0, x0shape=draw(broadcast_of(shape)), x0seed=draw(seeds),
                seed=draw(seeds), svshape={i: draw(broadcast_of(wshape)) for i in ids},
                ret=draw(st.sampled_from(['tuple', 'list'])),
                prior=draw(st.sampled_from([None, None, [], [2]])),
                wiener=draw(st.sampled_from([None, None, 'plain', 'corr', 'rho'])),
                rng=draw(st.sampled_from(srcs.RNGS)))


def build(c):
    q, names = c['q'], sorted(c['params'])
    user, value = {}, {}
    for n in names:
        user[n], value[n] = euler.param(c['params'][n])
    seen = []

    def sde(self, t, xs, args):
        for x in xs:
            seen.append(np.shape(x))
        r = [{i: evaluate(coeffs[i], t, xs, args) for i in coeffs}
             for coeffs in c['coeffs']]
        return tuple(r) if c['ret'] == 'tuple' else r
    ns = dict(_sde=sde)
    xs = ['x{}'.format(k) for k in range(q)]
    exec('def sde(self, t, {}):\n    return _sde(self, t, [{}], dict({}))'.format(
        ', '.join(xs + names), ', '.join(xs),
        ', '.join('{0}={0}'.format(n) for n in names)), ns)
    cls = type('generated', (SDEs, integrator), dict(
        q=q, addaxis=c['addaxis'], log=c['log'], sources=set(c['ids']),
        sde=ns['sde']))
    return cls, user, value, seen


def initial(c):
    lo = .2 if c['log'] else -1.
    r = np.random.RandomState(c['x0seed'])
    if c['x0'] == 'default':
        return {}, [1.]*c['q']
    if c['x0'] == 'scalar':
        v = float(r.uniform(lo, 1))
        return dict(x0=v), [v]*c['q']
    x = r.uniform(lo, 1, size=[c['q']] + c['x0shape'])
    arg = x.copy()
    if c['x0'] == 'list':
        arg = x.tolist()
    elif c['x0'] == 'tuple':
        arg = tuple(x)
    return dict(x0=arg), list(x)


def dispatch(c, z, i):
    """Component of the source increment z for equation i."""
    W = tuple(c['wshape']) + (c['paths'],)
    z = np.broadcast_to(z, W)
    if c['addaxis'] or not c['vshape']:
        return z[..., i, :]
    N = c['vshape'][-1]
    out = np.empty(tuple(c['vshape']) + (c['paths'],))
    for h in range(N):
        out[..., h, :] = z[..., i*N + h, :]
    return out


@subs(systems(), quick=2000, thorough=200000, shards=4)
def recursion(c, ctx):
    q = c['q']
    cls, user, value, seen = build(c)
    kw = dict(euler.grid_kw(c['grid']), paths=c['paths'],
              vshape=tuple(c['vshape']), **user)
    kx, x0 = initial(c)
    kw.update(kx)
    shape = tuple(c['vshape']) + (c['paths'],)
    src = {}
    for k, i in enumerate(c['ids']):
        if i != 'dt':
            src[i] = euler.Stub(c['paths'], c['svshape'][i], c['seed'] + k,
                                ints=i == 'dn')
    kw.update(src)
    replay = None
    back, forth = euler.visited(c['grid'])
    if c['wiener'] and 'dw' in src and min(len(back), len(forth)) == 1:
        # the default source of the system, and one built independently
        del kw['dw']
        kc = {}
        M = c['wshape'][-1]
        if c['wiener'] == 'corr':
            kc['corr'] = srcs.corr_matrix(M, c['seed'])
        elif c['wiener'] == 'rho' and M % 2 == 0:
            kc['rho'] = np.random.RandomState(c['seed']).uniform(-1, 1, size=M//2)
        replay = sdepy.wiener_source(paths=c['paths'], vshape=tuple(c['wshape']),
                                     rng=srcs.rng(c['rng'], c['seed']), **kc)
        kw.update(kc, rng=srcs.rng(c['rng'], c['seed']))
    if c.get('prior') is not None:
        # an earlier instance of the same class, of another shape
        with np.errstate(all='ignore'):
            cls(vshape=tuple(c['prior']), **{n: .5 for n in c['params']})((0., 1.))
        seen.clear()
    p = cls(**kw)
    ctx.label('q{}'.format(q), 'addaxis' if c['addaxis'] else 'stack', c['x0'],
              'log' if c['log'] else 'plain', 'wiener' if replay else 'stub')
    ctx.nt(q > 1 and euler.nsteps(c['grid']) > 1)
    W = tuple(c['wshape'])
    check(p.wshape == W and p.vshape == tuple(c['vshape']), 'shapes {} {}',
          p.vshape, p.wshape)
    if replay is not None:
        check(p.sources['dw'].vshape == W, 'Wiener source vshape {} instead of {}',
              p.sources['dw'].vshape, W)
    res = p(c['grid']['t'])
    check(isinstance(res, tuple) and len(res) == q, '{} results instead of {}',
          len(res), q)
    check(all(z == shape for z in seen), 'equation variables shaped {}', set(seen))

    # packed reference, as one array with equations first
    incs = {}

    def inc(i, s, ds):
        if i == 'dw' and replay is not None:
            if (s, ds) not in incs:
                incs[s, ds] = np.array(replay(s, ds))
            return incs[s, ds]
        return src[i].value(s, ds)

    def step(s, ds, X):
        args = {n: f(s) for n, f in value.items()}
        xs = list(X)
        dz = {i: inc(i, s, ds) for i in c['ids'] if i != 'dt'}
        new = []
        for k in range(q):
            y = xs[k]
            for i, tt in c['coeffs'][k].items():
                d = ds if i == 'dt' else dispatch(c, dz[i], k)
                y = y + evaluate(tt, s, xs, args)*d
            new.append(np.broadcast_to(y, shape))
        return np.array(new)

    with np.errstate(all='ignore'):
        X0 = np.array([np.broadcast_to(z, shape) for z in x0])
        if c['log']:
            X0 = np.log(X0)
        want = euler.reference(c['grid'], X0, step, (q,) + shape)
        raw = want
        if c['log']:
            want = np.exp(want)
    if not euler.tame(raw) or not euler.tame(want):
        ctx.label('diverged')
        return
    for k in range(q):
        x = res[k]
        check(isinstance(x, sdepy.process), 'result {} of type {}', k,
              type(x).__name__)
        check(x.shape == want[:, k].shape, 'result {}: shape {} instead of {}', k,
              x.shape, want[:, k].shape)
        check(identical(x.t, np.asarray(c['grid']['t'])), 'timeline {}', x.t)
        check(euler.close(x, want[:, k]), 'equation {}: {} instead of {}', k, x,
              want[:, k])


@st.composite
def pack_cases(draw):
    vshape = draw(vshapes(3, 3))
    paths = draw(st.integers(1, 3))
    q = draw(st.integers(1, 4))
    return dict(vshape=vshape, paths=paths, q=q, seed=draw(seeds),
                addaxis=draw(st.booleans()),
                shapes=[draw(broadcast_of(vshape + [paths])) for k in range(q)],
                lead=draw(vshapes(1, 2)))


@subs(pack_cases(), quick=600, thorough=50000)
def packing(c, ctx):
    q = c['q']
    ctx.nt(q > 1)
    cls = type('s', (SDEs, integrator), dict(
        q=q, addaxis=c['addaxis'], sde=lambda self, t, *x: [{'dt': 0}]*q))
    # the signature of sde must name q variables
    ns = {}
    exec('def sde(self, t, {}):\n    return [{{"dt": 0}}]*{}'.format(
        ', '.join('x{}'.format(k) for k in range(q)), q), ns)
    cls.sde = ns['sde']
    p = cls(paths=c['paths'], vshape=tuple(c['vshape']))
    shape = tuple(c['vshape']) + (c['paths'],)
    xs = [make(s, c['seed'] + k) for k, s in enumerate(c['shapes'])]
    X = p.pack(tuple(xs))
    if c['addaxis'] or not c['vshape']:
        w = tuple(c['vshape']) + (q,)
    else:
        w = tuple(c['vshape'][:-1]) + (c['vshape'][-1]*q,)
    check(X.shape == w + (c['paths'],), 'packed shape {} instead of {}', X.shape,
          w + (c['paths'],))
    ys = p.unpack(X)
    check(len(ys) == q, '{} arrays unpacked', len(ys))
    for k in range(q):
        check(np.array_equal(ys[k], np.broadcast_to(xs[k], shape)),
              'unpack(pack(xs))[{}] is {} instead of {}', k, ys[k], xs[k])
    Y = make(w + (c['paths'],), c['seed'])
    check(np.array_equal(p.pack(p.unpack(Y)), Y), 'pack(unpack(Y)) differs from Y')
    Y = make(tuple(c['lead']) + w + (c['paths'],), c['seed'])   # e.g. a timeline
    ys = p.unpack(Y)
    for k in range(q):
        check(ys[k].shape == tuple(c['lead']) + shape, 'unpacked shape {}',
              ys[k].shape)
        for i in np.ndindex(tuple(c['lead'])):
            check(np.array_equal(ys[k][i], p.unpack(Y[i])[k]), 'unpacking acts '
                  'differently on stacked arrays')


@st.composite
def refused_cases(draw):
    q = draw(st.integers(1, 3))
    return dict(q=q, what=draw(st.sampled_from(['number', 'dict', 'type', 'item',
                                                'key', 'q', 'x0', 'missing'])),
                n=draw(st.integers(0, 5).filter(lambda n: n != q)),
                vshape=draw(vshapes(1, 2)), addaxis=draw(st.booleans()),
                pos=draw(st.integers(0, 2)))


@subs(refused_cases(), quick=300, thorough=5000)
def refused(c, ctx):
    ctx.nt()
    q, w = c['q'], c['what']
    good = [{'dt': 1., 'dw': 1.} for k in range(q)]
    kw = {}
    bad = good
    if w == 'number':
        bad = [{'dt': 1.}]*c['n']
    elif w == 'dict':
        bad = good[0]
    elif w == 'type':
        bad = [1., None, 'ab', np.ones(q), iter(good)][c['pos']]
    elif w == 'item':
        bad[c['pos'] % q] = [None, 1., [('dt', 1)]][c['pos']]
    elif w == 'key':
        bad[c['pos'] % q] = {'dt': 1, 'dj': 1}
    elif w == 'x0':
        if c['n'] < 2:
            return
        kw['x0'] = np.arange(1., c['n'] + 1)
    ns = {}
    xs = ', '.join('x{}'.format(k) for k in range(q))
    exec('def sde(self, t, {}{}):\n    return bad'.format(
        xs, ', mu' if w == 'missing' else ''), dict(bad=bad), ns)
    cls = type('bad', (SDEs, integrator), dict(
        q=-c['pos'] if w == 'q' else q, sde=ns['sde'], addaxis=c['addaxis']))
    check(raises(Exception, lambda: cls(vshape=tuple(c['vshape']), **kw)([0., 1.])),
          '{} not refused', w)
