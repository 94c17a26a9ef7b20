import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt import euler, srcs
from pbt.checks import c24
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, raises, identical

subs = Subs('a preset process, or user SDE with all kinds of differentials, given '
            'recording sources, processes, sources with memory or source '
            'classes; log of calls and result vs. the reference recursion. '
            'Non-trivial: two or more steps')

KINDS = ['stub', 'function', 'process', 'memory', 'source']


class Recorder:
    """Wraps a callable, recording calls."""
    def __init__(self, f, paths, vshape):
        self.f, self.paths, self.vshape = f, paths, vshape
        self.calls, self.values = [], {}

    def __call__(self, t, dt):
        z = self.f(t, dt)
        self.calls.append((float(t), float(dt)))
        self.values[round(float(t), 9), round(float(dt), 9)] = np.array(z)
        return z

    def value(self, t, dt):
        k = round(float(t), 9), round(float(dt), 9)
        if k not in self.values:
            fail('the source was not called at {}', (t, dt))
        return self.values[k]


def source(d, paths, what):
    """The source, given to the user, and its recorded calls and values."""
    v, k = tuple(d['vshape']), d['kind']
    if k == 'stub':
        return euler.Stub(paths, v, d['seed'], ints=what == 'dn')
    if k == 'function':
        stub = euler.Stub(paths, v, d['seed'])
        calls = []

        def f(t, dt):
            calls.append((float(t), float(dt)))
            return stub.value(t, dt)
        f.paths, f.vshape = paths, v
        f.value, f.calls = stub.value, calls
        return f
    if k == 'process':
        T = np.array([-80., -2., -1., 0., .6, 1.1, 80.])
        x = np.random.RandomState(d['seed']).normal(size=T.shape + v + (paths,))
        p = sdepy.process(T, x=x)
        return p
    name = dict(dw='wiener', dn='poisson', dj='cpoisson')[what]
    cls = srcs.cls(('true_' if k == 'memory' else '') + name)
    src = cls(paths=paths, vshape=v, rng=np.random.default_rng(d['seed']))
    if k == 'memory':
        src(np.array([-.3, .7]))       # some history
    return Recorder(src, paths, v)


def check_calls(src, grid, what):
    if not hasattr(src, 'calls'):
        return
    want = []
    for s in euler.visited(grid):
        want += [(a, b - a) for a, b in zip(s[:-1], s[1:])]

    def key(z):
        return (round(z[0], 9), round(z[1], 9))
    got = sorted(src.calls, key=key)
    want = sorted(want, key=key)
    check(len(got) == len(want) and np.allclose(got, want, atol=1e-12) if want
          else not got, '{} called with (t, dt) = {} instead of {}', what, got, want)


def src_value(src):
    if isinstance(src, sdepy.process):
        T, x = np.asarray(src.t), np.asarray(src)

        def at(t):
            k = min(max(int(np.searchsorted(T, t, side='right')) - 1, 0), T.size - 2)
            w = (t - T[k])/(T[k+1] - T[k])
            return (1-w)*x[k] + w*x[k+1]
        return lambda t, dt: at(t + dt) - at(t)
    return src.value


@st.composite
def descr(draw, vshape, kinds=KINDS):
    return dict(kind=draw(st.sampled_from(kinds)), seed=draw(seeds),
                vshape=draw(broadcast_of(vshape)))


@st.composite
def cases(draw):
    c = draw(c24.cases())
    c['dtype'] = None
    c['dw'] = draw(descr(c['wshape']))
    c['dj'] = draw(descr(c['vshape']))
    return c


@subs(cases(), quick=1200, thorough=80000, shards=4)
def presets(c, ctx):
    kw, value, x0, y0 = c24.arguments(c)
    kw['dw'] = dw = source(c['dw'], c['paths'], 'dw')
    dj = None
    if 'jump' in c['name']:
        kw['dj'] = dj = source(c['dj'], c['paths'], 'dj')
    p = c24.process_class(c)(**kw)
    check(p.sources['dw'] is dw, "sources['dw'] is not the source given")
    res = p(c['grid']['t'])
    check_calls(dw, c['grid'], 'dw')
    if dj is not None:
        check(p.sources['dj'] is dj, "sources['dj'] is not the source given")
        check_calls(dj, c['grid'], 'dj')
    ctx.label(c['name'], c['dw']['kind'])
    ctx.nt(euler.nsteps(c['grid']) > 1)
    with np.errstate(all='ignore'):
        x, y, raw = c24.expected(c, value, x0, y0, src_value(dw),
                                 None if dj is None else src_value(dj))
    if not euler.tame(raw) or not euler.tame(x):
        return
    got = res[0] if c['name'] == 'full_heston' else res
    c24.compare(c, got, x, c['name'])


@st.composite
def user_cases(draw):
    vshape = draw(vshapes(2, 2))
    return dict(vshape=vshape, paths=draw(st.integers(1, 3)),
                grid=draw(euler.grids()), seed=draw(seeds),
                **{k: draw(descr(vshape)) for k in ('dw', 'dn', 'dj')},
                unused=draw(st.booleans()))


@subs(user_cases(), quick=600, thorough=40000, shards=2)
def user_sde(c, ctx):
    """All of dw, dn, dj in one equation (dn and dj do not interfere)."""
    class model(sdepy.SDE, sdepy.integrator):
        sources = {'dt', 'dw', 'dn', 'dj'}

        def sde(self, t, x, a=.4):
            d = {'dt': -a*x, 'dw': .5, 'dn': .25*t}
            if not c['unused']:
                d['dj'] = .1*x
            return d
    src = {k: source(c[k], c['paths'], k) for k in ('dw', 'dn', 'dj')}
    p = model(paths=c['paths'], vshape=tuple(c['vshape']), **src,
              **euler.grid_kw(c['grid']))
    x = p(c['grid']['t'])
    ctx.nt(euler.nsteps(c['grid']) > 1)
    ctx.label(*[c[k]['kind'] for k in src])
    for k in src:
        check_calls(src[k], c['grid'], k)

    v = {k: src_value(z) for k, z in src.items()}

    def step(s, ds, x):
        y = x - .4*x*ds + .5*v['dw'](s, ds) + .25*s*v['dn'](s, ds)
        return y if c['unused'] else y + .1*x*v['dj'](s, ds)
    want = euler.reference(c['grid'], 1., step, tuple(c['vshape']) + (c['paths'],))
    if euler.tame(want):
        check(euler.close(x, want), 'result {} instead of {}', x, want)


# ---------------------------------------------------------------- classes
def same_dtype(a, b):
    return a is b or (a is not None and b is not None and
                      np.dtype(a) == np.dtype(b))


@st.composite
def class_cases(draw):
    c = draw(c24.cases(first=True))
    c['paths'] = 2*draw(st.integers(1, 2))
    for d in list(c['params'].values()) + [c['x0'], c.get('y0')]:
        if d is not None and d['shape'] and d['shape'][-1] != 1:
            d['shape'][-1] = c['paths']
    M = c['wshape'][-1] if c['wshape'] else 0
    c['corr'] = draw(st.sampled_from(['none', 'corr', 'rho'])) if M else 'none'
    if c['corr'] == 'rho' and M % 2:
        c['corr'] = 'corr'
    c['cls'] = draw(st.sampled_from(['wiener', 'odd_wiener', 'true_wiener', 'own',
                                     'sub']))
    c['jcls'] = draw(st.sampled_from([None, 'cpoisson', 'even_cpoisson',
                                      'true_cpoisson', 'own', 'sub']))
    c['lam'] = draw(st.sampled_from([None, 2., 'call']))
    c['jptype'] = draw(st.sampled_from([None, None, 'i4', 'f8']))
    c['dtype'] = draw(st.sampled_from([None, 'f4', 'f8']))
    c['rng'] = draw(st.sampled_from(srcs.RNGS))
    c['law'] = draw(srcs.laws())
    return c


@subs(class_cases(), quick=800, thorough=40000, shards=2)
def classes(c, ctx):
    """Source classes get the paths, vshape and parameters of the process."""
    kw, value, x0, y0 = c24.arguments(c)
    W, v, paths = tuple(c['wshape']), tuple(c['vshape']), c['paths']
    got = {}

    def own(key):
        class recording:
            def __init__(self, *, paths, vshape, **args):
                got[key] = dict(args, paths=paths, vshape=vshape)
                self.stub = euler.Stub(paths, vshape, 5)
                self.paths, self.vshape = paths, vshape

            def __call__(self, t, dt):
                return self.stub(t, dt)
        return recording

    def pick(name, key, base):
        if name == 'own':
            return own(key)
        if name == 'sub':
            class derived(srcs.cls(base)):
                pass
            return derived
        return srcs.cls(name)
    cls = pick(c['cls'], 'dw', 'wiener')
    kc, kj = {}, {}
    if c['corr'] == 'corr':
        kc['corr'] = srcs.corr_matrix(W[-1], c['seed'])
    elif c['corr'] == 'rho':
        kc['rho'] = np.random.RandomState(c['seed']).uniform(-1, 1, size=W[-1]//2)
    jcls = None
    if 'jump' in c['name']:
        if c['lam'] is not None:
            kj['lam'] = 2. if c['lam'] == 2. else lambda t: 1.5 + np.cos(t)
        if c['name'] == 'jumpdiff':
            kj['y'] = srcs.law(c['law'])
        elif c['name'] == 'merton_jumpdiff':
            kj.update(a=.2, b=.3)
        else:
            kj.update(a=.2, b=.3, pa=.4)
        if c['jptype']:
            kj['ptype'] = c['jptype']
        if c['jcls']:
            jcls = pick(c['jcls'], 'dj', 'cpoisson')

    def gen():
        return srcs.rng(c['rng'], c['seed'])
    g = gen()
    p = c24.process_class(c)(dw=cls, rng=g, **dict(
        {} if jcls is None else dict(dj=jcls)), **kw, **kc, **kj)
    dw = p.sources['dw']
    ctx.label(c['name'], c['cls'], str(c['jcls']))
    ctx.nt(euler.nsteps(c['grid']) > 1)
    check(isinstance(dw, cls), 'source of type {}', type(dw).__name__)
    check(dw.paths == paths and tuple(dw.vshape) == W, 'source with paths={}, '
          'vshape={} instead of {}, {}', dw.paths, dw.vshape, paths, W)
    if c['cls'] == 'own':
        for k, z in kc.items():
            check(np.array_equal(got['dw'][k], z), 'parameter {} passed as {}', k,
                  got['dw'][k])
        check(got['dw']['rng'] is g, 'rng passed as {}', got['dw']['rng'])
        check(same_dtype(got['dw']['dtype'], kw.get('dtype')), 'dtype passed as {} instead '
              'of {}', got['dw']['dtype'], kw.get('dtype'))
    if jcls is not None:
        dj = p.sources['dj']
        check(isinstance(dj, jcls) and dj.paths == paths and tuple(dj.vshape) == v,
              'jump source {}', dj)
        if c['jcls'] == 'own':
            check(got['dj']['rng'] is g, 'rng passed as {}', got['dj']['rng'])
            check(same_dtype(got['dj']['dtype'], kw.get('dtype')), 'jump dtype passed as {}',
                  got['dj']['dtype'])
            if c['jptype']:
                check(got['dj']['ptype'] == c['jptype'], 'ptype passed as {}',
                      got['dj']['ptype'])
            if 'lam' in kj:
                check(got['dj']['lam'] is kj['lam'] or
                      np.all(got['dj']['lam'] == kj['lam']), 'lam passed as {}',
                      got['dj']['lam'])
            if 'y' in kj:
                check(got['dj']['y'] is kj['y'], 'y passed as {}', got['dj']['y'])
    res = p(c['grid']['t'])
    # the same sources, instantiated by the user
    h = gen()
    k2 = dict(kw)
    if c['cls'] == 'own':
        k2['dw'] = euler.Stub(paths, W, 5)
    else:
        k2['dw'] = cls(paths=paths, vshape=W, rng=h, dtype=kw.get('dtype'), **kc)
    if 'jump' in c['name']:
        if c['jcls'] == 'own':
            k2['dj'] = euler.Stub(paths, v, 5)
        else:
            y = kj.get('y')
            if c['name'] == 'merton_jumpdiff':
                y = sdepy.norm_rv(a=.2, b=.3)
            if c['name'] == 'kou_jumpdiff':
                y = sdepy.double_exp_rv(a=.2, b=.3, pa=.4)
            k2['dj'] = (jcls or sdepy.cpoisson_source)(
                paths=paths, vshape=v, rng=h, y=y, dtype=kw.get('dtype'), lam=kj.get('lam', 1.),
                ptype=kj.get('ptype', int))
    res2 = c24.process_class(c)(**k2)(c['grid']['t'])
    if not isinstance(res, tuple):
        res, res2 = (res,), (res2,)
    for x, y in zip(res, res2):
        if euler.tame(x) and euler.tame(y):
            check(euler.close(x, y), '{} with a source class, {} with its instance',
                  x, y)


@st.composite
def full_cases(draw):
    vshape = draw(vshapes(2, 2))
    M = vshape[-1] if vshape else 0
    corr = draw(st.sampled_from(['none', 'corr', 'rho'])) if M else 'none'
    ids = draw(st.lists(st.sampled_from(['dw', 'dn', 'dj']), min_size=1, unique=True))
    return dict(vshape=vshape, paths=4*draw(st.integers(1, 2)), ids=ids,
                corr='corr' if corr == 'rho' and M % 2 else corr,
                cls={k: draw(st.sampled_from(['', '', 'class', 'even', 'true_']))
                     for k in ('dw', 'dn', 'dj')},
                lam=draw(st.sampled_from([None, 2., 'call', 'array'])),
                ptype=draw(st.sampled_from([None, 'i2', 'f8', 'i4', 'f4'])),
                dtype=draw(st.sampled_from([None, 'f4', 'f8'])),
                law=draw(srcs.laws()), rng=draw(st.sampled_from(srcs.RNGS)),
                seed=draw(seeds), grid=draw(euler.grids(first=True)))


@subs(full_cases(), quick=600, thorough=40000, shards=2)
def defaults(c, ctx):
    """An equation whose sources are instantiated from their parameters (lam and
    ptype are shared) or given as classes, vs. the same with their instances."""
    v, paths, ids = tuple(c['vshape']), c['paths'], c['ids']

    class model(sdepy.SDE, sdepy.integrator):
        sources = {'dt'} | set(ids)

        def sde(self, t, x, a=.4):
            return {'dt': -a*x, **{i: .5 + .1*t for i in ids}}
    names = dict(dw='wiener', dn='poisson', dj='cpoisson')
    given, classes = {}, {}
    if 'dj' in ids and c['cls']['dj'] == 'true_':
        c['cls']['dn'] = ''     # its counts have to be with memory
    for i in ids:
        k = c['cls'][i]
        if k == 'even':
            k = 'odd_' if i == 'dw' else 'even_'
        classes[i] = srcs.cls((k if k != 'class' else '') + names[i])
        if k:
            given[i] = classes[i]
    kw = {}
    if 'dw' in ids and c['corr'] == 'corr':
        kw['corr'] = srcs.corr_matrix(v[-1], c['seed'])
    if 'dw' in ids and c['corr'] == 'rho':
        kw['rho'] = np.random.RandomState(c['seed']).uniform(-1, 1, size=v[-1]//2)
    kl = {}
    if 'dn' in ids or 'dj' in ids:
        if c['lam'] is not None:
            kl['lam'] = c['lam']
            if c['lam'] == 'call':
                kl['lam'] = lambda t: 1.5 + np.cos(t)
            if c['lam'] == 'array':
                kl['lam'] = np.random.RandomState(c['seed']).uniform(1, 2, size=v + (1,))
        if c['ptype']:
            kl['ptype'] = np.dtype(c['ptype'])
    ky = dict(y=srcs.law(c['law'])) if 'dj' in ids else {}
    dtype = None if c['dtype'] is None else np.dtype(c['dtype'])
    p = model(paths=paths, vshape=v, rng=srcs.rng(c['rng'], c['seed']), dtype=dtype,
              **given, **kw, **kl, **ky, **euler.grid_kw(c['grid']))
    h = srcs.rng(c['rng'], c['seed'])
    own = {}
    ptype = kl.get('ptype', int)
    lam = kl.get('lam', 1.)
    for i in ids:
        if i == 'dw':
            own[i] = classes[i](paths=paths, vshape=v, rng=h, dtype=dtype, **kw)
        elif i == 'dn':
            own[i] = classes[i](paths=paths, vshape=v, rng=h, dtype=ptype, lam=lam)
        else:
            own[i] = classes[i](paths=paths, vshape=v, rng=h, dtype=dtype, lam=lam,
                                ptype=ptype, dn=given.get('dn'), **ky)
        s = p.sources[i]
        check(type(s) is classes[i] and s.paths == paths and tuple(s.vshape) == v,
              'source {} for {}', s, i)
    q = model(paths=paths, vshape=v, dtype=dtype, **own, **euler.grid_kw(c['grid']))
    ctx.nt(euler.nsteps(c['grid']) > 1 and len(ids) > 1)
    ctx.label(*[i + c['cls'][i] for i in ids])
    x, y = p(c['grid']['t']), q(c['grid']['t'])
    if euler.tame(x) and euler.tame(y):
        check(euler.close(x, y), '{} from source parameters, {} with instances',
              x, y)
    for i in ids:
        a, b = p.sources[i](3., .25), own[i](3., .25)
        check(a.dtype == b.dtype, '{} of data-type {} instead of {}', i, a.dtype,
              b.dtype)
        check(identical(a, b), 'later {} of {} instead of {}', i, a, b)


# ---------------------------------------------------------------- refused
@st.composite
def refused_cases(draw):
    vshape = draw(vshapes(2, 2))
    return dict(name=draw(st.sampled_from(['wiener', 'lognorm', 'ornstein_uhlenbeck',
                                           'hull_white', 'cox_ingersoll_ross',
                                           'full_heston', 'heston', 'jumpdiff',
                                           'merton_jumpdiff', 'kou_jumpdiff', 'user',
                                           'cpoisson'])),
                vshape=vshape, paths=draw(st.integers(1, 4)),
                what=draw(st.sampled_from(['paths', 'one', 'vshape', 'rank',
                                           'nopaths', 'novshape', 'notcallable',
                                           'number', 'string', 'array'])),
                n=draw(st.integers(1, 3)), kind=draw(st.sampled_from(
                    ['stub', 'process', 'source'])), seed=draw(seeds),
                which=draw(st.integers(0, 2)))


@subs(refused_cases(), quick=600, thorough=20000)
def refused(c, ctx):
    ctx.nt()
    name, w = c['name'], c['what']
    paths, v = c['paths'], tuple(c['vshape'])
    W = v
    if name == 'hull_white':
        W = v + (1,)
    if 'heston' in name:
        W = v[:-1] + (2*v[-1],) if v else (2,)
    key = 'dw'
    if 'jump' in name:
        key = ['dw', 'dj'][c['which'] % 2]
    if name == 'user':
        key = ['dw', 'dn', 'dj'][c['which']]
    if name == 'cpoisson':
        key = 'dn'
    if key != 'dw':
        W = v
    if w == 'paths':
        paths2, v2 = paths + c['n'], W
    elif w == 'one':
        if paths == 1:
            return
        paths2, v2 = 1, W
    elif w == 'vshape':
        paths2, v2 = paths, (W[:-1] + (W[-1] + c['n'],) if W else (1 + c['n'],))
    elif w == 'rank':
        paths2, v2 = paths, (1 + c['n'],) + W
    else:
        paths2, v2 = paths, W
    stub = euler.Stub(paths2, v2, 1)

    def f(t, dt):
        return stub.value(t, dt)
    bad = stub
    if w in ('paths', 'one', 'vshape', 'rank'):
        if c['kind'] == 'process':
            bad = sdepy.process([0., 1.], x=make((2,) + v2 + (paths2,), 1))
        if c['kind'] == 'source':
            bad = dict(dw=sdepy.wiener_source, dn=sdepy.poisson_source,
                       dj=sdepy.cpoisson_source)[key](paths=paths2, vshape=v2)
    elif w == 'nopaths':
        f.vshape = v2
        bad = f
    elif w == 'novshape':
        f.paths = paths2
        bad = f
    elif w == 'notcallable':
        class obj:
            paths, vshape = paths2, v2
        bad = obj()
    elif w == 'number':
        bad = [1., 2, 0, False][c['n']]
    elif w == 'string':
        bad = key
    elif w == 'array':
        bad = np.ones(v2 + (paths2,))
    if name == 'user':
        class model(sdepy.SDE, sdepy.integrator):
            sources = {'dt', key}

            def sde(self, t, x):
                return {'dt': 1., key: 1.}
        cls = model
    elif name == 'cpoisson':
        cls = [sdepy.cpoisson_source, sdepy.true_cpoisson_source][c['which'] % 2]
    else:
        cls = getattr(sdepy, name + '_process')
    check(raises(ValueError, lambda: cls(paths=paths, vshape=v, **{key: bad})),
          '{} source refused? {}={!r} for {}, paths={}, vshape={}', w, key,
          type(bad).__name__, name, paths, v)
