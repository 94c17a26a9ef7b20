import collections
import copy
import inspect
import numpy as np
import sdepy
from sdepy import SDE, integrator
from hypothesis import strategies as st
from pbt import euler
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, raises, identical

subs = Subs('generated SDE classes (polynomial coefficients over dt, dw, dn, dj '
            'and a custom differential), integrated over a generated grid with '
            'recording sources, vs. a reference recursion. Non-trivial: two or '
            'more steps and two or more differentials')

IDS = ['dt', 'dw', 'dn', 'dj', 'dz']


@st.composite
def terms(draw, names):
    """A coefficient: sum of const*x**p*t**r*param."""
    return draw(st.lists(st.fixed_dictionaries(dict(
        c=st.sampled_from([1, -1, .5, .3, 2]), p=st.sampled_from([0, 0, 1, 1, 2]),
        r=st.sampled_from([0, 0, 0, 1]),
        a=st.sampled_from([None] + names))), min_size=1, max_size=2))


def evaluate(tt, t, x, args):
    v = 0
    for k in tt:
        z = k['c']
        if k['p']:
            z = z*x**k['p']
        if k['r']:
            z = z*t
        if k['a'] is not None:
            z = z*args[k['a']]
        v = v + z
    return v


@st.composite
def programs(draw):
    vshape = draw(vshapes(2, 2))
    paths = draw(st.integers(1, 3))
    shape = vshape + [paths]
    names = ['a', 'b', 'k'][:draw(st.integers(0, 3))]
    ids = draw(st.lists(st.sampled_from(IDS), min_size=1, max_size=5, unique=True))
    log = draw(st.integers(0, 3)) == 0
    used = [i for i in ids if draw(st.integers(0, 5))]
    coeffs = {i: draw(terms(names)) for i in used}
    return dict(vshape=vshape, paths=paths, log=log, ids=ids, coeffs=coeffs,
                grid=draw(euler.grids()),
                params={n: draw(euler.params(shape, -.9, .9)) for n in names},
                default={n: draw(st.sampled_from(['none', 'value', 'used']))
                         for n in names},
                x0=draw(st.one_of(st.none(), euler.params(
                    shape, .2 if log else -1, 1, const=True))),
                seed=draw(seeds),
                svshape={i: draw(broadcast_of(vshape)) for i in ids},
                dtype=draw(st.sampled_from([None, None, 'f8', 'c16'])),
                getinfo=draw(st.booleans()), info=draw(st.booleans()))


def build(c):
    """The SDE class, parameters for it, functions of t, and sources."""
    names = sorted(c['params'])
    coeffs = c['coeffs']
    user, value, defaults = {}, {}, {}
    for n in names:
        v, f = euler.param(c['params'][n])
        mode = c['default'][n]
        value[n] = f
        if mode == 'used':
            defaults[n] = v
        else:
            user[n] = v
            if mode == 'value':
                defaults[n] = 7.

    seen = []

    def sde(self, t, x, args):
        seen.append((float(t), {n: args[n] for n in names}, np.array(x)))
        return {i: evaluate(coeffs[i], t, x, args) for i in coeffs}

    ns = dict(_sde=sde, D=defaults)
    # parameters with a default come last
    order = [n for n in names if n not in defaults] + sorted(defaults)
    sig = ''.join(', {}'.format(n) + ('=D["{}"]'.format(n) if n in defaults else '')
                  for n in order)
    exec('def sde(self, t, x{}):\n    return _sde(self, t, x, dict({}))'.format(
        sig, ', '.join('{0}={0}'.format(n) for n in names)), ns)

    def source_dz(self, zscale=1.):
        z = euler.Stub(self.paths, c['svshape'].get('dz', []), c['seed'] + 99)
        self.zstub = z
        z.a, z.b, z.c = z.a*zscale, z.b*zscale, z.c*zscale
        return z

    cls = type('generated', (SDE, integrator), dict(
        sde=ns['sde'], sources=set(c['ids']), log=c['log'], source_dz=source_dz))
    stubs = {}
    for k, i in enumerate(c['ids']):
        if i in ('dw', 'dn', 'dj'):
            stubs[i] = euler.Stub(c['paths'], c['svshape'][i], c['seed'] + k,
                                  ints=i == 'dn')
    return cls, user, value, stubs, seen


def check_seen(c, seen, value):
    """Parameters are evaluated at the start of each step."""
    for t, args, x in seen:
        for n, v in args.items():
            check(isinstance(v, np.ndarray), 'parameter {} passed to sde as {}', n,
                  type(v).__name__)
            check(euler.close(np.broadcast_to(v, c['vshape'] + [c['paths']]),
                              np.broadcast_to(value[n](t),
                                              c['vshape'] + [c['paths']])),
                  'parameter {} is {} at t={} instead of {}', n, v, t,
                  value[n](t))


@subs(programs(), quick=2000, thorough=200000, shards=4)
def recursion(c, ctx):
    cls, user, value, stubs, seen = build(c)
    shape = tuple(c['vshape']) + (c['paths'],)
    kw = dict(euler.grid_kw(c['grid']), paths=c['paths'], **user)
    kw['vshape'] = tuple(c['vshape'])
    if len(c['vshape']) == 1 and c['seed'] % 2:
        kw['vshape'] = c['vshape'][0]
    if c['dtype']:
        kw['dtype'] = np.dtype(c['dtype'])
    if not c['getinfo']:
        kw['getinfo'] = False
    info = {}
    if c['info']:
        kw['info'] = info
    x0 = 1.
    if c['x0'] is not None:
        kw['x0'], f = euler.param(c['x0'])
        x0 = f(0)
        if c['log'] and np.any(np.asarray(x0) <= 0):
            return
    kw.update(stubs)
    if 'dz' in c['ids'] and c['seed'] % 3 == 0:
        kw['zscale'] = .5
    p = cls(**kw)
    n = len(seen)
    x = p(c['grid']['t'])
    ctx.label('log' if c['log'] else 'plain', 'dt{}'.format(c['dtype']),
              *[d['form'] for d in c['params'].values()])
    ctx.nt(euler.nsteps(c['grid']) > 1 and len(c['coeffs']) > 1)
    src = dict(stubs)
    if 'dz' in c['ids']:
        src['dz'] = p.zstub

    def step(s, ds, x):
        args = {n: f(s) for n, f in value.items()}
        y = x
        for i, tt in c['coeffs'].items():
            d = ds if i == 'dt' else src[i].value(s, ds)
            y = y + evaluate(tt, s, x, args)*d
        return y

    with np.errstate(all='ignore'):
        start = np.log(x0) if c['log'] else x0
        want = euler.reference(c['grid'], start, step, shape,
                               dtype=c['dtype'] or float)
        raw = want
        if c['log']:
            want = np.exp(want)
    if not euler.tame(raw) or not euler.tame(want):
        ctx.label('diverged')
        return
    check(isinstance(x, sdepy.process), 'result of type {}', type(x).__name__)
    check(identical(x.t, np.asarray(c['grid']['t'])), 'timeline {} instead of {}',
          x.t, c['grid']['t'])
    check(x.shape == want.shape, 'shape {} instead of {}', x.shape, want.shape)
    check(x.dtype == np.dtype(c['dtype'] or float), 'dtype {}', x.dtype)
    check(euler.close(x, want), 'result {} instead of {}', x, want)
    check_seen(c, seen, value)
    check((p.info is info) if c['info'] else True, 'info is not the given one')


# ------------------------------------------------------- overridden hooks
@st.composite
def hook_cases(draw):
    vshape = draw(vshapes(1, 2))
    return dict(vshape=vshape, paths=draw(st.integers(1, 3)),
                extra=draw(st.integers(1, 3)), grid=draw(euler.grids()),
                seed=draw(seeds), scale=draw(fl(-2, 2, 1)),
                y0=draw(fl(-1, 1, 1)), log=draw(st.booleans()),
                flat=draw(st.booleans()))


@subs(hook_cases(), quick=600, thorough=50000)
def hooks(c, ctx):
    """Class with its own shapes, init, more, let and result."""
    ctx.nt(euler.nsteps(c['grid']) > 1)
    t0s, lets = [], []
    flat = c['flat'] and len(c['vshape']) > 0
    split = tuple(c['vshape']) + (c['extra'], c['paths'])

    class model(SDE, integrator):
        sources = {'dt', 'dw'}
        log = c['log']

        def more(self, extra=1, scale=1.):
            self.scale2 = 2*scale

        def shapes(self, vshape):
            w = vshape + (self.args['extra'],)
            if flat:
                w = vshape[:-1] + (vshape[-1]*self.args['extra'],)
            return vshape, vshape, w

        def init(self, t, out_x, x0=1., y0=0.):
            t0s.append(t)
            out_x[...] = np.exp(x0 + y0*t)

        def sde(self, t, x, a=.5):
            return {'dt': a - .2*x, 'dw': .3}

        def let(self, t, out_x, x):
            lets.append(t)
            out_x[...] = x.reshape(split).sum(axis=-2)

        def result(self, tt, xx):
            return 'r', sdepy.process(t=tt, x=self.scale2*xx)

    wshape = tuple(c['vshape']) + (c['extra'],)
    if flat:
        wshape = tuple(c['vshape'][:-1]) + (c['vshape'][-1]*c['extra'],)
    dw = euler.Stub(c['paths'], wshape, c['seed'])
    p = model(paths=c['paths'], vshape=tuple(c['vshape']), extra=c['extra'],
              scale=c['scale'], y0=c['y0'], dw=dw, x0=.25,
              **euler.grid_kw(c['grid']))
    check(p.vshape == tuple(c['vshape']) and p.wshape == wshape and
          p.xshape == p.vshape, 'shapes {} {} {}', p.vshape, p.xshape, p.wshape)
    r = p(c['grid']['t'])
    check(isinstance(r, tuple) and r[0] == 'r', 'result() is not returned')
    t0 = c['grid']['t'][c['grid']['i0']]
    x0 = np.exp(.25 + c['y0']*t0)
    want = euler.reference(c['grid'], np.log(x0) if c['log'] else x0,
                           lambda s, ds, x: x + (.5 - .2*x)*ds + .3*dw.value(s, ds),
                           wshape + (c['paths'],))
    want = want.reshape((-1,) + split).sum(axis=-2)
    if c['log']:
        want = np.exp(want)
    check(euler.close(r[1], 2*c['scale']*want), 'result {} instead of {}', r[1],
          2*c['scale']*want)
    check(set(t0s) == {t0}, 'initial conditions at {} instead of {}', t0s, t0)
    check(set(lets) == set(c['grid']['t']), 'values stored at {} instead of {}',
          lets, c['grid']['t'])


# ------------------------------------------------------------- extensions
class Terms(dict):
    pass


@st.composite
def extension_cases(draw):
    vshape = draw(vshapes(2, 2))
    paths = draw(st.integers(1, 3))
    return dict(vshape=vshape, paths=paths, grid=draw(euler.grids()),
                k=draw(euler.params(vshape + [paths], .2, 1, const=True)),
                default=draw(st.sampled_from(['same', 'copy', 'required', 'mixed'])),
                given=draw(st.booleans()), seed=draw(seeds), log=draw(st.booleans()),
                method=draw(st.sampled_from(['default', 'euler', 'heun', 'heun'])),
                where=draw(st.sampled_from(['sde', 'integrator', 'both'])),
                ret=draw(st.sampled_from(['dict', 'ordered', 'sub', 'default'])),
                scalar=draw(st.booleans()))


@subs(extension_cases(), quick=800, thorough=60000, shards=2)
def extensions(c, ctx):
    """A parameter shared by init, sde, more and the setup of a source; a user
    defined integration method; dictionaries of any type."""
    arg, f = euler.param(c['k'])
    kval = f(0)
    if c['default'] == 'required':
        given, D = True, [inspect.Parameter.empty]*4
    else:
        given = c['given']
        base = 2. if given else arg
        D = [base if c['default'] == 'same' else copy.deepcopy(base)
             for j in range(4)]
        if c['default'] == 'mixed':
            D = [np.array(D[0], dtype=float).tolist(), D[1], np.array(D[2]), D[3]]
    ret = dict(dict=dict, ordered=collections.OrderedDict, sub=Terms,
               default=lambda d: collections.defaultdict(float, d))[c['ret']]
    got = {}

    def init(self, t, out_x, k, x0=1.):
        got['init'] = k
        out_x[...] = x0 + .5*k

    def more(self, k):
        got['more'] = k

    def sde(self, t, x, k, a=.3):
        got['sde'] = k
        return ret({'dt': a - .1*k*x, 'dw': .2, 'dz': .1*k + .1*t})

    def source_dz(self, k):
        got['source'] = k
        self.stub = euler.Stub(self.paths, (), c['seed'] + 1)
        return self.stub

    def with_default(g, v):
        s = inspect.signature(g)
        ps = [p.replace(default=v) if p.name == 'k' else p for p in
              s.parameters.values()]
        if v is inspect.Parameter.empty:
            ps = sorted(ps, key=lambda p: p.default is not v)
        elif g is init or g is sde:
            # parameters with a default come last
            ps = [p for p in ps if p.name != 'k' and p.default is p.empty] + \
                [p for p in ps if p.name == 'k' or p.default is not p.empty]

        def h(*args, **kw):
            b = s2.bind(*args, **kw)
            b.apply_defaults()
            return g(**b.arguments)
        s2 = h.__signature__ = s.replace(parameters=ps)
        return h
    ns = {g.__name__: with_default(g, v) for g, v in
          zip((init, more, sde, source_dz), D)}

    def heun_next(self):
        iv = self.itervars
        s, ds, x = iv['sw'][0], iv['sw'][1] - iv['sw'][0], iv['xw'][0]
        A, dZ = self.A(s, x), self.dZ(s, ds)
        y = x + sum(A[i]*dZ[i] for i in A)
        B = self.A(s + ds, y)
        iv['xw'][1][...] = x + sum((A[i] + B[i])/2*dZ[i] for i in A)

    def wrong_next(self):
        fail('not the method of the first class')
    ns.update(sources={'dt', 'dw', 'dz'}, log=c['log'])
    ins = {}
    if c['where'] in ('sde', 'both'):
        ns['heun_next'] = heun_next
    if c['where'] in ('integrator', 'both'):
        ins['heun_next'] = heun_next if c['where'] == 'integrator' else wrong_next
    cls = type('model', (type('eq', (SDE,), ns),
                         type('scheme', (integrator,), ins)), {})
    dw = euler.Stub(c['paths'], c['vshape'], c['seed'])
    kw = dict(k=arg) if given else {}
    if c['method'] != 'default':
        kw['method'] = c['method']
    p = cls(paths=c['paths'], vshape=tuple(c['vshape']), dw=dw, x0=.75,
            **euler.grid_kw(c['grid']), **kw)
    check(p.method == kw.get('method', 'euler'), 'method {}', p.method)
    x = p(c['grid']['t'])
    ctx.nt(euler.nsteps(c['grid']) > 1)
    ctx.label(c['method'], c['default'], c['ret'])
    for g, v in got.items():
        check(euler.close(np.asarray(v, dtype=float), np.asarray(kval, dtype=float)),
              'parameter {} passed to {} instead of {}', v, g, kval)
    check(set(got) >= {'init', 'more', 'source'}, 'k passed to {} only', set(got))

    def coeffs(s, x):
        return (.3 - .1*kval*x, .2, .1*kval + .1*s)

    def step(s, ds, x):
        d = (ds, dw.value(s, ds), p.stub.value(s, ds))
        A = coeffs(s, x)
        y = x + sum(a*z for a, z in zip(A, d))
        if c['method'] != 'heun':
            return y
        return x + sum((a + b)/2*z for a, b, z in zip(A, coeffs(s + ds, y), d))
    x0 = .75 + .5*kval
    want = euler.reference(c['grid'], np.log(x0) if c['log'] else x0, step,
                           tuple(c['vshape']) + (c['paths'],))
    if not euler.tame(want):
        return
    want = np.exp(want) if c['log'] else want
    if euler.tame(want):
        check(euler.close(x, want), 'result {} instead of {}', x, want)


# ----------------------------------------------------------------- refused
@st.composite
def refused_cases(draw):
    return dict(what=draw(st.sampled_from(
        ['unknown', 'missing', 'missinginit', 'notdict', 'key', 'method', 'source', 'nointegrator',
         'order', 'order2', 'clash', 'clash3', 'clash0',
         'nomethod'])), seed=draw(seeds), extra=draw(st.sampled_from(
             ['sigma2', 'x', 't', 'X0', 'mu_', 'lam', 'self_'])),
        ret=draw(st.sampled_from(['list', 'tuple', 'float', 'array', 'none', 'set'])))


@subs(refused_cases(), quick=300, thorough=5000)
def refused(c, ctx):
    ctx.nt()
    w = c['what']
    base = (SDE, integrator)
    ns = dict(sde=lambda self, t, x, mu=1., sigma=1.: {'dt': mu, 'dw': sigma})
    kw = {}
    if w == 'unknown':
        kw[c['extra']] = 1.
    elif w == 'missinginit':
        ns['init'] = lambda self, t, out_x, x0: None
        kw['mu'] = 2.
    elif w == 'missing':
        ns['sde'] = lambda self, t, x, mu, sigma=1.: {'dt': mu, 'dw': sigma}
        kw['sigma'] = 2.
    elif w == 'notdict':
        bad = dict(list=[{'dt': 1}], tuple=({'dt': 1},), float=1., none=None,
                   array=np.ones(1), set={'dt'})[c['ret']]
        ns['sde'] = lambda self, t, x: bad
    elif w == 'key':
        ns['sde'] = lambda self, t, x: {'dt': 1., 'dn': 1., 'dw': 2.}
    elif w == 'method':
        kw['method'] = ['milstein', 'Euler', 'next', '', 'euler_next'][c['seed'] % 5]
        if kw['method'] == 'next':
            kw['method'] = 'rk'
    elif w == 'source':
        ns['sources'] = {'dt', 'dq'}
    elif w == 'nointegrator':
        base = (SDE,)
    elif w == 'order':
        base = (integrator, SDE)
    elif w == 'order2':
        base = (sdepy.wiener_process,)
        ns = {}
        base = (type('first', (integrator,), {}), type('second', (SDE,), ns))
    elif w == 'nomethod':
        kw['method'] = None
    elif w == 'clash3':     # the third of three equal names
        ns['init'] = lambda self, t, out_x, x0=1., mu=1.: None
        ns['more'] = lambda self, mu=2.: None
    elif w == 'clash0':     # a default, and none
        k = c['seed'] % 4
        if k == 0:
            ns['init'] = lambda self, t, out_x, mu, x0=1.: None
        elif k == 1:
            ns['more'] = lambda self, mu: None
        else:
            ns['sde'] = lambda self, t, x, mu, sigma=1.: {'dt': mu, 'dw': sigma}
            if k == 2:
                ns['init'] = lambda self, t, out_x, x0=1., mu=1.: None
            else:
                ns['more'] = lambda self, mu=1.: None
        if c['seed'] % 3:
            kw['mu'] = 1.
    elif w == 'clash':
        ns['init'] = lambda self, t, out_x, x0=1., mu=2.: None
    cls = type('bad', base, ns)

    def run():
        cls(**kw)([0., 1.])
    check(raises(Exception, run), '{} {} not refused', w, kw)
    if w in ('unknown', 'missing', 'missinginit', 'method', 'nomethod',
             'source', 'clash', 'clash3', 'clash0'):
        check(raises(Exception, lambda: cls(**kw)),
              '{} {} not refused at instantiation', w, kw)
