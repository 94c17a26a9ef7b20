import copy
import functools
import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt import euler, srcs
from pbt.checks import c24
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, raises, identical

subs = Subs('a preset process or source realized twice from the same generator '
            'state, with its parameters in equivalent forms; or with entries of '
            'array parameters taken one at a time. Non-trivial: a parameter in '
            'a non-scalar form, two or more steps')

CFORMS = ['scalar', 'zerod', 'ones', 'full', 'list', 'call', 'callfull', 'calllist',
          'process', 'procfull', 'npfloat', 'lazy', 'lazyfull', 'method', 'partial',
          'slots', 'own']
JFORMS = ['scalar', 'zerod', 'call', 'callzerod', 'npfloat', 'lazy', 'slots', 'own',
          'partial', 'method']
MFORMS = ['array', 'list', 'trail', 'call', 'calllist', 'calltrail', 'process',
          'lazy', 'lazylist', 'method', 'slots', 'own']
LFORMS = ['call', 'process', 'calllist', 'proc3']


class Lazy:
    """A callable parameter not defined at times other than those at which it
    is needed: it cannot be evaluated in advance."""
    ready = False

    def __init__(self, v):
        self.v = v

    def __call__(self, t):
        if not Lazy.ready:
            raise ValueError('not defined at {}'.format(t))
        return self.v


class Slots:
    """A callable to which attributes cannot be added."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __call__(self, t):
        return self.v

    def method(self, t):
        return self.v


class Own:
    """A callable with unrelated attributes."""
    def __init__(self, v):
        self.v = v
        self.shape, self.vshape, self.size, self.dtype = 'round', (7,), 'large', None

    def __call__(self, t):
        return self.v


def any_callable(form, v):
    return Slots(v) if form == 'slots' else Own(v) if form == 'own' else \
        functools.partial(lambda w, t: w, v) if form == 'partial' else Slots(v).method


ANY = ('slots', 'own', 'partial', 'method')


def setup(cls, **kw):
    Lazy.ready = False
    r = cls(**kw)
    Lazy.ready = True
    return r


def const_form(form, v, shape):
    """Constant v, in one of many forms; full ones have the given shape."""
    if form == 'scalar':
        return v
    if form == 'zerod':
        return np.array(v)
    if form == 'npfloat':
        return np.float64(v)
    if form == 'ones':
        return np.full((1,)*len(shape), v)
    if form == 'full':
        return np.full(shape, v)
    if form == 'list':
        return np.full(shape, v).tolist()
    if form == 'call':
        return lambda t: v
    if form == 'callzerod':
        return lambda t: np.array(v)
    if form == 'callfull':
        return lambda t: np.full(shape, v)
    if form == 'calllist':
        return lambda t: np.full(shape, v).tolist()
    if form == 'lazy':
        return Lazy(v)
    if form == 'lazyfull':
        return Lazy(np.full(shape, v))
    if form in ANY:
        return any_callable(form, np.full(shape, v))
    if form == 'process':
        return sdepy.process(c=v)
    if form == 'procfull':
        return sdepy.process([0., 1.], x=np.full((2,) + shape, v))
    raise KeyError(form)


def matrix_form(form, m):
    m = np.asarray(m)
    if form == 'array':
        return m.copy()
    if form == 'list':
        return m.tolist()
    if form == 'trail':
        return m[..., None].copy()
    if form == 'call':
        return lambda t: m
    if form == 'calllist':
        return lambda t: m.tolist()
    if form == 'calltrail':
        return lambda t: m[..., None]
    if form == 'lazy':
        return Lazy(m)
    if form in ANY:
        return any_callable(form, m.copy())
    if form == 'lazylist':
        return Lazy(m.tolist())
    return sdepy.process(c=m)


def linear_form(form, a, b):
    """a + b*t for a, b arrays or scalars."""
    a, b = np.broadcast_arrays(a, b)
    if form == 'call':
        return lambda t: a + b*t
    if form == 'calllist':
        return lambda t: (a + b*t).tolist()
    if form == 'process':
        T = np.array([-100., 100.])
    else:
        T = np.array([-100., 0., 33., 100.])
    return sdepy.process(T, v=np.array([a + b*t for t in T]))


@st.composite
def proc_cases(draw):
    c = draw(c24.cases())
    name = c['name']
    c['dtype'] = None
    shape = c['pshape'] + [c['paths']]
    c['values'] = {k: [draw(fl(lo, hi, 2)), draw(st.sampled_from(CFORMS)),
                       draw(st.sampled_from(LFORMS))]
                   for k, (z, lo, hi) in c24.PARAMS[name].items()}
    lo = -1. if name in c24.X0 else .2
    c['x0v'] = [draw(fl(lo, 1.5, 2)), draw(st.sampled_from(CFORMS[:5]))]
    c['y0v'] = [draw(fl(.2, 1.5, 2)), draw(st.sampled_from(CFORMS[:5]))]
    M = c['wshape'][-1] if c['wshape'] else 0
    c['corr'] = draw(st.sampled_from(['none', 'corr', 'rho'])) if M else 'none'
    if c['corr'] == 'rho' and M % 2:
        c['corr'] = 'corr'
    c['cform'] = draw(st.sampled_from(MFORMS))
    c['clform'] = draw(st.sampled_from(LFORMS))
    c['lam'] = [draw(fl(0, 3, 1)), draw(st.sampled_from(CFORMS))]
    c['jump'] = [[draw(fl(.1, 1., 2)), draw(st.sampled_from(JFORMS))]
                 for k in range(3)]
    c['rng'] = draw(st.sampled_from(srcs.RNGS))
    c['time'] = draw(st.integers(0, 2)) == 0
    c['table'] = draw(st.sampled_from([None, 'call', 'call0', 'saw', 'saw0', 'bump',
                                       'bump0', 'calllist']))
    return c


def run(c, kw):
    p = setup(getattr(sdepy, c['name'] + '_process'),
        paths=c['paths'], vshape=tuple(c['vshape']),
        rng=srcs.rng(c['rng'], c['seed']),
        **dict(dict() if c['factors'] is None else dict(factors=c['factors']),
               **euler.grid_kw(c['grid'])), **kw)
    r = p(c['grid']['t'])
    return r if isinstance(r, tuple) else (r,)


def same_runs(c, a, b, what):
    ra, rb = run(c, a), run(c, b)
    for x, y in zip(ra, rb):
        if not (euler.tame(x) and euler.tame(y)):
            continue
        check(euler.close(x, y, rtol=1e-7 if c['name'] in (
            'heston', 'full_heston', 'cox_ingersoll_ross') else 1e-9),
            '{}: {} vs. {}', what, x, y)


def frozen(kw):
    return {k: np.array(z, copy=True) if isinstance(z, np.ndarray) else
            copy.deepcopy(z) if isinstance(z, list) else
            dict(vars(z)) if callable(z) and hasattr(z, '__dict__') and
            not isinstance(z, np.ndarray) else None
            for k, z in kw.items()}


def unchanged(kw, was, what):
    for k, z in kw.items():
        if isinstance(was[k], dict):
            check(set(vars(z)) == set(was[k]) and all(vars(z)[n] is w for n, w in
                                                      was[k].items()),
                  '{}: attributes of argument {} were changed: {}', what, k, vars(z))
        elif was[k] is not None:
            check(identical(np.asarray(was[k]), np.asarray(z)),
                  '{}: argument {} was modified', what, k)


@subs(proc_cases(), quick=1500, thorough=100000, shards=4)
def processes(c, ctx):
    """Constant or linear parameters in several forms."""
    name = c['name']
    shape = tuple(c['pshape']) + (c['paths'],)
    A, B = {}, {}
    for k, (v, form, lform) in c['values'].items():
        if c['time'] and c['table']:
            # same values at the start of each step
            A[k], f = euler.param(dict(form=c['table'], shape=c['pshape'] + [1],
                                       seed=c['seed'], lo=v/2, hi=v/2 + .1))
            s = np.unique(np.concatenate(euler.visited(c['grid'])))
            B[k] = sdepy.process(s, x=np.array([np.asarray(f(z)) for z in s]).reshape(
                s.shape + (tuple(c['pshape']) + (1,) if np.ndim(f(0.)) else (1,))))
        elif c['time']:
            A[k], B[k] = linear_form('call', v, .01), linear_form(lform, v, .01)
        else:
            A[k], B[k] = v, const_form(form, v, shape)
            ctx.label(form)
    A['x0'], B['x0'] = c['x0v'][0], const_form(c['x0v'][1], c['x0v'][0], shape)
    if 'heston' in name:
        A['y0'], B['y0'] = c['y0v'][0], const_form(c['y0v'][1], c['y0v'][0], shape)
    if c['corr'] != 'none':
        M = c['wshape'][-1]
        if c['corr'] == 'corr':
            m, n = [srcs.corr_matrix(M, c['seed'] + z) for z in (0, 1)]
        else:
            m, n = np.random.RandomState(c['seed']).uniform(-1, 1, size=(2, M//2))
        if c['time']:
            w = (m + n)/2, (n - m)/200
            A[c['corr']] = linear_form('call', *w)
            B[c['corr']] = linear_form(c['clform'], *w)
        else:
            A[c['corr']], B[c['corr']] = m, matrix_form(c['cform'], m)
            ctx.label('corr-' + c['cform'])
    if 'jump' in name:
        v, form = c['lam']
        lshape = tuple(c['vshape']) + (c['paths'],)
        A['lam'], B['lam'] = v, const_form(form, v, lshape)
        keys = dict(jumpdiff=[], merton_jumpdiff=['a', 'b'],
                    kou_jumpdiff=['a', 'b', 'pa'])[name]
        for k, (v, form) in zip(keys, c['jump']):
            A[k], B[k] = v, const_form(form, v, ())
    ctx.label(name, 'time' if c['time'] else 'const')
    ctx.nt(euler.nsteps(c['grid']) > 1)
    wasA, wasB = frozen(A), frozen(B)
    same_runs(c, A, B, 'two forms of the same parameters')
    unchanged(A, wasA, name)
    unchanged(B, wasB, name)


@st.composite
def entry_cases(draw):
    c = draw(c24.cases())
    c['dtype'] = None
    shape = c['pshape'] + [c['paths']]
    for k, (z, lo, hi) in c24.PARAMS[c['name']].items():
        c['params'][k] = dict(euler_param(draw, shape, lo, hi))
    lo = -1. if c['name'] in c24.X0 else .2
    c['x0p'] = dict(euler_param(draw, shape, lo, 1.5, const=True))
    c['rng'] = draw(st.sampled_from(srcs.RNGS))
    c['which'] = draw(st.sampled_from(['path', 'component']))
    return c


def euler_param(draw, shape, lo, hi, const=False):
    d = draw(euler.params(shape, lo, hi, const=const))
    d['form'] = draw(st.sampled_from(['array', 'call', 'array', 'procpaths', 'bump',
                                      'bump0', 'saw', 'saw0']
                                     if not const else ['array', 'list']))
    d['shape'] = [n if draw(st.integers(0, 3)) else 1 for n in shape]
    return d


@subs(entry_cases(), quick=1000, thorough=60000, shards=2)
def entries(c, ctx):
    """Each path, or component, sees its own parameters."""
    shape = tuple(c['pshape']) + (c['paths'],)
    kw, value = {}, {}
    for k, d in c['params'].items():
        kw[k], value[k] = euler.param(d)
    kw['x0'], value['x0'] = euler.param(c['x0p'])
    was = frozen(kw)
    whole = run(c, kw)
    unchanged(kw, was, c['name'])
    ctx.label(c['name'], c['which'])
    ctx.nt(euler.nsteps(c['grid']) > 1 and len(shape) > 1)
    r = np.random.RandomState(c['seed'])
    if c['which'] == 'path' or c['name'] == 'hull_white' or not c['vshape']:
        k = int(r.randint(c['paths']))
        sel = np.index_exp[..., k:k+1]
        out = np.index_exp[..., k]
    else:
        i = tuple(int(r.randint(n)) for n in c['vshape'])
        k = int(r.randint(c['paths']))
        sel = tuple(slice(z, z+1) for z in i + (k,))
        out = np.index_exp[:] + i + (k,)

    def one(f):
        return lambda t: np.broadcast_to(f(t), shape)[sel]
    kw1 = {k: one(f) if k != 'x0' else one(f)(0) for k, f in value.items()}
    alone = run(c, kw1)
    for x, y in zip(whole, alone):
        x, y = x[out], y[out]
        if euler.tame(x) and euler.tame(y):
            check(euler.close(np.asarray(x), np.asarray(y), rtol=1e-6 if c['name'] in (
                'heston', 'full_heston', 'cox_ingersoll_ross') else 1e-8),
                'entry {} is {}, but {} if its parameters are used for all', out, x,
                y)


# ---------------------------------------------------------------- sources
@st.composite
def source_cases(draw):
    name = draw(st.sampled_from(srcs.ALL))
    vshape = draw(vshapes(2, 2))
    k = srcs.kind(name)
    which = 'none'
    if k == 'wiener' and vshape:
        which = draw(st.sampled_from(['corr', 'rho']))
        if which == 'rho':
            vshape[-1] = draw(st.sampled_from([2, 4]))
    n = draw(st.integers(1, 5))
    return dict(name=name, vshape=vshape, paths=2*draw(st.integers(1, 3)),
                which=which, form=draw(st.sampled_from(MFORMS)),
                lform=draw(st.sampled_from(LFORMS)), time=draw(st.booleans()),
                lam=[draw(fl(0, 3, 1)), draw(st.sampled_from(CFORMS))],
                law=draw(st.sampled_from(['uniform', 'norm', 'exp', 'dexp'])),
                jump=[[draw(fl(.1, .9, 2)), draw(st.sampled_from(JFORMS))]
                      for i in range(3)],
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)),
                t=draw(st.lists(fl(-2, 2, 1), min_size=n, max_size=n)),
                dt=draw(st.lists(fl(-1, 1, 1), min_size=n, max_size=n)))


def rv(c, forms):
    v = [const_form(f if forms else 'scalar', z, ()) for z, f in c['jump']]
    if c['law'] == 'uniform':
        return sdepy.uniform_rv(const_form(c['jump'][0][1] if forms else 'scalar',
                                           -c['jump'][0][0], ()), v[1])
    if c['law'] == 'norm':
        return sdepy.norm_rv(v[0], v[1])
    if c['law'] == 'exp':
        return sdepy.exp_rv(v[0])
    return sdepy.double_exp_rv(*v)


@subs(source_cases(), quick=1500, thorough=100000, shards=2)
def sources(c, ctx):
    name, k = c['name'], srcs.kind(c['name'])
    v = tuple(c['vshape'])
    paths = c['paths']
    A, B = {}, {}
    if k == 'wiener':
        if c['which'] == 'none':
            return
        M = v[-1]
        if c['which'] == 'corr':
            m, n = [srcs.corr_matrix(M, c['seed'] + z) for z in (0, 1)]
        else:
            m, n = np.random.RandomState(c['seed']).uniform(-1, 1, size=(2, M//2))
        if c['time']:
            w = (m + n)/2, (n - m)/200
            A[c['which']] = linear_form('call', *w)
            B[c['which']] = linear_form(c['lform'], *w)
        else:
            A[c['which']], B[c['which']] = m, matrix_form(c['form'], m)
    else:
        n = paths//2 if srcs.antithetic(name) else paths
        lam, form = c['lam']
        if c['time']:
            A['lam'] = linear_form('call', lam, .01)
            B['lam'] = linear_form(c['lform'], lam, .01)
            if lam < .1:
                return
        else:
            A['lam'], B['lam'] = lam, const_form(form, lam, v + (n,))
    if k == 'cpoisson':
        A['y'], B['y'] = rv(c, False), rv(c, True)
    ctx.nt(len(c['t']) > 1)
    ctx.label(name, 'time' if c['time'] else 'const')
    wasA, wasB = frozen(A), frozen(B)
    dz = [setup(srcs.cls(name), paths=paths, vshape=v,
                rng=srcs.rng(c['rng'], c['seed']), **kw) for kw in (A, B)]
    steps = list(zip(c['t'], c['dt']))
    if name == 'true_wiener':
        # each new point beyond stored ones: the decomposition of the covariance
        # of a point in between is not continuous, so that rounding may
        # lead to other realizations (of the same law: see C17)
        t = np.cumsum([0.] + [abs(dt) for dt in c['dt']])
        steps = list(zip(t[:-1], np.diff(t)))
    for t, dt in steps:
        a, b = dz[0](t, dt), dz[1](t, dt)
        check(euler.close(a, b, rtol=1e-7), 'increments {} vs. {} at {}', a, b,
              (t, dt))
    unchanged(A, wasA, name)
    unchanged(B, wasB, name)
