import inspect
import numpy as np
import sdepy
import sdepy.analytical
import sdepy.infrastructure
import sdepy.integration
from sdepy import iskfunc
from hypothesis import strategies as st
from pbt import euler, srcs, analytic
from pbt.checks import c24, c28
from pbt.checks.c30 import SHORT
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, identical, raises

subs = Subs('a shortcut, or analytical kfunc, called with generated parameters in '
            'one or several stages, vs. the class or plain function it stands '
            'for. Non-trivial: parameters given in two or more stages, or '
            'some parameter not at its default')


def stages(keys, order, cuts):
    """Keywords split into consecutive groups."""
    keys = [k for i, k in sorted(zip(order, keys))]
    cuts = [0] + sorted(min(z, len(keys)) for z in cuts) + [len(keys)]
    return [keys[a:b] for a, b in zip(cuts[:-1], cuts[1:])]


ORDER = dict(order=st.permutations(range(20)),
             cuts=st.lists(st.integers(0, 12), max_size=3))


# ---------------------------------------------------------------- sources
@st.composite
def source_cases(draw):
    name = draw(st.sampled_from(srcs.ALL))
    vshape = draw(vshapes(2, 3))
    paths = 2*draw(st.integers(1, 3))
    n = draw(st.integers(1, 4))
    return dict(name=name, vshape=vshape, paths=paths,
                par=draw(srcs.params(name, vshape, paths)),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)),
                dtype=draw(st.booleans()), kwvar=draw(st.booleans()),
                last=draw(st.booleans()),
                t=draw(st.lists(fl(-2, 2, 1), min_size=n, max_size=n)),
                dt=draw(st.lists(fl(-1, 1, 1), min_size=n, max_size=n)),
                **{k: draw(z) for k, z in ORDER.items()})


@subs(source_cases(), quick=2000, thorough=150000, shards=2)
def sources(c, ctx):
    name = c['name']
    K, base = getattr(sdepy, srcs.SHORT[name]), srcs.cls(name)
    check(iskfunc(K) and issubclass(K, base), '{} is not a kfunc made from {}',
          srcs.SHORT[name], base.__name__)
    check(not iskfunc(base), '{} is a kfunc', base.__name__)
    check(base is getattr(sdepy.infrastructure, name + '_source'), 'class')
    par = c['par']

    def kwargs(g):
        kw = dict(paths=c['paths'], vshape=tuple(c['vshape']), rng=g,
                  **srcs.kwargs(name, par, c['vshape'], c['paths']))
        if c['dtype']:
            kw['dtype'] = float
        return kw
    g, h = [srcs.rng(c['rng'], c['seed']) for k in range(2)]
    direct = base(**kwargs(g))
    kw = kwargs(h)
    rest = [k for k in kw if k not in ('paths', 'vshape')]
    o = K
    steps = [['paths', 'vshape']] + stages(rest, c['order'], c['cuts'])
    steps = [s for s in steps if s]
    ctx.nt(len(steps) > 2)
    ctx.label(name)
    once = c['last'] and len(c['t']) == 1
    for s in steps[:-1] if once else steps:
        o = o(**{k: kw[k] for k in s})
        check(isinstance(o, K), 'not an instance of {}', srcs.SHORT[name])
    for k in kw:
        if once and k in steps[-1]:
            continue
        check(k in o.params and (o.params[k] is kw[k] or np.array_equal(
            o.params[k], kw[k])), 'params[{}] is {}', k, o.params.get(k))
    for t, dt in zip(c['t'], c['dt']):
        want = direct(t, dt)
        last = {k: kw[k] for k in steps[-1]} if once else {}
        got = o(t=t, dt=dt, **last) if c['kwvar'] else o(t, dt, **last)
        check(identical(got, want), '{} of {} {}: {} instead of {}',
              srcs.SHORT[name], t, dt, got, want)
    check(srcs.state(g) == srcs.state(h), 'states of the generator')


# -------------------------------------------------------------- processes
@st.composite
def process_cases(draw):
    c = draw(c24.cases())
    c['kind'] = 'preset'
    c['mixin'] = False
    c['lam'] = draw(st.sampled_from([None, 0., 2.]))
    c['corr'] = draw(st.booleans())
    c['srcs'] = draw(st.sampled_from(['default', 'class']))
    c['rng'] = draw(st.sampled_from(srcs.RNGS))
    c.update(last=draw(st.booleans()), kwvar=draw(st.booleans()),
             short=draw(st.booleans()))
    for k, z in ORDER.items():
        c[k] = draw(z)
    return c


@subs(process_cases(), quick=2000, thorough=150000, shards=2)
def processes(c, ctx):
    name = c['name']
    base, K = getattr(sdepy, name + '_process'), getattr(sdepy, SHORT[name])
    check(iskfunc(K) and issubclass(K, base), '{} is not a kfunc made from {}',
          SHORT[name], base.__name__)
    check(not iskfunc(base), '{} is a kfunc', base.__name__)
    check(base is getattr(sdepy.integration, name + '_process'), 'class')
    t = c['grid']['t']
    g, h = [srcs.rng(c['rng'], c['seed']) for k in range(2)]
    _, kw = c28.arguments(c)
    if c['short'] and c['paths'] % 2 == 0:      # shortcuts as parameters
        kw['dw'] = sdepy.odd_dw
    direct = dict(kw, rng=g)
    if 'dw' in kw:
        direct['dw'] = sdepy.odd_wiener_source
    want = c28.call(base(**direct), t)
    kw = dict(kw, rng=h)
    first = [k for k in ('paths', 'vshape', 'factors') if k in kw]
    steps = [first] + stages([k for k in kw if k not in first], c['order'],
                             c['cuts'])
    steps = [s for s in steps if s]
    ctx.nt(len(steps) > 2 and euler.nsteps(c['grid']) > 0)
    ctx.label(SHORT[name])
    o = K
    for s in steps[:-1] if c['last'] else steps:
        o = o(**{k: kw[k] for k in s})
        check(isinstance(o, K), 'not an instance of {}', SHORT[name])
    last = {k: kw[k] for k in steps[-1]} if c['last'] else {}
    with np.errstate(all='ignore'):
        got = o(timeline=t, **last) if c['kwvar'] else o(t, **last)
    check(isinstance(got, tuple) == (name == 'full_heston'), 'result of type {}',
          type(got).__name__)
    got = got if isinstance(got, tuple) else (got,)
    check(len(got) == len(want), '{} results', len(got))
    for x, y in zip(got, want):
        check(isinstance(x, sdepy.process) and identical(x.t, y.t), 'timeline')
        check(identical(np.asarray(x), np.asarray(y)), '{}: {} instead of {}',
              SHORT[name], x, y)
    check(srcs.state(g) == srcs.state(h), 'states of the generator')


# -------------------------------------------------------------- functions
@st.composite
def function_cases(draw):
    name = draw(st.sampled_from(sorted(analytic.FUNCS)))
    if name in analytic.SLOW:
        name = draw(st.sampled_from(sorted(analytic.FUNCS)))
    V, P = analytic.FUNCS[name]
    var = {v: draw(fl(*analytic.RANGE[v], 2)) for v in V}
    shape = draw(st.lists(st.integers(1, 3), max_size=2))
    return dict(name=name, var=var, par=draw(analytic.values(P)),
                keep=draw(st.lists(st.sampled_from(sorted(P)), unique=True)),
                shape=shape, kwvar=draw(st.booleans()), late=draw(st.booleans()),
                shaped=draw(st.lists(st.sampled_from(sorted(list(P) + list(V))),
                                     unique=True)), seed=draw(seeds),
                decoy=draw(st.booleans()),
                **{k: draw(z) for k, z in ORDER.items()})


def _all_functions():
    return [dict(name=name, var={v: 1.2 for v in analytic.FUNCS[name][0]},
                 par={k: .5 if not isinstance(z[0], tuple) else [.5, .6] for k, z in
                      analytic.FUNCS[name][1].items()}, keep=keep, shape=[],
                 kwvar=False, late=late, shaped=[], seed=0, decoy=False,
                 order=list(range(20)), cuts=[2])
            for name in sorted(analytic.FUNCS) for keep, late in (([], True), (
                sorted(analytic.FUNCS[name][1]), False))]


def equal(a, b):
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(
            identical(x, y) for x, y in zip(a, b))
    return identical(a, b)


@subs(function_cases(), quick=3000, thorough=100000, shards=4,
      examples=_all_functions())
def functions(c, ctx):
    name = c['name']
    V, P = analytic.FUNCS[name]
    K, plain = getattr(sdepy, name), getattr(sdepy.analytical, name)
    check(iskfunc(K), '{} is not a kfunc', name)
    check(not iskfunc(plain), 'analytical.{} is a kfunc', name)
    var, par = dict(c['var']), dict(c['par'])
    slow = name in analytic.SLOW
    two = name.startswith('hw2f')
    r = np.random.RandomState(c['seed'])
    for k in c['shaped']:
        if slow or (two and k in P and k != 'rho'):
            continue
        z = var if k in var else par
        z[k] = z[k]*r.uniform(.9, 1.1, size=c['shape'])
    par = {k: v for k, v in par.items() if k in c['keep']}
    # documented defaults, in full
    full = {k: par.get(k, z[0]) for k, z in P.items()}
    pos = [var[v] for v in V]
    with np.errstate(all='ignore'):
        want = plain(*pos, **full)
        check(equal(plain(*pos, **par), want), 'defaults of analytical.{}', name)
        check(equal(K(*pos, **par), want), '{} at once: {} instead of {}', name,
              K(*pos, **par), want)
        check(equal(K(**dict(var, **par)), want), '{} by keyword', name)
        steps = stages(sorted(par), c['order'], c['cuts'])
        last = {k: par[k] for k in steps.pop()} if c['late'] else {}
        ctx.label(name)
        ctx.nt(len(par) > 0)
        o, given = K, {}
        for s in [[]] + steps:
            now = {k: par[k] for k in s}
            if c['decoy'] and given:    # evaluations, and changes, on the side
                k = sorted(given)[0]
                old = o(*pos)
                o(*pos, **{k: P[k][0]})
                o(**{k: P[k][0]})
                check(equal(o(*pos), old), '{}: an instance was changed', name)
            o = o(**now) if now or o is K else o
            given.update(now)
            check(isinstance(o, K), 'not an instance')
            p = o.params
            for k, z in P.items():
                check(k in p and np.array_equal(p[k], given.get(k, z[0])),
                      'params[{}] of {} is {}', k, name, p.get(k))
            check(set(p) == set(P), 'params {} of {}', set(p), name)
        got = o(**dict(var, **last)) if c['kwvar'] else o(*pos, **last)
        check(equal(got, want), '{} in stages: {} instead of {}', name, got, want)
    check(raises(TypeError, lambda: K(*pos, unheard_of=1)), 'unknown not refused')


# ----------------------------------------------------------------- exports
NAMES = sorted(set(srcs.SHORT.values()) | set(SHORT.values()) |
               set(analytic.FUNCS) |
               {k + '_source' for k in srcs.ALL} |
               {k + '_process' for k in SHORT} |
               {k + '_SDE' for k in SHORT if k != 'hull_white_1factor'} |
               {'process', 'piecewise', 'montecarlo', 'source', 'true_source',
                'paths_generator', 'integrator', 'SDE', 'SDEs', 'integrate',
                'kfunc', 'iskfunc', 'norm_rv', 'uniform_rv', 'exp_rv',
                'double_exp_rv', 'rvmap'})


@subs(st.sampled_from(NAMES), quick=10, thorough=10, examples=NAMES)
def exports(name, ctx):
    ctx.nt()
    check(name in sdepy.__all__, '{} is not exported', name)
    ns = {}
    exec('from sdepy import *', ns)
    check(ns.get(name) is getattr(sdepy, name), '{} is not imported by *', name)
