import numpy as np
import sdepy
from sdepy import SDE, SDEs, integrator, integrate
from hypothesis import strategies as st
from pbt import euler, srcs
from pbt.checks import c23
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, raises, identical

subs = Subs('generated sde functions (single, or systems of 1 to 4), decorated by '
            'integrate with generated declarations, vs. an explicit subclass. '
            'Non-trivial: two or more differentials and steps')

IDS = ['dt', 'dw', 'dn', 'dj']


@st.composite
def functions(draw):
    q = draw(st.integers(0, 4))         # 0 is a single equation
    vshape = draw(vshapes(2, 2))
    paths = draw(st.integers(1, 3))
    names = ['a', 'b'][:draw(st.integers(0, 2))]
    n = max(q, 1)
    ids = draw(st.lists(st.sampled_from(IDS), min_size=1, max_size=4, unique=True))
    # each source is in some equation, not necessarily the first one
    home = {i: draw(st.integers(0, n - 1)) for i in ids}
    coeffs = [{i: draw(c23.terms(n, names)) for i in ids if k == home[i] or
               draw(st.integers(0, 2)) == 0} for k in range(n)]
    give = draw(st.sampled_from(['none', 'q', 'sources', 'both']))
    # what makes a test evaluation possible
    defaults = draw(st.sampled_from(['all', 'params', 'params']))
    if q > 1:
        defaults = 'all'
    if give == 'both':
        defaults = draw(st.sampled_from(['all', 'params', 'none']))
    return dict(q=q, vshape=vshape, paths=paths, names=names, coeffs=coeffs,
                ids=ids, give=give, defaults=defaults,
                log=draw(st.sampled_from([False, False, True])),
                addaxis=draw(st.booleans()),
                grid=draw(euler.grids(max_size=4)), seed=draw(seeds),
                rng=draw(st.sampled_from(srcs.RNGS)),
                params={m: draw(euler.params(vshape + [paths], -.9, .9))
                        for m in names},
                nodefault=draw(st.sampled_from([None, None, 'type', 'attr', 'value',
                                                'zero', 'key'])),
                flags=draw(st.booleans()), deco=draw(st.booleans()),
                form=draw(st.sampled_from(['set', 'list', 'tuple', 'dictkeys'])),
                ret=draw(st.sampled_from(['tuple', 'list'])))


def make_function(c, method=False):
    """sde function, or method, and the list of its calls."""
    q = c['q']
    n = max(q, 1)
    calls = []

    def f(t, xs, args):
        calls.append(t)
        r = [{i: c23.evaluate(coeffs[i], t, xs, args) for i in coeffs}
             for coeffs in c['coeffs']]
        if q == 0:
            return r[0]
        return tuple(r) if c['ret'] == 'tuple' else r
    xs = ['x{}'.format(k) for k in range(n)]
    sig = ['t'] + xs + c['names']
    if method is False and c['defaults'] == 'all':
        sig = [z + '=1.' for z in sig]
    elif c['defaults'] in ('params', 'all'):
        sig = ['t'] + xs + [z + '=1.' for z in c['names']]
    refuse = ''
    if method is False and c.get('nodefault') and c['defaults'] == 'all' and \
            n == 1:
        # arguments are optional, but needed: an evaluation without arguments
        # fails, and does not matter
        sig[:2] = ['t=None', 'x0=None']
        refuse = dict(type='t + x0', attr='x0.shape',
                      value='_no(ValueError, x0)', zero='_no(ZeroDivisionError, x0)',
                      key='_no(KeyError, x0)')[c['nodefault']]

    def no(error, x):
        if x is None:
            raise error('no value')
    ns = dict(_f=f, _no=no)
    exec('def sde({}{}):\n    {}\n    return _f(t, [{}], dict({}))'.format(
        'self, ' if method else '', ', '.join(sig), refuse, ', '.join(xs),
        ', '.join('{0}={0}'.format(m) for m in c['names'])), ns)
    return ns['sde'], calls


def declare(c):
    kw = {}
    if c['give'] in ('q', 'both'):
        kw['q'] = c['q']
    if c['give'] in ('sources', 'both'):
        s = set(c['ids'])
        kw['sources'] = dict(set=s, list=sorted(s), tuple=tuple(sorted(s)),
                             dictkeys=dict.fromkeys(sorted(s)).keys())[c['form']]
    if c['flags']:
        kw.update(log=c['log'], addaxis=c['addaxis'])
    return kw


@subs(functions(), quick=1500, thorough=100000, shards=4)
def decorated(c, ctx):
    kw = declare(c)
    log, addaxis = (c['log'], c['addaxis']) if c['flags'] else (False, False)
    f, calls = make_function(c)
    if kw or c['deco']:
        cls = integrate(**kw)(f) if c['deco'] else integrate(f, **kw)
    else:
        cls = integrate(f)
    ctx.label('q{}'.format(c['q']), c['give'], c['defaults'])
    ctx.nt(len(c['ids']) > 1 and euler.nsteps(c['grid']) > 1)
    if c['give'] == 'both':
        check(not calls, 'the function was evaluated, with q and sources given')
    parent = SDEs if c['q'] else SDE
    check(isinstance(cls, type) and issubclass(cls, parent) and
          issubclass(cls, integrator), 'not a subclass of {} and integrator',
          parent.__name__)
    if not c['q']:
        check(not issubclass(cls, SDEs), 'a single equation gives SDEs')
    ids = set(c['ids'])
    check(set(cls.sources) == ids, 'sources {} instead of {}', cls.sources, ids)
    check(cls.q == c['q'], 'q is {} instead of {}', cls.q, c['q'])
    check(cls.log == log and cls.addaxis == addaxis, 'log={}, addaxis={}', cls.log,
          cls.addaxis)

    g, _ = make_function(c, method=True)
    ns = dict(sde=g, sources=ids, log=log)
    if c['q']:
        ns.update(q=c['q'], addaxis=addaxis)
    explicit = type('explicit', (parent, integrator), ns)
    args = {}
    for m in c['names']:
        if c['defaults'] == 'none' or c['seed'] % 3:
            args[m] = euler.param(c['params'][m])[0]
    runs = []
    for k in (cls, explicit):
        p = k(paths=c['paths'], vshape=tuple(c['vshape']),
              rng=srcs.rng(c['rng'], c['seed']), **euler.grid_kw(c['grid']), **args)
        with np.errstate(all='ignore'):
            r = p(c['grid']['t'])
        runs.append((r, p))
    (r, p), (r2, p2) = runs
    check(isinstance(r, tuple) == isinstance(r2, tuple) == bool(c['q']),
          'result of type {}', type(r).__name__)
    check(p.vshape == p2.vshape and p.wshape == p2.wshape, 'shapes')
    for x, y in zip(r if c['q'] else (r,), r2 if c['q'] else (r2,)):
        check(isinstance(x, sdepy.process) and identical(x.t, y.t), 'timeline')
        check(x.shape == y.shape and np.array_equal(x, y, equal_nan=True),
              'realization {} instead of {}', x, y)


@st.composite
def refused_cases(draw):
    c = draw(functions())
    c['defaults'] = 'all'
    c.update(what=draw(st.sampled_from(['q', 'sources', 'empty', 'noeval', 'noeval2',
                                        'system'])),
             badq=draw(st.integers(0, 6)), badids=draw(
                 st.lists(st.sampled_from(IDS + ['dz']), max_size=5, unique=True)),
             deco=draw(st.booleans()))
    return c


@subs(refused_cases(), quick=400, thorough=10000)
def refused(c, ctx):
    ctx.nt()
    w = c['what']
    f, calls = make_function(c)
    kw = {}
    if w == 'q':
        if c['badq'] == c['q']:
            return
        kw['q'] = c['badq']
    elif w == 'sources':
        used = set()
        for k in c['coeffs']:
            used.update(k)
        if set(c['badids']) == used:
            return
        kw['sources'] = set(c['badids'])
    elif w == 'empty':
        def f(t=1., x=1.):
            return () if c['seed'] % 2 else []
    elif w == 'noeval':
        def f(t, x, y):
            return {'dt': x}, {'dw': y}
        kw = [{}, dict(q=2), dict(sources={'dt', 'dw'})][c['seed'] % 3]
    elif w == 'noeval2':
        def f(t, x):
            raise [ValueError, ZeroDivisionError, KeyError][c['seed'] % 3]('no')
    elif w == 'system':
        def f(t, x):
            return [3, None, 'ab'][c['seed'] % 3]
    check(raises(Exception, lambda: integrate(**kw)(f) if c['deco'] else
                 integrate(f, **kw)), '{} {} not refused', w, kw)
