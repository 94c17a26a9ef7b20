import inspect
import warnings
import numpy as np
import sdepy
from sdepy import kfunc, iskfunc
from hypothesis import strategies as st
from pbt import euler, srcs
from pbt.checks import c24
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, identical, raises

subs = Subs('a generated function, class or subclass wrapped as a kfunc, and a '
            'generated tree of partial and complete calls vs. a model (merged '
            'dictionaries and one direct call). Non-trivial: some value obtained '
            'via two or more stages')

VALUES = [0, None, '', False, 1, 2.5, 'a', (1, 2), [], [3], -1, {}, {'a': 1}]
VARS = ['t', 'x', 'u', 'dt', 'k']
PARAMS = ['a', 'b', 'mu', 'paths', 'f', 'args', 'name']


# ------------------------------------------------------------- generation
@st.composite
def signatures(draw, params_default=False):
    n = draw(st.integers(1, 4))
    npos = draw(st.integers(0, n))      # the others keyword-only
    ponly = draw(st.integers(0, npos)) if draw(st.integers(0, 3)) == 0 else 0
    ndef = draw(st.integers(0, npos))   # trailing positional with defaults
    variables = []
    for k in range(n):
        kind = 'ponly' if k < ponly else 'pos' if k < npos else 'kw'
        d = None
        if (k < npos and k >= npos - ndef) or (k >= npos and draw(st.booleans())):
            d = draw(st.integers(0, len(VALUES) - 1))
        variables.append([VARS[k], kind, d])
    m = draw(st.integers(0, 5))
    names = draw(st.permutations(PARAMS))[:m]
    params = [[z, draw(st.integers(0, len(VALUES) - 1))
               if params_default or draw(st.integers(0, 3)) else None]
              for z in names]
    return dict(vars=variables, params=params, varkw=draw(st.integers(0, 3)) == 0)


@st.composite
def ops(draw, sig, n):
    """[parent, positional values, keyword values of variables, of parameters]"""
    out = []
    names = [z for z, d in sig['params']]
    if sig['varkw']:
        names = names + ['other', 'more']
    for i in range(n):
        params = draw(st.lists(st.tuples(
            st.sampled_from(names), st.integers(0, len(VALUES) - 1)),
            max_size=4, unique_by=lambda z: z[0])) if names else []
        stage = draw(st.sampled_from(['partial', 'partial', 'eval', 'eval',
                                      'unknown', 'missing']))
        pos, kw = [], []
        if stage == 'unknown':
            params = params + [['unheard_of', 1]]
        if stage in ('eval', 'missing') or (stage == 'unknown' and draw(st.booleans())):
            rest = [z for z in sig['vars']]
            m = draw(st.integers(0, len([z for z in rest if z[1] != 'kw'])))
            ponly = len([z for z in rest if z[1] == 'ponly'])
            m = max(m, min(ponly, len(rest)))
            pos = [draw(st.integers(0, len(VALUES) - 1)) for k in range(m)]
            kw = [[z[0], draw(st.integers(0, len(VALUES) - 1))] for z in rest[m:]
                  if z[2] is None or draw(st.booleans())]
            kw = draw(st.permutations(kw))
            if stage == 'missing' and kw:
                kw = kw[1:]
        out.append([draw(st.integers(-1, i)), pos, [list(z) for z in kw],
                    [list(z) for z in params]])
    return out


@st.composite
def programs(draw):
    kind = draw(st.sampled_from(['function', 'function', 'class', 'class', 'subclass',
                                 'inherited']))
    sig = draw(signatures())
    return dict(kind=kind, sig=sig, ops=draw(ops(sig, draw(st.integers(2, 8)))))


def text(sig, what):
    """Source of a signature: variables, parameters, or both."""
    def arg(z, d):
        return z if d is None else '{}=_v[{}]'.format(z, d)
    out, star = [], False
    if what in ('vars', 'both'):
        V = sig['vars']
        for k, (z, kind, d) in enumerate(V):
            if kind == 'kw' and not star:
                out.append('*')
                star = True
            out.append(arg(z, d))
            if kind == 'ponly' and (k + 1 == len(V) or V[k+1][1] != 'ponly'):
                out.append('/')
    if what in ('params', 'both'):
        if sig['params'] and not star:
            out.append('*')
        out += [arg(z, d) for z, d in sig['params']]
        if sig['varkw']:
            out.append('**_kw')
    return out


def names(sig, what):
    z = []
    if what in ('vars', 'both'):
        z += [v[0] for v in sig['vars']]
    if what in ('params', 'both'):
        z += [v[0] for v in sig['params']]
    r = 'dict({})'.format(', '.join('{0}={0}'.format(k) for k in z))
    if what in ('params', 'both') and sig['varkw']:
        r = 'dict({}, **_kw)'.format(r)
    return r


class Model:
    """The original callable: count of calls, and of instances."""
    def __init__(self, c):
        self.calls, self.made = 0, 0


def build(c):
    """The original and the wrapped callable, and their call counters."""
    sig, kind = c['sig'], c['kind']
    m = Model(c)
    ns = dict(_v=VALUES, _m=m, __name__='some_module')
    if kind == 'function':
        exec('''def target({}):
    "some doc"
    _m.calls += 1
    return ['value', {}]'''.format(', '.join(text(sig, 'both')), names(sig, 'both')),
             ns)
        f = ns['target']
        return f, kfunc(nvar=len(sig['vars']))(f), m
    code = '''class target:
    "some doc"
    def __init__({}):
        _m.made += 1
        self.stored = {}
        self.count = 0

    def __call__({}):
        _m.calls += 1
        self.count += 1
        return ['value', dict(self.stored, **{}), self.count]
'''.format(', '.join(['self'] + text(sig, 'params')), names(sig, 'params'),
           ', '.join(fix_self(text(sig, 'vars'))), names(sig, 'vars'))
    if kind == 'inherited':
        code = code.replace('class target', 'class base') + '''
class target(base):
    "some doc"
'''
    exec(code, ns)
    f = ns['target']
    if kind == 'subclass':
        # a kfunc subclass of a kfunc
        k = kfunc(f)
        f = type('target', (k,), dict(__doc__='some doc', extra=1,
                                      __module__='some_module'))
        return ns['target'], kfunc(f), m
    return f, kfunc(f), m


def fix_self(args):
    return ['self'] + args


# ------------------------------------------------------------------ model
@subs(programs(), quick=3000, thorough=300000, shards=4)
def chains(c, ctx):
    sig, function = c['sig'], c['kind'] == 'function'
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        f, K, m = build(c)
    check(iskfunc(K) and not iskfunc(f), 'iskfunc')
    check(K.__name__ == 'target' and K.__doc__ == 'some doc' and
          K.__module__ == 'some_module', 'attributes {}, {}, {}', K.__name__,
          K.__doc__, K.__module__)
    if not function:
        check(isinstance(K, type) and issubclass(K, f), 'not a subclass')
    V = [z[0] for z in sig['vars']]
    defaults = {z: VALUES[d] for z, d in sig['params'] if d is not None}
    required = {z for z, d in sig['params'] if d is None}
    known = {z for z, d in sig['params']}
    inst = [(K, {}, 0)]         # instance, parameters, number of its plain calls
    depth = [0]
    ctx.label(c['kind'])

    def verify():
        for o, given, n in inst[1:]:
            p = o.params
            want = dict(defaults, **given)
            for z in want:
                check(z in p and type(p[z]) is type(want[z]) and p[z] == want[z],
                      'params[{}] is {} instead of {}', z, p.get(z), want[z])
            for z in p:
                check(z in want or z in required, 'unexpected {} in params', z)
            p['a'] = p['spam'] = object()       # params can't be changed this way
            check(iskfunc(o) and isinstance(o, K), 'type of an instance')
            if not function:
                check(o.count == n, 'an instance was called by its children')
                check(o.stored == want, 'attributes {} instead of {}', o.stored, want)

    for parent, pos, kw, params in c['ops']:
        k = parent % len(inst)
        o, given, n = inst[k]
        now = {z: VALUES[d] for z, d in params}
        args = dict([(z, VALUES[d]) for z, d in kw], **now)
        pv = [VALUES[d] for d in pos]
        merged = dict(given, **now)
        unknown = {z for z in merged if z not in known} if not sig['varkw'] else set()
        var = dict(zip(V, pv))
        var.update({z: VALUES[d] for z, d in kw})
        lacking = {z for z, kind, d in sig['vars'] if d is None and z not in var}
        full_var = {z: VALUES[d] for z, kind, d in sig['vars'] if d is not None}
        full_var.update(var)
        evaluate = bool(pos or kw) or (k > 0 and not now)
        missing = {z for z in required if z not in merged}
        calls, made = m.calls, m.made
        bad = False
        if evaluate:
            bad = bool(unknown or lacking or missing)
        elif not function:
            bad = bool(unknown or missing)
        if bad:
            check(raises(TypeError, lambda: o(*pv, **args)), 'call of {} with {} {} not refused',
                  k, pv, args)
            check(m.calls == calls, 'called, with refused arguments')
            verify()
            continue
        r = o(*pv, **args)
        if not evaluate:
            check(isinstance(r, K) and r is not o, 'no new instance from parameters {}',
                  args)
            check(m.calls == calls, 'a partial call evaluates')
            if len(inst) < 8:
                inst.append((r, merged, 0))
                depth.append(depth[k] + 1)
        else:
            check(m.calls == calls + 1, 'the original was called {} times',
                  m.calls - calls)
            want = dict(defaults, **merged)
            want.update(full_var)
            check(isinstance(r, list) and r[0] == 'value', 'got {}', r)
            check(set(r[1]) == set(want) and all(
                type(r[1][z]) is type(want[z]) and r[1][z] == want[z] for z in want),
                'called with {} instead of {}', r[1], want)
            if function:
                direct = f(*pv, **dict(args, **merged))
                m.calls -= 1
                check(direct == r, 'direct call: {} vs. {}', direct, r)
            else:
                plain = k > 0 and not now
                check(r[2] == (n + 1 if plain else 1), 'not a new instance')
                if plain:
                    inst[k] = (o, given, n + 1)
            ctx.nt(depth[k] > 0)
        verify()


# ---------------------------------------------------------------- refusals
@st.composite
def refused_cases(draw):
    return dict(sig=draw(signatures(True)), seed=draw(seeds),
                what=draw(st.sampled_from(
                    ['nvar', 'positional', 'asclass', 'asfunction', 'nothing', 'new',
                     'noinit', 'nocall', 'initpos', 'overlap', 'both', 'ok'])))


@subs(refused_cases(), quick=600, thorough=20000)
def refused(c, ctx):
    w, sig, seed = c['what'], c['sig'], c['seed']
    ctx.nt()
    ctx.label(w)
    r = np.random.RandomState(seed)
    f, _, _ = build(dict(kind='function', sig=sig))
    cls, _, _ = build(dict(kind='class', sig=sig))
    total = len(sig['vars']) + len(sig['params'])
    errors = (TypeError, ValueError, SyntaxError)
    if w == 'ok':
        kfunc(cls)
        kfunc(nvar=len(sig['vars']))(f)
        return
    if w == 'nvar':
        n = [0, -1, -2, total + 1, total + 5][r.randint(5)]
        check(raises(errors, lambda: kfunc(nvar=n)(f)), 'nvar={} not refused', n)
    elif w == 'positional':
        # some parameters would not be keyword-only
        npos = len([z for z in sig['vars'] if z[1] != 'kw'])
        for n in range(1, npos):
            check(raises(errors, lambda: kfunc(nvar=n)(f)), 'nvar={} not refused '
                  'for {}', n, inspect.signature(f))
        if npos >= 1:
            kfunc(nvar=npos)(f)
    elif w == 'asclass':
        check(raises(errors, lambda: kfunc(nvar=1)(cls)), 'class not refused')
    elif w == 'asfunction':
        check(raises(errors, lambda: kfunc(f)), 'function with no nvar not refused')
    elif w == 'both':
        check(raises(errors, lambda: kfunc(f, nvar=1)), 'not refused')
        check(raises(errors, lambda: kfunc(cls, nvar=1)), 'not refused')
    elif w == 'nothing':
        check(raises(errors, kfunc), 'not refused')
        check(raises(errors, lambda: kfunc(cls())), 'instance not refused')
    elif w == 'new':
        k = type('k', (cls,), dict(__new__=lambda c, **z: object.__new__(c)))
        if r.randint(2):
            k = type('k2', (k,), {})
        check(raises(errors, lambda: kfunc(k)), 'class with __new__ not refused')
    elif w == 'noinit':
        k = type('k', (), dict(__call__=lambda self, x: x))
        check(raises(errors, lambda: kfunc(k)), 'class without __init__ not refused')
    elif w == 'nocall':
        def init(self, *, a=1):
            pass
        k = type('k', (), dict(__init__=init))
        check(raises(errors, lambda: kfunc(k)), 'class without __call__ not refused')
    elif w == 'initpos':
        def init(self, a, *, b=1):
            pass

        def init2(self, a=1, **b):
            pass

        def init3(self, *a, b=1):
            pass
        k = type('k', (cls,), dict(__init__=[init, init2, init3][r.randint(3)]))
        check(raises(errors, lambda: kfunc(k)), 'positional parameters not refused')
    elif w == 'overlap':
        name = sig['vars'][r.randint(len(sig['vars']))][0]
        s2 = dict(sig, params=sig['params'] + [[name, 1]])
        check(raises(errors, lambda: build(dict(kind='class', sig=s2))),
              'parameter named as a variable not refused')


@subs(st.fixed_dictionaries(dict(sig=signatures(True), args=st.lists(st.integers(
    0, len(VALUES) - 1), max_size=4))), quick=300, thorough=10000)
def undecorated(c, ctx):
    """A subclass of a kfunc not decorated works as a plain class, with a
    warning; a class with params gives a warning."""
    ctx.nt()
    sig = c['sig']
    cls, K, m = build(dict(kind='class', sig=sig))
    sub = type('sub', (K,), {})
    given = dict(zip([z for z, d in sig['params']], [VALUES[d] for d in c['args']]))
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        o = sub(**given)
    check(any(issubclass(z.category, RuntimeWarning) for z in log), 'no warning')
    check(isinstance(o, sub), 'not an instance')
    want = dict({z: VALUES[d] for z, d in sig['params']}, **given)
    check(o.stored == want, 'parameters {} instead of {}', o.stored, want)
    cls.params = 1
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        kfunc(cls)
    check(any(issubclass(z.category, RuntimeWarning) for z in log), 'no warning')
    for z in (1, None, 'a', [], cls, len, build, c, o.__call__, np.array(1)):
        check(not iskfunc(z), 'iskfunc({})', z)


# -------------------------------------------------------- sdepy processes
SHORT = dict(wiener='wiener', lognorm='lognorm', ornstein_uhlenbeck='oruh',
             hull_white='hwff', hull_white_1factor='hw1f', cox_ingersoll_ross='cir',
             full_heston='heston_xy', heston='heston', jumpdiff='jumpdiff',
             merton_jumpdiff='mjd', kou_jumpdiff='kou')


@st.composite
def process_cases(draw):
    c = draw(c24.cases())
    c['dtype'] = None
    c['user'] = draw(st.booleans())
    c['order'] = draw(st.permutations(range(20)))
    c['cuts'] = draw(st.lists(st.integers(0, 12), min_size=0, max_size=3))
    c['decoy'] = draw(st.booleans())
    return c


@subs(process_cases(), quick=1000, thorough=60000, shards=2)
def processes(c, ctx):
    """Staged instantiation of SDE integrators."""
    kw, value, x0, y0 = c24.arguments(c)
    kw['dw'] = euler.Stub(c['paths'], c['dshape'], c['seed'])
    if 'jump' in c['name']:
        kw['dj'] = euler.Stub(c['paths'], c['jshape'], c['seed'] + 1)
    base = getattr(sdepy, c['name'] + '_process')
    if c['user'] and c['name'] != 'hull_white_1factor':
        K = kfunc(type('mine', (getattr(sdepy, c['name'] + '_SDE'),
                                sdepy.integrator), {}))
    else:
        K = getattr(sdepy, SHORT[c['name']])
        check(issubclass(K, base), 'not a subclass')
    direct = base(**kw)
    t = c['grid']['t']

    def run(p, *a, **k):
        with np.errstate(all='ignore'):
            r = p(*a, **k)
        return r if isinstance(r, tuple) else (r,)
    want = run(direct, t)
    # shapes, and all parameters that go with them, first
    first = {k: kw[k] for k in ('paths', 'vshape', 'factors') if k in kw}
    rest = [k for k in kw if k not in first]
    sources = [k for k in rest if k in ('dw', 'dj')]
    order = sources + [k for i, k in sorted(zip(c['order'], [
        k for k in rest if k not in sources]))]
    cuts = sorted({min(z, len(order)) for z in c['cuts']})
    stages, last = [], 0
    for z in cuts:
        stages.append({k: kw[k] for k in order[last:z]})
        last = z
    final = {k: kw[k] for k in order[last:]}
    if 'i0' in kw and abs(kw['i0']) >= 1:
        pass
    o, given = K, {}
    chain = []
    stages = [first] + stages
    for s in stages:
        if s or o is K:
            o = o(**s)
            given = dict(given, **s)
            check(isinstance(o, K), 'not an instance')
            chain.append((o, dict(given), dict(o.info)))
    if c['decoy']:      # evaluated, and derived from, on the side
        try:
            run(o(i0=0, steps=3), [0., 1.])
            run(o, [0., .5], i0=0)
        except Exception as e:
            fail('{}: {}', type(e).__name__, e)
    got = run(o, t, **final)
    ctx.nt(len(chain) > 1 and euler.nsteps(c['grid']) > 0)
    ctx.label(c['name'])
    check(len(got) == len(want), 'results')
    for x, y in zip(got, want):
        check(identical(np.asarray(x), np.asarray(y)), 'staged {} vs. direct {}', x, y)
    for o, g, info in chain:
        check(set(g) <= set(o.params), 'params {} do not include {}', set(o.params),
              set(g))
        for k in g:
            z = o.params[k]
            check(z is g[k] or callable(g[k]) or np.array_equal(
                np.asarray(z), np.asarray(g[k])), 'params[{}] is {}', k, z)
        for k, z in direct.args.items():
            if k not in kw or (k not in g and k not in ('dw', 'dj')):
                e = c24.PARAMS[c['name']].get(k)
                if e is not None:
                    check(np.array_equal(o.params[k], e[0]), 'default params[{}] is '
                          '{}', k, o.params[k])
        for k in ('paths', 'vshape', 'dtype', 'steps', 'i0', 'getinfo', 'method'):
            # also the ones common to all processes
            check(k in o.params, 'params do not include {}', k)
        check(o.paths == kw['paths'], 'paths')
    check(raises(TypeError, lambda: chain[-1][0](unheard_of=1)), 'unknown not refused')
    check(raises(TypeError, lambda: K(unheard_of=1)), 'unknown parameter not refused')
    check(raises(TypeError, lambda: chain[-1][0](t, unheard_of=1)),
          'unknown parameter not refused')
