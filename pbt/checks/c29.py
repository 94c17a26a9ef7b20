import numpy as np
import sdepy
from sdepy import SDE, SDEs, integrator
from hypothesis import strategies as st
from pbt import euler, srcs
from pbt.checks import c24, c26
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, broadcast_of, make, identical

subs = Subs('an integration with generated grid and parameters, its info compared '
            'with quantities recomputed from the grid and from recorded source '
            'increments. Non-trivial: two or more steps')


def part(grid):
    """Points of the part of the integration info is about."""
    back, forth = euler.visited(grid)
    n = len(grid['t'])
    return forth if len(forth) > 1 or n == 1 or grid['i0'] == 0 else back


def check_basic(grid, info, what=''):
    t = grid['t']
    s = part(grid)
    want = dict(t0=t[grid['i0']], tmin=t[0], tmax=t[-1],
                computed_steps=len(s) - 1,
                stored_steps=len(set(s) & set(np.array(t, dtype=float))) - 1)
    for k, z in want.items():
        check(k in info, '{}info has no item {}', what, k)
        check(np.ndim(info[k]) == 0 and info[k] == z, '{}info item {} is {} instead '
              'of {}', what, k, info[k], z)


def call(p, t):
    with np.errstate(all='ignore'):
        r = p(t)
    return r if isinstance(r, tuple) else (r,)


@st.composite
def basic_cases(draw):
    if draw(st.booleans()):
        c = dict(draw(c26.functions()), kind='integrate')
    else:
        c = dict(draw(c24.cases()), kind='preset', dtype=None)
    c['second'] = draw(st.one_of(st.none(), euler.grids(max_size=6)))
    c['keep'] = draw(st.booleans())
    return c


@subs(basic_cases(), quick=1500, thorough=100000, shards=2)
def basic(c, ctx):
    if c['kind'] == 'integrate':
        f, _ = c26.make_function(c)
        cls = sdepy.integrate(**c26.declare(c))(f)
        kw = dict(euler.grid_kw(c['grid']), paths=c['paths'],
                  vshape=tuple(c['vshape']))
        kw.update({m: euler.param(c['params'][m])[0] for m in c['names']})
    else:
        cls = c24.process_class(c)
        kw = c24.arguments(c)[0]
        kw.pop('getinfo', None)
    ctx.nt(euler.nsteps(c['grid']) > 1)
    ctx.label(c['kind'], 'i0' if c['grid']['i0'] else 'first')
    t = c['grid']['t']

    given = dict(spam=[1, 2]) if c['keep'] else {}
    p = cls(rng=srcs.rng('gen', c['seed']), info=given, **kw)
    check(p.info is given, 'the info attribute is not the given dictionary')
    r = call(p, t)
    check(p.info is given, 'the info attribute is not the given dictionary')
    check_basic(c['grid'], given)
    if c['keep']:
        check(given.get('spam') == [1, 2], 'info item not in use was changed')
    # no info given
    q = cls(rng=srcs.rng('gen', c['seed']), **kw)
    check(isinstance(q.info, dict) and q.info is not given, 'default info')
    rq = call(q, t)
    check_basic(c['grid'], q.info)
    # nor shared with other integrators
    keep = dict(q.info)
    other = cls(rng=srcs.rng('gen', c['seed']), **kw)
    check(other.info is not q.info and other.info == {}, 'info of a new instance '
          'is {}', other.info)
    call(other, [t[0] - 1, t[0], t[0] + 2] if c['grid']['i0'] in (0, -1) else t)
    check_basic(c['grid'], q.info, 'after a call of another integrator: ')
    check(q.info.keys() == keep.keys() and all(q.info[k] is keep[k] for k in keep),
          'info changed by another integrator')
    # getinfo=False
    none = {}
    n = cls(rng=srcs.rng('gen', c['seed']), info=none, getinfo=False, **kw)
    rn = call(n, t)
    check(none == {} and n.info is none, 'getinfo=False, but info is {}', n.info)
    check(len(r) == len(rn) == len(rq), 'number of results')
    for x, y, z in zip(r, rn, rq):
        check(identical(np.asarray(x), np.asarray(y)), 'getinfo=False changes the '
              'result: {} vs. {}', y, x)
        check(identical(np.asarray(x), np.asarray(z)), 'info changes the result')
    m = cls(rng=srcs.rng('gen', c['seed']), getinfo=False, **kw)
    call(m, t)
    check(m.info == {}, 'getinfo=False, but info is {}', m.info)
    # a second call
    if c['second']:
        g = dict(c['second'], i0=c['grid']['i0'], steps=c['grid']['steps'])
        if -len(g['t']) <= g['i0'] < len(g['t']):
            call(p, g['t'])
            check_basic(g, p.info, 'second call: ')


# ----------------------------------------------------------------- Heston
@st.composite
def heston_cases(draw):
    c = draw(c24.cases(names=['heston', 'full_heston']))
    c['dtype'] = None
    c['getinfo'] = True
    c['big'] = draw(st.booleans())
    c['twice'] = draw(st.booleans())
    zero = dict(form='int', shape=[], seed=0, lo=0, hi=0)
    if draw(st.integers(0, 4)) == 0:    # a variance of 0 is not negative
        c['y0'] = zero
        if draw(st.booleans()):
            c['params']['theta'] = zero
    return c


@subs(heston_cases(), quick=1200, thorough=80000, shards=2)
def heston(c, ctx):
    if c['big']:        # variance often negative
        c['params']['xi'] = dict(form='scalar', shape=[], seed=c['seed'], lo=2, hi=5)
    kw, value, x0, y0 = c24.arguments(c)
    dw = kw['dw'] = euler.Stub(c['paths'], c['dshape'], c['seed'])
    p = c24.process_class(c)(**kw)
    call(p, c['grid']['t'])
    if c['twice']:
        call(p, c['grid']['t'])
    check_basic(c['grid'], p.info)
    s = part(c['grid'])
    back = len(s) > 1 and s[1] < s[0]
    g = dict(t=sorted(s), steps=None, i0=len(s) - 1 if back else 0)
    _, y, raw = c24.expected(dict(c, grid=g), value, x0, y0, dw.value)
    if not euler.tame(raw) or (abs(y[y != 0]) < 1e-7).any():
        return
    start = y[1:] if back else y[:-1]
    want = (start < 0).sum(axis=0)
    got = p.info.get('negative_y_count')
    check(got is not None, 'no negative_y_count')
    ctx.nt(len(s) > 2)
    ctx.label(c['name'], 'negative' if want.any() else 'positive')
    check(np.shape(got) == tuple(c['vshape']) + (c['paths'],),
          'shape {} of negative_y_count', np.shape(got))
    check(np.array_equal(got, want), 'negative_y_count {} instead of {}', got, want)


# ------------------------------------------------------------------ jumps
class Jumps:
    """Jump source, with counts."""
    def __init__(self, paths, vshape, seed, hide=False, dtype=int, rate=1.):
        self.paths, self.vshape = paths, tuple(vshape)
        self.r = np.random.RandomState(seed)
        self.hide, self.dtype, self.rate = hide, dtype, rate
        self.log = []

    def __call__(self, t, dt):
        n = self.r.poisson(self.rate, size=self.vshape + (self.paths,))
        n = (n*int(np.sign(dt))).astype(self.dtype)
        if not self.hide:
            self.dn_value = n
        self.log.append((float(t), float(dt), n.copy()))
        return .1/self.rate*n


@st.composite
def jump_cases(draw):
    c = draw(c24.cases(names=['jumpdiff', 'merton_jumpdiff', 'kou_jumpdiff']))
    c['dtype'] = None
    c['getinfo'] = True
    c['dj'] = draw(st.sampled_from(['stub', 'stub', 'hide', 'float', 'small', 'real',
                                    'real', 'dn']))
    c['lam'] = draw(fl(0, 4, 1))
    c['rate'] = draw(st.sampled_from([1., 1., 1., 40., 300., 50000.]))
    if c['dj'] == 'small' and c['rate'] > 40:
        c['rate'] = 40.
    c['twice'] = draw(st.booleans())
    c['thin'] = draw(st.integers(0, 4)) == 0
    return c


@subs(jump_cases(), quick=1500, thorough=100000, shards=2)
def jumps(c, ctx):
    kw = c24.arguments(c)[0]
    kw['dw'] = euler.Stub(c['paths'], c['dshape'], c['seed'])
    paths, v = c['paths'], tuple(c['vshape'])
    log = []
    if c['dj'] in ('stub', 'hide', 'float', 'small'):
        dj = kw['dj'] = Jumps(paths, v, c['seed'], c['dj'] == 'hide',
                              dict(float=float, small=np.int8).get(c['dj'], int),
                              c['rate'])
        log = dj.log
    elif c['dj'] == 'dn':
        inner = Jumps(paths, v, c['seed'], True,
                      rate=min(c['rate'], 300.))

        class dn:
            def __init__(self):
                self.paths, self.vshape = paths, v

            def __call__(self, t, dt):
                inner(t, dt)
                log.append(inner.log[-1])
                return inner.log[-1][-1]
        kw['dn'] = dn()
    else:
        kw['lam'] = c['lam']*min(c['rate'], 300.)

        class source(sdepy.cpoisson_source):
            def __call__(self, t, dt):
                z = super().__call__(t, dt)
                log.append((float(t), float(dt), np.array(self.dn_value)))
                return z
        kw['dj'] = source
    p = c24.process_class(c)(rng=srcs.rng('gen', c['seed']), **kw)
    t = c['grid']['t']
    call(p, t)
    if c['twice']:
        del log[:]
        call(p, t)
    check_basic(c['grid'], p.info)
    s = part(c['grid'])
    ctx.nt(len(s) > 2)
    ctx.label(c['name'], c['dj'])
    count, rate = p.info.get('jump_count'), p.info.get('jump_rate')
    check(count is not None and rate is not None, 'no jump_count or jump_rate')
    check(np.shape(count) == v + (paths,), 'shape {} of jump_count',
          np.shape(count))
    back = len(s) > 1 and s[1] < s[0]
    steps = [] if len(s) == 1 else \
        [z for z in log if (z[1] < 0) == back]
    want = sum((z[-1] for z in steps), np.zeros(v + (paths,), dtype=int))
    if c['dj'] == 'hide':
        want = np.zeros(v + (paths,), dtype=int)
    check(np.array_equal(count, want), 'jump_count {} instead of {}', count, want)
    check(np.asarray(count).dtype.kind == 'i', 'jump_count of dtype {}',
          np.asarray(count).dtype)
    # rates, for each output interval
    out = np.array(t, dtype=float)
    out = out[out <= s[0]][::-1] if back else out[out >= s[0]]
    check(np.shape(rate) == out.shape, 'shape {} of jump_rate', np.shape(rate))
    r = np.zeros(out.shape)
    for i in range(len(out) - 1):
        k = sum(int(z[-1].sum()) for z in steps if
                (out[i] >= z[0] > out[i+1] if back else out[i] <= z[0] < out[i+1]))
        r[i] = 0. if c['dj'] == 'hide' else k/(out[i+1] - out[i])/paths
    if len(out) > 1:
        r[-1] = r[-2]
    check(np.allclose(rate, r, rtol=1e-9, atol=1e-12), 'jump_rate {} instead of {}',
          rate, r)


# ------------------------------------------------------------------ hooks
@st.composite
def hook_cases(draw):
    q = draw(st.integers(0, 2))
    vshape = draw(vshapes(2, 2))
    return dict(q=q, vshape=vshape, paths=draw(st.integers(1, 3)),
                grid=draw(euler.grids()), seed=draw(seeds), log=draw(st.booleans()),
                getinfo=draw(st.sampled_from([True, True, True, False])),
                ids=draw(st.lists(st.sampled_from(['dt', 'dw', 'dn']), min_size=1,
                                  max_size=3, unique=True)),
                over=draw(st.booleans()), twice=draw(st.booleans()))


@subs(hook_cases(), quick=1500, thorough=100000, shards=2)
def hooks(c, ctx):
    """Hooks of user classes, and the variables they see."""
    E, ids = [], c['ids']
    coef = dict(zip(['dt', 'dw', 'dn'], np.random.RandomState(c['seed']).uniform(
        -.5, .5, size=3)))

    def copy(z):
        if isinstance(z, dict):
            return {k: copy(y) for k, y in z.items()}
        return np.array(z)

    def see(self, what, *keys):
        iv = self.itervars
        E.append((what, {k: copy(iv[k]) for k in keys}))

    def terms(x):
        return {i: coef[i]*x for i in ids}

    class hooked:
        sources = set(ids)
        log = c['log'] if not c['q'] else False

        def info_begin(self):
            see(self, 'begin', 'tt', 'steps_tt', 'reverse', 'sw')

        def info_next(self):
            see(self, 'next', 'last_t', 'last_dt', 'last_x', 'last_A', 'last_dZ',
                'new_x', 'i', 'tt', 'reverse')

        def info_store(self):
            see(self, 'store', 'i', 'tt', 'xx')

        def info_end(self):
            see(self, 'end', 'tt', 'xx', 'reverse')

    if c['q']:
        ns = dict(hooked.__dict__, q=c['q'], addaxis=True)
        if c['q'] == 1:
            ns['sde'] = lambda self, t, x: (terms(x),)
        else:
            ns['sde'] = lambda self, t, x, y: (terms(x), terms(y))
        base = SDEs
    else:
        ns = dict(hooked.__dict__, sde=lambda self, t, x: terms(x))
        base = SDE
    for k in ('__dict__', '__weakref__'):
        ns.pop(k, None)
    cls = type('model', (base, integrator), ns)
    if c['over']:       # hooks added by a subclass run too
        class sub(cls):
            def info_next(self):
                super().info_next()
                self.info['mine'] = self.info.get('mine', 0) + 1
        cls = sub
    W = list(c['vshape']) + ([c['q']] if c['q'] else [])
    stubs = {i: euler.Stub(c['paths'], W, c['seed'] + 1, ints=i == 'dn')
             for i in ids if i != 'dt'}
    p = cls(paths=c['paths'], vshape=tuple(c['vshape']), getinfo=c['getinfo'],
            **euler.grid_kw(c['grid']), **stubs)
    res = call(p, c['grid']['t'])
    if c['twice']:
        del E[:]
        p.info.pop('mine', None)
        res = call(p, c['grid']['t'])
    ctx.nt(euler.nsteps(c['grid']) > 1)
    ctx.label('q{}'.format(c['q']), 'getinfo' if c['getinfo'] else 'no')
    if not c['getinfo']:
        check(not E and p.info == {}, 'getinfo=False, but info hooks were called')
        return
    check_basic(c['grid'], p.info)
    back, forth = euler.visited(c['grid'])
    runs = []
    n = len(c['grid']['t'])
    if len(back) > 1:
        runs.append((back, True))
    if len(forth) > 1 or n == 1:
        runs.append((forth, False))
    t = np.array(c['grid']['t'], dtype=float)
    if c['over']:
        check(p.info.get('mine', 0) == sum(len(s) - 1 for s, _ in runs),
              'info_next called {} times', p.info.get('mine'))
    k = 0
    shape = tuple(W) + (c['paths'],)

    def event(what):
        nonlocal k
        check(k < len(E) and E[k][0] == what, 'event {}: {} instead of {}', k,
              E[k][0] if k < len(E) else 'nothing', what)
        k += 1
        return E[k-1][1]

    for s, reverse in runs:
        out = t[t <= s[0]][::-1] if reverse else t[t >= s[0]]
        e = event('begin')
        check(identical(e['tt'], out) and identical(e['steps_tt'], s),
              'timeline {} and steps {} instead of {} and {}', e['tt'], e['steps_tt'],
              out, s)
        check(bool(e['reverse']) is reverse, 'reverse')
        check(e['sw'][0] == s[0], 'initial time')
        e = event('store')
        check(e['i'] == 0, 'i={} when storing the first point', e['i'])
        i = 1
        last = None
        for a, b in zip(s[:-1], s[1:]):
            e = event('next')
            check(e['last_t'] == a and e['last_dt'] == b - a, 'step from {} by {} '
                  'instead of {} by {}', e['last_t'], e['last_dt'], a, b - a)
            check(e['i'] == i, 'i={} instead of {}', e['i'], i)
            check(e['last_x'].shape == shape == e['new_x'].shape, 'shapes')
            check(set(e['last_A']) == set(e['last_dZ']) == set(ids), 'items {} of '
                  'last_A, {} of last_dZ', set(e['last_A']), set(e['last_dZ']))
            if last is not None:
                check(identical(e['last_x'], last), 'last_x is not the former new_x')
            elif not euler.tame(e['last_x']):
                check(False, 'first value {}', e['last_x'])
            last = e['new_x']
            for z in ids:
                d = b - a if z == 'dt' else stubs[z].value(a, b - a)
                check(euler.close(np.broadcast_to(e['last_dZ'][z], shape),
                                  np.broadcast_to(d, shape)), 'last_dZ[{}]', z)
                if euler.tame(e['last_x']):
                    check(euler.close(e['last_A'][z], coef[z]*e['last_x']),
                          'last_A[{}] is {}', z, e['last_A'][z])
            if euler.tame(last):
                y = e['last_x'] + sum(coef[z]*e['last_x']*(
                    b - a if z == 'dt' else stubs[z].value(a, b - a)) for z in ids)
                check(euler.close(last, y), 'new_x {} instead of {}', last, y)
            if i < len(out) and out[i] == b:
                e = event('store')
                check(e['i'] == i, 'i={} when storing point {}', e['i'], i)
                if euler.tame(last):
                    check(euler.close(e['xx'][i], last), 'stored value')
                i += 1
        e = event('end')
        check(bool(e['reverse']) is reverse, 'reverse')
    check(k == len(E), 'further {} events', len(E) - k)
    check(not hasattr(p, 'itervars'), 'itervars are left over')
