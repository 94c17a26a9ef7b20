import copy
import hashlib
import json
import os
import subprocess
import sys
import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt import euler, srcs
from pbt.checks import c24, c26
from pbt.core import Subs, check, fail, dumps
from pbt.strat import seeds, fl, identical

subs = Subs('a generated history of calls of two to four integrators (sharing a '
            'generator, with their own, or with the default one), with '
            'disturbances in between, each call repeated in isolation; or '
            'integrations repeated with several hash seeds. Non-trivial: two or '
            'more calls with results')


# ------------------------------------------------------------ integrators
@st.composite
def integrators(draw):
    if draw(st.integers(0, 3)) == 0:
        c = draw(c26.functions())
        c['kind'] = 'integrate'
    else:
        c = draw(c24.cases())
        c['kind'] = 'preset'
        c['lam'] = draw(st.sampled_from([None, 0., 2.]))
        c['corr'] = draw(st.booleans())
    c['srcs'] = draw(st.sampled_from(['default', 'default', 'class']))
    c['use'] = draw(st.sampled_from(['own', 'shared', 'none', 'shared', 'none']))
    c['info'] = draw(st.booleans())
    return c


def arguments(c):
    """Class, and keywords but for rng."""
    if c['kind'] == 'integrate':
        f, _ = c26.make_function(c)
        cls = sdepy.integrate(**c26.declare(c))(f)
        kw = dict(euler.grid_kw(c['grid']), paths=c['paths'],
                  vshape=tuple(c['vshape']))
        kw.update({m: euler.param(c['params'][m])[0] for m in c['names']})
        used = set(c['ids'])
    else:
        cls = c24.process_class(c)
        kw = c24.arguments(c)[0]
        used = {'dw'}
        if 'jump' in c['name']:
            if c['lam'] is not None:
                kw['lam'] = c['lam']
            used.add('dj')
        M = c['wshape'][-1] if c['wshape'] else 0
        if c['corr'] and M:
            kw['corr'] = srcs.corr_matrix(M, c['seed'])
    if c['srcs'] == 'class' and c['paths'] % 2 == 0:
        if 'dw' in used:
            kw['dw'] = sdepy.odd_wiener_source
    return cls, kw


def timeline(c, k):
    """One of several timelines on which the integrator may be called."""
    t = c['grid']['t']
    if isinstance(t[0], int):
        return [[z + k for z in t], np.array(t) + k, np.array(t, dtype=float)][k % 3]
    a = [1., .5, 1., 1.25][k % 4]
    return np.array(t)*a + k/8 if k % 2 else [float(z)*a + k/8 for z in t]


def call(p, t):
    with np.errstate(all='ignore'):
        r = p(t)
    return r if isinstance(r, tuple) else (r,)


def plain(z):
    return {k: np.array(v, copy=True) if isinstance(v, np.ndarray) else v
            for k, v in z.items()}


def same_info(a, b):
    return set(a) == set(b) and all(identical(np.asarray(a[k]), np.asarray(b[k]))
                                    for k in a)


OPS = ['call', 'call', 'call', 'call', 'scribble', 'global', 'default', 'swap',
       'bad', 'again', 'raise', 'nest', 'nest']


@st.composite
def histories(draw):
    n = draw(st.integers(2, 4))
    return dict(p=[draw(integrators()) for k in range(n)],
                twin=draw(st.booleans()), seed=draw(seeds),
                rng=draw(st.sampled_from(srcs.RNGS)),
                ops=draw(st.lists(st.tuples(st.sampled_from(OPS),
                                            st.integers(0, n),
                                            st.integers(0, 5)),
                                  min_size=2, max_size=10)))


class Boom(Exception):
    pass


@subs(histories(), quick=1200, thorough=80000, shards=8)
def interleaved(c, ctx):
    specs = c['p'] + ([c['p'][0]] if c['twin'] else [])
    shared = srcs.rng(c['rng'], c['seed'])
    sdepy.infrastructure.default_rng = np.random.default_rng(c['seed'] + 1)
    args, given, P, rngs, bomb = [], [], [], [], []
    classes = {}
    for k, s in enumerate(specs):
        cls, kw = arguments(s) if not (c['twin'] and k == len(specs) - 1) else \
            (args[0][0], arguments(s)[1])
        args.append((cls, kw))
        given.append({z: copy.deepcopy(v) for z, v in kw.items()
                      if isinstance(v, (np.ndarray, list))})
        classes[cls] = (set(cls.sources), cls.log, cls.q, cls.addaxis)
        g = dict(own=srcs.rng(c['rng'], c['seed'] + 10 + k), shared=shared,
                 none=None)[s['use']]
        rngs.append(sdepy.infrastructure.default_rng if g is None else g)
        info = dict(info={}) if s['info'] else {}
        P.append(cls(rng=g, **info, **kw))
        bomb.append(None)

    own = [{z: (v, copy.deepcopy(v) if isinstance(v, (np.ndarray, list, set,
                                                      tuple)) else v)
            for z, v in vars(p).items() if not z.startswith('_')} for p in P]

    def isolated(k, g, t):
        """The same call, of an integrator made for it."""
        cls, kw = args[k]
        p = cls(rng=copy.deepcopy(g), **kw)
        return call(p, t), p

    calls = []

    def run(k, j):
        t = timeline(specs[k], j)
        was = copy.deepcopy(t)
        before = copy.deepcopy(rngs[k])
        r = call(P[k], t)
        check(identical(np.asarray(was), np.asarray(t)), 'the timeline was '
              'modified')
        calls.append(dict(k=k, t=was, before=before, r=r,
                          state=srcs.state(rngs[k]), ut=t,
                          copy=[np.array(x) for x in r],
                          tcopy=[np.array(x.t) for x in r],
                          scribbled=False, info=plain(P[k].info)))

    for op, k, j in c['ops']:
        k = k % len(P)
        m = (k + 1 + j) % len(P)
        if op == 'nest' and (m == k or rngs[m] is rngs[k]):
            op = 'call'
        if op == 'call' or (op == 'again' and not calls):
            run(k, j)
        elif op == 'nest':
            # integrator m is called in the middle of a call of integrator k
            p, n = P[k], [0]
            where = ['A', 'dZ', 'let'][j % 3]
            old = getattr(p, where)

            def nested(*a, **b):
                n[0] += 1
                if n[0] in (1, 3):
                    run(m, j)
                y = old(*a, **b)
                if n[0] == 2:
                    run(m, j + 1)
                return y
            setattr(p, where, nested)
            try:
                run(k, j)
            finally:
                delattr(p, where)
        elif op == 'again':     # same state, same call, same result
            z = calls[j % len(calls)]
            g = rngs[z['k']]
            now = copy.deepcopy(g)
            if isinstance(g, np.random.RandomState):
                g.set_state(z['before'].get_state())
            else:
                g.bit_generator.state = z['before'].bit_generator.state
            r = call(P[z['k']], z['t'])
            for x, y in zip(r, z['copy']):
                check(identical(np.asarray(x), y), 'not the same values after '
                      'restoring the state of the generator: {} vs. {}', x, y)
            if isinstance(g, np.random.RandomState):
                g.set_state(now.get_state())
            else:
                g.bit_generator.state = now.bit_generator.state
        elif op == 'scribble':
            # a result belongs to the user
            for z in calls[-1:]:
                for x in z['r']:
                    x[...] = 99
                z['scribbled'] = True
        elif op == 'global':
            np.random.seed(j)
            np.random.normal(size=j)
        elif op == 'default':
            sdepy.infrastructure.default_rng.normal(size=j + 1)
        elif op == 'swap':      # later integrators only
            sdepy.infrastructure.default_rng = np.random.default_rng(j)
        elif op == 'bad':
            before = srcs.state(rngs[k])
            try:
                P[k]([1., 0.])
            except (ValueError, IndexError):
                pass
            else:
                fail('decreasing timeline not refused')
            check(srcs.state(rngs[k]) == before, 'a refused call advances the '
                  'generator')
        elif op == 'raise':
            # a call interrupted by an exception in user code
            p = P[k]
            cls = type(p)
            old = cls.let
            n = [0]

            def let(self, *a, **b):
                n[0] += 1
                if n[0] > j % 3:
                    raise Boom()
                return old(self, *a, **b)
            p.let = let.__get__(p)
            try:
                call(p, timeline(specs[k], j))
            except Boom:
                pass
            del p.let
    ctx.label('calls-{}'.format(min(len(calls), 4)), 'twin' if c['twin'] else 'no')
    ctx.nt(len(calls) > 1)
    for k, g in enumerate(given):
        for z, v in g.items():
            check(identical(np.asarray(v), np.asarray(args[k][1][z])),
                  'argument {} was modified', z)
    for cls, v in classes.items():
        check((set(cls.sources), cls.log, cls.q, cls.addaxis) == v,
              'class attributes changed')
    for m, z in enumerate(calls):
        k = z['k']
        for x, y, ty in zip(z['r'], z['copy'], z['tcopy']):
            if not z['scribbled']:
                check(identical(np.asarray(x), y), 'result {} was modified by later '
                      'calls', m)
            check(identical(np.asarray(x.t), ty), 'the timeline of result {} was '
                  'modified', m)
        r, p = isolated(k, z['before'], z['t'])
        check(len(r) == len(z['copy']), 'number of results')
        for x, y, ty in zip(r, z['copy'], z['tcopy']):
            check(identical(np.asarray(x), y), 'call {} (of integrator {}) gives {}, '
                  'but {} in isolation', m, k, y, x)
            check(identical(np.asarray(x.t), ty), 'timelines')
        check(srcs.state(p.rng) == z['state'], 'call {} leaves the generator in '
              'another state than in isolation', m)
        check(same_info({a: b for a, b in z['info'].items()}, p.info),
              'info {} vs. {} in isolation', z['info'], p.info)
    for p, was in zip(P, own):
        for z, (v, old) in was.items():
            now = getattr(p, z)
            check(now is v or type(now) is type(v) and
                  isinstance(v, (int, float, str, tuple)) and now == v,
                  'attribute {} replaced', z)
            if isinstance(v, np.ndarray):
                check(identical(v, old), 'attribute {} modified', z)
            elif isinstance(v, (list, set)):
                check(len(v) == len(old), 'attribute {} modified', z)
    for i in range(len(P)):
        check(P[i].rng is rngs[i], 'rng of integrator {}', i)
        last = [z for z in calls if z['k'] == i]
        for j in range(i):
            check(P[i].info is not P[j].info, 'instances share info')
            check(P[i].args is not P[j].args, 'instances share args')
            check(P[i].sources is not P[j].sources, 'instances share sources')


@subs(integrators(), quick=600, thorough=40000, shards=2)
def by_seed(c, ctx):
    """Seeding the generator, or the default one, is all it takes."""
    t = timeline(c, 0)
    out, states = [], []
    for k in range(4):
        cls, kw = arguments(c)
        np.random.seed(k)
        g = np.random.default_rng(c['seed'])
        if k % 2:
            sdepy.infrastructure.default_rng = g
            p = cls(**kw)
            sdepy.infrastructure.default_rng = np.random.default_rng(k)
        else:
            sdepy.infrastructure.default_rng = np.random.default_rng(k)
            p = cls(rng=g, **kw)
        d = srcs.state(sdepy.infrastructure.default_rng)
        before = srcs.global_state()
        out.append(call(p, t))
        states.append(srcs.state(g))
        check(srcs.global_state() == before, 'the global generator of NumPy was '
              'used')
        check(srcs.state(sdepy.infrastructure.default_rng) == d,
              'the default generator was used, instead of the one given')
    ctx.nt(euler.nsteps(c['grid']) > 0)
    for k in range(1, 4):
        check(states[k] == states[0], 'states of the generator')
        for x, y in zip(out[0], out[k]):
            check(identical(np.asarray(x), np.asarray(y)), 'realizations from the '
                  'same seed: {} vs. {}', x, y)


# ------------------------------------------------------------- hash seeds
@st.composite
def systems(draw):
    c = draw(c26.functions())
    c['kind'], c['srcs'] = 'integrate', 'default'
    c['ids'] = c26.IDS[:draw(st.sampled_from([3, 4, 4]))]
    c['coeffs'] = [{i: k.get(i) or draw(c26.c23.terms(max(c['q'], 1), c['names']))
                    for i in c['ids']} for k in c['coeffs']]
    c['grid']['steps'] = 20
    return c


def digest(c):
    cls, kw = arguments(c)
    p = cls(rng=srcs.rng('gen', c['seed']), **kw)
    h = hashlib.md5()
    for x in call(p, timeline(c, 0)):
        h.update(np.where(np.isnan(x), 0., np.array(x)).tobytes())
    return h.hexdigest()


CODE = '''
import sys, json
from pbt import bootstrap
bootstrap.ensure()
import warnings
warnings.simplefilter('ignore')
from pbt.checks import c28
print(json.dumps([c28.digest(c) for c in json.load(sys.stdin)]))
'''


@subs(st.fixed_dictionaries(dict(
    items=st.lists(st.one_of(systems(), systems(), integrators()), min_size=3,
                   max_size=6), hashes=st.lists(
    st.integers(1, 10**6), min_size=2, max_size=2, unique=True))),
    quick=16, thorough=800, shards=8)
def hash_seeds(c, ctx):
    ctx.nt()
    out = [[digest(s) for s in c['items']]]
    for h in c['hashes']:
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        r = subprocess.run([sys.executable, '-c', CODE], input=dumps(c['items']),
                           env=env, capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise RuntimeError('subprocess: ' + r.stderr[-500:])
        out.append(json.loads(r.stdout))
    for k in range(len(c['items'])):
        check(len({o[k] for o in out}) == 1, 'values of item {} depend on '
              'PYTHONHASHSEED', k)
