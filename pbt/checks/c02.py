import operator
import numpy as np
import scipy.special
from hypothesis import strategies as st
from sdepy import process
from pbt.core import Subs, check, fail
from pbt.strat import (timelines, vshapes, seeds, make, identical,
                       broadcast_of)

subs = Subs('one ufunc or operator on generated processes (same timeline, one '
            'constant, equal or different), arrays and scalars of shapes that '
            'do or do not broadcast, plain, in-place or with out=. '
            'Non-trivial: at least one process operand and a second operand, '
            'or two outputs')

UNARY = ['negative', 'exp', 'sin', 'absolute', 'sign', 'square', 'isnan',
         'logical_not', 'modf', 'frexp', 'arctan', 'floor', 'positive',
         'isfinite', 'cbrt']
BINARY = ['add', 'subtract', 'multiply', 'true_divide', 'maximum', 'minimum',
          'greater', 'less_equal', 'equal', 'not_equal', 'arctan2', 'hypot',
          'logical_and', 'divmod', 'floor_divide', 'remainder', 'power',
          'copysign', 'fmax', 'less', 'logical_xor', 'ldexp_', 'nextafter']
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '**': operator.pow, '//': operator.floordiv,
       '%': operator.mod, '<': operator.lt, '<=': operator.le,
       '>': operator.gt, '>=': operator.ge, '==': operator.eq,
       '!=': operator.ne}
IOPS = {'+=': operator.iadd, '-=': operator.isub, '*=': operator.imul,
        '/=': operator.itruediv}
# kind of values: positive, so that all functions are well defined


def func(name):
    if name == 'ldexp_':
        return lambda a, b: np.add(a, b, dtype=np.float64)
    return OPS.get(name) or IOPS.get(name) or getattr(np, name)


@st.composite
def pair_shapes(draw, compatible):
    """Two (vshape, paths)."""
    base = draw(vshapes(2, 3))
    P = draw(st.integers(1, 3))
    if compatible:
        out = []
        for _ in range(2):
            s = [n if draw(st.integers(0, 3)) else 1 for n in base]
            out.append([s, P if draw(st.integers(0, 3)) else 1])
        return out
    other = draw(vshapes(2, 3))
    return [[base, P], [other, draw(st.integers(1, 3))]]


@st.composite
def two(draw):
    t = draw(timelines(max_size=4))
    rel = draw(st.sampled_from(['same', 'equal', 'const1', 'const2',
                                'constboth', 'shifted', 'longer', 'last',
                                'inner', 'first', 'close', 'same']))
    sh = draw(pair_shapes(draw(st.integers(0, 3)) > 0))
    return dict(t=t, rel=rel, sh=sh, seeds=[draw(seeds), draw(seeds)],
                kinds=[draw(st.sampled_from(['pos', 'dup', 'int', 'f4'])),
                       draw(st.sampled_from(['pos', 'fint', 'int']))],
                op=draw(st.sampled_from(BINARY + sorted(OPS))))


def build_two(c):
    t = np.array(c['t'])
    t1, t2 = t, t
    rel = c['rel']
    if rel == 'equal':
        t2 = t.copy()
    elif rel in ('const1', 'constboth'):
        t1 = t[:1] - 1
    if rel in ('const2', 'constboth'):
        t2 = t[-1:] + 5
    if rel == 'shifted':
        t2 = t + 1
    elif rel == 'last':
        t2 = t.astype(float)
        t2[-1] += .5
    elif rel == 'first':
        t2 = t.astype(float)
        t2[0] -= .5
    elif rel == 'inner':     # same size and ends
        if t.size > 2:
            t2 = t.astype(float)
            t2[1] = (t2[1] + t2[2])/2
    elif rel == 'close':
        t2 = t.astype(float)
        t2[-1] = np.nextafter(t2[-1], np.inf)
    elif rel == 'longer':
        t2 = np.append(t, t[-1] + 1)
    P = []
    for tt, (vs, n), s, k in zip((t1, t2), c['sh'], c['seeds'], c['kinds']):
        P.append(process(tt, x=make(tt.shape + tuple(vs) + (n,), s, k)))
    return P


def compatible(a, b):
    t_ok = a.t.size == 1 or b.t.size == 1 or np.array_equal(a.t, b.t)
    s1, s2 = a.shape[1:], b.shape[1:]
    return t_ok and len(s1) == len(s2) and \
        all(m == n or m == 1 or n == 1 for m, n in zip(s1, s2))


def outputs(r):
    return r if isinstance(r, tuple) else (r,)


def verify(got, want, t):
    got, want = outputs(got), outputs(want)
    check(len(got) == len(want), 'number of outputs')
    for g, w in zip(got, want):
        check(type(g) is process, 'result is a {}, not a process', type(g))
        check(g.t is not None and identical(g.t, t), 'timeline {} instead of {}',
              g.t, t)
        check(identical(g.x, w), 'values {} instead of {}', g.x, w)
        check(g.shape[0] == g.t.size, 'shape {} on {} time points', g.shape,
              g.t.size)


def snap(*ps):
    return [(np.array(p), np.array(p.t) if isinstance(p, process) else 0)
            for p in ps]


def unchanged(ps, saved):
    for p, (x, t) in zip(ps, saved):
        check(identical(np.asarray(p), x), 'operand modified')
        if isinstance(p, process):
            check(identical(p.t, t), 'timeline of operand modified')


def f_on(f, *a):
    with np.errstate(all='ignore'):
        return f(*a)


@subs(two(), quick=2500, shards=2)
def two_processes(c, ctx):
    p, q = build_two(c)
    f = func(c['op'])
    saved = snap(p, q)
    ok = compatible(p, q)
    ctx.nt()
    ctx.label('ok' if ok else 'incompatible', c['rel'])
    if not ok:
        try:
            r = f_on(f, p, q)
        except ValueError:
            unchanged((p, q), saved)
            return
        fail('{} of incompatible processes {} at {} and {} at {} gave {}',
             c['op'], p.shape, p.t, q.shape, q.t,
             getattr(r, 'shape', r))
    t = p.t if p.t.size > 1 or q.t.size == 1 else q.t
    try:
        want = f_on(f, np.array(p), np.array(q))
    except (TypeError, ValueError) as e:    # e.g. integers to negative powers
        ctx.label('undefined')
        return
    verify(f_on(f, p, q), want, t)
    unchanged((p, q), saved)


@st.composite
def with_array(draw):
    t = draw(timelines(max_size=4))
    vs, n = draw(vshapes(2, 3)), draw(st.integers(1, 3))
    full = [len(t)] + vs + [n]
    return dict(t=t, shape=full,
                arr=draw(st.one_of(
                    broadcast_of(full), st.just('scalar'), st.just('int'),
                    st.just('npscalar'), st.just('list'))),
                first=draw(st.booleans()), seed=draw(seeds),
                kind=draw(st.sampled_from(['pos', 'dup', 'int', 'f4', 'fint'])),
                op=draw(st.sampled_from(BINARY + sorted(OPS))))


@subs(with_array(), quick=1500)
def process_and_array(c, ctx):
    p = process(np.array(c['t']), x=make(c['shape'], c['seed'], c['kind']))
    a = c['arr']
    if a == 'scalar':
        b = 1.25
    elif a == 'int':
        b = 2
    elif a == 'npscalar':
        b = np.float64(.75)
    elif a == 'list':
        b = [float(k + 1) for k in range(c['shape'][-1])]
    else:
        b = make(a, c['seed'] + 1, 'pos')
    ctx.nt()
    ctx.label('array' if isinstance(a, list) else a)
    f = func(c['op'])
    x = np.array(p)
    saved = snap(p)
    args, ref = ((p, b), (x, b)) if c['first'] else ((b, p), (b, x))
    if a == 'list' and c['op'] in OPS and not c['first']:
        args, ref = (p, b), (x, b)
    try:
        want = f_on(f, *ref)
    except (TypeError, ValueError):
        return
    verify(f_on(f, *args), want, p.t)
    unchanged((p,), saved)


@st.composite
def one(draw):
    t = draw(timelines(max_size=4))
    return dict(t=t, shape=[len(t)] + draw(vshapes(3, 3)) + [draw(st.integers(1, 3))],
                seed=draw(seeds),
                kind=draw(st.sampled_from(['norm', 'int', 'f4', 'dup'])),
                op=draw(st.sampled_from(UNARY + ['neg', 'abs'])))


@subs(one(), quick=600)
def unary(c, ctx):
    p = process(np.array(c['t']), x=make(c['shape'], c['seed'], c['kind']))
    f = {'neg': operator.neg, 'abs': abs}.get(c['op']) or getattr(np, c['op'])
    saved = snap(p)
    try:
        want = f_on(f, np.array(p))
    except TypeError:
        return
    ctx.nt(c['op'] in ('modf', 'frexp') or len(c['t']) > 1)
    verify(f_on(f, p), want, p.t)
    unchanged((p,), saved)


@st.composite
def three(draw):
    c = draw(two())
    base = c['sh'][0]
    c['op'] = draw(st.sampled_from(['clip', 'betainc', 'pyfunc']))
    c['third'] = draw(st.sampled_from(['const', 'const', 'process', 'other',
                                       'scalar', 'array']))
    c['sh3'] = [[n if draw(st.booleans()) else 1 for n in base[0]],
                draw(st.sampled_from([1, base[1]]))]
    c['order'] = draw(st.permutations([0, 1, 2]))
    c['kinds'] = ['pos', 'pos']
    return c


@subs(three(), quick=800, thorough=60000)
def three_operands(c, ctx):
    """All pairs of operands of a ufunc should be compatible."""
    p, q = build_two(c)
    what = c['third']
    if what in ('scalar', 'array'):
        r = .75 if what == 'scalar' else make([n if k % 2 else 1 for k, n in
                                               enumerate(p.shape)],
                                              c['seeds'][0], 'pos')
    else:
        t = p.t
        if what == 'const':
            t = np.array([3.5])
        elif what == 'other':
            t = np.append(np.asarray(t[:-1], float), t[-1] + 1.5)
        vs, n = c['sh3']
        r = process(t, x=make(t.shape + tuple(vs) + (n,), c['seeds'][1] + 1, 'pos'))
    a = [(p, q, r)[i] for i in c['order']]
    f = {'clip': np.core.umath.clip, 'betainc': scipy.special.betainc,
         'pyfunc': np.frompyfunc(lambda x, y, z: 2*x - y + 3*z, 3, 1)}[c['op']]
    ps = [z for z in a if isinstance(z, process)]
    ok = all(compatible(y, z) for y in ps for z in ps)
    ctx.nt()
    ctx.label(what, 'ok' if ok else 'incompatible')
    saved = snap(*a)
    if not ok:
        try:
            got = f_on(f, *a)
        except ValueError:
            unchanged(a, saved)
            return
        fail('{} of incompatible processes {} at {} gave {}', c['op'],
             [z.shape for z in ps], [z.t for z in ps], getattr(got, 'shape', got))
    t = ([z.t for z in ps if z.t.size > 1] or [ps[0].t])[0]
    verify(f_on(f, *a), f_on(f, *[np.array(z) for z in a]), t)
    unchanged(a, saved)


@st.composite
def inplace(draw):
    c = draw(two())
    if draw(st.booleans()):
        c['sh'][1] = [[n if draw(st.booleans()) else 1 for n in c['sh'][0][0]],
                      draw(st.sampled_from([1, c['sh'][0][1]]))]
    c['kinds'] = ['pos', draw(st.sampled_from(['pos', 'dup', 'f4']))]
    c['op'] = draw(st.sampled_from(sorted(IOPS) + ['add', 'multiply', 'maximum',
                                                   'subtract']))
    c['what'] = draw(st.sampled_from(['process', 'process', 'process',
                                      'scalar', 'array', 'unary']))
    return c


@subs(inplace(), quick=1200)
def in_place(c, ctx):
    p, q = build_two(c)
    f = func(c['op'])
    isop = c['op'] in IOPS
    if c['what'] == 'scalar':
        q = 1.5
    elif c['what'] == 'array':
        q = make([n if k % 2 else 1 for k, n in enumerate(p.shape)],
                 c['seeds'][1], 'pos')
    x, t = p.x, p.t
    saved = snap(p)
    t0 = np.array(t)
    ctx.nt()
    if c['what'] == 'unary':
        want = np.square(np.array(p))
        r = np.square(p, out=p)
        verify(r, want, t0)
        check(identical(x, want), 'values not updated in place')
        return
    ok = not isinstance(q, process) or compatible(p, q)
    try:
        want = np.array(p)
        {'+=': np.add, '-=': np.subtract, '*=': np.multiply,
         '/=': np.true_divide}.get(c['op'], f)(want, np.array(q), out=want)
    except ValueError:      # the result does not fit in p
        ok = False
    ctx.label('ok' if ok else 'incompatible')
    if not ok:
        try:
            f_on(f, p, q) if isop else f_on(lambda: f(p, q, out=p))
        except ValueError:
            unchanged((p,), saved)
            return
        fail('{} into {} at {} accepted {} at {}', c['op'], p.shape, p.t,
             np.shape(q), getattr(q, 't', None))
    r = f(p, q) if isop else f(p, q, out=p)
    verify(r, want, t0)
    check(identical(x, want), 'values not updated in place')
    check(identical(p.t, t0), 'timeline changed in place')
