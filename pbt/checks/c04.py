import numpy as np
from hypothesis import strategies as st
from sdepy import process
from pbt.core import Subs, check, fail
from pbt.strat import (timelines, vshapes, seeds, make, identical, index,
                       axis_index, raises)

subs = Subs('a process of generated shape/dtype and a generated t/v/p index, '
            'target vshape, or kind of copy, against NumPy on plain arrays. '
            'Non-trivial: all indexing cases with a non-empty index, reshapes '
            'changing the rank or refused, all copies')

KINDS = ['norm', 'int', 'bool', 'cplx', 'f4']


@st.composite
def procs(draw, max_dims=3, min_dims=0):
    t = draw(timelines(max_size=5))
    return dict(t=t, vshape=draw(vshapes(max_dims, 3, min_dims=min_dims)),
                paths=draw(st.integers(1, 5)), seed=draw(seeds),
                kind=draw(st.sampled_from(KINDS)), sub=draw(st.booleans()))


class Derived(process):
    pass


def build(c):
    x = make([len(c['t'])] + c['vshape'] + [c['paths']], c['seed'], c['kind'])
    t = np.array(c['t'])
    cls = Derived if c.get('sub') else process
    return cls(t, x=x), t.copy(), x.copy()


def kept(d, n):
    """The index, an integer being replaced by the position as an axis."""
    if d[0] in 'in':
        return [d[1] % n]
    return index(d)


def check_process(p, cls, t, x, what):
    check(isinstance(p, process) and type(p) is cls, '{}: type {}', what, type(p))
    check(identical(p.t, t), '{}: timeline {} instead of {}', what, p.t, t)
    check(identical(p.x, x), '{}: values {} instead of {}', what, p.x, x)


@st.composite
def tp_cases(draw):
    c = draw(procs())
    c['mode'] = draw(st.sampled_from('tp'))
    n = len(c['t']) if c['mode'] == 't' else c['paths']
    c['d'] = draw(st.one_of(st.just(['none']), st.just(['noneempty']),
                            axis_index(n), axis_index(n), axis_index(n),
                            axis_index(n)))
    c['tup'] = draw(st.integers(0, 5)) == 0
    return c


@subs(tp_cases(), quick=1500)
def time_and_paths(c, ctx):
    p, t, x = build(c)
    d, mode = c['d'], c['mode']
    if d[0].startswith('none'):
        got = p[mode] if d[0] == 'none' else p[mode, ()]
        check_process(got, type(p), t, x, 'p[{!r}]'.format(mode))
        return
    ctx.nt()
    ctx.label(mode + d[0])
    i = index(d)
    got = p[mode, (i,)] if c['tup'] else p[mode, i]
    if mode == 't':
        check_process(p['t', ...], type(p), t, x, "p['t', ...]")
    if mode == 't':
        k = kept(d, t.size)
        want_t, want_x = t[k], x[k]
    else:
        k = kept(d, x.shape[-1])
        want_t, want_x = t, x[..., k]
    check_process(got, type(p), want_t, want_x, 'p[{!r}, {!r}]'.format(mode, i))
    check(identical(p.x, x) and identical(p.t, t), 'the process was modified')
    if d[0] in 'ins':
        check(np.shares_memory(got.x, p.x), 'basic index {!r} copied', i)


@st.composite
def v_cases(draw):
    c = draw(procs(min_dims=0))
    vs = c['vshape']
    style = draw(st.sampled_from(['none', 'basic', 'basic', 'adv', 'mask', 'new']))
    if not vs or style == 'none':
        c['key'] = draw(st.sampled_from([[], [['...']], [['new']]]))
    elif style == 'mask':
        k = draw(st.integers(1, len(vs)))
        c['key'] = [['m', vs[:k], draw(seeds)]]
    elif style == 'adv':        # one array index: alone, or after slices
        k = draw(st.integers(0, len(vs)-1))
        c['key'] = [['s', None, None, None]]*k + \
            [draw(axis_index(vs[k], allow_int=False))]
        m = draw(st.integers(0, len(vs) - 1 - k))
        if k + m and c['key'][-1][0] == 'l' and draw(st.booleans()):
            c['key'][-1][0] = 'tup'
        c['key'] += [['s', None, None, None]]*m
    else:
        k = draw(st.integers(1, len(vs)))
        c['key'] = []
        for n in vs[:k]:
            d = draw(axis_index(n, allow_bool=False))
            c['key'].append(d if d[0] in 'ins' else ['s', None, None, None])
            if style == 'new' and draw(st.integers(0, 2)) == 0:
                c['key'].append(['new'])
        if draw(st.integers(0, 3)) == 0:
            c['key'].append(['...'])
    c['form'] = draw(st.sampled_from(['flat', 'tuple', 'bare']))
    return c


@subs(v_cases(), quick=1500)
def values(c, ctx):
    p, t, x = build(c)
    key = tuple(make(d[1], d[2], 'bool') if d[0] == 'm' else
                tuple(d[1]) if d[0] == 'tup' else index(d) for d in c['key'])
    ctx.nt(len(key))
    ctx.label('key%d' % len(key), c['form'])
    if c['form'] == 'tuple':
        got = p['v', key]
    elif not key:
        got = p['v']
    else:
        got = p[('v',) + key]
    # entry by entry
    a = x[0][..., 0][key]
    want = np.empty((len(t),) + a.shape + (c['paths'],), dtype=x.dtype)
    for i in range(len(t)):
        for k in range(c['paths']):
            want[i][..., k] = x[i][..., k][key]
    check_process(got, type(p), t, want, "p['v', {!r}]".format(key))
    check(identical(p.x, x) and identical(p.t, t), 'the process was modified')
    if all(d[0] in ('i', 'n', 's', '...', 'new') for d in c['key']):
        check(got.size == 0 or np.shares_memory(got.x, p.x), 'copied')


@st.composite
def bad_cases(draw):
    c = draw(procs())
    c['flag'] = draw(st.one_of(
        st.sampled_from(['', 'T', 'V', 'P', 'x', 'tt', 'vp', 't ', 'time']),
        st.text(min_size=0, max_size=3).filter(lambda z: z not in 'tvp' or not z)))
    c['bare'] = draw(st.booleans())
    return c


@subs(bad_cases(), quick=300)
def bad_flag(c, ctx):
    p, t, x = build(c)
    ctx.nt()
    key = c['flag'] if c['bare'] else (c['flag'], 0)
    check(raises(IndexError, lambda: p[key]), 'flag {!r} accepted', key)


@st.composite
def shape_cases(draw):
    c = draw(procs(max_dims=4))
    if draw(st.booleans()):     # leading unit axes
        k = draw(st.integers(1, 3))
        c['vshape'] = [1]*k + c['vshape'][:3]
    h = draw(st.integers(0, 5))
    c['target'] = draw(st.lists(st.integers(1, 4), min_size=h, max_size=h))
    c['form'] = draw(st.sampled_from(['tuple', 'list', 'process']))
    return c


@subs(shape_cases(), quick=1200)
def shapeas(c, ctx):
    p, t, x = build(c)
    vs, target = c['vshape'], c['target']
    k, h = len(vs), len(target)
    arg = tuple(target) if c['form'] == 'tuple' else target
    if c['form'] == 'process':
        arg = process([0, 1, 2], c=np.zeros(target))
    if h < k and any(n != 1 for n in vs[:k-h]):
        ctx.nt()
        ctx.label('refused')
        check(raises(ValueError, p.shapeas, arg), '{} reshaped as {}', vs, target)
        return
    ctx.nt(h != k)
    new = [1]*(h-k) + vs if h > k else vs[k-h:]
    want = x.reshape([len(t)] + new + [c['paths']])
    got = p.shapeas(arg)
    check_process(got, type(p), t, want, 'shapeas')
    check(np.shares_memory(got.x, p.x), 'shapeas copied the values')
    check(p.x.shape == x.shape, 'process reshaped in place')


@st.composite
def copy_cases(draw):
    c = draw(procs())
    c['copy'] = draw(st.sampled_from(['pcopy', 'xcopy', 'tcopy']))
    c['order'] = draw(st.sampled_from([None, 'C', 'F', 'K']))
    return c


@subs(copy_cases(), quick=500)
def copies(c, ctx):
    ctx.nt()
    p, t, x = build(c)
    kw = {} if c['order'] is None else dict(order=c['order'])
    q = getattr(p, c['copy'])(**kw)
    check_process(q, type(p), t, x, c['copy'])
    sx, st_ = np.shares_memory(p.x, q.x), np.shares_memory(p.t, q.t)
    check(sx == (c['copy'] == 'tcopy'), '{} values: shared {}', c['copy'], sx)
    check(st_ == (c['copy'] == 'xcopy'), '{} timeline: shared {}', c['copy'], st_)
    p.x[...] = 0
    p.t[...] = 77
    check(identical(q.x, x if c['copy'] != 'tcopy' else p.x), 'values')
    check(identical(q.t, t if c['copy'] != 'xcopy' else p.t), 'timeline')


@subs(procs(), quick=500)
def properties(c, ctx):
    p, t, x = build(c)
    n = len(c['vshape']) + 1
    ctx.nt(len(t) > 1)
    check(identical(p.x, x) and type(p.x) is np.ndarray and
          np.shares_memory(p.x, p), 'x')
    check(p.vshape == tuple(c['vshape']), 'vshape')
    check(p.paths == c['paths'], 'paths')
    check(identical(p.tx, t.reshape((len(t),) + (1,)*n)), 'tx {}', p.tx)
    dt = np.array([b - a for a, b in zip(c['t'], c['t'][1:])], dtype=t.dtype)
    check(identical(p.dt, dt), 'dt {}', p.dt)
    check(identical(p.dtx, dt.reshape((len(t)-1,) + (1,)*n)), 'dtx {}', p.dtx)
    check(identical(p.dt, dt) and identical(p.x, x) and identical(p.t, t),
          'not repeatable')
