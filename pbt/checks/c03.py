import numpy as np
from hypothesis import strategies as st
from sdepy import process
from pbt.core import Subs, check, fail
from pbt.strat import timelines, vshapes, seeds, make, identical, index, relayout

subs = Subs('a process, and one ndarray method, NumPy function or standard '
            'index with generated arguments, compared with the same on the '
            'array view. Non-trivial: the call on the array view succeeds')


@st.composite
def procs(draw, kinds=('norm', 'int', 'bool', 'cplx', 'f4', 'dup')):
    t = draw(timelines(max_size=4))
    return dict(t=t, shape=[len(t)] + draw(vshapes(2, 3)) +
                [draw(st.integers(1, 4))],
                seed=draw(seeds), kind=draw(st.sampled_from(kinds)))


def build(c):
    return process(np.array(c['t']), x=make(c['shape'], c['seed'], c['kind']))


RED = ['sum', 'mean', 'min', 'max', 'prod', 'std', 'var', 'any', 'all', 'ptp']
AX1 = ['argmin', 'argmax', 'cumsum', 'cumprod', 'argsort']
PLAIN = ['flatten', 'ravel', 'copy', 'tolist', 'nonzero', 'conj', 'transpose',
         'squeeze', 'conjugate', 'tobytes', '__len__', '__iter__', '__bool__',
         '__float__', '__int__', 'item', '__array__', '__invert__', '__neg__',
         '__copy__', '__repr_values__', '__contains__', 'byteswap_']
ATTR = ['shape', 'ndim', 'size', 'dtype', 'itemsize', 'nbytes', 'strides', 'T',
        'real', 'imag', 'flat']
FUN_RED = ['sum', 'mean', 'amin', 'amax', 'median', 'std', 'var', 'average',
           'count_nonzero', 'nansum', 'ptp', 'any', 'prod']
FUN_AX = ['sort', 'flip', 'diff', 'cumsum', 'argsort', 'concatenate', 'stack',
          'roll', 'gradient_', 'expand_dims', 'split_', 'append', 'delete',
          'take', 'repeat', 'swapaxes', 'moveaxis', 'percentile', 'unique_']
FUN = ['where', 'reshape', 'ravel', 'array', 'asarray', 'isclose_', 'allclose',
       'array_equal', 'dot', 'outer', 'einsum', 'histogram', 'broadcast_to',
       'atleast_3d', 'squeeze', 'tile', 'add.reduce', 'add.accumulate',
       'maximum.reduce', 'interp_', 'linalg.norm', 'cov_', 'select',
       'full_like', 'zeros_like', 'meshgrid', 'searchsorted', 'add.outer_',
       'array2string', 'vdot', 'size', 'shape', 'ndim', 'iscomplexobj']

# functions that just call the method or view the array
DELEGATE = ['sum', 'mean', 'amin', 'amax', 'std', 'var', 'any', 'prod', 'sort',
            'cumsum', 'argsort', 'concatenate', 'take', 'repeat', 'swapaxes',
            'reshape', 'ravel', 'array', 'asarray', 'squeeze', 'size', 'shape',
            'ndim']


@st.composite
def method_cases(draw):
    c = draw(procs())
    nd = len(c['shape'])
    group = draw(st.sampled_from(['red', 'ax', 'plain', 'attr', 'args',
                                  'fun_red', 'fun_ax', 'fun']))
    c['group'] = group
    ax = st.integers(-nd, nd-1)
    if group in ('red', 'fun_red'):
        c['name'] = draw(st.sampled_from(RED if group == 'red' else FUN_RED))
        c['axis'] = draw(st.one_of(
            st.none(), ax, st.lists(st.integers(0, nd-1), unique=True,
                                    min_size=1, max_size=nd)))
        c['keepdims'] = draw(st.sampled_from([None, False, True]))
        c['dtype'] = draw(st.sampled_from([None, None, 'f8', 'c16']))
        c['ddof'] = draw(st.sampled_from([None, 0, 1]))
    elif group == 'ax':
        c['name'] = draw(st.sampled_from(AX1))
        c['axis'] = draw(st.one_of(st.none(), ax))
    elif group == 'plain':
        c['name'] = draw(st.sampled_from(PLAIN))
    elif group == 'attr':
        c['name'] = draw(st.sampled_from(ATTR))
    elif group == 'args':
        c['name'] = draw(st.sampled_from(
            ['reshape', 'swapaxes', 'take', 'repeat', 'compress', 'clip',
             'round', 'astype', 'diagonal', 'trace', 'transpose', 'view',
             'searchsorted', 'dot', 'partition', 'sort', 'fill', 'put',
             'choose', 'item', 'itemset', 'setflags', 'squeeze', 'getfield']))
        c['axis'], c['axis2'] = draw(ax), draw(ax)
        c['ks'] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=4))
    elif group == 'fun_ax':
        c['name'] = draw(st.sampled_from(FUN_AX))
        c['axis'], c['axis2'] = draw(ax), draw(ax)
        c['ks'] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4))
    else:
        c['name'] = draw(st.sampled_from(FUN))
    return c


def apply(c, a):
    g, name = c['group'], c['name']
    if g in ('red', 'fun_red'):
        ax = tuple(c['axis']) if isinstance(c['axis'], list) else c['axis']
        kw = dict(axis=ax)
        if c['keepdims'] is not None and name not in ('average',):
            kw['keepdims'] = c['keepdims']
        if c['dtype'] and name in ('sum', 'mean', 'prod', 'nansum'):
            kw['dtype'] = c['dtype']
        if c['ddof'] is not None and name in ('std', 'var'):
            kw['ddof'] = c['ddof']
        return getattr(a, name)(**kw) if g == 'red' else \
            getattr(np, name)(a, **kw)
    if g == 'ax':
        return getattr(a, name)(axis=c['axis'])
    if g == 'plain':
        if name == '__len__':
            return len(a)
        if name == '__iter__':
            return [np.array(z) for z in a]
        if name == '__repr_values__':
            return np.array2string(np.asarray(a))
        if name == '__contains__':
            return [z in a for z in (0, 1, .5, -3)]
        if name == 'byteswap_':
            return a.byteswap()
        return getattr(a, name)()
    if g == 'attr':
        r = getattr(a, name)
        return np.array([z for z in r]) if name == 'flat' else r
    if g == 'args':
        ax, ax2, ks = c['axis'], c['axis2'], c['ks']
        kk = [k % a.shape[ax] for k in ks]
        if name == 'reshape':
            return a.reshape(-1, a.shape[-1]) if ax % 2 else \
                a.reshape((a.size,))
        if name == 'swapaxes':
            return a.swapaxes(ax, ax2)
        if name == 'take':
            return a.take(kk, axis=ax)
        if name == 'repeat':
            return a.repeat(ks[0], axis=ax)
        if name == 'compress':
            return a.compress([k % 2 for k in kk][:a.shape[ax]], axis=ax)
        if name == 'clip':
            return a.clip(-.5, .7)
        if name == 'round':
            return a.round(ks[0])
        if name == 'astype':
            return a.astype(['f4', 'c16', 'O', 'f8'][ks[0] % 4])
        if name == 'diagonal':
            return a.diagonal(0, ax, ax2)
        if name == 'trace':
            return a.trace(0, ax, ax2)
        if name == 'transpose':
            axes = list(range(a.ndim))
            axes[ax], axes[ax2] = axes[ax2], axes[ax]
            return a.transpose(axes)
        if name == 'view':
            return a.view(np.ndarray)
        if name == 'searchsorted':
            return a.ravel().searchsorted(.3) if 0 else \
                np.sort(a, axis=None).searchsorted([0, .3])
        if name == 'dot':
            return a.dot(np.ones((a.shape[-1], 2)))
        if name in ('partition', 'sort', 'fill', 'put', 'itemset'):
            b = a.copy()
            if name == 'sort':
                b.sort(axis=ax)
            elif name == 'partition':
                b.partition(kk[0], axis=ax)
            elif name == 'fill':
                b.fill(1)
            elif name == 'itemset':
                b.itemset(0, 1)
            else:
                b.put([k % b.size for k in ks], 1)
            return np.asarray(b)
        if name == 'choose':
            return (np.abs(a.real).astype(int) % 2).choose([a, -1])
        if name == 'item':
            return a.item(ks[0] % a.size)
        if name == 'setflags':
            b = a.copy()
            b.setflags(write=False)
            return b.flags.writeable
        if name == 'squeeze':
            return a.squeeze(axis=ax)
        if name == 'getfield':
            return a.getfield(a.dtype)
    if g == 'fun_ax':
        ax, ax2, ks = c['axis'], c['axis2'], c['ks']
        kk = [k % a.shape[ax] for k in ks]
        f = getattr(np, name, None)
        if name in ('sort', 'flip', 'diff', 'cumsum', 'argsort', 'expand_dims'):
            return f(a, axis=ax)
        if name in ('concatenate', 'stack'):
            return f([a, np.asarray(a), a], axis=ax)
        if name == 'roll':
            return f(a, ks[0], axis=ax)
        if name == 'gradient_':
            return np.trapz(a, axis=ax)
        if name == 'split_':
            return np.array_split(a, 2, axis=ax)
        if name == 'append':
            return f(a, a, axis=ax)
        if name in ('delete', 'take'):
            return f(a, kk, axis=ax)
        if name == 'repeat':
            return f(a, ks[0], axis=ax)
        if name in ('swapaxes', 'moveaxis'):
            return f(a, ax, ax2)
        if name == 'percentile':
            return f(a, 10*ks[0], axis=ax)
        if name == 'unique_':
            return np.unique(a)
    if g == 'fun':
        x = np.asarray(a)
        if name == 'where':
            return np.where(np.abs(a) > .5, a, -1)
        if name == 'reshape':
            return np.reshape(a, -1)
        if name in ('ravel', 'array', 'asarray', 'atleast_3d', 'squeeze',
                    'full_like_', 'zeros_like', 'vdot_', 'size', 'shape',
                    'ndim', 'iscomplexobj'):
            return getattr(np, name)(a)
        if name == 'array2string':
            return np.array2string(np.array(a))
        if name == 'isclose_':
            return np.isclose(np.asarray(a), x + 1e-12)
        if name in ('allclose', 'array_equal'):
            return getattr(np, name)(a, x)
        if name == 'dot':
            return np.dot(a, np.ones(a.shape[-1]))
        if name == 'outer':
            return np.outer(a, [1, 2])
        if name == 'vdot':
            return np.vdot(a, a)
        if name == 'einsum':
            return np.einsum('i...->...', a)
        if name == 'histogram':
            return np.histogram(np.abs(a), bins=3)
        if name == 'broadcast_to':
            return np.broadcast_to(a, (2,) + a.shape)
        if name == 'tile':
            return np.tile(a, 2)
        if name == 'add.reduce':
            return np.add.reduce(a, axis=-1)
        if name == 'add.accumulate':
            return np.add.accumulate(a, axis=0)
        if name == 'maximum.reduce':
            return np.maximum.reduce(a)
        if name == 'add.outer_':
            return np.add.outer(np.asarray(a), [1, 2])
        if name == 'interp_':
            return np.interp(.5, [0, 1], [1, 2])
        if name == 'linalg.norm':
            return np.linalg.norm(a)
        if name == 'cov_':
            return np.cov(np.reshape(a, (-1, a.shape[-1])))
        if name == 'select':
            return np.select([np.asarray(a) == 0], [a], 5)
        if name == 'full_like':
            return np.full_like(a, 1)
        if name == 'meshgrid':
            return np.meshgrid([1, 2], np.ravel(a))
        if name == 'searchsorted':
            return np.searchsorted([0, .5], a)
    raise KeyError(name)


def equal(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and \
            all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, bool, np.dtype)):
        return a == b
    return identical(a, b)


@subs(method_cases(), quick=4000, thorough=60000, shards=2)
def methods(c, ctx):
    p = build(c)
    x = relayout(np.array(p, order='C'), c['seed'])     # as built
    ctx.label(c['group'])
    with np.errstate(all='ignore'):
        try:
            want = apply(c, x)
        except Exception as e:
            try:
                r = apply(c, p)
            except Exception:
                return
            fail('{} works on a process only: {}; on the array: {}', c['name'],
                 r, repr(e))
        ctx.nt()
        try:
            got = apply(c, p)
        except ValueError:
            # functions computing with arrays of the type of p, but without
            # timeline, may be refused - as documented - but not wrong
            if c['group'] in ('fun', 'fun_ax', 'fun_red') and \
                    c['name'] not in DELEGATE:
                ctx.label('refused')
                return
            raise
    check(equal(got, want), '{} gives {!r} instead of {!r}', c['name'], got, want)
    check(identical(np.array(p), x), '{} modified the process', c['name'])


@st.composite
def indexes(draw, shape):
    """A standard index: list of components."""
    key, used = [], 0
    nd = len(shape)
    style = draw(st.sampled_from(['basic', 'adv', 'mask', 'empty', 'int']))
    if style == 'empty':
        return []
    if style == 'int':
        return [['i', draw(st.integers(-shape[0], shape[0]-1))]]
    if style == 'mask':
        k = draw(st.integers(1, nd))
        n = int(np.prod(shape[:k]))
        return [['m', shape[:k], draw(seeds)]]
    ell = False
    m = draw(st.integers(1, nd))
    pos = 0
    for j in range(m):
        if draw(st.integers(0, 5)) == 0:
            key.append(['new'])
        if style == 'adv' and draw(st.integers(0, 9)) == 0:
            key.append([draw(st.sampled_from(['t', 'nt'])), draw(st.booleans())])
        if not ell and draw(st.integers(0, 4)) == 0:
            key.append(['...'])
            ell = True
            pos = nd - (m - j)
        n = shape[pos]
        pos += 1
        which = draw(st.sampled_from(['i', 'n', 's', 's'] +
                                     (['a', 'l', 'b', 'B'] if style == 'adv' else [])))
        if which in 'in':
            key.append([which, draw(st.integers(-n, n-1))])
        elif which == 's':
            key.append(['s', draw(st.one_of(st.none(), st.integers(-n-1, n+1))),
                        draw(st.one_of(st.none(), st.integers(-n-1, n+1))),
                        draw(st.sampled_from([None, 1, 2, -1, -2]))])
        elif which in 'al':
            key.append([which, draw(st.lists(st.integers(-n, n-1), min_size=1,
                                             max_size=3))])
        else:
            key.append([which, draw(st.lists(st.booleans(), min_size=n,
                                           max_size=n))])
    return key


@st.composite
def index_cases(draw):
    c = draw(procs())
    c['key'] = draw(indexes(c['shape']))
    c['bare'] = draw(st.booleans())
    return c


def as_key(c):
    key = []
    for d in c['key']:
        if d[0] == 'm':
            key.append(make(d[1], d[2], 'bool'))
        else:
            key.append(index(d))
    if len(key) == 1 and c['bare']:
        return key[0]
    return tuple(key)


@subs(index_cases(), quick=2500, thorough=50000)
def get_item(c, ctx):
    p = build(c)
    x = np.array(p)
    key = as_key(c)
    try:
        want = x[key]
    except IndexError:
        try:
            p[key]
        except IndexError:
            return
        fail('index {} accepted', key)
    ctx.nt()
    got = p[key]
    check(not isinstance(got, process), 'standard index {} returned a process',
          key)
    check(isinstance(want, np.ndarray) == isinstance(got, np.ndarray),
          'array or scalar')
    check(identical(got, want), 'p[{}] is {} instead of {}', key, got, want)
    basic = all(d[0] in ('i', 'n', 's', '...', 'new') for d in c['key'])
    if basic and isinstance(got, np.ndarray) and got.size:
        check(np.shares_memory(got, p.x), 'basic indexing returned a copy')


@subs(index_cases(), quick=1200)
def set_item(c, ctx):
    p = build(c)
    t = np.array(p.t)
    x = np.array(p)
    key = as_key(c)
    try:
        shape = x[key].shape
        x[key] = make(shape, c['seed'] + 1, 'int' if c['kind'] != 'bool'
                      else 'bool')
    except IndexError:
        return
    ctx.nt()
    p[key] = make(shape, c['seed'] + 1, 'int' if c['kind'] != 'bool' else 'bool')
    check(identical(p.x, x), 'assignment through {}', key)
    check(identical(p.t, t), 'timeline changed by assignment')
