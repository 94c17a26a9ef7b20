import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt import srcs
from pbt.core import Subs, check, fail
from pbt.strat import (vshapes, seeds, fl, identical, make, axis_index, index,
                       broadcast_of)

subs = Subs('a source with memory and a history of queries dz(t), dz(t, dt) and '
            'queries of sub-sources, with scalar and array times in any order '
            'on both sides of t0, repeated exactly and within rtol; compared '
            'with a model remembering the first value of each time. '
            'Non-trivial: some time is asked at least twice, and some time is '
            'first asked between two others')
SHAPES = [[], [], [1], [3], [2, 2], [5]]


@st.composite
def times(draw, n, used, near):
    """n time points [k, e]: time t0 + k/16, displaced by e (in [-2, 2])
    fifths of the tolerance; half of the times among those already used."""
    out = []
    for _ in range(n):
        if used and draw(st.integers(0, 2)) == 0:
            k = draw(st.sampled_from(used))
        else:
            k = draw(st.integers(-40, 40))
        used.append(k)
        out.append([k, draw(st.integers(-2, 2)) if near else 0])
    return out


@st.composite
def cases(draw):
    name = draw(st.sampled_from(srcs.TRUE))
    vshape = draw(vshapes(2, 3))
    paths = draw(st.integers(1, 4))
    rtol = draw(st.sampled_from(['omit', 'max', 1e-6, 1e-4]))
    par = draw(srcs.params(name, vshape, paths))
    if name != 'true_wiener':
        par['lam'] = draw(st.sampled_from([.3, 1., 3., 'array', 'call']))
    if name == 'true_cpoisson':
        par['y'] = draw(st.one_of(srcs.laws(), st.just(
            dict(name='const', a=0., b=1, pa=0)), st.just(
            dict(name='vanish', a=0., b=1, pa=0)), st.just(
            dict(name='array', a=0., b=1, pa=0))))
        par['dn'] = draw(st.sampled_from([None, None, 'own', 'f8']))
    subs = []
    if vshape:
        for _ in range(draw(st.integers(0, 2))):
            idx = [draw(axis_index(vshape[0]))]
            if len(vshape) > 1 and idx[0][0] in 'ins' and draw(st.booleans()):
                idx.append(draw(axis_index(vshape[1]).filter(
                    lambda d: d[0] in 'ins')))
            subs.append(idx)
    used, ops = [0], []
    # as single points, most often far apart at first, then in between
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(['q', 'q', 'q', 'd', 'd'] + ['s']*2*bool(subs)))
        shape = draw(st.sampled_from(SHAPES))
        n = int(np.prod(shape))
        near = rtol in (1e-6, 1e-4)
        o = dict(op=op, shape=shape, t=draw(times(n, used, near)))
        if op == 'd' or (op == 's' and draw(st.booleans())):
            o['to'] = draw(times(n, used, near))
            # t or dt may be scalar, the other one an array
            o['one'] = draw(st.sampled_from([None, None, 't', 'dt']))
            o['hop'] = draw(st.integers(-24, 24))
        if op == 's':
            o['k'] = draw(st.integers(0, len(subs)-1))
            o['new'] = draw(st.booleans())
        o['list'] = draw(st.booleans())
        ops.append(o)
    t0 = draw(st.sampled_from(['omit', 0, 0., 1, -1.5, 2.25]))
    # time scale, compatible with rtol
    scale = draw(st.sampled_from([0, 0, 0, -30] + [-60]*(t0 in ('omit', 0))))
    if rtol in (1e-4, 1e-6) and t0 not in ('omit', 0):
        scale = 0
    return dict(name=name, vshape=vshape, paths=paths, rtol=rtol, par=par,
                subs=subs, ops=ops, t0=t0, scale=scale,
                z0=draw(st.sampled_from(['omit', 0, 2, 'array'])),
                zshape=draw(broadcast_of(vshape + [paths])),
                dtype=draw(st.sampled_from(['omit', 'f8'])),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


class vanishing_rv:
    """Zero, or opposite jumps."""
    def rvs(self, size, random_state=None):
        k = random_state.uniform(size=size)
        return np.where(k < .4, 0., np.where(k < .7, 1., -1.))


def build(c):
    kw = {}
    for k in ('t0', 'rtol'):
        if c[k] != 'omit':
            kw[k] = c[k]
    if c['z0'] != 'omit':
        kw['z0'] = c['z0'] if c['z0'] != 'array' else \
            make(c['zshape'], c['seed'], 'fint')
    if c['dtype'] != 'omit':
        kw['dtype'] = c['dtype']
    par = dict(c['par'])
    vshape, paths = tuple(c['vshape']), c['paths']
    g = srcs.rng(c['rng'], c['seed'])
    y = par.get('y', {}).get('name')
    if y in ('vanish', 'array'):
        par.pop('y')
        kw['y'] = vanishing_rv() if y == 'vanish' else \
            sdepy.norm_rv(make(vshape + (paths,), c['seed']), 1.)
    kw.update(srcs.kwargs(c['name'], par, c['vshape'], paths))
    t0 = 0. if c['t0'] == 'omit' else float(c['t0'])
    if par.get('dn') == 'own':
        kw['dn'] = sdepy.true_poisson_source(
            paths=paths, vshape=vshape, lam=kw.pop('lam'), rng=g, t0=t0,
            **({'rtol': c['rtol']} if c['rtol'] != 'omit' else {}))
    elif par.get('dn') == 'f8':
        kw['ptype'] = 'f8'
    z0 = np.broadcast_to(kw.get('z0', 0), vshape + (paths,))
    return srcs.cls(c['name'])(paths=paths, vshape=vshape, rng=g, **kw), t0, z0


@subs(cases(), quick=5000, thorough=200000, shards=6)
def memory(c, ctx):
    dz, t0, z0 = build(c)
    vshape, paths = tuple(c['vshape']), c['paths']
    tail = vshape + (paths,)
    rtol = 1e-15 if c['rtol'] in ('omit', 'max') else c['rtol']
    ctx.label(c['name'], 'rtol=%s' % c['rtol'])

    def idx_of(d):
        i = tuple(index(z) for z in d)
        return i[0] if len(i) == 1 else i
    subsrc = [dz[idx_of(d)] for d in c['subs']]

    def at(p):
        k, e = p
        t = t0 + k/16*2.**c['scale']
        return t*(1 + e*.2*rtol) if e else t
    known = {0: z0.astype(dz.dtype) if dz.dtype else z0}
    first = {0: t0}
    again = inside = False
    check(dz.paths == paths and dz.vshape == vshape, 'paths, vshape')

    def learn(k, t, v, what):
        """The model: v is the value of the source at point k."""
        nonlocal again, inside
        if k in known:
            again = True
            check(np.array_equal(v, known[k]),
                  '{}: value at {} was {}, now is {}', what, t, known[k], v)
        else:
            if min(known) < k < max(known):
                inside = True
            known[k], first[k] = np.array(v), t

    for n, o in enumerate(c['ops']):
        shape = tuple(o['shape'])
        t = np.array([at(p) for p in o['t']], dtype=float).reshape(shape)
        ks = [p[0] for p in o['t']]
        arg = t.tolist() if o['list'] else t
        what = 'query %d (%s)' % (n, o['op'])
        if 'to' in o:
            s = np.array([at(p) for p in o['to']], dtype=float).reshape(shape)
            js = [p[0] for p in o['to']]
            ds = s - t
            if o['one'] == 't' and shape:
                ds, ks = s - t.ravel()[0], [ks[0]]*len(ks)
                arg = t = t.ravel()[0]
            elif o['one'] == 'dt' and shape and not any(p[1] for p in o['t']):
                js = [k + o['hop'] for k in ks]
                ds = np.array(o['hop']/16*2.**c['scale'])
                s = t + ds
            darg = ds.tolist() if o['list'] else ds
            t = np.broadcast_to(t, shape)
        if o['op'] == 's':
            i = idx_of(c['subs'][o['k']])
            sub = dz[i] if o['new'] else subsrc[o['k']]
            # index of values, to be applied to (vshape, paths) arrays
            want_shape = np.empty(vshape)[i].shape
            check(sub.vshape == want_shape and sub.paths == paths,
                  'sub-source vshape {}, paths {}', sub.vshape, sub.paths)
            x = sub(arg, darg) if 'to' in o else sub(arg)
            check(x.shape == shape + want_shape + (paths,),
                  'sub-source shape {}', x.shape)
            check(np.array_equal(sub.t, dz.t) and sub.size == dz.size,
                  'sub-source t, size')
            full = dz(t)
            fto = dz(s) if 'to' in o else None
            for m, q in enumerate(np.ndindex(*shape)):
                learn(ks[m], t[q], full[q], what)
                if 'to' in o:
                    learn(js[m], s[q], fto[q], what)
                want = full[q] if fto is None else fto[q] - full[q]
                j = i if isinstance(i, tuple) else (i,)
                # by paths, so that the index acts on the values only
                want = np.moveaxis(np.array([want[..., p][j]
                                             for p in range(paths)]), 0, -1)
                check(np.array_equal(x[q], want), '{}: sub-source at {} is {}, '
                      'not {}', what, t[q], x[q], want)
            continue
        if o['op'] == 'd':
            x = dz(arg, darg)
            a, b = dz(t), dz(t + ds)
            check(x.shape == shape + tail, 'shape {}', x.shape)
            check(np.array_equal(x, b - a), '{}: increments {} instead of {}',
                  what, x, b - a)
            for m, q in enumerate(np.ndindex(*shape)):
                learn(ks[m], t[q], a[q], what)
                learn(js[m], s[q], b[q], what)
        else:
            x = dz(arg)
            check(x.shape == shape + tail, 'shape {}', x.shape)
            for m, q in enumerate(np.ndindex(*shape)):
                learn(ks[m], t[q], x[q], what)
        if n % 2:
            check(np.array_equal(dz(t0), z0), 'dz(t0) is {} instead of {}',
                  dz(t0), z0)
    ctx.nt(again and inside)

    # at the end: everything as revealed
    for k in known:
        check(np.array_equal(dz(first[k]), known[k]),
              'value at {} was {}, finally is {}', first[k], known[k],
              dz(first[k]))
    st_ = dz.t
    check(st_.ndim == 1 and np.all(np.diff(st_) > 0), 'stored times {}', st_)
    ft = np.array(sorted(first.values()))
    near = [ft[np.argmin(abs(ft - z))] for z in st_]
    check(np.allclose(st_, near, rtol=2*rtol, atol=0) and
          len(set(near)) == len(near), 'stored times {}, asked {}', st_, ft)
    size = int(np.prod(tail))
    if c['name'] == 'true_wiener':
        check(len(st_) == len(ft), 'stored times {}, asked {}', st_, ft)
    if c['name'] == 'true_cpoisson':
        cnt = dz.dn(st_)
        jumps = int((cnt[-1] - cnt[0]).sum()) if len(st_) > 1 else 0
        check(dz.size == size*(len(st_) + len(dz.dn.t)) + jumps,
              'size {} for {} times and {} jumps', dz.size, len(st_), jumps)
    else:
        check(dz.size == size*len(st_), 'size {} for {} times', dz.size, len(st_))
    # never leaked
    st_[...] = 0
    check(dz.t.size < 2 or np.all(np.diff(dz.t) > 0), 't is not a copy')

    # monotone counts, sums constant where counts are
    ks = sorted(known)
    v = np.array([known[k] for k in ks])
    if c['name'] == 'true_poisson':
        check((np.diff(v, axis=0) >= 0).all(), 'counts decrease in time: {}', v)
        check((v == np.rint(v)).all(), 'counts {}', v)
    if c['name'] == 'true_cpoisson':
        n = dz.dn(np.array([first[k] for k in ks]))
        n = np.broadcast_to(n, v.shape)
        dn, dv = np.diff(n, axis=0), np.diff(v, axis=0)
        check((dn >= 0).all(), 'counts decrease in time')
        check((abs(dv[dn == 0]) < 1e-9).all(), 'jumps without counts')


@st.composite
def returned_cases(draw):
    c = draw(cases())
    c['mul'] = draw(st.sampled_from([0., -1., 7.]))
    return c


@subs(returned_cases(), quick=600, shards=2)
def aliasing(c, ctx):
    """Returned arrays may be modified by the caller."""
    dz, t0, z0 = build(c)
    ctx.nt()
    ks = sorted({p[0] for o in c['ops'] for p in o['t']})
    ts = [t0 + k/16*2.**c['scale'] for k in ks][:6]
    T = np.array(ts)

    def ask():
        v = [dz(t) for t in ts] + [dz(T), dz(T[:, None]), dz(T, T[0] - T),
                                   dz(T[:, None], np.array([[.5, .25]]))]
        for d in subs_:
            v += [d(T), d(T[0]), d(T[:, None]), d(T, T[0] - T)]
        return v
    subs_ = [dz[tuple(index(z) for z in d)] for d in c['subs']]
    a = ask()
    keep = [np.array(z) for z in a]
    for z in a:
        if isinstance(z, np.ndarray) and z.flags.writeable:
            z[...] = c['mul']
    b = ask()
    check(all(identical(x, y) for x, y in zip(keep, b)),
          'values revealed change with returned arrays')


@st.composite
def long_cases(draw):
    name = draw(st.sampled_from(srcs.TRUE))
    vshape = draw(vshapes(1, 2))
    paths = draw(st.integers(1, 2))
    par = draw(srcs.params(name, vshape, paths))
    n = draw(st.sampled_from([70, 140, 300]))
    return dict(name=name, vshape=vshape, paths=paths, par=par, n=n,
                rtol=draw(st.sampled_from(['omit', 'max', 1e-6, 1e-5])), t0='omit',
                z0='omit', dtype='omit', parts=draw(st.integers(1, 4)), tseed=draw(seeds),
                style=draw(st.sampled_from(['random', 'halving', 'monotone'])),
                seed=draw(seeds), rng=draw(st.sampled_from(srcs.RNGS)))


@subs(long_cases(), quick=80, thorough=2000, shards=2)
def long_memory(c, ctx):
    """Hundreds of points."""
    ctx.nt()
    ctx.label(c['name'], c['style'])
    dz, t0, z0 = build(c)
    n = c['n']
    r = np.random.RandomState(c['tseed'])
    t = np.arange(1, n + 1)*(5./n)*r.choice([-1, 1])
    if c['style'] == 'random':
        t = r.permutation(t)*r.choice([-1, 1], size=n)
    elif c['style'] == 'halving':
        t = t[np.argsort([int(bin(k + 512)[:2:-1], 2) for k in range(n)])][::-1]
    x = np.concatenate([dz(z) for z in np.array_split(t, c['parts'])])
    check(np.array_equal(dz(t), x), 'values changed')
    k = r.randint(n, size=5)
    for i in k:
        check(np.array_equal(dz(t[i]), x[i]), 'value at {} changed', t[i])
        if c['rtol'] in (1e-6, 1e-5):
            for e in (-.6, .6):
                check(np.array_equal(dz(t[i]*(1 + e*c['rtol'])), x[i]),
                      'value at {}, displaced by {} of rtol, is not that at {}',
                      t[i]*(1 + e*c['rtol']), e, t[i])
    mid = dz((t[1:] + t[:-1])/2)
    check(np.array_equal(dz(t), x) and
          np.array_equal(dz((t[1:] + t[:-1])/2), mid), 'values changed')
    check((np.diff(dz.t) > 0).all(), 'stored times')
    if c['name'] == 'true_wiener':
        check(all(abs(dz.t - z).min() == 0 for z in t), 'times not stored')
