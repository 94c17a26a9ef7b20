import numpy as np
import sdepy
from hypothesis import strategies as st
from pbt.core import Subs, check, fail
from pbt.strat import vshapes, seeds, fl, timelines, raises, identical

subs = Subs('a recording paths_generator of depth 2 to 4, with generated '
            'timeline, steps, i0 and adaptive steps, vs. a model of the '
            'sequence of events. Non-trivial: some time point is '
            'touched besides the output ones, or i0 is not the first one')


@st.composite
def cases(draw):
    depth = draw(st.sampled_from([2, 2, 2, 3, 4]))
    t = draw(timelines(min_size=1 if depth == 2 else 2, max_size=7))
    n = len(t)
    kind = draw(st.sampled_from(['none', 'none', 'int', 'list', 'array', 'set',
                                 'gen', 'pace']))
    span = max(t[-1] - t[0], 1)
    steps = None
    if kind == 'int':
        steps = draw(st.integers(0, 12))
    elif kind != 'none':
        steps = draw(st.lists(st.one_of(
            st.sampled_from(t), fl(t[0] - 1, t[-1] + 1),
            st.integers(-2, 10).map(lambda k: t[0] + k*span/8)), max_size=8))
    i0 = draw(st.sampled_from([0, 0, -1, None, None]))
    if i0 is None:
        i0 = draw(st.integers(-n, n-1))
    if isinstance(t[0], float):
        z = draw(st.sampled_from([1, 1, 1, 2.**-32, 2.**20]))
        t = [z*s for s in t]
        if kind not in ('none', 'int'):
            steps = [z*s for s in steps]
    return dict(t=t, depth=depth, kind=kind, steps=steps, i0=i0,
                tdtype=draw(st.sampled_from(
                    [None, None, 'list', 'f4', 'tuple', 'g'] if isinstance(t[0], float)
                    else [None, 'list', 'u1', 'i2', 'u8', 'i4'])),
                adapt=draw(st.lists(st.sampled_from([0, 0, .5, .25, .75]),
                                    max_size=6)),
                xshape=draw(vshapes(2, 2)), paths=draw(st.integers(1, 3)),
                dtype=draw(st.sampled_from([None, 'f4', 'c16', 'c8'])),
                npint=draw(st.booleans()), twice=draw(st.booleans()),
                getinfo=draw(st.booleans()))


class Unordered(Exception):
    pass


def recorder(c, log):
    class generator(sdepy.paths_generator):
        depth = c['depth']

        def begin(self):
            iv = self.itervars
            K = self.depth
            log.append(['begin', bool(iv['reverse']), list(iv['sw'][:K-1]),
                        np.array(iv['steps_tt']), np.array(iv['tt']),
                        iv['xx'].shape, [z.shape for z in iv['xw']],
                        iv['xx'].dtype, iv['sw'].dtype,
                        [z.dtype for z in iv['xw']]])
            for k in range(K - 1):
                iv['xw'][k][...] = value(iv['sw'][k], 'w')
            self.k = 0

        def next(self):
            iv = self.itervars
            sw, K = iv['sw'], self.depth
            target = sw[-1]
            for k in range(K - 1):
                if not np.all(iv['xw'][k] == value(sw[k], 'w')):
                    fail('working space {} holds {} at time {}', k, iv['xw'][k],
                         sw[k])
            f = c['adapt'][self.k % len(c['adapt'])] if c['adapt'] else 0
            self.k += 1
            if f:
                s = sw[-2] + sw.dtype.type(f)*(target - sw[-2])
                if s != sw[-2] and s != target:
                    sw[-1] = s
            iv['xw'][-1][...] = value(sw[-1], 'w')
            log.append(['next', int(iv['i']), list(sw[:-1]), target, sw[-1]])

        def store(self, i, k):
            iv = self.itervars
            s = iv['sw'][k]
            log.append(['store', int(i), iv['tt'][i], s])
            if not np.all(iv['xw'][k] == value(s, 'w')):
                fail('value to be stored {} at time {}', iv['xw'][k], s)
            iv['xx'][i] = value(s, 'x')

        def end(self):
            log.append(['end'])

        def exit(self, tt, xx):
            log.append(['exit'])
            return 'returned', tt, xx

        if c['kind'] == 'pace':
            def pace(self, timeline):
                return np.array(c['steps'], dtype=timeline.dtype)

        if True:
            wdtype = c['dtype']
    return generator


def value(s, which):
    return np.float32(.5*np.float32(s) + (1 if which == 'x' else 2))


def timeline(c):
    t = c['t']
    d = c['tdtype']
    if d in ('u1', 'u8'):
        t = [z - t[0] for z in t]
    if d == 'list':
        return t
    if d == 'tuple':
        return tuple(t)
    return np.array(t, dtype=d)


def steps_arg(c):
    k, s = c['kind'], c['steps']
    if k == 'int' and c['npint']:
        return np.int64(s)
    if k == 'array':
        return np.array(s, dtype=float)
    if k == 'set':
        return set(s)
    if k == 'gen':
        return (z for z in s)
    return None if k in ('none', 'pace') else s


def merged(c, tt):
    """All time points required."""
    if tt.size == 1 and c['kind'] != 'pace':
        s = []
    elif c['kind'] == 'int':
        s = np.linspace(tt[0], tt[-1], c['steps'], dtype=tt.dtype)
    elif c['kind'] == 'none':
        s = []
    else:
        s = np.array(c['steps'], dtype=tt.dtype)
    s = [z for z in s if tt[0] <= z <= tt[-1]]
    return sorted(set(s) | set(tt))


def model(c, tt, i0, steps):
    """Expected log, but exact shapes; None if too few points."""
    K = c['depth']
    runs = []
    j0 = steps.index(tt[i0])
    if i0 > 0:
        runs.append((True, steps[j0::-1], tt[i0::-1]))
    if i0 < tt.size - 1 or tt.size == 1:
        runs.append((False, steps[j0:], tt[i0:]))
    log = []
    for reverse, ss, out in runs:
        if len(ss) < K - 1:
            return None
        log.append(('begin', reverse, ss[:K-1], ss, list(out)))
        i = 0
        for s in ss[:K-1]:
            if out[i] == s:
                log.append(('store', i, s))
                i += 1
                if i == len(out):
                    break
        window, k = ss[:K-1], 0
        for target in ss[K-1:]:
            while window[-1] != target:
                f = c['adapt'][k % len(c['adapt'])] if c['adapt'] else 0
                k += 1
                s = target
                if f:
                    z = window[-1] + tt.dtype.type(f)*(target - window[-1])
                    if z != window[-1] and z != target:
                        s = z
                log.append(('next', i, window, target, s))
                window = window[1:] + [s]
            if i < len(out) and out[i] == target:
                log.append(('store', i, target))
                i += 1
        log.append(('end',))
    log.append(('exit',))
    return log


@subs(cases(), quick=2500, thorough=250000, shards=4)
def events(c, ctx):
    t = timeline(c)
    asis = np.asarray(t)
    tt = asis.astype(float) if asis.dtype.kind in 'iu' else asis
    if not np.array_equal(np.unique(tt), tt):
        return      # too close for float32
    i0 = c['i0'] % tt.size
    if c['adapt'] and max(len(c['adapt']), 1) and \
            all(f for f in c['adapt']):
        c['adapt'].append(0)
    steps = merged(c, tt)
    want = model(c, tt, i0, steps)
    log = []
    cls = recorder(c, log)
    kw = dict(paths=c['paths'], xshape=tuple(c['xshape']),
              wshape=tuple(c['xshape'][:1]), steps=steps_arg(c),
              i0=np.int64(c['i0']) if c['npint'] else c['i0'],
              getinfo=c['getinfo'])
    if c['dtype']:
        kw['dtype'] = np.dtype(c['dtype'])
    given = {} if c['paths'] % 2 else None
    p = cls(**kw) if given is None else cls(**kw, info=given)
    check(isinstance(p.info, dict) and (given is None or p.info is given),
          'info {} instead of {}', p.info, given)
    check(cls(**kw).info is not p.info, 'info shared by two generators')
    check(p.info == {}, 'info {} before the simulation', p.info)
    ctx.label('depth{}'.format(c['depth']), c['kind'], asis.dtype.kind)
    if want is None:
        check(raises(Exception, p, t), 'too few points for depth {} not refused',
              c['depth'])
        return
    ctx.nt(len(steps) > tt.size or i0)
    for again in range(2 if c['twice'] and c['kind'] != 'gen' else 1):
        del log[:]
        before = np.array(t)
        res = p(t)
        check(identical(before, t), 'the timeline was modified')
        check(isinstance(res, tuple) and res[0] == 'returned',
              'result of exit not returned: {}', res)
        rt, xx = res[1:]
        check(identical(rt, asis), 'timeline returned {} {} instead of {} {}',
              rt, rt.dtype, asis, asis.dtype)
        shape = tt.shape + tuple(c['xshape']) + (c['paths'],)
        check(xx.shape == shape, 'output shape {} instead of {}', xx.shape, shape)
        check(xx.dtype == np.dtype(c['dtype'] or float), 'output dtype {}',
              xx.dtype)
        v = np.array([value(z, 'x') for z in tt])
        check(np.all(xx == v.reshape((-1,) + (1,)*(xx.ndim - 1))),
              'output values {} instead of {}', xx, v)
        check(not hasattr(p, 'itervars'), 'itervars left after the simulation')
        got = []
        for e in log:
            if e[0] == 'begin':
                check(e[5] == (e[4].size,) + tuple(c['xshape']) + (c['paths'],),
                      'output space {} at begin', e[5])
                check(len(e[6]) == c['depth'] and
                      all(z == tuple(c['xshape'][:1]) + (c['paths'],)
                          for z in e[6]), 'working space {} at begin', e[6])
                check({e[7]} == set(e[9]) == {np.dtype(c['dtype'] or float)},
                      'data-types {} {} at begin', e[7], e[9])
                check(e[8] == tt.dtype == e[3].dtype == e[4].dtype,
                      'data-types of time points {} {} {} instead of {}', e[8],
                      e[3].dtype, e[4].dtype, tt.dtype)
                got.append(('begin', e[1] and tt.size > 1, e[2], list(e[3]), list(e[4])))
            elif e[0] == 'store':
                check(e[2] == e[3], 'value at {} stored as of {}', e[3], e[2])
                got.append(('store', e[1], e[3]))
            else:
                got.append(tuple(e))
        for k, (g, w) in enumerate(zip(got, want)):
            check(g == w, 'event {}: {} instead of {}', k, g, w)
        check(len(got) == len(want), '{} events instead of {}', len(got),
              len(want))
        if not c['getinfo']:
            check(p.info == {}, 'info {} though not requested', p.info)
        else:
            # the last part, which is the one forwards if there are two
            k = max(k for k, g in enumerate(want) if g[0] == 'begin')
            last = want[k:]
            h = [j for j, g in enumerate(last) if g[0] == 'next'][:1] or [len(last)]
            want_info = dict(
                t0=tt[i0], tmin=tt[0], tmax=tt[-1],
                computed_steps=sum(g[0] == 'next' for g in last),
                stored_steps=sum(g[0] == 'store' for g in last[h[0]:]))
            check(all(p.info.get(z) == w for z, w in want_info.items()),
                  'info {} instead of {}', p.info, want_info)


@st.composite
def refused_cases(draw):
    return dict(what=draw(st.sampled_from(['equal', 'decreasing', 'unsorted',
                                           'ndim', 'scalar', 'empty', 'i0',
                                           'i0kind', 'beyond', 'still', 'back',
                                           'midway', 'depth'])),
                t=draw(timelines(min_size=2, max_size=5)), seed=draw(seeds),
                sde=draw(st.booleans()), back=draw(st.booleans()))


@subs(refused_cases(), quick=400, thorough=20000)
def refused(c, ctx):
    ctx.nt()
    t, w = list(c['t']), c['what']
    n = len(t)
    r = np.random.RandomState(c['seed'])
    kw = {}
    run = t
    if w == 'equal':
        run = sorted(t + [t[r.randint(n)]])
    elif w == 'decreasing':
        run = t[::-1]
    elif w == 'unsorted':
        run = t + [(t[0] + t[1])/2]
    elif w == 'ndim':
        run = [t] if r.randint(2) else [[z] for z in t]
    elif w == 'scalar':
        run = t[0]
    elif w == 'empty':
        run = []
    elif w == 'i0':
        kw['i0'] = int(r.choice([n, n + 1, -n - 1, -n - 5]))
    elif w == 'i0kind':
        kw['i0'] = [[0], (0, 1), slice(0, 1), slice(None), None, 1., .5, 'a', {},
                    np.array([0, 1]), Ellipsis][r.randint(11)]
    elif w == 'midway':     # a point of steps is skipped
        c['back'] = c['back'] and n > 2
        kw['steps'] = [(2*z + s)/3 for z, s in zip(t[1:], t[:-1])] + \
            [(z + 2*s)/3 for z, s in zip(t[1:], t[:-1])]

    class gen(sdepy.paths_generator):
        if w == 'depth':
            depth = c['seed'] % 2

        def next(self):
            iv = self.itervars
            sw = iv['sw']
            if w == 'midway' and sw[1] not in iv['tt']:
                sw[1] = sw[1] + (sw[1] - sw[0])*.1
            if sw[1] == iv['tt'][-1]:
                d = sw[1] - sw[0]
                if w == 'beyond':
                    sw[1] = sw[1] + .1*d
                if w == 'still':
                    sw[1] = sw[0]
                if w == 'back':
                    sw[1] = sw[0] - .1*d

        def store(self, i, k):
            self.itervars['xx'][i] = 0.

    if w in ('beyond', 'still', 'back', 'midway') and c['back']:
        kw['i0'] = -1
    if c['sde'] and w not in ('beyond', 'still', 'back', 'midway', 'depth'):
        p = sdepy.wiener_process(**kw)
    else:
        p = gen(**kw)
    exc = RuntimeError if w in ('beyond', 'still', 'back', 'midway') else \
        (ValueError, TypeError, IndexError)
    check(raises(exc, p, run), '{}: {} {} not refused', w, run, kw)


# ---------------------------------------------------------- long timelines
@st.composite
def long_cases(draw):
    return dict(n=draw(st.sampled_from([2, 3, 200, 1500])),
                m=draw(st.sampled_from([0, 1100, 2500])),
                kind=draw(st.sampled_from(['int', 'list', 'gen', 'array'])),
                start=draw(st.sampled_from([0., -1e6, 1e9, 3e-7])),
                step=draw(st.sampled_from([1., 1e-3, 1e-9, 1e6])),
                pos=draw(st.sampled_from([0., 0., 1., .4])), seed=draw(seeds))


@subs(long_cases(), quick=40, thorough=2000)
def long(c, ctx):
    """Many points, of any magnitude: visited and stored one by one."""
    r = np.random.RandomState(c['seed'])
    step = c['step']
    if c['start'] and step < 1e-9*abs(c['start']):
        step = 1e-3*abs(c['start'])
    t = c['start'] + step*np.cumsum(r.randint(1, 9, size=c['n']))
    i0 = int(c['pos']*(c['n'] - 1))
    if c['kind'] == 'int':
        steps = c['m']
        s = np.linspace(t[0], t[-1], c['m'])
    else:
        s = np.unique(r.uniform(t[0], t[-1], size=c['m']))
        r.shuffle(s)
        steps = iter(s.tolist()) if c['kind'] == 'gen' else \
            s.tolist() if c['kind'] == 'list' else s
    ctx.nt()
    went, kept = [], []

    class gen(sdepy.paths_generator):
        def next(self):
            sw = self.itervars['sw']
            went.append((sw[0], sw[1]))
            self.itervars['xw'][1][...] = sw[1]

        def store(self, i, k):
            iv = self.itervars
            kept.append(iv['sw'][k])
            iv['xx'][i] = iv['sw'][k]

        def begin(self):
            iv = self.itervars
            iv['xw'][0][...] = iv['sw'][0]

        def exit(self, tt, xx):
            return xx
    xx = gen(steps=steps, i0=i0)(t)
    check(np.array_equal(xx[..., 0], t), 'values of other points stored: {}',
          np.argwhere(xx[..., 0] != t)[:3])
    z = np.unique(np.concatenate((s, t)))
    j = int(np.searchsorted(z, t[i0]))
    way = []
    for part in (z[:j+1][::-1], z[j:]):
        way += list(zip(part[:-1], part[1:]))
    check(len(went) == len(way), '{} steps instead of {}', len(went), len(way))
    bad = [(a, b) for a, b in zip(went, way) if a != b]
    check(not bad, 'step {} instead of {}', *(bad[:1] or [(0, 0)])[0])
    out = (list(t[:i0+1][::-1]) if i0 else []) + (
        list(t[i0:]) if i0 < len(t) - 1 else [])
    check(kept == out, 'stored {} instead of {}', kept, out)
