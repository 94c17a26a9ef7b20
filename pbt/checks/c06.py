import numpy as np
from hypothesis import strategies as st
from sdepy import process, piecewise
from pbt.core import Subs, check
from pbt.strat import timelines, vshapes, seeds, make, fl, raises

subs = Subs('piecewise processes of generated timeline, shape, dtype and mode, '
            'queried strictly inside segments (or outside the timeline), '
            'against the step function. Non-trivial: at least two time points '
            'and a query between the first and the last')
MODES = ['mid', 'forward', 'backward']


@st.composite
def cases(draw):
    t = draw(timelines(max_size=7))
    n = len(t)
    shape = draw(st.sampled_from([[], [1], [4], [2, 3], [8]]))
    q = []
    for _ in range(int(np.prod(shape))):
        k = draw(st.sampled_from(['i', 'i', 'i', '<', '>'] if n > 1 else '<>'))
        if k == 'i':
            f = draw(fl(.02, .96, 2))
            f = f if f < .49 else f + .02
            f = draw(st.sampled_from([f, f, f, f, 1e-6, 1 - 1e-6, .499999, .500001]))
            q.append(['i', draw(st.integers(0, n-2)), f])
        else:
            q.append([k, draw(st.sampled_from([1e-3, .3, 2., 1e5]))])
    return dict(t=t, vshape=draw(vshapes(2, 3)), paths=draw(st.integers(1, 3)),
                seed=draw(seeds), xkind=draw(st.sampled_from(
                    ['norm', 'int', 'cplx', 'f4', 'bool'])),
                which=draw(st.sampled_from('xv')),
                mode=draw(st.sampled_from([None] + MODES)),
                dtype=draw(st.sampled_from([None, None, 'own', 'f8', 'f4', 'c16', 'i8'])), lists=draw(st.booleans()),
                shape=shape, q=q)


@subs(cases(), quick=2000, thorough=60000)
def steps(c, ctx):
    t, n = np.array(c['t'], dtype=float), len(c['t'])
    x = make([n] + c['vshape'] + [c['paths']], c['seed'], c['xkind'])
    if c['which'] == 'v':
        x = x[..., 0]
    kw = {c['which']: x.tolist() if c['lists'] else x}
    if c['mode']:
        kw['mode'] = c['mode']
    if c['dtype']:
        d = x.dtype if c['dtype'] == 'own' else np.dtype(c['dtype'])
        if not np.can_cast(x.dtype, d, 'same_kind'):
            d = x.dtype
        kw['dtype'] = d
        x = x.astype(d)
    p = piecewise(c['t'] if c['lists'] else np.array(c['t']), **kw)
    check(isinstance(p, process), 'not a process')
    if c['dtype'] or not c['lists']:
        check(p.dtype == x.dtype, 'dtype {} instead of {}', p.dtype, x.dtype)
    mode = c['mode'] or 'mid'
    ctx.label(mode)
    ctx.nt(any(z[0] == 'i' for z in c['q']))
    s, want = [], []
    for z in c['q']:
        if z[0] == '<':
            s.append(t[0] - z[1])
            k = 0
        elif z[0] == '>':
            s.append(t[-1] + z[1])
            k = n - 1
        else:
            i, f = z[1], z[2]
            s.append(t[i] + f*(t[i+1] - t[i]))
            k = {'mid': i + (f > .5), 'forward': i, 'backward': i + 1}[mode]
        want.append(x[k] if c['which'] == 'x' else x[k][..., None])
    P = c['paths'] if c['which'] == 'x' else 1
    want = np.array(want).reshape(c['shape'] + c['vshape'] + [P])
    got = p(np.array(s).reshape(c['shape']))
    check(got.shape == want.shape, 'shape {} not {}', got.shape, want.shape)
    check(np.allclose(got, want, rtol=1e-6, atol=1e-7), 'at {}: {} not {}', s,
          got, want)

    # at the given times, the ends of segments (either side) but for mode 'mid'
    at = p(t)
    for i in range(n):
        ok = [i] if mode == 'mid' else [max(i - 1, 0), i] if mode == 'forward' else \
            [i, min(i + 1, n - 1)]
        check(any(np.allclose(at[i], x[k] if c['which'] == 'x' else x[k][..., None],
                              rtol=1e-6, atol=1e-7) for k in ok),
              'at {}: {}', t[i], at[i])


@subs(cases(), quick=200)
def bad_mode(c, ctx):
    ctx.nt()
    x = make([len(c['t'])] + c['vshape'] + [c['paths']], c['seed'])
    for mode in ('', 'fwd', 'linear', 'MID', 'forwards'):
        check(raises(ValueError, lambda: piecewise(c['t'], x=x, mode=mode)),
              'mode {!r} accepted', mode)
