import math
import cmath
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from sdepy import process
from pbt.core import Subs, check
from pbt.strat import timelines, vshapes, seeds, make, identical

subs = Subs('a process of generated shape, values and dtype and one summary '
            'method with its options, against sums in exact arithmetic entry '
            'by entry. Non-trivial: more than one value is summarized')

KINDS = ['norm', 'int', 'bool', 'fint', 'f4', 'dup', 'i1', 'u1', 'offset']
OPS = ['min', 'max', 'sum', 'mean', 'var', 'std']


@st.composite
def cases(draw):
    t = draw(timelines(max_size=5))
    op = draw(st.sampled_from(OPS))
    c = dict(t=t, vshape=draw(vshapes(3, 3)), paths=draw(st.integers(1, 5)),
             seed=draw(seeds), kind=draw(st.sampled_from(KINDS)),
             axis=draw(st.sampled_from('pvt')), op=op)
    if c['axis'] == 't' and draw(st.integers(0, 3)) == 0:
        c['op'] = 'cumsum'
    if c['op'] in ('var', 'std'):
        c['ddof'] = draw(st.sampled_from([None, 0, 1, 2, 3, 6]))
    if c['op'] not in ('min', 'max'):
        c['dtype'] = draw(st.sampled_from([None, None, 'f8', 'f4', 'c16']))
    return c


def values(c):
    shape = [len(c['t'])] + c['vshape'] + [c['paths']]
    if c['kind'] == 'offset':
        return 1e6 + make(shape, c['seed'])
    return make(shape, c['seed'], c['kind'])


def stat(z, op, ddof):
    """Statistic of a list of numbers, in exact arithmetic."""
    n = len(z)
    if op == 'min':
        return float(min(z))
    if op == 'max':
        return float(max(z))
    z = [Fraction(float(k)) for k in z]
    if op == 'sum':
        return float(sum(z))
    if op == 'mean':
        return float(sum(z)/n)
    if n - ddof <= 0:
        return None     # not defined
    m = sum(z)/n
    v = float(sum((k - m)**2 for k in z)/(n - ddof))
    return v if op == 'var' else math.sqrt(v)


@subs(cases(), quick=3000, thorough=60000, shards=2)
def summaries(c, ctx):
    x = values(c)
    t = np.array(c['t'])
    p = process(t, x=x.copy())
    op, axis, ddof = c['op'], c['axis'], c.get('ddof')
    kw = {}
    if ddof is not None:
        kw['ddof'] = ddof
    if c.get('dtype'):
        kw['dtype'] = c['dtype']
    with np.errstate(all='ignore'):
        q = getattr(p, axis + op)(**kw)
    ctx.label(axis + op, c['kind'])
    N, V, P = len(t), c['vshape'], c['paths']
    out = {'p': [N] + V + [1], 'v': [N, P], 't': [1] + V + [P]}[axis]
    if op == 'cumsum':
        out = [N] + V + [P]
    tout = t[:1] if axis == 't' and op != 'cumsum' else t
    check(isinstance(q, process), 'not a process')
    check(list(q.shape) == out, 'shape {} instead of {}', q.shape, out)
    if axis == 't' and op != 'cumsum':
        check(q.t.shape == (1,) and q.t[0] in t, 'timeline {}', q.t)
    else:
        check(identical(q.t, tout), 'timeline {}', q.t)
    ctx.nt({'p': P, 't': N, 'v': int(np.prod(V))}[axis] > 1)

    single = c['kind'] == 'f4' or c.get('dtype') == 'f4'
    scale = abs(x.astype(float)).max() + 1
    rtol, atol = (2e-5, 2e-5*scale) if single else (1e-10, 1e-12*scale)
    if op in ('var', 'std'):
        # rounding of deviations from the mean
        atol = 1e-4*scale**2 if single else 1e-7 if c['kind'] == 'offset' else 1e-11
        if op == 'std' and single:
            atol = 2e-2*scale if c['kind'] not in ('norm', 'dup', 'f4') else 2e-3
    if c['kind'] == 'offset' and single:
        return      # nothing left in single precision
    for idx in np.ndindex(*out):
        if op == 'cumsum':
            z = [x[(k,) + idx[1:]] for k in range(idx[0]+1)]
            want = stat(z, 'sum', 0)
        else:
            z = {'p': lambda: x[idx[:-1]].ravel(),
                 't': lambda: x[(slice(None),) + idx[1:]].ravel(),
                 'v': lambda: x[idx[0]][..., idx[1]].ravel()}[axis]()
            want = stat(list(z), op, ddof or 0)
        got = q.x[idx]
        if want is None:    # too few points: nan or inf, as NumPy does
            check(not np.isfinite(got), '{}{} with ddof={} of {} values: {}', axis, op,
                  ddof, len(z), got)
            continue
        check(abs(got - want) <= atol + rtol*abs(want),
              '{}{} at {}: {} instead of {}', axis, op, idx, got, want)
    if c.get('dtype'):
        d = np.dtype(c['dtype'])
        if op in ('var', 'std') and d.kind == 'c':
            d = q.dtype     # as NumPy does
        check(q.dtype == d, 'dtype {} requested, {} given', c['dtype'], q.dtype)
    else:
        d = getattr(x, op)(axis=0).dtype
        check(q.dtype == d, '{}{} of dtype {} is of dtype {} instead of {}', axis, op,
              x.dtype, q.dtype, d)
    check(identical(p.x, x) and identical(p.t, t), 'the process was modified')


@subs(cases(), quick=300)
def to_out(c, ctx):
    """out= is filled with the same values."""
    x = values(c)
    p = process(np.array(c['t']), x=x)
    op, axis = c['op'], c['axis']
    if op == 'cumsum':
        axis = 't'
    kw = {} if c.get('ddof') is None else dict(ddof=c['ddof'])
    ctx.nt()
    with np.errstate(all='ignore'):
        q = getattr(p, axis + op)(**kw)
        out = np.empty(q.shape, dtype=q.dtype)
        r = getattr(p, axis + op)(out=out, **kw)
    # the order of operations may depend on the layout of out
    eps = 1e-5 if q.dtype in ('f4', 'c8') else 1e-11
    check(r.dtype == q.dtype and r.shape == q.shape and identical(out, r.x) and
          np.allclose(out, q.x, rtol=eps, atol=eps*np.abs(x).max(), equal_nan=True) and
          identical(r.t, q.t), 'out {} instead of {}', out, q.x)


@st.composite
def complex_cases(draw):
    c = draw(cases())
    if c['op'] in ('min', 'max'):
        c['op'] = draw(st.sampled_from(['sum', 'mean', 'var', 'std']))
    c['dtype'] = draw(st.sampled_from(['c16', 'c8']))
    return c


@subs(complex_cases(), quick=300)
def complex_values(c, ctx):
    """Real and imaginary parts are summarized separately."""
    shape = [len(c['t'])] + c['vshape'] + [c['paths']]
    x = (make(shape, c['seed']) + 1j*make(shape, c['seed'] + 1)).astype(c['dtype'])
    p = process(np.array(c['t']), x=x.copy())
    op, axis = c['op'], c['axis']
    if op == 'cumsum':
        axis = 't'
    kw = {} if c.get('ddof') is None else dict(ddof=c['ddof'])
    n = dict(p=shape[-1], t=shape[0], v=int(np.prod(c['vshape'])))[axis]
    if op in ('var', 'std') and n <= kw.get('ddof', 0):
        return
    ctx.nt(n > 1)
    q = getattr(p, axis + op)(**kw)
    a, b = [getattr(process(p.t, x=z.astype('f8')), axis + ('var' if op == 'std' else
                                                            op))(**kw)
            for z in (x.real, x.imag)]
    want = a.x + 1j*b.x if op in ('sum', 'mean', 'cumsum') else a.x + b.x
    if op == 'std':
        want = np.sqrt(want)
    eps = 1e-5 if c['dtype'] == 'c8' else 1e-11
    check(q.shape == want.shape and identical(q.t, a.t) and
          np.allclose(q.x, want, rtol=eps, atol=eps*20), '{}{} is {} instead of {}',
          axis, op, q.x, want)
    check(q.dtype == getattr(x, op)(axis=0).dtype, 'dtype {}', q.dtype)
