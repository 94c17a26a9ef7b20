"""Documented analytical functions: variables, parameters (default, range)."""
from hypothesis import strategies as st
from pbt.strat import fl

W = dict(x0=(0., -2, 2), mu=(0., -1, 1), sigma=(1., .2, 2))
L = dict(x0=(1., .2, 3), mu=(0., -1, 1), sigma=(1., .2, 1.2))
OU = dict(x0=(0., -2, 2), theta=(0., -2, 2), k=(1., .1, 3), sigma=(1., .2, 2))
CIR = dict(x0=(1., .2, 3), theta=(1., .2, 3), k=(1., .1, 3), xi=(1., .2, 1.2))
H = dict(x0=(1., .2, 3), mu=(0., -1, 1), sigma=(1., .3, 1.2), y0=(1., .3, 2),
         theta=(1., .3, 2), k=(1., .3, 3), xi=(1., .2, 1.2), rho=(0., -.9, .9))
MJD = dict(x0=(1., .2, 3), mu=(0., -1, 1), sigma=(1., .2, 1.2), lam=(1., 0, 3),
           a=(0., -.5, .5), b=(1., 0, 1))
KOU = dict(x0=(1., .2, 3), mu=(0., -1, 1), sigma=(1., .2, 1.2), lam=(1., 0, 3),
           a=(.5, .05, .9), b=(.5, .05, 1), pa=(.5, 0, 1))
HW2 = dict(x0=((0., 0.), -2, 2), theta=((0., 0.), -2, 2), k=((1., 1.), .1, 3),
           sigma=((1., 1.), .2, 2), rho=(0., -.9, .9))
BS = dict(x0=(1., .2, 3), r=(0., -.2, .3), q=(0., -.2, .3), sigma=(1., .1, 1.5))
T = ('t',)


def _family(prefix, params, one, two):
    d = {prefix + '_' + z: (T, params) for z in one}
    d.update({prefix + '_' + z: (('t', v), params) for z, v in two.items()})
    return d


MVS = ['mean', 'var', 'std']
FUNCS = {}
FUNCS.update(_family('wiener', W, MVS, dict(pdf='x', cdf='x', chf='u')))
FUNCS.update(_family('lognorm', L, MVS, dict(pdf='x', cdf='x', log_chf='u')))
FUNCS.update(_family('oruh', OU, MVS, dict(pdf='x', cdf='x')))
FUNCS.update(_family('hw1f', OU, MVS, dict(pdf='x', cdf='x')))
FUNCS.update(_family('hw2f', HW2, MVS, dict(pdf='x', cdf='x')))
FUNCS.update(_family('cir', CIR, MVS, dict(pdf='x')))
FUNCS.update(_family('heston', H, ['log_mean', 'log_var', 'log_std'],
                     dict(log_chf='u', log_pdf='logx')))
FUNCS.update(_family('mjd', MJD, ['mean'], dict(log_chf='u', log_pdf='logx')))
FUNCS.update(_family('kou', KOU, ['mean'], dict(log_chf='u', log_pdf='logx')))
FUNCS.update({z: (('k', 't'), BS) for z in ('bsd1d2', 'bscall', 'bscall_delta',
                                            'bsput', 'bsput_delta')})
SLOW = ('heston_log_pdf', 'mjd_log_pdf', 'kou_log_pdf')
RANGE = dict(t=(.05, 3), x=(.1, 3), u=(-4, 4), logx=(-1, 1), k=(.2, 3))


def family(name):
    return name.split('_')[0] if not name.startswith('bs') else 'bs'


@st.composite
def values(draw, params):
    """A value for each parameter, in its range (pairs for two factors)."""
    out = {}
    for k, (z, lo, hi) in params.items():
        if draw(st.integers(0, 9)) == 0:
            # the ends of the range
            ends = st.sampled_from([lo, hi])
            out[k] = [draw(ends), draw(ends)] if isinstance(z, tuple) else draw(ends)
            continue
        out[k] = draw(st.lists(fl(lo, hi, 2), min_size=2, max_size=2)
                      if isinstance(z, tuple) else fl(lo, hi, 2))
    return out
