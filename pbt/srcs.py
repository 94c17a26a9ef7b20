"""Generated stochasticity sources, from JSON-able descriptions."""
import numpy as np
import scipy.stats
import sdepy
from hypothesis import strategies as st
from pbt.strat import fl, make

PLAIN = ['wiener', 'poisson', 'cpoisson', 'odd_wiener', 'even_poisson',
         'even_cpoisson']
TRUE = ['true_wiener', 'true_poisson', 'true_cpoisson']
ALL = PLAIN + TRUE
SHORT = dict(wiener='dw', poisson='dn', cpoisson='dj', odd_wiener='odd_dw',
             even_poisson='even_dn', even_cpoisson='even_dj',
             true_wiener='true_dw', true_poisson='true_dn',
             true_cpoisson='true_dj')


def cls(name):
    return getattr(sdepy, name + '_source')


def antithetic(name):
    return name.startswith(('odd', 'even'))


def kind(name):
    return name.split('_')[-1]


# ----------------------------------------------------------- correlations
def corr_matrix(M, seed, rank=None):
    """A valid (possibly singular) correlation matrix."""
    r = np.random.RandomState(seed)
    if rank == 'near':      # almost singular
        return .998*corr_matrix(M, seed, 1) + .002*np.eye(M)
    a = r.normal(size=(M, rank or M + 1))
    a /= np.sqrt((a**2).sum(axis=1))[:, None]
    c = a @ a.T
    c[np.diag_indices(M)] = 1.
    return c


# ----------------------------------------------------------- distributions
@st.composite
def laws(draw, fancy=True):
    name = draw(st.sampled_from(['none', 'norm', 'uniform', 'exp', 'dexp',
                                 'scipy_norm', 'scipy_poisson', 'const',
                                 'tnorm'][:None if fancy else 5]))
    return dict(name=name, a=draw(fl(-1, 1, 1)), b=draw(fl(.2, 1.5, 1)),
                pa=draw(st.sampled_from([0., .3, .5, 1.])))


class const_rv:
    """All variates equal to c."""
    def __init__(self, c):
        self.c = c

    def rvs(self, size, random_state=None):
        return np.full(size, self.c, dtype=float)


def law(d):
    n, a, b = d['name'], d['a'], d['b']
    if n == 'none':
        return None
    if n == 'norm':
        return sdepy.norm_rv(a, b)
    if n == 'tnorm':
        return sdepy.norm_rv(lambda t: a + .1*t, b)
    if n == 'uniform':
        return sdepy.uniform_rv(a, a + b)
    if n == 'exp':
        return sdepy.exp_rv(b if a < 0 else -b)
    if n == 'dexp':
        return sdepy.double_exp_rv(b, b/2, d['pa'])
    if n == 'scipy_norm':
        return scipy.stats.norm(a, b)
    if n == 'scipy_poisson':
        return scipy.stats.poisson(b)
    if n == 'const':
        return const_rv(a)
    raise KeyError(n)


# ------------------------------------------------------------------- rngs
RNGS = ['gen', 'state', 'mt']


def rng(kind, seed):
    if kind == 'gen':
        return np.random.default_rng(seed)
    if kind == 'state':
        return np.random.RandomState(seed)
    return np.random.Generator(np.random.MT19937(seed))


def state(g):
    """Comparable state of a generator."""
    if isinstance(g, np.random.RandomState):
        s = g.get_state()
        return (s[0], s[1].tobytes()) + tuple(s[2:])
    return repr(g.bit_generator.state)


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


# ---------------------------------------------------------------- sources
@st.composite
def params(draw, name, vshape, paths, fancy=True):
    """Source specific parameters (described)."""
    k = kind(name)
    d = {}
    if k == 'wiener' and vshape:
        M = vshape[-1]
        which = draw(st.sampled_from(['none', 'corr', 'rho', 'ccorr']))
        if which == 'rho' and M % 2:
            which = 'corr'
        d['corr'] = which
        d['cseed'] = draw(st.integers(0, 10**6))
    if k != 'wiener':
        d['lam'] = draw(st.sampled_from([0., .5, 1., 3., 'array', 'call']))
        d['lseed'] = draw(st.integers(0, 10**6))
    if k == 'cpoisson':
        d['y'] = draw(laws(fancy))
    return d


def kwargs(name, d, vshape, paths):
    kw = {}
    if d.get('corr', 'none') != 'none':
        M = vshape[-1]
        c = corr_matrix(M, d['cseed'])
        if d['corr'] == 'corr':
            kw['corr'] = c
        elif d['corr'] == 'ccorr':
            kw['corr'] = lambda t: c
        else:
            r = np.random.RandomState(d['cseed']).uniform(-1, 1, size=M//2)
            kw['rho'] = r if M > 2 else float(r[0])
    if 'lam' in d:
        n = paths//2 if antithetic(name) else paths
        if d['lam'] == 'array':
            kw['lam'] = make(list(vshape) + [n], d['lseed'], 'unif')*2
        elif d['lam'] == 'call':
            kw['lam'] = lambda t: 1. + .5*np.cos(t)
        else:
            kw['lam'] = d['lam']
    if 'y' in d:
        kw['y'] = law(d['y'])
    return kw
