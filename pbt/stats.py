"""Statistical tests with negligible probability of a false alarm.

Each returns None or a message. Z is so large that, over the several 10**4
tests of a run, an alarm on sound code has probability below 10**-6, with
allowance for non-normal tails at the sample sizes used (10**4 or more)."""
import numpy as np
import scipy.stats

Z = 7.5
PV = 1e-11


def mean_test(x, mean, sd, what, z=Z, slack=0.):
    """Averages along the last axis of x vs mean, sd being the standard
    deviation of x."""
    n = x.shape[-1]
    m = x.mean(axis=-1)
    err = abs(m - mean)
    bad = err > z*np.asarray(sd)/np.sqrt(n) + slack + 1e-12
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        return '{}: mean {} instead of {} at {} (s.e. {:.2g}, {} values)'.format(
            what, np.asarray(m)[i], np.broadcast_to(mean, bad.shape)[i], i,
            float(np.max(sd/np.sqrt(n))), n)


def cov_test(x, cov, what, z=Z, slack=0.):
    """Second moments of x, shaped (k, n), about zero vs. cov, for x normal
    with mean zero."""
    n = x.shape[-1]
    c = x @ x.T/n
    d = np.diag(cov)
    se = np.sqrt((d[:, None]*d[None, :] + cov**2)/n)
    bad = abs(c - cov) > z*se + slack + 1e-9
    if bad.any():
        i, j = np.argwhere(bad)[0]
        return '{}: covariance {} instead of {} at {} (s.e. {:.2g})'.format(
            what, c[i, j], cov[i, j], (i, j), se[i, j])


def white_test(x, cov, what):
    """x, normal with mean zero, along the eigenvectors of cov: small
    eigenvalues count as much as large ones."""
    w, V = np.linalg.eigh(cov)
    y = V.T @ x
    ok = w > 1e-6*w.max()
    if not ok.all():
        v = (y[~ok]**2).mean(axis=1).max()
        if v > 1e-5*w.max():
            return '{}: variance {} along null directions'.format(what, v)
    y = y[ok]/np.sqrt(w[ok])[:, None]
    return cov_test(y, np.eye(len(y)), what + ', along eigenvectors')


def ks_test(x, cdf, what, pv=PV):
    d, p = scipy.stats.kstest(np.ravel(x), cdf)
    if p < pv:
        return '{}: distribution (KS distance {:.3g}, p={:.2g}, n={})'.format(
            what, d, p, np.size(x))


def count_test(n, pmf, what, pv=1e-14, least=100):
    """Counts n (non-negative integers) vs. a scipy.stats discrete law."""
    n = np.ravel(n)
    N = n.size
    hi = 0
    # cells 0, 1, ..., with expected frequency of 100 or more (for
    # smaller ones, the chi-squared law is no guide that far in the tail), and tails
    ks = np.arange(int(max(n.max(), pmf.ppf(1 - 1e-9))) + 2)
    e = pmf.pmf(ks)*N
    big = np.flatnonzero(e >= least)
    if big.size == 0:
        return None
    lo, hi = big[0], big[-1]
    obs = np.bincount(n.astype(int), minlength=ks.size)
    o = [obs[:lo].sum()] + list(obs[lo:hi+1]) + [obs[hi+1:].sum()]
    f = [e[:lo].sum()] + list(e[lo:hi+1])
    f.append(max(N - sum(f), 0.))
    # merge thin tails with their neighbours
    if f[0] < least and len(f) > 1:
        o[1] += o[0]
        f[1] += f[0]
        o, f = o[1:], f[1:]
    if f[-1] < least and len(f) > 1:
        o[-2] += o[-1]
        f[-2] += f[-1]
        o, f = o[:-1], f[:-1]
    o, f = np.array(o, dtype=float), np.array(f, dtype=float)
    if len(o) < 2:
        if abs(o[0] - f[0]) > least + Z*np.sqrt(N):
            return '{}: counts {} instead of {}'.format(what, o, f)
        return None
    chi = ((o - f)**2/f).sum()
    p = scipy.stats.chi2.sf(chi, len(o) - 1)
    if p < pv:
        return '{}: counts distributed as {} instead of {} (p={:.2g})'.format(
            what, o, f.round(1), p)
