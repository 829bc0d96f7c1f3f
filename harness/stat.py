"""Statistical bounds; every bound is exceeded with probability < ~1e-8 when the model is right."""
import numpy as np
from scipy import stats

P = 1e-8


def binom_ok(k, n, p):
    if n == 0:
        return True
    p = min(max(p, 0.), 1.)
    if p in (0., 1.):
        return k == round(n * p)
    return min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)) > P


def chi2_ok(x, df):
    return df < 1 or min(stats.chi2.cdf(x, df), stats.chi2.sf(x, df)) > P


def chi2_upper_ok(x, df, p=P):
    return df < 1 or stats.chi2.sf(x, df) > p


def mean_ok(x, mu, sd, slack=0.):
    """sample mean of iid normals"""
    x = np.asarray(x, float).ravel()
    return x.size == 0 or abs(x.mean() - mu) <= 6. * sd / np.sqrt(x.size) + slack


def std_ok(x, mu, sd):
    x = np.asarray(x, float).ravel()
    if sd == 0:
        return np.all(np.abs(x - mu) < 1e-4 * (1 + abs(mu)))
    return chi2_ok(np.sum((x - mu) ** 2) / sd ** 2, x.size)


def ks_ok(x, cdf):
    """two-sided Kolmogorov-Smirnov with the asymptotic DKW bound"""
    x = np.sort(np.asarray(x, float).ravel())
    n = x.size
    if n == 0:
        return True
    f = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n))
    return d <= np.sqrt(np.log(2 / P) / (2 * n))


def corr_bound(n, rho=0.0):
    """6-sigma-ish bound in Fisher z for a correlation estimate from n iid normal pairs"""
    return 6.0 / np.sqrt(max(n - 3, 1))
