"""
Statistical oracles with a negligible probability of false alarm: a test that
looks significant has to be confirmed on independent random keys.
"""

import math

import numpy as np

P1 = 1e-5 # first stage
P2 = 1e-4 # each of the confirmations


def normal_tests(z):
    """P-values of tests that z are iid standard normal (in order)."""
    from scipy import stats
    z = np.asarray(z, float)
    n = len(z)
    out = {}
    if n == 0:
        return out
    bad = ~np.isfinite(z)
    if bad.any():
        return {'non-finite': 0.}
    out['extreme'] = min(1., n * 2 * stats.norm.sf(np.max(np.abs(z))))
    out['mean'] = 2 * stats.norm.sf(abs(z.sum()) / math.sqrt(n))
    ss = (z * z).sum()
    out['variance'] = 2 * min(stats.chi2.cdf(ss, n), stats.chi2.sf(ss, n))
    if n >= 20:
        out['distribution'] = stats.kstest(z, 'norm').pvalue
        out['lag-1 correlation'] = corr_test(z[1:], z[:-1])
    return out


def corr_test(a, b):
    """Test of independence of two vectors of iid standard normals; conditional
    on b the statistic is exactly normal."""
    from scipy import stats
    a, b = np.asarray(a, float), np.asarray(b, float)
    nb = np.sqrt((b * b).sum())
    if len(a) < 10 or nb == 0:
        return 1.
    return 2 * stats.norm.sf(abs((a * b).sum()) / nb)


def uniform_tests(u):
    from scipy import stats
    u = np.asarray(u, float)
    if len(u) == 0:
        return {}
    if not np.all(np.isfinite(u)):
        return {'non-finite': 0.}
    eps = 1e-300
    out = {}
    out['extreme'] = min(1., len(u) * 2 * max(eps, min(u.min(), (1 - u).min())))
    if len(u) >= 5:
        out['distribution'] = stats.kstest(u, 'uniform').pvalue
    z = stats.norm.ppf(np.clip(u, 1e-15, 1 - 1e-15))
    out['mean'] = 2 * stats.norm.sf(abs(z.sum()) / math.sqrt(len(z)))
    ss = (z * z).sum()
    out['variance'] = 2 * min(stats.chi2.cdf(ss, len(z)), stats.chi2.sf(ss, len(z)))
    if len(u) >= 20:
        out['lag-1 correlation'] = corr_test(z[1:], z[:-1])
    return out


def confirm(run, P1=P1, P2=P2, nconf=2):
    """
    `run(i)` returns a dict of p-values, using independent randomness for each
    i. Return a dict of confirmed failures.
    """
    p = run(0)
    sus = {k: v for k, v in p.items() if v < P1}
    for i in range(1, 1 + nconf):
        if not sus:
            break
        q = run(i)
        sus = {k: max(v, q.get(k, 1.)) for k, v in sus.items() if q.get(k, 1.) < P2}
    return sus
