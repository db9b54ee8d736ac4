"""Statistical monitors with false-alarm probabilities below about 1e-10 each."""
import math

import numpy as np

Z = 6.8


def slack(n):
    """Extra relative room for the non-Gaussian tail of quadratic statistics."""
    return 60.0 / n


def mean0(m, key, x, sd, msg, n_eff=None):
    """x has mean zero and standard deviation sd."""
    n = n_eff or len(x)
    if len(x) < 40:
        return
    z = float(np.mean(x)) / sd * math.sqrt(n)
    m.check(abs(z) < Z + 3 / math.sqrt(n), key, f"{msg}: mean {np.mean(x):.4g} should be 0 (sd {sd:.3g}, n={n}, z={z:.1f})")


def ratio1(m, key, q, var, msg, n=None):
    """The mean of q (non-negative, per-item variance var) is one."""
    n = n or len(q)
    if n < 100:
        return
    d = float(np.mean(q)) - 1
    tol = Z * math.sqrt(var / n) + slack(n)
    m.check(-Z * math.sqrt(var / n) - .3 * slack(n) < d < tol, key,
            f"{msg}: mean ratio {1 + d:.4f}, expected 1 +- {tol:.4f} (n={n})")


def ks(m, key, x, cdf, msg, slack_d=0.0):
    """Kolmogorov test of x against the continuous law cdf (vectorized)."""
    x = np.sort(np.asarray(x, float).ravel())
    n = len(x)
    if n < 50:
        return
    F = cdf(x)
    i = np.arange(1, n + 1)
    d = float(max(np.max(i / n - F), np.max(F - (i - 1) / n)))
    m.check(d < 3.9 / math.sqrt(n) + slack_d, key, f"{msg}: Kolmogorov distance {d:.4f} (n={n}, statistic {d * math.sqrt(n):.2f})")


def normal_cdf(x):
    from scipy.special import ndtr
    return ndtr(x)


def exp_cdf(x):
    return 1 - np.exp(-np.maximum(x, 0))


def chi2_uniform(m, key, counts, msg):
    """Counts of equally likely cells."""
    counts = np.asarray(counts, float).ravel()
    k, n = counts.size, counts.sum()
    if n < 5 * k:
        return
    e = n / k
    x = float(((counts - e) ** 2 / e).sum())
    # Laurent-Massart tail bound: P(chi2_d > d + 2 sqrt(d t) + 2 t) <= exp(-t)
    t, d = 24.0, k - 1
    lim = d + 2 * math.sqrt(d * t) + 2 * t
    m.check(x < lim, key, f"{msg}: chi-square {x:.0f} over {k} equally likely cells, limit {lim:.0f} (n={n:.0f})")


def corr0(m, key, x, y, msg, sx=1.0, sy=1.0):
    """x and y independent, zero mean, standard deviations sx and sy."""
    n = len(x)
    if n < 100:
        return
    z = float(np.mean(x * y)) / (sx * sy) * math.sqrt(n)
    m.check(abs(z) < Z + 20 / math.sqrt(n), key, f"{msg}: correlation {z / math.sqrt(n):.4f} should be 0 (n={n}, z={z:.1f})")
