"""Specification vocabulary: empirical-distribution statistics in terms of the ordered sample."""
from numpy import log, sqrt
from speclib import *


def total(n, f):
    return Sum(n, f)


def mean(x):
    return Sum(len(x), lambda i: x[i]) / len(x)


def ss(x):
    """sum of squared deviations"""
    m = mean(x)
    return Sum(len(x), lambda i: (x[i] - m) ** 2)


def cmom(x, k):
    """central sample moment"""
    m = mean(x)
    return Sum(len(x), lambda i: (x[i] - m) ** k) / len(x)


def values(y, cdf):
    """distribution function at the ordered observations"""
    return seqof(len(y), lambda i: cdf(y[i]))


def d_plus(F):
    n = len(F)
    return Max(n, lambda i: (i + 1) / n - F[i])


def d_minus(F):
    n = len(F)
    return Max(n, lambda i: F[i] - i / n)


def ks(F, alternative="TWO_TAILED"):
    if alternative == "RIGHT":
        return d_plus(F)
    if alternative == "LEFT":
        return d_minus(F)
    return max(d_plus(F), d_minus(F))


def kuiper(F):
    return d_plus(F) + d_minus(F)


def cvm(F):
    n = len(F)
    return 1 / (12 * n) + Sum(n, lambda i: (F[i] - (2 * i + 1) / (2 * n)) ** 2)


def watson(F):
    n = len(F)
    return cvm(F) - n * (mean(F) - 1 / 2) ** 2


def ad(F):
    n = len(F)
    return -n - Sum(n, lambda i: (2 * i + 1) * (log(F[i]) + log(1 - F[n - 1 - i]))) / n


def ad_log(L, S):
    """the same from the logarithms of the distribution function and of its complement"""
    n = len(L)
    return -n - Sum(n, lambda i: (2 * i + 1) * (L[i] + S[n - 1 - i])) / n


def min_toshiyuki(F):
    """sum of max(i/n - F_i, F_i - (i-1)/n) / sqrt(F_i (1 - F_i)), over sqrt(n)"""
    n = len(F)
    return Sum(n, lambda i: max((i + 1) / n - F[i], F[i] - i / n) / sqrt(F[i] * (1 - F[i]))) / sqrt(n)


def spacings(F):
    """gaps between 0, the ordered values and 1"""
    n = len(F)
    return seqof(n + 1, lambda i: ite(i < n, lambda: F[i], 1) - ite(i > 0, lambda: F[i - 1], 0))


def greenwood(F):
    d = spacings(F)
    return Sum(len(d), lambda i: d[i] ** 2)


def moran(F):
    d = spacings(F)
    return -Sum(len(d), lambda i: log(len(F) * d[i]))


def correlation(u, v):
    n = len(u)
    mu, mv = mean(u), mean(v)
    return Sum(n, lambda i: (u[i] - mu) * (v[i] - mv)) / (sqrt(ss(u)) * sqrt(ss(v)))


def counts(x, m, edge):
    """observations in the m cells [edge(j), edge(j+1)), the last one closed"""
    n = len(x)
    return seqof(m, lambda j: count(n, lambda i: edge(j) <= x[i] and (x[i] < edge(j + 1) or (j == m - 1 and x[i] == edge(j + 1)))))


def power_divergence(O, E, lam):
    m = len(O)
    if lam == 1:
        return Sum(m, lambda j: (O[j] - E[j]) ** 2 / E[j])
    if lam == 0:
        return Sum(m, lambda j: ite(O[j] == 0, 0, 2 * O[j] * log(ite(O[j] == 0, 1, O[j]) / E[j])))
    if lam == -1:
        return Sum(m, lambda j: 2 * E[j] * log(E[j] / O[j]))
    return Sum(m, lambda j: O[j] * ((O[j] / E[j]) ** lam - 1)) * 2 / (lam * (lam + 1))
