"""Contracts: criteria for the beta distribution (C26)."""
import scipy.stats as st
from edf import *
from numpy import argmax, ceil, exp, log, sqrt
from scipy.special import betaln, psi
from scipy.stats import gaussian_kde
from speclib import *

B = "pysatl_criterion.statistics.goodness_of_fit.beta:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"


def cdf_at(y, a, b):
    return values(y, lambda t: st.beta.cdf(t, a, b))


def chi2(x, a, b, lam):
    n = len(x)
    m = ceil(sqrt(n))
    expected = seqof(m, lambda j: n * (st.beta.cdf((j + 1) / m, a, b) - st.beta.cdf(j / m, a, b)))
    return power_divergence(counts(x, m, lambda j: j / m), expected, lam)


def moments(x, a, b):
    n = len(x)
    m, v = a / (a + b), a * b / ((a + b) ** 2 * (a + b + 1))
    return n * ((mean(x) - m) ** 2 + (ss(x) / (n - 1) - v) ** 2) / v


def skew_kurtosis(x, a, b):
    n, s = len(x), a + b
    m2, m3, m4 = cmom(x, 2), cmom(x, 3), cmom(x, 4)
    g1, g2 = m3 / m2 ** 1.5, m4 / m2 ** 2 - 3
    G1 = sqrt(n * (n - 1)) / (n - 2) * g1
    G2 = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * g2 + 6)
    t1 = 2 * (b - a) * sqrt(s + 1) / ((s + 2) * sqrt(a * b))
    t2 = 6 * ((a - b) ** 2 * (s + 1) - a * b * (s + 2)) / (a * b * (s + 2) * (s + 3))
    return n / 6 * (G1 - t1) ** 2 + n / 24 * (G2 - t2) ** 2


def ratio(x, a, b):
    n = len(x)
    g = exp(Sum(n, lambda i: log(x[i])) / n)
    return sqrt(n) * abs(g / mean(x) - exp(psi(a) - psi(a + b)) * (a + b) / a)


def entropy(y, a, b, m):
    """Vasicek's estimator against the entropy of the distribution"""
    n = len(y)

    def term(i):
        d = y[min(n - 1, i + m)] - y[max(0, i - m)]
        return ite(d > 0, lambda: log(d * n / (2 * m)), 0)

    t = betaln(a, b) - (a - 1) * psi(a) - (b - 1) * psi(b) + (a + b - 2) * psi(a + b)
    return sqrt(n) * abs(Sum(n, term) / n - t)


def mode(x, a, b):
    """the grid point of the highest kernel density"""
    n = len(x)
    d = gaussian_kde(x)(seqof(200, lambda k: 0.01 + k * 0.98 / 199))
    best = argmax(d)
    return sqrt(n) * abs(0.01 + best * 0.98 / 199 - (a - 1) / (a + b - 2))


FORMULAS = {
    "AndersonDarlingBetaGofStatistic": lambda x, y, a, b: ad_log(values(y, lambda t: st.beta.logcdf(t, a, b)), values(y, lambda t: st.beta.logsf(t, a, b))),
    "CrammerVonMisesBetaGofStatistic": lambda x, y, a, b: cvm(cdf_at(y, a, b)),
    "LillieforsTestBetaGofStatistic": lambda x, y, a, b: ks(cdf_at(y, a, b)),
    "WatsonBetaGofStatistic": lambda x, y, a, b: watson(cdf_at(y, a, b)),
    "KuiperBetaGofStatistic": lambda x, y, a, b: kuiper(cdf_at(y, a, b)),
    "MomentBasedBetaGofStatistic": lambda x, y, a, b: moments(x, a, b),
    "SkewnessKurtosisBetaGofStatistic": lambda x, y, a, b: skew_kurtosis(x, a, b),
    "RatioBetaGofStatistic": lambda x, y, a, b: ratio(x, a, b),
    "EntropyBetaGofStatistic": lambda x, y, a, b: entropy(y, a, b, len(x) // 4),
}


class BetaCriterion(Contract):
    """the statistic of a sample from the unit interval, with the hypothesised parameters"""

    property = "C26"
    cases = FORMULAS
    unchanged = ["x"]

    def args(S, case):
        n = S.len("n", 4)
        open = case[:8] == "Anderson" or case[:5] == "Ratio"
        x = S.arr("x", n, lo=0.001, hi=0.999) if open else S.arr("x", n, lo=0, hi=1)
        return dict(x=x, a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6), case=case)

    def pre(x, case):
        return implies(case[:8] == "Skewness", ss(x) > 0)

    def run(x, a, b, case):
        return R(B + case)(a, b).execute_statistic(x)

    def post_formula(x, a, b, case, result):
        return eq(result, FORMULAS[case](x, sorted(x), a, b))


class BetaKolmogorovSmirnov(Contract):
    property = "C26"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), lo=0, hi=1), a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6), case=case)

    def run(x, a, b, case):
        return R(B + "KolmogorovSmirnovBetaGofStatistic")(a, b, R(ALT)[case]).execute_statistic(x)

    def post_distance(x, a, b, case, result):
        return eq(result, ks(cdf_at(sorted(x), a, b), case))


class BetaChiSquare(Contract):
    """observed against expected counts in ceil(sqrt n) cells of the unit interval"""

    property = "C26"
    cases = [1, 0, "cressie-read"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), lo=0, hi=1), a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6),
                    lam=2 / 3 if case == "cressie-read" else case)

    def run(x, a, b, lam):
        return R(B + "Chi2PearsonBetaGofStatistic")(a, b, lam).execute_statistic(x)

    def post_formula(x, a, b, lam, result):
        return eq(result, chi2(x, a, b, lam))


class BetaMode(Contract):
    property = "C26"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 4), lo=0, hi=1), a=S.real("a", lo=1.1, hi=6), b=S.real("b", lo=1.1, hi=6))

    def pre(x):
        return ss(x) > 0

    def run(x, a, b):
        return R(B + "ModeBetaGofStatistic")(a, b).execute_statistic(x)

    def post_formula(x, a, b, result):
        return eq(result, mode(x, a, b))


class EntropyWindow(Contract):
    property = "C26"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 2), lo=0, hi=1), a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6), m=S.int("m", lo=1, hi=3))

    def run(x, a, b, m):
        return R(B + "EntropyBetaGofStatistic")(a, b).execute_statistic(x, m=m)

    def post_formula(x, a, b, m, result):
        return eq(result, entropy(sorted(x), a, b, m))


class OutsideUnitInterval(Contract):
    """observations outside the unit interval are refused by every criterion"""

    property = "C26"
    cases = list(FORMULAS) + ["KolmogorovSmirnovBetaGofStatistic", "Chi2PearsonBetaGofStatistic", "ModeBetaGofStatistic"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1)), a=S.real("a", lo=1.1, hi=6), b=S.real("b", lo=1.1, hi=6), case=case)

    def pre(x):
        return exists(len(x), lambda i: x[i] < 0 or x[i] > 1)

    def run(x, a, b, case):
        return R(B + case)(a, b).execute_statistic(x)

    def post_refused(exc):
        return exc == "ValueError"
