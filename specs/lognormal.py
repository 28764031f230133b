"""Contracts: criteria for the log-normal distribution (C27)."""
import scipy.stats as st
from criteria import CRITERIA
from edf import *
from numpy import exp, inf, log, sqrt
from scipy.integrate import quad
from speclib import *

L = "pysatl_criterion.statistics.goodness_of_fit.log_normal:"
N = "pysatl_criterion.statistics.goodness_of_fit.normal:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"
OWN = ["KolmogorovSmirnovLogNormalGofStatistic", "CramerVonMiseLogNormalGofStatistic", "QuesenberryMillerLogNormalGofStatistic",
       "KLSupremumLogNormalGoFStatistic", "KLIntegralLogNormalGoFStatistic"]
DERIVED = [c for side in CRITERIA["LOG_NORMAL"].values() for c in side if c not in OWN and not c.startswith("Graph")]


def cdf_at(y, s, scale):
    return values(y, lambda t: st.lognorm.cdf(t, s=s, scale=scale))


def quesenberry_miller(F):
    d = spacings(F)
    n = len(d)
    return Sum(n, lambda i: d[i] ** 2) + Sum(n - 1, lambda i: d[i] * d[i + 1])


def scaled_logs(x):
    """logarithms over their standard deviation"""
    g = seqof(len(x), lambda i: log(x[i]))
    s = sqrt(ss(g) / len(x))
    return seqof(len(x), lambda i: g[i] / s)


def divergence(w, r):
    """2 log M(r) - r mean - r M'(r) / M(r) for the empirical moment generating function M of w"""
    n = len(w)
    M = Sum(n, lambda i: exp(r * w[i])) / n
    D = Sum(n, lambda i: exp(r * w[i]) * w[i]) / n
    return 2 * log(M) - r * mean(w) - r * D / M


def variance(r):
    return exp(r ** 2) * (r ** 4 - 3 * r ** 2 + 4) - (4 + r ** 2)


def standardised(w, r):
    """divergence over its asymptotic standard deviation (kept away from zero)"""
    return ite(variance(r) < 1e-16, lambda: divergence(w, r) / 1e-8, lambda: divergence(w, r) / sqrt(variance(r)))


def cumulant3(w):
    n = len(w)
    m1, m2, m3 = mean(w), Sum(n, lambda i: w[i] ** 2) / n, Sum(n, lambda i: w[i] ** 3) / n
    return m3 - 3 * m2 * m1 + 2 * m1 ** 3


class LogNormalDerived(Contract):
    """criteria derived from a normality criterion are that criterion of the standardised logarithms"""

    property = "C27"
    cases = DERIVED
    unchanged = ["x"]

    def args(S, case):
        base = case.replace("LogNormal", "Normality")
        return dict(x=S.arr("x", S.len("n", 1), pos=True), s=S.real("s", lo=0.1, hi=5), scale=S.real("scale", lo=0.1, hi=10), case=case,
                    normality=S.stub(N + base + ".execute_statistic", lambda self, z, **k: (clsname(self), z)))

    def run(x, s, scale, case):
        return R(L + case)(s, scale).execute_statistic(x)

    def post_criterion(case, result):
        return result[0] == case.replace("LogNormal", "Normality")

    def post_logarithms(x, s, scale, result):
        return len(result[1]) == len(x) and forall(len(x), lambda i: eq(result[1][i], (log(x[i]) - log(scale)) / s))


class LogNormalSupport(Contract):
    """a sample with a non-positive observation is infinitely far from every log-normal distribution"""

    property = "C27"
    cases = DERIVED + OWN[3:]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1)), case=case)

    def pre(x):
        return exists(len(x), lambda i: x[i] <= 0)

    def run(x, case):
        return R(L + case)().execute_statistic(x)

    def post_infinite(result):
        return result == inf


class LogNormalKolmogorovSmirnov(Contract):
    property = "C27"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), pos=True), s=S.real("s", lo=0.1, hi=5), scale=S.real("scale", lo=0.1, hi=10), case=case)

    def run(x, s, scale, case):
        return R(L + OWN[0])(R(ALT)[case], s=s, scale=scale).execute_statistic(x)

    def post_distance(x, s, scale, case, result):
        return eq(result, ks(cdf_at(sorted(x), s, scale), case))


class LogNormalOwn(Contract):
    property = "C27"
    cases = OWN[1:3]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 2), pos=True), s=S.real("s", lo=0.1, hi=5), scale=S.real("scale", lo=0.1, hi=10), case=case)

    def run(x, s, scale, case):
        return R(L + case)(s, scale).execute_statistic(x)

    def post_formula(x, s, scale, case, result):
        F = cdf_at(sorted(x), s, scale)
        if case == OWN[1]:
            return eq(result, cvm(F))
        return eq(result, quesenberry_miller(F))


class LogNormalKullbackLeiblerSupremum(Contract):
    """largest standardised divergence on the grid of a thousand points of [-5, 5], times sqrt(n)"""

    property = "C27"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 2), pos=True, lo=0.01, hi=100))

    def pre(x):
        g = seqof(len(x), lambda i: log(x[i]))
        return ss(g) > 0.01

    def run(x):
        return R(L + OWN[3])().execute_statistic(x)

    def post_formula(x, result):
        w = scaled_logs(x)
        return eq(result, sqrt(len(x)) * Max(1000, lambda k: abs(standardised(w, -5 + k * 10 / 999))), 1e-5)


class LogNormalKullbackLeiblerIntegral(Contract):
    """n times the integral of the squared standardised divergence over [-5, 5]"""

    property = "C27"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 2), pos=True, lo=0.01, hi=100))

    def pre(x):
        g = seqof(len(x), lambda i: log(x[i]))
        return ss(g) > 0.01

    def run(x):
        return R(L + OWN[4])().execute_statistic(x)

    def post_formula(x, result):
        w = scaled_logs(x)
        return eq(result, len(x) * quad(lambda r: ite(abs(r) < 1e-8, (cumulant3(w) / 6) ** 2, lambda: standardised(w, r) ** 2), -5, 5, limit=100)[0], 1e-4)
