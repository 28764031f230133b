"""Contracts: criteria for Student's distribution (C27)."""
import scipy.stats as st
from edf import *
from numpy import inf, log, sqrt
from speclib import *

T = "pysatl_criterion.statistics.goodness_of_fit.student:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"


def standard(y, m, s):
    return seqof(len(y), lambda i: (y[i] - m) / s)


def cdf_at(z, df):
    return values(z, lambda t: st.t.cdf(t, df))


def clipped(z, df):
    return values(z, lambda t: min(max(st.t.cdf(t, df), 1e-10), 1 - 1e-10))


def zhang_a(F):
    n = len(F)
    return -Sum(n, lambda i: log(F[i]) / (n - i - 1 / 2) + log(1 - F[i]) / (i + 1 / 2))


def zhang_c(F):
    n = len(F)
    return Sum(n, lambda i: log((1 / F[i] - 1) / ((n - 1 / 2) / (i + 1 / 4) - 1)) ** 2)


def chi2(z, df, m):
    """counts in m cells of equal probability against n / m"""
    n = len(z)

    def edge(j):
        return ite(j == 0, -inf, ite(j == m, inf, st.t.ppf(j / m, df)))

    return power_divergence(counts(z, m, edge), seqof(m, lambda j: n / m), 1)


FORMULAS = {
    "AndersonDarlingStudentGofStatistic": lambda z, df: ad_log(values(z, lambda t: st.t.logcdf(t, df)), values(z, lambda t: st.t.logsf(t, df))),
    "CramerVonMisesStudentGofStatistic": lambda z, df: cvm(cdf_at(z, df)),
    "KuiperStudentGofStatistic": lambda z, df: kuiper(cdf_at(z, df)),
    "WatsonStudentGofStatistic": lambda z, df: watson(cdf_at(z, df)),
    "ZhangZcStudentGofStatistic": lambda z, df: zhang_c(clipped(z, df)),
    "ZhangZaStudentGofStatistic": lambda z, df: zhang_a(clipped(z, df)),
}


class StudentCriterion(Contract):
    """the statistic of the sample standardised by the hypothesised location and scale"""

    property = "C27"
    cases = FORMULAS
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1)), df=S.real("df", lo=0.5, hi=30), m=S.real("m"), s=S.real("s", lo=0.1, hi=10), case=case)

    def run(x, df, m, s, case):
        return R(T + case)(df, m, s).execute_statistic(x)

    def post_formula(x, df, m, s, case, result):
        return eq(result, FORMULAS[case](standard(sorted(x), m, s), df))


class StudentKolmogorovSmirnov(Contract):
    property = "C27"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1)), df=S.real("df", lo=0.5, hi=30), m=S.real("m"), s=S.real("s", lo=0.1, hi=10), case=case)

    def run(x, df, m, s, case):
        return R(T + "KolmogorovSmirnovStudentGofStatistic")(df, m, s, R(ALT)[case]).execute_statistic(x)

    def post_distance(x, df, m, s, case, result):
        return eq(result, ks(cdf_at(standard(sorted(x), m, s), df), case))


class StudentLilliefors(Contract):
    property = "C27"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)), df=S.real("df", lo=0.5, hi=30))

    def run(x, df):
        return R(T + "LillieforsStudentGofStatistic")(df).execute_statistic(x)

    def post_distance(x, df, result):
        return eq(result, ks(cdf_at(sorted(x), df)))


class StudentChiSquare(Contract):
    property = "C27"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)), df=S.real("df", lo=0.5, hi=30), m=S.real("m"), s=S.real("s", lo=0.1, hi=10), k=S.int("k", lo=2, hi=12))

    def run(x, df, m, s, k):
        return R(T + "ChiSquareStudentGofStatistic")(df, m, s, k).execute_statistic(x)

    def post_formula(x, df, m, s, k, result):
        return eq(result, chi2(standard(x, m, s), df, k))
