"""Contracts: criteria for the gamma distribution (C25)."""
import scipy.stats as st
from edf import *
from numpy import log, sqrt
from speclib import *

G = "pysatl_criterion.statistics.goodness_of_fit.gamma:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"


def cdf(t, a, b):
    return st.gamma.cdf(t, a, scale=1 / b)


def ppf(q, a, b):
    return st.gamma.ppf(q, a, scale=1 / b)


def cdf_at(y, a, b):
    return values(y, lambda t: cdf(t, a, b))


def lilliefors(x, y):
    """parameters estimated by the method of moments"""
    m, v = mean(x), ss(x) / (len(x) - 1)
    return ks(cdf_at(y, m ** 2 / v, m / v))


def binned(x, a, b, m, lam):
    """equiprobable cells under the hypothesis"""
    n = len(x)
    edge = lambda j: ppf(j / m, a, b)
    obs = seqof(m, lambda j: count(n, lambda i: (j == 0 or edge(j) <= x[i]) and (j == m - 1 or x[i] < edge(j + 1))))
    return power_divergence(obs, seqof(m, lambda j: n / m), lam)


def plotting_quantiles(n, a, b):
    return seqof(n, lambda i: ppf((i + 1 - 0.375) / (n + 0.25), a, b))


def ppcc(y, a, b):
    return 1 - correlation(y, plotting_quantiles(len(y), a, b))


FORMULAS = {
    "LillieforsGammaGofStatistic": lambda x, y, a, b: lilliefors(x, y),
    "AndersonDarlingGammaGofStatistic": lambda x, y, a, b: ad_log(values(y, lambda t: st.gamma.logcdf(t, a, scale=1 / b)), values(y, lambda t: st.gamma.logsf(t, a, scale=1 / b))),
    "CramerVonMisesGammaGofStatistic": lambda x, y, a, b: cvm(cdf_at(y, a, b)),
    "WatsonGammaGofStatistic": lambda x, y, a, b: watson(cdf_at(y, a, b)),
    "KuiperGammaGofStatistic": lambda x, y, a, b: kuiper(cdf_at(y, a, b)),
    "GreenwoodGammaGofStatistic": lambda x, y, a, b: greenwood(cdf_at(y, a, b)),
    "MoranGammaGofStatistic": lambda x, y, a, b: moran(cdf_at(y, a, b)),
    "MinToshiyukiGammaGofStatistic": lambda x, y, a, b: min_toshiyuki(cdf_at(y, a, b)),
    "ProbabilityPlotCorrelationGammaGofStatistic": lambda x, y, a, b: ppcc(y, a, b),
}


class GammaCriterion(Contract):
    """the statistic of a positive sample, with the hypothesised shape and rate"""

    property = "C25"
    cases = FORMULAS
    unchanged = ["x"]

    def args(S, case):
        x = S.arr("x", S.len("n", 2), lo=0.001, hi=12, distinct=case[:5] == "Moran")
        return dict(x=x, a=S.real("a", lo=0.4, hi=5), b=S.real("b", lo=0.3, hi=4), case=case)

    def pre(x, a, b, case):
        if case[:5] == "Moran":
            d = spacings(cdf_at(sorted(x), a, b))
            return forall(len(d), lambda i: d[i] > 0)
        if case[:5] == "Proba":  # the quantiles of distinct probabilities differ
            return ss(x) > 0 and ss(plotting_quantiles(len(x), a, b)) > 0
        return forall(len(x), lambda i: 0 < cdf(x[i], a, b) and cdf(x[i], a, b) < 1) and ss(x) > 0

    def run(x, a, b, case):
        return R(G + case)(alpha=a, beta=b).execute_statistic(x)

    def post_formula(x, a, b, case, result):
        return eq(result, FORMULAS[case](x, sorted(x), a, b))


class GammaKolmogorovSmirnov(Contract):
    property = "C25"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), nonneg=True), a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6), case=case)

    def run(x, a, b, case):
        return R(G + "KolmogorovSmirnovGammaGofStatistic")(R(ALT)[case], alpha=a, beta=b).execute_statistic(x)

    def post_distance(x, a, b, case, result):
        return eq(result, ks(cdf_at(sorted(x), a, b), case))


class GammaBinned(Contract):
    property = "C25"
    cases = {"Chi2PearsonGammaGofStatistic": 1, "LikelihoodRatioGammaGofStatistic": 0, "CressieReadGammaGofStatistic": 2 / 3}
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), nonneg=True), a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6),
                    m=S.int("m", lo=2, chi=9), case=case)

    def run(x, a, b, m, case):
        return R(G + case)(bins=m, alpha=a, beta=b).execute_statistic(x)

    def post_formula(x, a, b, m, case, result):
        return eq(result, binned(x, a, b, m, GammaBinned.cases[case]))


class GammaCressieRead(Contract):
    property = "C25"
    cases = [1, 0, 2]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), nonneg=True), a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6), case=case)

    def run(x, a, b, case):
        return R(G + "CressieReadGammaGofStatistic")(case, alpha=a, beta=b).execute_statistic(x)

    def post_formula(x, a, b, case, result):
        return eq(result, binned(x, a, b, 8, case))


class GammaDegenerate(Contract):
    """tied probability transforms have no logarithmic spacings; constant samples have no moment estimates or correlation"""

    property = "C25"
    cases = ["MoranGammaGofStatistic", "LillieforsGammaGofStatistic", "ProbabilityPlotCorrelationGammaGofStatistic"]
    unchanged = ["x"]

    def args(S, case):
        n, c = S.len("n", 2), S.int("c", lo=1, hi=9)
        return dict(x=seqof(n, lambda i: c), case=case)

    def run(x, case):
        return R(G + case)().execute_statistic(x)

    def post_refused(exc):
        return exc == "ValueError"
