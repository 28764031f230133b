"""Contracts: shared distribution-distance statistics (C20)."""
from edf import *
from speclib import *

C = "pysatl_criterion.statistics.goodness_of_fit.common:"
B = "pysatl_criterion.statistics.goodness_of_fit.beta:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"


def cdf_values(S, open=False):
    n = S.len("n", 1)
    if open:
        return S.arr("u", n, lo=0.01, hi=0.99)
    return S.arr("u", n, lo=0, hi=1)


class KolmogorovSmirnov(Contract):
    """the largest distance between the two distribution functions in the tested direction"""

    property = "C20"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["u", "y"]

    def args(S, case):
        u = cdf_values(S)
        return dict(u=u, y=S.arr("y", len(u)), stat=S.obj(B + "KolmogorovSmirnovBetaGofStatistic", alternative_type=R(ALT)[case], mode="exact"), case=case)

    def run(stat, y, u, case):
        return R(C + "KSStatistic").do_execute_statistic(stat, y, u)

    def post_distance(u, case, result):
        return eq(result, ks(u, case))


class Lilliefors(Contract):
    property = "C20"
    unchanged = ["u", "y"]

    def args(S):
        u = cdf_values(S)
        return dict(u=u, y=S.arr("y", len(u)), stat=S.obj(B + "LillieforsTestBetaGofStatistic"))

    def run(stat, y, u):
        return R(C + "LillieforsTest").do_execute_statistic(stat, y, u)

    def post_distance(u, result):
        return eq(result, ks(u))


class AndersonDarling(Contract):
    property = "C20"
    unchanged = ["y", "a", "b"]

    def args(S):
        n = S.len("n", 1)
        return dict(y=S.arr("y", n), a=S.arr("a", n), b=S.arr("b", n), stat=S.obj(B + "AndersonDarlingBetaGofStatistic"))

    def run(stat, y, a, b):
        return R(C + "ADStatistic").do_execute_statistic(stat, y, a, b)

    def post_formula(a, b, result):
        n = len(a)
        return eq(result, -n - Sum(n, lambda i: (2 * i + 1) * (a[i] + b[n - 1 - i])) / n)


class CramerVonMises(Contract):
    property = "C20"
    unchanged = ["u", "y"]

    def args(S):
        u = cdf_values(S)
        return dict(u=u, y=S.arr("y", len(u)), stat=S.obj(B + "CrammerVonMisesBetaGofStatistic"))

    def run(stat, y, u):
        return R(C + "CrammerVonMisesStatistic").do_execute_statistic(stat, y, u)

    def post_formula(u, result):
        return eq(result, cvm(u))


class MinToshiyuki(Contract):
    property = "C20"
    unchanged = ["u"]

    def args(S):
        return dict(u=cdf_values(S, open=True), stat=S.obj("pysatl_criterion.statistics.goodness_of_fit.weibull:MinToshiyukiWeibullGofStatistic"))

    def run(stat, u):
        return R(C + "MinToshiyukiStatistic").do_execute_statistic(stat, u)

    def post_formula(u, result):
        return eq(result, min_toshiyuki(u))


class PowerDivergence(Contract):
    """Pearson's chi-square (1), likelihood ratio (0), modified likelihood ratio (-1), general Cressie-Read"""

    property = "C20"
    cases = [1, 0, -1, "any", "cressie-read"]
    unchanged = ["observed", "expected"]

    def args(S, case):
        m = S.len("m", 1)
        lam = S.real("lam", lo=0.1, hi=3) if case == "any" else 2 / 3 if case == "cressie-read" else case
        obs = S.arr("observed", m, lo=1 if case == -1 else 0, integer=True)
        return dict(observed=obs, expected=S.arr("expected", m, pos=True), lam=lam,
                    stat=S.obj(B + "Chi2PearsonBetaGofStatistic"), case=case)

    def pre(lam, case):
        return implies(case == "any", lam != 1)

    def run(stat, observed, expected, lam, case):
        return R(C + "Chi2Statistic").do_execute_statistic(stat, observed, expected, lam)

    def post_formula(observed, expected, lam, result):
        return eq(result, power_divergence(observed, expected, lam))


class SharedAlternatives(Contract):
    """the side on which a large distance speaks"""

    property = "C20"
    cases = ["AndersonDarlingBetaGofStatistic", "CrammerVonMisesBetaGofStatistic", "Chi2PearsonBetaGofStatistic", "LillieforsTestBetaGofStatistic"]

    def args(S, case):
        return dict(stat=S.obj(B + case), case=case)

    def run(stat, case):
        return stat.alternative()

    def post_side(case, result):
        return clsname(result) == ("TwoSidedAlternative" if case[:3] == "Lil" else "RightAlternative")
