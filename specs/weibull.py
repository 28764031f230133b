"""Contracts: criteria for the Weibull distribution (C23)."""
import numpy as np
import scipy.stats as st
from edf import *
from numpy import arcsin, exp, log, pi, sqrt
from scipy.optimize import minimize_scalar
from scipy.special import gamma
from speclib import *

W = "pysatl_criterion.statistics.goodness_of_fit.weibull:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"


def cdf(t, a, k):
    """exponentiated Weibull distribution function"""
    return st.exponweib.cdf(t, a=a, c=k)


def cdf_at(y, a, k):
    return values(y, lambda t: cdf(t, a, k))


def mahdi_doostparast(F):
    n = len(F)
    return n * (Sum(n - 1, lambda i: ((i + 1) / n - 1) ** 2 * (log(F[i + 1]) - log(F[i])))
                + 2 * Sum(n - 1, lambda i: ((i + 1) / n - 1) * (F[i + 1] - F[i])) + 1 / 2)


def liao_shimokawa(F):
    """the upper tail is kept from zero by 1e-10"""
    n = len(F)
    return Sum(n, lambda i: max((i + 1) / n - F[i], F[i] - i / n) / sqrt(F[i] * (1 - F[i] + 1e-10))) / sqrt(n)


def logs(x):
    return seqof(len(x), lambda i: log(x[i]))


def scale_estimate(y):
    """linear estimator of the scale of the ordered logarithms (Ozturk and Korukoglu), times n"""
    n = len(y)
    w = seqof(n - 1, lambda i: log((n + 1) / (n - i)))
    v = seqof(n - 1, lambda i: w[i] * (1 + log(w[i])) - 1)
    return (0.6079 * (Sum(n - 1, lambda i: v[i] * y[i]) + (0.4228 * n - Sum(n - 1, lambda i: v[i])) * y[n - 1])
            - 0.257 * (Sum(n - 1, lambda i: w[i] * y[i]) + (n - Sum(n - 1, lambda i: w[i])) * y[n - 1]))


def shapiro_brain(y):
    n = len(y)
    return n * (scale_estimate(y) / n) ** 2 / ss(y)


def ozturk_korukoglu(y):
    n = len(y)
    sigma = (Sum(n - 1, lambda i: (2 * i + 1 - n) * y[i]) + (n - 1) * y[n - 1]) / (log(2) * (n - 1))
    return (scale_estimate(y) / sigma - 1 - 0.13 / sqrt(n) + 1.18 / n) / (0.49 / sqrt(n) - 0.36 / n)


def skew(x):
    return cmom(x, 3) / cmom(x, 2) ** (3 / 2)


def kurt(x):
    return cmom(x, 4) / cmom(x, 2) ** 2


def gumbel_scores(n, a=0, b=1):
    """quantiles of the standard minimum extreme value law at (i - a) / (n + b)"""
    return seqof(n, lambda i: log(-log(1 - (i + 1 - a) / (n + b))))


def expected_log_order(n):
    """David and Johnson's approximation of the expected ordered logarithms of exponential values"""
    def at(i):
        p = (1 + i) / (n + 1)
        q = 1 - p
        d0 = log(-log(q))
        d1 = -1 / (q * log(q))
        d2 = d1 / q - d1 ** 2
        d3 = d2 / q + d1 / q ** 2 - 2 * d1 * d2
        d4 = d3 / q + 2 * d2 / q ** 2 + 2 * d1 / q ** 3 - 2 * (d2 ** 2 + d1 * d3)
        return d0 + p * q / (2 * (n + 2)) * d2 + p * q / (n + 2) ** 2 * ((q - p) * d3 / 3 + p * q * d4 / 8)

    return seqof(n, at)


def gaps(y, e):
    """gaps of the ordered logarithms, normalised by the expected ones"""
    return seqof(len(y) - 1, lambda i: (y[i + 1] - y[i]) / (e[i + 1] - e[i]))


def tiku_singh(y, e):
    n, g = len(y), gaps(y, e)
    return 2 * Sum(n - 2, lambda i: (n - 2 - i) * g[i]) / ((n - 2) * Sum(n - 1, lambda i: g[i]))


def lockhart(y, e):
    """Anderson-Darling statistic of the cumulated normalised gaps"""
    n, g = len(y), gaps(y, e)
    z = seqof(n - 2, lambda i: Sum(i + 1, lambda j: g[j]) / Sum(n - 1, lambda j: g[j]))
    return ad(z)


def mann_scheuer_fertig(y, e):
    n, g = len(y), gaps(y, e)
    k = n // 2
    return Sum(n - 1 - k, lambda i: g[k + i]) / Sum(n - 1, lambda i: g[i])


def kullback_leibler(y, m):
    """Vasicek's entropy estimate of the ordered logarithms against the extreme value density"""
    n = len(y)
    h = Sum(n, lambda i: log(n / (2 * m) * (y[min(n - 1, i + m)] - y[max(0, i - m)]))) / n
    return -h - mean(y) + Sum(n, lambda i: exp(y[i])) / n


def laplace_transform(x, points, a):
    n = len(x)

    def at(t):
        return exp(-exp(a * t) + a * t) * (gamma(1 - t) - Sum(n, lambda i: exp(-x[i] * t)) / n) ** 2

    return n * Sum(len(points), lambda j: at(points[j]))


def cabana_quiroz(x):
    """quadratic form of the empirical Laplace transform at -0.1 and 0.02"""
    n = len(x)
    u = sqrt(n) * (Sum(n, lambda i: exp(0.1 * x[i])) / n - gamma(1.1))
    v = sqrt(n) * (Sum(n, lambda i: exp(-0.02 * x[i])) / n - gamma(0.98))
    return (0.53 * u ** 2 - 2 * 0.91 * u * v + 1.59 * v ** 2) / (1.59 * 0.53 - 0.91 ** 2)


def shape_estimate(y):
    """maximum-likelihood shape: root of the score, found by bounded minimisation of its absolute value"""
    n = len(y)
    v = seqof(n, lambda i: -y[n - 1 - i])

    def score(t):
        return abs(mean(v) - Sum(n, lambda i: v[i] * exp(-v[i] * t)) / Sum(n, lambda i: exp(-v[i] * t)) + 1 / t)

    return minimize_scalar(score, bounds=(0.0001, 50), method="bounded").x


def stabilised(y, ordered=True):
    """stabilised probability plot of the fitted values"""
    n = len(y)
    t = shape_estimate(y)
    aux = Sum(n, lambda i: exp(y[i] * t)) / n
    z = seqof(n, lambda i: y[i] * t - log(aux))
    s = seqof(n, lambda i: 2 / pi * arcsin(sqrt(1 - exp(-exp(z[i])))))
    return Max(n, lambda i: abs(2 / pi * arcsin(sqrt((i + 1 / 2) / n)) - s[i if ordered else n - 1 - i]))


WITH_CDF = {
    "MinToshiyukiWeibullGofStatistic": min_toshiyuki,
    "LillieforsWeibullGofStatistic": ks,
    "CrammerVonMisesWeibullGofStatistic": cvm,
    "MahdiDoostparastWeibullGofStatistic": mahdi_doostparast,
    "WatsonWeibullGofStatistic": watson,
    "LiaoShimokawaWeibullGofStatistic": liao_shimokawa,
}

OF_LOGS = {
    "SbWeibullGofStatistic": (3, shapiro_brain),
    "SBWeibullGofStatistic": (3, shapiro_brain),
    "OKWeibullGofStatistic": (3, ozturk_korukoglu),
    "ST1WeibullGofStatistic": (3, lambda y: (-skew(y) - 1.139547) ** 2 * len(y) / 20),
    "ST2WeibullGofStatistic": (3, lambda y: (kurt(y) + 7.55 * skew(y) + 3.21) ** 2 * len(y) / 219.72),
    "REJGWeibullGofStatistic": (3, lambda y: correlation(y, gumbel_scores(len(y), 0.3175, 0.365)) ** 4),
    "SPPWeibullGofStatistic": (3, lambda y: stabilised(y, ordered=False)),
    "KullbackLeiblerWeibullGofStatistic": (2, lambda y: kullback_leibler(y, len(y) // 2)),
}

OF_GAPS = {
    "TikuSinghWeibullGofStatistic": tiku_singh,
    "LOSWeibullGofStatistic": lockhart,
    "MSFWeibullGofStatistic": mann_scheuer_fertig,
}


class WeibullCriterion(Contract):
    """distance of the sample from the hypothesised law"""

    property = "C23"
    cases = WITH_CDF
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), lo=0.001, hi=3), a=S.real("a", lo=0.3, hi=4), k=S.real("k", lo=0.3, hi=4), case=case)

    def pre(x, a, k, case):
        return forall(len(x), lambda i: 0 < cdf(x[i], a, k) and cdf(x[i], a, k) < 1)

    def run(x, a, k, case):
        return R(W + case)(a, k).execute_statistic(x)

    def post_formula(x, a, k, case, result):
        return eq(result, WITH_CDF[case](cdf_at(sorted(x), a, k)))


class WeibullKolmogorovSmirnov(Contract):
    property = "C23"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), nonneg=True), a=S.real("a", lo=0.3, hi=4), k=S.real("k", lo=0.3, hi=4), case=case)

    def run(x, a, k, case):
        return R(W + "KolmogorovSmirnovWeibullGofStatistic")(R(ALT)[case], a=a, k=k).execute_statistic(x)

    def post_distance(x, a, k, case, result):
        return eq(result, ks(cdf_at(sorted(x), a, k), case))


class WeibullChiSquare(Contract):
    """relative frequencies in ceil(sqrt(n)) equal cells over the range of the sample"""

    property = "C23"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 2), lo=0.001, hi=3), a=S.real("a", lo=0.3, hi=4), k=S.real("k", lo=0.3, hi=4))

    def pre(x, a, k):
        return ss(x) > 0

    def run(x, a, k):
        return R(W + "Chi2PearsonWeibullGofStatistic")(a, k).execute_statistic(x)

    def post_formula(x, a, k, result):
        n = len(x)
        m = math.ceil(sqrt(n))
        obs, edge = np.histogram(x, bins=m)
        return eq(result, power_divergence(seqof(m, lambda j: obs[j] / n), seqof(m, lambda j: cdf(edge[j + 1], a, k) - cdf(edge[j], a, k)), 1))


class WeibullOfLogarithms(Contract):
    """statistics of the ordered logarithms, free of the parameters"""

    property = "C23"
    cases = OF_LOGS
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", OF_LOGS[case][0]), lo=0.01, hi=20, distinct=case[:3] in ("LOS", "Kul")), case=case)

    def pre(x, case):
        return ss(logs(x)) > 0.001

    def run(x, case):
        return R(W + case)().execute_statistic(x)

    def post_formula(x, case, result):
        return eq(result, OF_LOGS[case][1](sorted(logs(x))), 1e-6)


class WeibullExpectedLogs(Contract):
    """David and Johnson's approximation behind the normalised gaps"""

    property = "C23"

    def args(S):
        return dict(n=S.len("n", 1))

    def run(n):
        return R(W + "NormalizeSpaceWeibullGofStatistic").GoFNS(1, n, n)

    def post_formula(n, result):
        return eq(result, expected_log_order(n), 1e-6)


class WeibullOfGaps(Contract):
    """statistics of the normalised gaps, for any increasing expected logarithms"""

    property = "C23"
    cases = OF_GAPS
    unchanged = ["x"]

    def args(S, case):
        n = S.len("n", 3)
        e = S.arr("e", n, lo=-5, hi=5)
        return dict(x=S.arr("x", n, lo=0.01, hi=20, distinct=True), e=e, case=case,
                    approx=S.stub(W + "NormalizeSpaceWeibullGofStatistic.GoFNS", lambda t, n, m: e))

    def pre(x, e, case):
        return forall(len(x) - 1, lambda i: e[i + 1] - e[i] > 0.001)

    def lemma_gaps(x, e, case):
        g = gaps(sorted(logs(x)), e)
        return forall(len(x) - 1, lambda i: g[i] > 0)

    def lemma_total(x, e, case):
        g = gaps(sorted(logs(x)), e)
        return Sum(len(x) - 1, lambda i: g[i]) > 0

    def run(x, e, case):
        return R(W + case)().execute_statistic(x)

    def post_formula(x, e, case, result):
        return eq(result, OF_GAPS[case](sorted(logs(x)), e), 1e-6)

    def post_approximation(x, approx):
        cs = calls(approx, "call")
        return len(cs) == 1 and same(cs[0][0][0], 1) and same(cs[0][0][1], len(x)) and same(cs[0][0][2], len(x))


class WeibullAndersonDarling(Contract):
    """logarithms against the minimum extreme value law with fitted location and scale"""

    property = "C23"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 2), lo=0.01, hi=20))

    def pre(x):
        return ss(logs(x)) > 0.001

    def run(x):
        return R(W + "AndersonDarlingWeibullGofStatistic")().execute_statistic(x)

    def post_formula(x, result):
        y = sorted(logs(x))
        loc, s = st.gumbel_l.fit(y)
        return eq(result, ad_log(values(y, lambda t: st.gumbel_l.logcdf((t - loc) / s)), values(y, lambda t: st.gumbel_l.logsf((t - loc) / s))))


class WeibullWindow(Contract):
    """window of the entropy estimate chosen by the caller"""

    property = "C23"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 3), lo=0.01, hi=20, distinct=True), m=S.int("m", lo=1, chi=3))

    def run(x, m):
        return R(W + "KullbackLeiblerWeibullGofStatistic")().execute_statistic(x, m)

    def post_formula(x, m, result):
        return eq(result, kullback_leibler(sorted(logs(x)), m))


class WeibullSmithBain(Contract):
    """correlation of an ordered sample with the quantiles of its plotting positions"""

    property = "C23"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 3), lo=0.01, hi=20, sorted=True))

    def pre(x):
        return ss(logs(x)) > 0.001

    def run(x):
        return R(W + "RSBWeibullGofStatistic")().execute_statistic(x)

    def post_formula(x, result):
        return eq(result, len(x) * (1 - correlation(sorted(logs(x)), gumbel_scores(len(x))) ** 2), 1e-6)


class WeibullSmithBainUnordered(WeibullSmithBain):
    """the same of a sample in any order"""

    property = "C23"
    witness = True

    def args(S):
        return dict(x=S.arr("x", S.len("n", 3), lo=0.01, hi=20))


class WeibullStabilised(Contract):
    """stabilised probability plot as published: plotting positions against the ordered fitted values"""

    property = "C23"
    witness = True

    def args(S):
        return dict(x=S.arr("x", S.len("n", 3), lo=0.01, hi=20))

    def run(x):
        return R(W + "SPPWeibullGofStatistic")().execute_statistic(x)

    def post_formula(x, result):
        return eq(result, stabilised(sorted(logs(x))), 1e-6)


class WeibullLaplace(Contract):
    """weighted distance of the empirical Laplace transform from the gamma function"""

    property = "C23"
    cases = ["LaplaceTransform2", "LaplaceTransform3"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), lo=-4, hi=4), m=S.int("m", lo=2, chi=120), a=S.real("a", lo=-6, hi=-1), case=case)

    def run(x, m, a, case):
        return R(W + case + "WeibullGofStatistic")().execute_statistic(x, m, a)

    def post_formula(x, m, a, case, result):
        if case == "LaplaceTransform2":
            t = seqof(m, lambda j: -1 + j / m)
        else:
            t = seqof(m, lambda j: -2.5 + 2.99 * j / (m - 1))
        return eq(result, laplace_transform(x, t, a), 1e-6)


class WeibullCabanaQuiroz(Contract):
    property = "C23"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1), lo=-4, hi=4))

    def run(x):
        return R(W + "CabanaQuirozWeibullGofStatistic")().execute_statistic(x)

    def post_formula(x, result):
        return eq(result, cabana_quiroz(x))
