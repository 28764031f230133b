"""Contracts: criteria for the uniform distribution on a hypothesised interval (C24)."""
import scipy.stats as st
from edf import *
from numpy import ceil, log, log2, sqrt
from speclib import *

U = "pysatl_criterion.statistics.goodness_of_fit.uniform:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"


def unit(y, a, b):
    """observations carried to the unit interval"""
    return seqof(len(y), lambda i: (y[i] - a) / (b - a))


def cdf_at(y, a, b):
    return values(y, lambda t: st.uniform.cdf(t, loc=a, scale=b - a))


def gaps(y, a, b):
    """spacings of a, the ordered sample and b"""
    n = len(y)
    return seqof(n + 1, lambda i: ite(i < n, lambda: y[i], b) - ite(i > 0, lambda: y[i - 1], a))


def sherman(y, a, b):
    d = gaps(y, a, b)
    n = len(d)
    return Sum(n, lambda i: abs(d[i] - (b - a) / n)) / 2


def quesenberry_miller(y, a, b):
    d = gaps(y, a, b)
    n = len(d)
    return Sum(n, lambda i: d[i] ** 2) + Sum(n - 1, lambda i: d[i] * d[i + 1])


def zhang_a(F):
    n = len(F)
    return -Sum(n, lambda i: log(F[i]) / (n - i - 1 / 2) + log(1 - F[i]) / (i + 1 / 2))


def zhang_c(F):
    n = len(F)
    return Sum(n, lambda i: log((1 / F[i] - 1) / ((n - 1 / 2) / (i + 1 / 4) - 1)) ** 2)


def zhang_k(F):
    n = len(F)
    return Max(n, lambda i: (i + 1 / 2) * log((i + 1 / 2) / (n * F[i])) + (n - i - 1 / 2) * log((n - i - 1 / 2) / (n * (1 - F[i]))))


def stein(z):
    """U-statistic of max(x, y) - x - y + (x^2 + y^2) / 2"""
    n = len(z)
    pairs = Sum(n, lambda i: Sum(n - 1 - i, lambda k: max(z[i], z[i + 1 + k]) - z[i] - z[i + 1 + k] + (z[i] ** 2 + z[i + 1 + k] ** 2) / 2))
    return 2 * pairs / (n * (n - 1))


def legendre(j, x):
    """orthonormal polynomials on the unit interval"""
    u = 2 * x - 1
    p = {1: u, 2: (3 * u ** 2 - 1) / 2, 3: (5 * u ** 3 - 3 * u) / 2, 4: (35 * u ** 4 - 30 * u ** 2 + 3) / 8}[j]
    return sqrt(2 * j + 1) * p


def neyman(z, k):
    n = len(z)
    out = 0
    for j in range(1, k + 1):
        out = out + Sum(n, lambda i: legendre(j, z[i])) ** 2 / n
    return out


def bickel_rosenblatt(z, h):
    """squared distance of the kernel density and the uniform density, summed on a grid of a thousand points"""
    n = len(z)

    def density(t):
        return Sum(n, lambda i: st.norm.pdf((t - z[i]) / h)) / n / h

    return Sum(1000, lambda k: (density(k / 999) - 1) ** 2) / 999


def cells(x, a, b, bins):
    n = len(x)
    if bins == "sturges":
        m = ceil(log2(n) + 1)
    elif bins == "sqrt":
        m = ceil(sqrt(n))
    elif bins == "auto":
        m = ceil((b - a) / (3.5 * sqrt(ss(x) / n) / n ** (1 / 3)))
    elif bins == "other":
        m = 10
    else:
        m = bins
    return max(2, m)


def on_edge(x, a, b, m):
    """some observation is within rounding of an inner cell boundary"""
    def near(t):
        u = (t - a) / (b - a) * m
        return abs(u - round(u)) < 1e-9
    return exists(len(x), lambda i: near(x[i]))


def chi2(x, a, b, bins, lam):
    n, m = len(x), cells(x, a, b, bins)
    return power_divergence(counts(x, m, lambda j: a + j * (b - a) / m), seqof(m, lambda j: n / m), lam)


FORMULAS = {
    "AndersonDarlingUniformGofStatistic": lambda x, y, a, b: ad_log(values(y, lambda t: st.uniform.logcdf(t, a, b - a)), values(y, lambda t: st.uniform.logsf(t, a, b - a))),
    "CrammerVonMisesUniformGofStatistic": lambda x, y, a, b: cvm(cdf_at(y, a, b)),
    "LillieforsTestUniformGofStatistic": lambda x, y, a, b: ks(cdf_at(y, a, b)),
    "WatsonUniformGofStatistic": lambda x, y, a, b: watson(unit(y, a, b)),
    "KuiperUniformGofStatistic": lambda x, y, a, b: kuiper(unit(y, a, b)),
    "GreenwoodTestUniformGofStatistic": lambda x, y, a, b: greenwood(unit(y, a, b)),
    "ShermanUniformGofStatistic": lambda x, y, a, b: sherman(y, a, b),
    "QuesenberryMillerUniformGofStatistic": lambda x, y, a, b: quesenberry_miller(y, a, b),
    "SteinUniformGofStatistic": lambda x, y, a, b: stein(unit(x, a, b)),
    "CensoredSteinUniformGofStatistic": lambda x, y, a, b: stein(unit(x, a, b)),
}
OTHERS = ["KolmogorovSmirnovUniformGofStatistic", "Chi2PearsonUniformGofStatistic", "BickelRosenblattUniformGofStatistic",
          "ZhangTestsUniformGofStatistic", "NeymanSmoothTestUniformGofStatistic"]


def interval_args(S, lo=1, inside=0):
    """an interval and a sample from it"""
    a, w = S.real("a", lo=-5, hi=5), S.real("w", lo=0.5, hi=10)
    u = S.arr("u", S.len("n", lo), lo=inside, hi=1 - inside)
    return dict(a=a, b=a + w, x=seqof(len(u), lambda i: a + w * u[i]))


class UniformCriterion(Contract):
    """the statistic of a sample from the hypothesised interval"""

    property = "C24"
    cases = FORMULAS
    unchanged = ["x"]

    def args(S, case):
        d = interval_args(S, 2, 0.001)
        d["case"] = case
        return d

    def run(x, a, b, case):
        return R(U + case)(a, b).execute_statistic(x)

    def post_formula(x, a, b, case, result):
        return eq(result, FORMULAS[case](x, sorted(x), a, b))


class UniformSingleObservation(Contract):
    property = "C24"
    cases = [c for c in FORMULAS if "Stein" not in c]

    def args(S, case):
        a, w, u = S.real("a", lo=-5, hi=5), S.real("w", lo=0.5, hi=10), S.real("u", lo=0.001, hi=0.999)
        return dict(a=a, b=a + w, x=[a + w * u], case=case)

    def run(x, a, b, case):
        return R(U + case)(a, b).execute_statistic(x)

    def post_formula(x, a, b, case, result):
        return eq(result, FORMULAS[case](x, x, a, b))


class UniformKolmogorovSmirnov(Contract):
    property = "C24"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["x"]

    def args(S, case):
        d = interval_args(S)
        d["case"] = case
        return d

    def run(x, a, b, case):
        return R(U + "KolmogorovSmirnovUniformGofStatistic")(a, b, R(ALT)[case]).execute_statistic(x)

    def post_distance(x, a, b, case, result):
        return eq(result, ks(cdf_at(sorted(x), a, b), case))


class UniformZhang(Contract):
    """Zhang's Z_A, Z_C and Z_K"""

    property = "C24"
    cases = ["A", "C", "K", "a", "c", "k"]
    unchanged = ["x"]

    def args(S, case):
        d = interval_args(S, 1, 0.001)
        d["case"] = case
        return d

    def run(x, a, b, case):
        return R(U + "ZhangTestsUniformGofStatistic")(a, b, case).execute_statistic(x)

    def post_formula(x, a, b, case, result):
        F = unit(sorted(x), a, b)
        if case == "A" or case == "a":
            return eq(result, zhang_a(F))
        if case == "C" or case == "c":
            return eq(result, zhang_c(F))
        return eq(result, zhang_k(F))


class UniformChiSquare(Contract):
    """observed counts in equal cells against n / m"""

    property = "C24"
    cases = ["sturges", "sqrt", "auto", "other", 2, 7]
    unchanged = ["x"]

    def args(S, case):
        d = interval_args(S, 2)
        d["case"] = case
        return d

    def run(x, a, b, case):
        return R(U + "Chi2PearsonUniformGofStatistic")(a, b, 1, case).execute_statistic(x)

    def pre(x, a, b, case):
        return implies(case == "auto", ss(x) > 1e-3) and delicate(lambda: on_edge(x, a, b, cells(x, a, b, case)))

    def post_formula(x, a, b, case, result):
        return eq(result, chi2(x, a, b, case, 1))


class UniformPowerDivergence(Contract):
    property = "C24"
    cases = [0, "cressie-read"]
    unchanged = ["x"]

    def args(S, case):
        d = interval_args(S, 2)
        d["lam"] = 2 / 3 if case == "cressie-read" else case
        d["m"] = S.int("m", lo=2, hi=12)
        return d

    def pre(x, a, b, m):
        return delicate(lambda: on_edge(x, a, b, m))

    def run(x, a, b, lam, m):
        return R(U + "Chi2PearsonUniformGofStatistic")(a, b, lam, m).execute_statistic(x)

    def post_formula(x, a, b, lam, m, result):
        return eq(result, chi2(x, a, b, m, lam))


class UniformNeyman(Contract):
    """smooth test with one to four Legendre components"""

    property = "C24"
    cases = [1, 2, 3, 4]
    unchanged = ["x"]

    def args(S, case):
        d = interval_args(S)
        d["case"] = case
        return d

    def run(x, a, b, case):
        return R(U + "NeymanSmoothTestUniformGofStatistic")(a, b, case).execute_statistic(x)

    def post_formula(x, a, b, case, result):
        return eq(result, neyman(unit(x, a, b), case))


class UniformBickelRosenblatt(Contract):
    property = "C24"
    cases = ["auto", "given"]
    unchanged = ["x"]

    def args(S, case):
        d = interval_args(S)
        d["h"] = "auto" if case == "auto" else S.real("h", lo=0.05, hi=1)
        return d

    def pre(x, case):
        return implies(case == "auto", ss(x) > 1e-3)

    def run(x, a, b, h):
        return R(U + "BickelRosenblattUniformGofStatistic")(a, b, h).execute_statistic(x)

    def post_formula(x, a, b, h, case, result):
        z = unit(x, a, b)
        n = len(x)
        return eq(result, bickel_rosenblatt(z, 1.06 * sqrt(ss(z) / n) * n ** (-1 / 5) if case == "auto" else h))


class UniformCensoredStein(Contract):
    """pairs of uncensored observations weighted by the inverse survival function of the censoring times"""

    property = "C24"
    unchanged = ["x", "c"]
    bounded = "the Kaplan-Meier recursion over the order of the sample is outside the verifier's loop rules"
    bound = "random samples of 1 to 24 distinct observations with random censoring"

    def args(S):
        n = S.len("n", 1)
        d = dict(a=0, b=1, x=S.arr("x", n, lo=0.001, hi=0.999, distinct=True))
        d["c"] = S.arr("c", n, lo=0, hi=1, integer=True)
        return d

    def pre(c):
        return exists(len(c), lambda i: c[i] == 1)

    def run(x, a, b, c):
        return R(U + "CensoredSteinUniformGofStatistic")(a, b).execute_statistic(x, c)

    def post_formula(x, c, result):
        n = len(x)

        def survival(t):
            return Prod(n, lambda i: ite(c[i] == 1 and x[i] <= t, 1 - 1 / max(1, count(n, lambda k: x[k] >= x[i])), 1))

        def weight(i):
            return ite(c[i] == 0, 1 / max(survival(x[i]), 1e-10), 0)

        pairs = Sum(n, lambda i: Sum(n - 1 - i, lambda k: weight(i) * weight(i + 1 + k) * (max(x[i], x[i + 1 + k]) - x[i] - x[i + 1 + k] + (x[i] ** 2 + x[i + 1 + k] ** 2) / 2)))
        free = count(n, lambda i: c[i] == 0)
        return eq(result, ite(free < 2, 0, lambda: 4 * pairs / (free * (free - 1))))


class SteinOfOne(Contract):
    """a single observation has no pairs: the statistic is zero"""

    property = "C24"

    def args(S):
        return dict(x=S.arr("x", 1, lo=0, hi=1))

    def run(x):
        return R(U + "SteinUniformGofStatistic")().execute_statistic(x)

    def post_zero(result):
        return result == 0


class OutsideInterval(Contract):
    """observations outside the hypothesised interval are refused by every criterion"""

    property = "C24"
    cases = list(FORMULAS) + OTHERS
    unchanged = ["x"]

    def args(S, case):
        a = S.real("a", lo=-5, hi=5)
        return dict(a=a, b=a + S.real("w", lo=0.5, hi=10), x=S.arr("x", S.len("n", 1)), case=case)

    def pre(x, a, b):
        return exists(len(x), lambda i: x[i] < a or x[i] > b)

    def run(x, a, b, case):
        return R(U + case)(a, b).execute_statistic(x)

    def post_refused(exc):
        return exc == "ValueError"
