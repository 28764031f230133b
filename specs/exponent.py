"""Contracts: criteria for the exponential distribution (C22)."""
import scipy.stats as st
from edf import *
from numpy import arcsin, exp, floor, log, pi, sqrt
from scipy.special import digamma, gamma
from speclib import *

X = "pysatl_criterion.statistics.goodness_of_fit.exponent:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"


def cdf_at(y, lam):
    return values(y, lambda t: st.expon.cdf(t, scale=1 / lam))


def hits(n, f):
    """number of pairs i, j"""
    return Sum(n, lambda i: count(n, lambda j: f(i, j)))


def ahsanullah(x):
    n = len(x)
    h = Sum(n, lambda k: hits(n, lambda i, j: abs(x[i] - x[j]) < x[k]))
    g = Sum(n, lambda k: hits(n, lambda i, j: 2 * min(x[i], x[j]) < x[k]))
    return (h - g) / n ** 3


def atkinson(x, p):
    n = len(x)
    m = Sum(n, lambda i: x[i] ** p) / n
    return sqrt(n) * abs(m ** (1 / p) / mean(x) - gamma(1 + p) ** (1 / p))


def cox_oakes(x):
    n, m = len(x), mean(x)
    return n + Sum(n, lambda i: (1 - x[i] / m) * log(x[i] / m))


def deshpande(x, b):
    n = len(x)
    return hits(n, lambda i, k: i != k and x[i] > b * x[k]) / (n * (n - 1))


def normalised_spacings(y):
    """(n - i) (y_(i+1) - y_(i)) with y_(0) = 0"""
    n = len(y)
    return seqof(n, lambda i: (n - i) * (y[i] - ite(i == 0, 0, lambda: y[i - 1])))


def epstein(y):
    n, d = len(y), normalised_spacings(y)
    return 2 * n * (log(Sum(n, lambda i: d[i]) / n) - Sum(n, lambda i: log(d[i])) / n) / (1 + (n + 1) / (6 * n))


def gini(y):
    n = len(y)
    return Sum(n - 1, lambda i: (i + 1) * (n - 1 - i) * (y[i + 1] - y[i])) / ((n - 1) * total(n, lambda i: y[i]))


def gnedenko(y, r):
    n, d = len(y), normalised_spacings(y)
    return (Sum(r, lambda i: d[i]) / r) / (Sum(n - r, lambda i: d[r + i]) / (n - r))


def harris(y, r):
    n, d = len(y), normalised_spacings(y)
    tails = Sum(r, lambda i: d[i]) + Sum(r, lambda i: d[n - r + i])
    return tails / (2 * r) / (Sum(n - 2 * r, lambda i: d[r + i]) / (n - 2 * r))


def scores(n):
    """approximate expected order statistics of the unit exponential"""
    return seqof(n, lambda i: -log(1 - (i + 1) / (n + 1)))


def hollander_proshan(x):
    n = len(x)
    t = Sum(n, lambda i: Sum(n, lambda j: count(n, lambda k: i != j and i != k and j < k and x[i] > x[j] + x[k])))
    return 2 / (n * (n - 1) * (n - 2)) * t


def kimber_michael(y):
    n, m = len(y), mean(y)
    return Max(n, lambda i: abs(2 / pi * arcsin(sqrt((i + 1 / 2) / n)) - 2 / pi * arcsin(sqrt(1 - exp(-y[i] / m)))))


def kochar(y):
    n = len(y)

    def score(u):
        return 2 * (1 - u) * (1 - log(1 - u)) - 1

    return sqrt(108 * n / 17) * Sum(n, lambda i: score((i + 1) / (n + 1)) * y[i]) / Sum(n, lambda i: y[i])


def rossberg(x):
    n = len(x)
    triples = Sum(n, lambda m: Sum(n - 2, lambda i: Sum(n - 2 - i, lambda j: count(n - 2 - i - j, lambda k: middle(x[i], x[i + 1 + j], x[i + 2 + j + k]) < x[m]))))
    pairs = Sum(n, lambda m: Sum(n - 1, lambda i: count(n - 1 - i, lambda j: min(x[i], x[i + 1 + j]) < x[m])))
    return (6 * triples / (n * (n - 1) * (n - 2)) - 2 * pairs / (n * (n - 1))) / n


def middle(a, b, c):
    """second smallest minus smallest of three"""
    return a + b + c - max(a, b, c) - 2 * min(a, b, c)


FORMULAS = {
    "EppsPulleyExponentialityGofStatistic": lambda x, y: sqrt(48 * len(x)) * Sum(len(x), lambda i: exp(-x[i] / mean(x)) - 1 / 2) / len(x),
    "AhsanullahExponentialityGofStatistic": lambda x, y: ahsanullah(x),
    "AtkinsonExponentialityGofStatistic": lambda x, y: atkinson(x, 0.99),
    "CoxOakesExponentialityGofStatistic": lambda x, y: cox_oakes(x),
    "DeshpandeExponentialityGofStatistic": lambda x, y: deshpande(x, 0.44),
    "EpsteinExponentialityGofStatistic": lambda x, y: epstein(y),
    "FroziniExponentialityGofStatistic": lambda x, y: Sum(len(x), lambda i: abs(1 - exp(-y[i] / mean(x)) - (i + 1 / 2) / len(x))) / sqrt(len(x)),
    "GiniExponentialityGofStatistic": lambda x, y: gini(y),
    "HegazyGreen1ExponentialityGofStatistic": lambda x, y: Sum(len(x), lambda i: abs(y[i] - scores(len(x))[i])) / len(x),
    "HegazyGreen2ExponentialityGofStatistic": lambda x, y: Sum(len(x), lambda i: (y[i] - scores(len(x))[i]) ** 2) / len(x),
    "HollanderProshanExponentialityGofStatistic": lambda x, y: hollander_proshan(x),
    "KimberMichaelExponentialityGofStatistic": lambda x, y: kimber_michael(y),
    "KocharExponentialityGofStatistic": lambda x, y: kochar(y),
    "MoranExponentialityGofStatistic": lambda x, y: -digamma(1) + Sum(len(x), lambda i: log(x[i] / mean(x))) / len(x),
    "PietraExponentialityGofStatistic": lambda x, y: Sum(len(x), lambda i: abs(x[i] - mean(x))) / (2 * len(x) * mean(x)),
    "ShapiroWilkExponentialityGofStatistic": lambda x, y: len(x) * (mean(x) - y[0]) ** 2 / ((len(x) - 1) * ss(x)),
    "RossbergExponentialityGofStatistic": lambda x, y: rossberg(x),
    "WeExponentialityGofStatistic": lambda x, y: ss(x) / Sum(len(x), lambda i: x[i]) ** 2,
    "WongWongExponentialityGofStatistic": lambda x, y: y[len(x) - 1] / y[0],
}


class ExponentialCriterion(Contract):
    """the statistic of a sample of positive observations"""

    property = "C22"
    cases = FORMULAS
    unchanged = ["x"]

    def args(S, case):
        n = S.len("n", 3, chi=60 if case.startswith("Rossberg") else 200)
        ties = case[:7] != "Epstein"
        x = S.arr("x", n, pos=True, lo=0.01, hi=20) if ties else S.arr("x", n, pos=True, lo=0.01, hi=20, distinct=True)
        return dict(x=x, case=case)

    def pre(x, case):
        return implies(case[:7] == "Shapiro", ss(x) > 0.001) and delicate(lambda: case[:4] in ("Ahsa", "Desh", "Holl", "Ross") and tied(x))

    def run(x, case):
        return R(X + case)().execute_statistic(x)

    def post_formula(x, case, result):
        return eq(result, FORMULAS[case](x, sorted(x)))


def tied(x):
    """a comparison between combinations of observations is decided by rounding"""
    n = len(x)
    d = [abs(x[i] - x[j]) for i in range(n) for j in range(n)] + [2 * x[i] for i in range(n)] + [0.44 * x[i] for i in range(n)] + [x[i] + x[j] for i in range(n) for j in range(n)]
    d = sorted(list(d) + list(x))
    return any(0 < d[i + 1] - d[i] < 1e-9 for i in range(len(d) - 1))


class ExponentialKolmogorovSmirnov(Contract):
    property = "C22"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), nonneg=True), lam=S.real("lam", lo=0.1, hi=10), case=case)

    def run(x, lam, case):
        return R(X + "KolmogorovSmirnovExponentialityGofStatistic")(R(ALT)[case], lam).execute_statistic(x)

    def post_distance(x, lam, case, result):
        return eq(result, ks(cdf_at(sorted(x), lam), case))


class ExponentialCramerVonMises(Contract):
    property = "C22"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1), nonneg=True), lam=S.real("lam", lo=0.1, hi=10))

    def run(x, lam):
        return R(X + "CramerVonMisesExponentialityGofStatistic")(lam).execute_statistic(x)

    def post_distance(x, lam, result):
        return eq(result, cvm(cdf_at(sorted(x), lam)))


class ExponentialTunedCriterion(Contract):
    """criteria with a tuning constant given by the caller"""

    property = "C22"
    cases = ["Atkinson", "Deshpande"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 2), pos=True, lo=0.01, hi=20), c=S.real("c", lo=0.05, hi=0.95), case=case)

    def pre(x, c, case):
        return delicate(lambda: case == "Deshpande" and any(abs(x[i] - c * x[k]) < 1e-9 for i in range(len(x)) for k in range(len(x))))

    def run(x, c, case):
        return R(X + case + "ExponentialityGofStatistic")().execute_statistic(x, c)

    def post_formula(x, c, case, result):
        return eq(result, atkinson(x, c) if case == "Atkinson" else deshpande(x, c))


class ExponentialSpacings(Contract):
    """ratios of sums of normalised spacings, split after r of them"""

    property = "C22"
    cases = ["Gnedenko", "Harris", "Gnedenko default", "Harris default"]
    unchanged = ["x"]

    def args(S, case):
        r = S.int("r", lo=1)
        n = S.len("n", 3)
        return dict(x=S.arr("x", n, pos=True, lo=0.01, hi=20, distinct=True), r=r, case=case)

    def pre(x, r, case):
        n = len(x)
        return implies(case == "Gnedenko", r < n) and implies(case == "Harris", 2 * r < n)

    def run(x, r, case):
        if case[-7:] == "default":
            return R(X + case[:-8] + "ExponentialityGofStatistic")().execute_statistic(x)
        return R(X + case + "ExponentialityGofStatistic")().execute_statistic(x, r)

    def post_formula(x, r, case, result):
        n, y = len(x), sorted(x)
        if case == "Gnedenko":
            return eq(result, gnedenko(y, r))
        if case == "Harris":
            return eq(result, harris(y, r))
        if case == "Gnedenko default":
            return eq(result, gnedenko(y, round(n / 2)))
        return eq(result, harris(y, round(n / 4)))


class ExponentialLorenz(Contract):
    """share of the smallest [n p] observations"""

    property = "C22"
    cases = ["given", "default"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), pos=True, lo=0.01, hi=20), p=S.real("p", lo=0, hi=1), case=case)

    def pre(x, p):
        return delicate(lambda: abs(len(x) * p - round(len(x) * p)) < 1e-9)

    def run(x, p, case):
        s = R(X + "LorenzExponentialityGofStatistic")()
        return s.execute_statistic(x, p) if case == "given" else s.execute_statistic(x)

    def post_share(x, p, case, result):
        n, y = len(x), sorted(x)
        k = floor(n * p) if case == "given" else n // 2
        return eq(result, Sum(k, lambda i: y[i]) / Sum(n, lambda i: y[i]))
