"""Contracts on every criterion: repeatable evaluation (C29), order of the observations (C30), location and
scale (C31)."""
from criteria import CRITERIA, FAMILIES
from edf import *
from numpy import log, sqrt
from lognormal import DERIVED
from normal import doornik_alpha, doornik_y, kurt, kurt_parts, median, skew, skew_b, skew_w
from speclib import *

G = "pysatl_criterion.statistics.goodness_of_fit."
# family -> smallest sample, range of the observations, ranges of the parameters
DOMAIN = {
    "BETA": (4, 0.001, 0.999, {"alpha": (1.1, 6), "beta": (1.1, 6)}),
    "EXPONENTIAL": (4, 0.01, 20, {"lam": (0.1, 10)}),
    "GAMMA": (4, 0.001, 12, {"alpha": (0.3, 6), "beta": (0.3, 6)}),
    "NORMAL": (8, -20, 20, {"mean": (-5, 5), "var": (0.1, 10)}),
    "LOG_NORMAL": (8, 0.05, 20, {"s": (0.1, 5), "scale": (0.1, 10)}),
    "STUDENT": (4, -20, 20, {"df": (0.5, 30), "loc": (-5, 5), "scale": (0.1, 10)}),
    "UNIFORM": (4, 0.001, 0.999, {}),
    "WEIBULL": (4, 0.01, 3, {"a": (0.3, 4), "k": (0.3, 4)}),
}
# criteria of the log-normal family that evaluate a normality criterion on the standardised logarithms
LOGS = ["LOG_NORMAL/" + c for c in DERIVED]
# the statistics of the proximity graph: see graphs.py
ALL = [f + "/" + c for f in CRITERIA for side in CRITERIA[f].values() for c in side
       if not c.startswith("Graph") and f + "/" + c not in LOGS and c not in ("CoinNormalityGofStatistic", "BHSNormalityGofStatistic")]
# only the parameters listed
PARAMETERS = {"RyanJoinerNormalityGofStatistic": [], "LillieforsStudentGofStatistic": ["df"]}
# the formula needs the observations to be distinct
DISTINCT = ["Moran", "Kull", "LOS", "Tiku", "MSF", "GlenLeemis"]
GAPS = ["LOS", "Tiku", "MSF"]


def family(case):
    return case.split("/")[0]


def name(case):
    return case.split("/")[1]


def criterion(case, q):
    return R(G + FAMILIES[family(case)][0] + ":" + name(case))(**q)


def outcome(crit, x, more):
    """the value, or the refusal of the sample"""
    try:
        return crit.execute_statistic(x, **more)
    except (ValueError, ArithmeticError):
        return "refused"


def domain(S, case):
    """a sample and parameters of the criterion and of its evaluation"""
    f, c = family(case), name(case)
    lowest, lo, hi, ranges = DOMAIN[f]
    # the sums over triples are slow in practice
    n = S.len("n", lowest, chi=40 if c.startswith("Rossberg") else 200)
    x = S.arr("x", n, lo=lo, hi=hi, distinct=any([c.startswith(d) for d in DISTINCT]))
    d = dict(x=x, q={k: S.real(k, lo=ranges[k][0], hi=ranges[k][1]) for k in PARAMETERS.get(c, ranges)}, more={}, case=case)
    if c.startswith("Laplace"):
        d["more"] = {"m": S.int("m", lo=2, chi=120), "a": S.real("t", lo=-6, hi=-1)}
    if any([c.startswith(g) for g in GAPS]):
        # under contract in weibull.py (WeibullExpectedLogs)
        e = S.arr("e", n, lo=-5, hi=5, sorted=True, distinct=True)
        d["approx"] = S.stub(G + "weibull:NormalizeSpaceWeibullGofStatistic.GoFNS", lambda t, n, m: e)
    return d


def another(S, case, x):
    """a sample of the same size"""
    lowest, lo, hi, ranges = DOMAIN[family(case)]
    return S.arr("z", len(x), lo=lo, hi=hi, distinct=any([name(case).startswith(d) for d in DISTINCT]))


def between(crit, z, more):
    outcome(crit, z, more)
    return False


def regular(case, x, q):
    """the criterion is defined for the sample"""
    c = name(case)
    if ss(x) <= 0.01:
        return False
    if c.startswith("Bonett"):
        return Sum(len(x), lambda i: abs(x[i] - mean(x))) > 0
    if c.startswith("Martinez"):
        return median(values(x, lambda t: abs(t - median(x)))) > 0
    if c.startswith("Kurtosis") or c.startswith("DAP"):
        return kurt_parts(x)[1] != 0
    if c.startswith("Doornik"):
        return doornik_alpha(x) > 0 and kurt(x) > 1.001 + skew(x) ** 2
    return True


def skewed(case):
    return case[:10] in ("NORMAL/Ske", "NORMAL/DAP", "NORMAL/Doo")


class Criterion(Contract):
    """facts about the constants of the transformed skewness (as in normal.py)"""

    def lemma_heavier(x, case):
        return not skewed(case) or skew_b(len(x)) > 3

    def lemma_wide(x, case):
        return not skewed(case) or skew_w(len(x)) > 1

    def lemma_spread(x, case):
        return not skewed(case) or log(skew_w(len(x))) > 0

    def lemma_argument(x, case):
        return case[:10] != "NORMAL/Doo" or instance(lambda y: y + sqrt(y ** 2 + 1) > 0, doornik_y(x))


PLAIN = [c for c in ALL if not skewed(c)]
SKEWED = [c for c in ALL if skewed(c)]
# order of the observations used by the code, a known finding
UNORDERED = ["WEIBULL/RSBWeibullGofStatistic"]
HARD = ["NORMAL/CoinNormalityGofStatistic", "NORMAL/BHSNormalityGofStatistic"]


class OrderFree(Contract):
    """the value of a reordered sample is the same"""

    property = "C30"
    cases = [c for c in PLAIN if c not in UNORDERED]

    def args(S, case):
        d = domain(S, case)
        return dict(y=S.permuted("y", d["x"]), **d)

    def pre(x, q, case):
        return regular(case, x, q)

    def run(x, y, q, more, case):
        return outcome(criterion(case, q), x, more), outcome(criterion(case, q), y, more)

    def post_same(result):
        return eq(result[0], result[1], 1e-6)


class OrderFreeSkewed(Criterion, OrderFree):
    """criteria with the transformed skewness"""

    property = "C30"
    cases = SKEWED


class OrderFreeHard(OrderFree):
    property = "C30"
    cases = HARD
    bounded = "sums split at tabulated corrections (Coin), work arrays of the medcouple search (BHS)"
    conc = 3


class OrderOfLogarithms(Contract):
    """criteria derived from a normality criterion pass on the elementwise transformed sample, so they inherit its
    indifference to the order"""

    property = "C30"
    cases = LOGS

    def args(S, case):
        x = S.arr("x", S.len("n", 1), lo=0.05, hi=20)
        base = name(case).replace("LogNormal", "Normality")
        return dict(x=x, y=S.permuted("y", x), s=S.real("s", lo=0.1, hi=5), scale=S.real("scale", lo=0.1, hi=10), case=case,
                    normality=S.stub(G + "normal:" + base + ".execute_statistic", lambda self, z, **k: z))

    def run(x, y, s, scale, case):
        c = R(G + "log_normal:" + name(case))(s, scale)
        return c.execute_statistic(x), c.execute_statistic(y)

    def post_elementwise(x, y, s, scale, result):
        a, b = result
        return (len(a) == len(x) and len(b) == len(x)
                and forall(len(x), lambda i: eq(a[i], (log(x[i]) - log(scale)) / s) and eq(b[i], (log(y[i]) - log(scale)) / s)))


class OrderUsed(OrderFree):
    property = "C30"
    cases = UNORDERED
    witness = True


class Repeatable(Contract):
    """an evaluation changes neither the sample nor the criterion nor any state shared between evaluations (the
    verifier has no rule for writing to module, class or default-argument containers), and the next one yields the
    same; executions also evaluate another sample in between"""

    property = "C29"
    cases = PLAIN
    unchanged = ["x", "crit"]

    def args(S, case):
        d = domain(S, case)
        return dict(crit=criterion(case, d["q"]), z=another(S, case, d["x"]), **d)

    def pre(x, q, case):
        return regular(case, x, q)

    def run(crit, x, z, more, case):
        first = outcome(crit, x, more)
        delicate(lambda: between(crit, z, more))
        return first, outcome(crit, x, more)

    def post_same(result):
        return eq(result[0], result[1])


class RepeatableSkewed(Criterion, Repeatable):
    property = "C29"
    cases = SKEWED


class RepeatableLogarithms(Contract):
    """criteria derived from a normality criterion depend on nothing but the sample either"""

    property = "C29"
    cases = LOGS
    unchanged = ["x", "crit"]

    def args(S, case):
        base = name(case).replace("LogNormal", "Normality")
        s, scale = S.real("s", lo=0.1, hi=5), S.real("scale", lo=0.1, hi=10)
        x = S.arr("x", S.len("n", 1), lo=0.05, hi=20)
        return dict(x=x, z=S.arr("z", len(x), lo=0.05, hi=20), s=s, scale=scale, case=case,
                    crit=R(G + "log_normal:" + name(case))(s, scale),
                    normality=S.stub(G + "normal:" + base + ".execute_statistic", lambda self, z, **k: z))

    def run(crit, x, z, case):
        crit.execute_statistic(z)
        return crit.execute_statistic(x)

    def post_elementwise(x, s, scale, result):
        return len(result) == len(x) and forall(len(x), lambda i: eq(result[i], (log(x[i]) - log(scale)) / s))


class RepeatableHard(Repeatable):
    property = "C29"
    cases = HARD
    bounded = "sums split at tabulated corrections (Coin), work arrays of the medcouple search (BHS)"
    conc = 3


FIXED = ["NORMAL/KolmogorovSmirnovNormalityGofStatistic", "NORMAL/CramerVonMiseNormalityGofStatistic"]


class Shifted(Contract):
    """location and scale do not matter to normality criteria that estimate them"""

    property = "C31"
    cases = [c for c in PLAIN if family(c) == "NORMAL" and c not in FIXED]

    def args(S, case):
        d = domain(S, case)
        return dict(a=S.real("a", lo=0.05, hi=50), b=S.real("b", lo=-100, hi=100), **d)

    def pre(x, q, case):
        return regular(case, x, q)

    def run(x, a, b, q, more, case):
        return outcome(criterion(case, q), x, more), outcome(criterion(case, q), a * x + b, more)

    def post_same(result):
        return eq(result[0], result[1], 1e-6)


class ShiftedSkewed(Criterion, Shifted):
    property = "C31"
    cases = SKEWED


class ShiftedHard(Shifted):
    property = "C31"
    cases = HARD
    bounded = "sums split at tabulated corrections (Coin), work arrays of the medcouple search (BHS)"
    conc = 3


# distances from one given exponential law
UNITS = ["KolmogorovSmirnovExponentialityGofStatistic", "CramerVonMisesExponentialityGofStatistic",
         "HegazyGreen1ExponentialityGofStatistic", "HegazyGreen2ExponentialityGofStatistic"]


class Scaled(Contract):
    """the scale does not matter to scale-free exponentiality criteria"""

    property = "C31"
    cases = [c for c in PLAIN if family(c) == "EXPONENTIAL" and name(c) not in UNITS]

    def args(S, case):
        d = domain(S, case)
        return dict(a=S.real("a", lo=0.05, hi=50), **d)

    def pre(x, q, case):
        return regular(case, x, q)

    def run(x, a, q, more, case):
        return outcome(criterion(case, q), x, more), outcome(criterion(case, q), a * x, more)

    def post_same(result):
        return eq(result[0], result[1], 1e-6)
