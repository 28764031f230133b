"""Contracts: multiple-testing corrections (C06-C08)."""
from speclib import *

MT = "pysatl_criterion.hypothesis_testing.multiple_testing."
CLS = {
    "Bonferroni": MT + "fwer:BonferroniMultipleTesting",
    "Sidak": MT + "fwer:SidakMultipleTesting",
    "Holm": MT + "fwer:Holm",
    "SidakHolm": MT + "fwer:SidakHolm",
    "BY": MT + "fdr:BenjaminiYekutieli",
}
ALL_CLS = ["Bonferroni", "Sidak", "Holm", "SidakHolm", "BY", "BY_large"]


def method(case):
    return R(CLS["BY" if case == "BY_large" else case])


def raw_p(S, case, lo=0):
    if case == "BY":
        n = S.len("n", lo, hi=10000)
    elif case == "BY_large":
        n = S.len("n", 10001)
    else:
        n = S.len("n", lo)
    return S.arr("p", n, kind="list", lo=0, hi=1)


def ordered(p):
    return sorted(range(len(p)), key=lambda i: p[i])


class CorrectionAbstract(Contract):
    abstract = True
    unchanged = ("p",)

    def args(S, case):
        return dict(p=raw_p(S, case))

    def run(p, case):
        return method(case).adjust(p)

    def post_length(p, result):
        return len(result) == len(p)

    def post_bounds(p, result):
        return forall(len(p), lambda i: leq(p[i], result[i]) and leq(result[i], 1))


class CorrectionBounds(CorrectionAbstract):
    """adjusted p-values: one per raw one, between the raw one and 1"""

    property = "C06"
    cases = ["Bonferroni", "Sidak", "Holm", "SidakHolm", "BY"]


class CorrectionKeepsOrder(Contract):
    """a smaller raw p-value never gets a larger adjusted one (compared along the sorted raw values)"""

    property = "C06"
    cases = ["Bonferroni", "Sidak", "Holm", "SidakHolm", "BY"]

    def args(S, case):
        return dict(p=raw_p(S, case, lo=1))

    def run(p, case):
        return method(case).adjust(p)

    def post_order(p, result):
        order = ordered(p)
        return forall(len(p) - 1, lambda k: leq(result[order[k]], result[order[k + 1]]))


class CorrectionDecides(Contract):
    """test() rejects exactly the hypotheses whose adjusted p-value is below the threshold, and returns adjust()'s values"""

    property = "C06"
    cases = ["Bonferroni", "Sidak", "Holm", "SidakHolm", "BY"]
    unchanged = ("p",)

    def args(S, case):
        return dict(p=raw_p(S, case), t=S.real("t", lo=0, hi=1))

    def run(p, t, case):
        return (method(case).test(p, t), method(case).adjust(p))

    def post_adjusted(result):
        return eq(result[0][1], result[1])

    def post_rejected(p, t, result):
        rej, adj = result[0]
        return len(rej) == len(p) and forall(len(p), lambda i: iff(rej[i], adj[i] < t))


class CorrectionDefaultThreshold(Contract):
    property = "C06"
    cases = ["Bonferroni", "Sidak", "Holm", "SidakHolm", "BY"]

    def args(S, case):
        return dict(p=raw_p(S, case))

    def run(p, case):
        return method(case).test(p)

    def post_rejected(p, result):
        rej, adj = result
        return len(rej) == len(p) and forall(len(p), lambda i: iff(rej[i], adj[i] < 0.05))


class CorrectionRefuses(Contract):
    """a value outside [0, 1] is refused, everything inside is accepted"""

    property = "C06"
    cases = ["Bonferroni", "Sidak", "Holm", "SidakHolm", "BY"]
    unchanged = ("p",)

    def args(S, case):
        return dict(p=S.arr("p", S.len("n", hi=10000), kind="list"), t=S.real("t", lo=0, hi=1))

    def run(p, t, case):
        return method(case).test(p, t)

    def post_validated(p, exc):
        ok = forall(len(p), lambda i: 0 <= p[i] and p[i] <= 1)
        return ok if isnone(exc) else (exc == "ValueError" and not ok)


# ---------------------------------------------------------------------------------------------- C07
class BonferroniFormula(Contract):
    property = "C07"
    unchanged = ("p",)

    def args(S):
        return dict(p=raw_p(S, "Bonferroni"))

    def run(p):
        return R(CLS["Bonferroni"]).adjust(p)

    def post_formula(p, result):
        return eq(result, seqof(len(p), lambda i: min(1, p[i] * len(p))))


class SidakFormula(Contract):
    property = "C07"
    unchanged = ("p",)
    cases = ["Sidak", "SidakHolm"]

    def args(S):
        return dict(p=raw_p(S, "Sidak"))

    def run(p, case):
        return R(CLS[case]).adjust(p)

    def post_formula(p, result):
        return eq(result, seqof(len(p), lambda i: 1 - (1 - p[i]) ** len(p)))


class SingleStepTest(Contract):
    """the reported adjusted p-values of a test are these formulas too"""

    property = "C07"
    unchanged = ("p",)
    cases = ["Bonferroni", "Sidak"]

    def args(S):
        return dict(p=raw_p(S, "Sidak"), t=S.real("t", lo=0, hi=1))

    def run(p, t, case):
        return R(CLS[case]).test(p, t)

    def post_formula(p, t, case, result):
        n = len(p)
        if case == "Sidak":
            adj = seqof(n, lambda i: 1 - (1 - p[i]) ** n)
        else:
            adj = seqof(n, lambda i: min(1, p[i] * n))
        return eq(result[1], adj) and forall(n, lambda i: iff(result[0][i], adj[i] < t))


class SingleStepRefuses(Contract):
    property = "C07"
    cases = ["Bonferroni", "Sidak"]
    unchanged = ("p",)

    def args(S, case):
        return dict(p=S.arr("p", S.len("n"), kind="list"))

    def run(p, case):
        return R(CLS[case]).adjust(p)

    def post_validated(p, exc):
        ok = forall(len(p), lambda i: 0 <= p[i] and p[i] <= 1)
        return ok if isnone(exc) else (exc == "ValueError" and not ok)


# ---------------------------------------------------------------------------------------------- C08
class BenjaminiYekutieliProcedure(Contract):
    """step-up: the k-th smallest of n p-values gets min over the not smaller ones of p * n * H_n / rank, at most 1"""

    property = "C08"
    unchanged = ("p",)

    def args(S):
        return dict(p=raw_p(S, "BY"))

    def run(p):
        return R(CLS["BY"]).adjust(p)

    def post_procedure(p, result):
        n = len(p)
        h = Sum(n, lambda i: 1 / (i + 1))
        order = ordered(p)
        return len(result) == n and forall(n, lambda k: eq(
            result[order[k]], min(1, Min(n - k, lambda d: p[order[k + d]] * n * h / (k + d + 1)))))


class BenjaminiYekutieliManyHypotheses(Contract):
    """above 10000 hypotheses the harmonic number is replaced by its asymptotic expansion ln n + 0.5772..."""

    property = "C08"
    unchanged = ("p",)
    conc = 0.05

    def args(S):
        return dict(p=S.arr("p", S.len("n", 10001), kind="list", lo=0, hi=1))

    def run(p):
        return R(CLS["BY"]).adjust(p)

    def post_procedure(p, result):
        n = len(p)
        h = np.log(n) + 0.5772156649015328606065120900824024310421
        order = ordered(p)
        return len(result) == n and forall(n, lambda k: eq(
            result[order[k]], min(1, Min(n - k, lambda d: p[order[k + d]] * n * h / (k + d + 1)))))


class StepwiseBounds(CorrectionAbstract):
    property = "C08"
    cases = ["Holm", "BY"]


class HolmAtMostBonferroni(Contract):
    property = "C08"
    unchanged = ("p",)

    def args(S):
        return dict(p=raw_p(S, "Holm"))

    def run(p):
        return R(CLS["Holm"]).adjust(p)

    def post_bonferroni(p, result):
        return forall(len(p), lambda i: leq(result[i], p[i] * len(p)))


class HolmProcedure(Contract):
    """where the step-down products do not decrease, they are the adjusted p-values"""

    property = "C08"
    unchanged = ("p",)

    def args(S):
        return dict(p=raw_p(S, "Holm"))

    def pre(p):
        n = len(p)
        order = ordered(p)
        return forall(n, lambda k: forall(n, lambda j: implies(k <= j, lambda: p[order[k]] * (n - k) <= p[order[j]] * (n - j))))

    def run(p):
        return R(CLS["Holm"]).adjust(p)

    def post_procedure(p, result):
        n = len(p)
        order = ordered(p)
        return forall(n, lambda k: eq(result[order[k]], min(1, p[order[k]] * (n - k))))


class HolmKeepsOrder(CorrectionKeepsOrder):
    property = "C08"
    cases = ["Holm", "BY"]


class StepwiseTest(CorrectionDecides):
    property = "C08"
    cases = ["Holm", "BY"]
