"""Contracts: density, distribution and moment functions (C18)."""
from numpy import exp, pi, sqrt

from scipy.stats import norm
from speclib import *

D = "pysatl_criterion.core.distributions."
LEN = dict(lo=0)


def points(S, pos=False):
    return S.arr("x", S.len("n", 0), pos=pos)


class CdfExpon(Contract):
    """F(x) = 1 - exp(-lam x) on the positive half line, 0 elsewhere"""

    property = "C18"
    cases = ["lam", "default"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=points(S), lam=S.real("lam", pos=True) if case == "lam" else 1, case=case)

    def run(x, lam, case):
        return R(D + "expon:cdf_expon")(x, lam) if case == "lam" else R(D + "expon:cdf_expon")(x)

    def post_formula(x, lam, result):
        return len(result) == len(x) and forall(len(x), lambda i: eq(result[i], ite(x[i] <= 0, 0, 1 - exp(-lam * x[i]))))


class NormalFunctions(Contract):
    """distribution function and density of N(mean, var)"""

    property = "C18"
    cases = ["cdf_norm", "cdf_norm_default", "pdf_norm", "pdf_norm_default"]
    unchanged = ["x"]

    def args(S, case):
        d = case.endswith("default")
        return dict(x=points(S), mean=0 if d else S.real("mean"), var=1 if d else S.real("var", pos=True), case=case)

    def run(x, mean, var, case):
        f = R(D + "norm:" + case[:8])
        return f(x) if case.endswith("default") else f(x, mean, var)

    def post_formula(x, mean, var, case, result):
        z = lambda v: (v - mean) / sqrt(var)
        if case[:3] == "cdf":
            return len(result) == len(x) and forall(len(x), lambda i: eq(result[i], norm.cdf(z(x[i]))))
        return len(result) == len(x) and forall(len(x), lambda i: eq(result[i], exp(-((x[i] - mean) ** 2) / (2 * var)) / sqrt(2 * pi * var)))


class WeibullFunctions(Contract):
    """exponentiated Weibull law F(x) = (1 - exp(-x^k))^a, its logarithm and the log-survival function"""

    property = "C18"
    cases = [f + d for f in ("cdf", "logcdf", "logsf") for d in ("", "_default")]
    unchanged = ["x"]

    def args(S, case):
        d = case.endswith("default")
        return dict(x=points(S, pos=True), a=1 if d else S.real("a", pos=True), k=5 if d else S.real("k", pos=True), case=case)

    def run(x, a, k, case):
        f = R(D + "weibull:generate_weibull_" + case.split("_")[0])
        return f(x) if case.endswith("default") else f(x, a, k)

    def post_formula(x, a, k, case, result):
        F = lambda v: (1 - exp(-(v ** k))) ** a
        kind = case.split("_")[0]
        if kind == "cdf":
            return len(result) == len(x) and forall(len(x), lambda i: eq(result[i], F(x[i]), 1e-6))
        if kind == "logcdf":
            return len(result) == len(x) and forall(len(x), lambda i: implies(F(x[i]) > 0.000001, eq(exp(result[i]), F(x[i]), 1e-6)))
        return len(result) == len(x) and forall(len(x), lambda i: implies(F(x[i]) < 0.999999, eq(exp(result[i]), 1 - F(x[i]), 1e-6)))


class Moments(Contract):
    """moments about the sample mean or about a given centre"""

    property = "C18"
    cases = [1, 2, 3, 4, 5]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1)), c=S.real("c"), case=case)

    def run(x, c, case):
        return R(D + "sample:moment")(x, case, c), R(D + "sample:central_moment")(x, case), R(D + "sample:moment")(x, mom=case)

    def post_about_centre(x, c, case, result):
        return eq(result[0], Sum(len(x), lambda i: (x[i] - c) ** case) / len(x))

    def post_about_mean(x, c, case, result):
        m = Sum(len(x), lambda i: x[i]) / len(x)
        return eq(result[1], Sum(len(x), lambda i: (x[i] - m) ** case) / len(x))
