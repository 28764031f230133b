"""Contracts: maximised likelihoods (C19)."""
from math import comb as math_comb

import scipy.stats as st
from numpy import exp, floor, log, pi, sqrt, median, inf
from scipy.optimize import minimize_scalar, root_scalar
from scipy.special import gammaln
from speclib import *

L = "pysatl_criterion.estimation.maximum_likelihood.function_for_maximum_likelihood:likelihood_function_"


def mean(x):
    return Sum(len(x), lambda i: x[i]) / len(x)


def total(x, f):
    return Sum(len(x), lambda i: f(x[i]))


def every(x, p):
    return forall(len(x), lambda i: p(x[i]))


def constant(x):
    return forall(len(x), lambda i: x[i] == x[0])


class UniformLikelihood(Contract):
    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def run(x):
        return R(L + "uniform_continuous")(x)

    def post_likelihood(x, result):
        a, b = Min(len(x), lambda i: x[i]), Max(len(x), lambda i: x[i])
        return ite(constant(x), result == 0, implies(a < b, eq(result, exp(-len(x) * log(b - a)))))


class NormalLikelihood(Contract):
    """density of N(mean, variance) at the sample mean and variance"""

    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def pre(x):
        return total(x, lambda v: (v - mean(x)) ** 2) > 0

    def run(x):
        return R(L + "normal")(x)

    def post_likelihood(x, result):
        m = mean(x)
        v = total(x, lambda t: (t - m) ** 2) / len(x)
        return eq(result, exp(-len(x) * log(2 * pi * v) / 2 - total(x, lambda t: (t - m) ** 2) / (2 * v)))


class LognormalLikelihood(Contract):
    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def run(x):
        return R(L + "lognormal")(x)

    def post_support(x, result):
        return implies(exists(len(x), lambda i: x[i] <= 0), result == 0)

    def post_likelihood(x, result):
        if not every(x, lambda t: t > 0):
            return skip()
        m = total(x, lambda t: log(t)) / len(x)
        v = total(x, lambda t: (log(t) - m) ** 2) / len(x)
        if v < 0.000001:
            return skip()
        return eq(result, exp(total(x, lambda t: -log(t) - log(2 * pi * v) / 2 - (log(t) - m) ** 2 / (2 * v))))


class ExponentialLikelihood(Contract):
    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def run(x):
        return R(L + "exponential")(x)

    def post_support(x, result):
        return implies(exists(len(x), lambda i: x[i] < 0), result == 0)

    def post_likelihood(x, result):
        if not every(x, lambda t: t >= 0) or every(x, lambda t: t == 0):
            return skip()
        lam = 1 / mean(x)
        return eq(result, exp(len(x) * log(lam) - lam * total(x, lambda t: t)))


class WeibullLikelihood(Contract):
    """the shape solves the likelihood equation 1/k + mean(log x) = sum(x^k log x)/sum(x^k)"""

    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def run(x):
        return R(L + "weibull")(x)

    def post_support(x, result):
        return implies(exists(len(x), lambda i: x[i] <= 0), result == 0)

    def post_likelihood(x, result):
        if not every(x, lambda t: t > 0):
            return skip()
        score = lambda k: 1 / k + total(x, lambda t: log(t)) / len(x) - total(x, lambda t: t ** k * log(t)) / total(x, lambda t: t ** k)
        if score(0.1) * score(10) > 0:
            return result == 0
        k = root_scalar(score, bracket=[0.1, 10], method="bisect").root
        lam = (total(x, lambda t: t ** k) / len(x)) ** (1 / k)
        return eq(result, Prod(len(x), lambda i: k / lam * (x[i] / lam) ** (k - 1) * exp(-((x[i] / lam) ** k))), 1e-6)


class FittedLikelihood(Contract):
    """laws whose parameters scipy estimates: the product of the densities at the estimate"""

    property = "C19"
    unchanged = ["x"]
    conc = 0.1
    cases = {
        "gamma": ("gamma", dict(floc=0)),
        "beta": ("beta", dict(floc=0, fscale=1)),
        "cauchy": ("cauchy", {}),
        "chi_squared": ("chi2", dict(floc=0)),
        "t_distribution": ("t", {}),
        "fisher": ("f", dict(floc=0)),
        "rayleigh": ("rayleigh", dict(floc=0)),
    }

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1)), case=case)

    def run(x, case):
        return R(L + case)(x)

    def post_support(x, case, result):
        if case in ("cauchy", "t_distribution"):
            return skip()
        if case == "rayleigh":
            return implies(exists(len(x), lambda i: x[i] < 0), result == 0)
        if case == "beta":
            return implies(exists(len(x), lambda i: x[i] <= 0 or x[i] >= 1), result == 0)
        return implies(exists(len(x), lambda i: x[i] <= 0), result == 0)

    def post_likelihood(x, case, result):
        if case not in ("chi_squared", "rayleigh") and constant(x):
            return result == 0
        if case in ("gamma", "chi_squared", "fisher") and not every(x, lambda t: t > 0):
            return skip()
        if case == "beta" and not every(x, lambda t: 0 < t and t < 1):
            return skip()
        if case == "rayleigh" and not every(x, lambda t: t >= 0):
            return skip()
        if case == "gamma":
            a, loc, s = st.gamma.fit(x, floc=0)
            return eq(result, exp(total(x, lambda t: st.gamma.logpdf(t, a, loc=loc, scale=s))))
        if case == "beta":
            a, b, loc, s = st.beta.fit(x, floc=0, fscale=1)
            return eq(result, exp(total(x, lambda t: gammaln(a + b) - gammaln(a) - gammaln(b) + (a - 1) * log(t) + (b - 1) * log(1 - t))))
        if case == "cauchy":
            loc, s = st.cauchy.fit(x)
            return eq(result, ite(s <= 0, 0, exp(total(x, lambda t: st.cauchy.logpdf(t, loc=loc, scale=s)))))
        if case == "chi_squared":
            df, loc, s = st.chi2.fit(x, floc=0)
            return eq(result, exp(total(x, lambda t: st.chi2.logpdf(t, df, loc=loc, scale=s))))
        if case == "t_distribution":
            df, loc, s = st.t.fit(x)
            return eq(result, exp(total(x, lambda t: st.t.logpdf(t, df, loc=loc, scale=s))))
        if case == "fisher":
            d1, d2, loc, s = st.f.fit(x, floc=0)
            return eq(result, exp(total(x, lambda t: st.f.logpdf(t, d1, d2, loc=loc, scale=s))))
        loc, s = st.rayleigh.fit(x, floc=0)
        return eq(result, exp(total(x, lambda t: st.rayleigh.logpdf(t, loc=0, scale=s))))


class WignerLikelihood(Contract):
    """semicircle density 2 / (pi R^2) sqrt(R^2 - x^2), R found by scipy's bounded minimiser"""

    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def run(x):
        return R(L + "wigner")(x)

    def post_likelihood(x, result):
        if constant(x):
            return result == 0
        m = Max(len(x), lambda i: abs(x[i]))
        nll = lambda r: -(len(x) * log(2 / (pi * r ** 2)) + total(x, lambda t: log(r ** 2 - t ** 2)) / 2)
        best = minimize_scalar(nll, bounds=(m + 1e-6, m + 10), method="bounded")
        if not best.success:
            return result == 0
        return eq(result, exp(-nll(best.x)))


class ParetoLikelihood(Contract):
    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def run(x):
        return R(L + "pareto")(x)

    def post_support(x, result):
        return implies(exists(len(x), lambda i: x[i] <= 0), result == 0)

    def post_likelihood(x, result):
        if not every(x, lambda t: t > 0):
            return skip()
        xm = Min(len(x), lambda i: x[i])
        s = total(x, lambda t: log(t / xm))
        if s == 0:
            return result == inf
        alpha = len(x) / s
        return eq(result, exp(total(x, lambda t: log(alpha) + alpha * log(xm) - (alpha + 1) * log(t))))


class LaplaceLikelihood(Contract):
    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def run(x):
        return R(L + "laplace")(x)

    def post_likelihood(x, result):
        m = median(x)
        b = total(x, lambda t: abs(t - m)) / len(x)
        if b == 0:
            return result == inf
        return eq(result, exp(total(x, lambda t: -log(2 * b) - abs(t - m) / b)))


class DiscreteUniformLikelihood(Contract):
    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1), integer=True))

    def run(x):
        return R(L + "discrete_uniform")(x)

    def post_likelihood(x, result):
        a, b = Min(len(x), lambda i: x[i]), Max(len(x), lambda i: x[i])
        return eq(result, exp(-len(x) * log(b - a + 1)))


class BernoulliLikelihood(Contract):
    property = "C19"
    unchanged = ["x"]
    cases = ["any", "binary"]

    def args(S, case):
        n = S.len("n", 1)
        return dict(x=S.arr("x", n) if case == "any" else S.arr("x", n, lo=0, hi=1, integer=True), case=case)

    def run(x, case):
        return R(L + "bernoulli")(x)

    def post_support(x, result):
        return implies(exists(len(x), lambda i: not (x[i] == 0 or x[i] == 1)), result == 0)

    def post_likelihood(x, case, result):
        if not every(x, lambda t: t == 0 or t == 1):
            return skip()
        p = mean(x)
        if p == 0 or p == 1:
            return result == 1
        return eq(result, exp(total(x, lambda t: t) * log(p) + total(x, lambda t: 1 - t) * log(1 - p)))


class BinomialLikelihood(Contract):
    """counts of successes in m trials each"""

    property = "C19"
    unchanged = ["x"]

    def args(S):
        m = S.int("m", 1, chi=6)
        return dict(x=S.arr("x", S.len("n", 1), integer=True), m=m)

    def run(x, m):
        return R(L + "binomial")(x, m)

    def post_support(x, m, result):
        return implies(exists(len(x), lambda i: x[i] < 0 or x[i] > m), result == 0)

    def post_likelihood(x, m, result):
        if not every(x, lambda t: 0 <= t and t <= m):
            return skip()
        p = mean(x) / m
        if p == 0 or p == 1:
            return result == 1
        return eq(result, exp(total(x, lambda t: log(math_comb(m, t)) + t * log(p) + (m - t) * log(1 - p))))


class PoissonLikelihood(Contract):
    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1), integer=True))

    def run(x):
        return R(L + "poisson")(x)

    def post_support(x, result):
        return implies(exists(len(x), lambda i: x[i] < 0), result == 0)

    def post_likelihood(x, result):
        if not every(x, lambda t: t >= 0):
            return skip()
        if every(x, lambda t: t == 0):
            return result == 1
        lam = mean(x)
        return eq(result, exp(total(x, lambda t: t * log(lam) - lam - gammaln(t + 1))))


class GeometricLikelihood(Contract):
    """number of trials up to and including the first success"""

    property = "C19"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1), integer=True))

    def run(x):
        return R(L + "geometric")(x)

    def post_support(x, result):
        return implies(exists(len(x), lambda i: x[i] < 1), result == 0)

    def post_likelihood(x, result):
        if not every(x, lambda t: t >= 1):
            return skip()
        if every(x, lambda t: t == 1):
            return result == 1
        p = 1 / mean(x)
        return eq(result, exp(total(x, lambda t: log(p) + (t - 1) * log(1 - p))))


class NonIntegerCounts(Contract):
    """fractional counts have likelihood zero"""

    property = "C19"
    unchanged = ["x"]
    cases = ["binomial", "poisson", "geometric"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1), pos=True), j=S.int("j", 0), case=case)

    def pre(x, j):
        return j < len(x) and floor(x[j]) != x[j]

    def run(x, case):
        return R(L + case)(x, 5) if case == "binomial" else R(L + case)(x)

    def post_zero(result):
        return result == 0
