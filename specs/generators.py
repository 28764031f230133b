"""Contracts: random generators (C14), their lookup and codes (C15), simulation under the hypothesis (C04)."""
from speclib import *

GEN = "pysatl_criterion.generator.generators:"
DIST = "pysatl_criterion.core.distributions."
TYPE = "pysatl_criterion:DistributionType"

# distribution -> (generator class, parameters, sampler)
LAWS = {
    "BETA": ("BetaRVSGenerator", ["a", "b"], "beta:generate_beta"),
    "CAUCHY": ("CauchyRVSGenerator", ["t", "s"], "cauchy:generate_cauchy"),
    "LAPLACE": ("LaplaceRVSGenerator", ["t", "s"], "laplace:generate_laplace"),
    "LOGISTIC": ("LogisticRVSGenerator", ["t", "s"], "logistic:generate_logistic"),
    "STUDENT": ("TRVSGenerator", ["df"], "student:generate_t"),
    "TUKEY": ("TukeyRVSGenerator", ["lam"], "tukey:generate_tukey"),
    "LOG_NORMAL": ("LognormGenerator", ["s", "mu"], "lognormal:generate_lognorm"),
    "GAMMA": ("GammaGenerator", ["alfa", "beta"], "gamma:generate_gamma"),
    "TRUNC_NORMAL": ("TruncnormGenerator", ["mean", "var", "a", "b"], "truncnormal:generate_truncnorm"),
    "CHI_2": ("Chi2Generator", ["df"], "chi2:generate_chi2"),
    "GUMBEL": ("GumbelGenerator", ["mu", "beta"], "gumbel:generate_gumbel"),
    "WEIBULL": ("WeibullGenerator", ["a", "k"], "weibull:generate_weibull"),
    "LO_CON_NORMAL": ("LoConNormGenerator", ["p", "a"], "lo_con_norm:generate_lo_con_norm"),
    "SCALE_CON_NORMAL": ("ScConNormGenerator", ["p", "b"], "scale_con_norm:generate_scale_con_norm"),
    "MIX_CON_NORMAL": ("MixConNormGenerator", ["p", "a", "b"], "mix_con_norm:generate_mix_con_norm"),
    "EXPONENTIAL": ("ExponentialGenerator", ["lam"], "expon:generate_expon"),
    "INV_GAUSS": ("InvGaussGenerator", ["mu", "lam"], "invgauss:generate_invgauss"),
    "RICE": ("RiceGenerator", ["nu", "sigma"], "rice:generate_rice"),
    "GOMPERTZ": ("GompertzGenerator", ["eta", "b"], "gompertz:generate_gompertz"),
    "NORMAL": ("NormalGenerator", ["mean", "var"], "norm:generate_norm"),
    "UNIFORM": ("UniformGenerator", ["a", "b"], "uniform:generate_uniform"),
}
NAMES = list(LAWS)
ANY = ["t", "mu", "mean", "a_shift"]


def param(S, case, name):
    """an arbitrary admissible value of a parameter"""
    if name == "p":
        return S.real("p", 0, 1)
    if name in ("t", "mean") or (name == "mu" and case != "INV_GAUSS") or (name == "lam" and case == "TUKEY"):
        return S.real(name)
    if name == "a" and case in ("UNIFORM", "TRUNC_NORMAL", "LO_CON_NORMAL", "MIX_CON_NORMAL"):
        return S.real(name)
    if name == "b" and case in ("UNIFORM", "TRUNC_NORMAL"):
        return S.real(name)
    if name == "nu":
        return S.real(name, nonneg=True)
    return S.real(name, pos=True)


def params(S, case):
    d = {}
    for n in LAWS[case][1]:
        d[n] = param(S, case, n)
    if case in ("UNIFORM", "TRUNC_NORMAL"):
        S.assume(d["a"] < d["b"])
    return d


def law(case, p, i):
    """the i-th of independent draws of the named law"""
    if case == "BETA":
        return draw("beta", p["a"], p["b"], i)
    if case == "CAUCHY":
        return p["t"] + p["s"] * draw("cauchy", i)
    if case == "LAPLACE":
        return p["t"] + p["s"] * draw("laplace", i)
    if case == "LOGISTIC":
        return p["t"] + p["s"] * draw("logistic", i)
    if case == "STUDENT":
        return draw("t", p["df"], i)
    if case == "TUKEY":
        return draw("tukeylambda", p["lam"], i)
    if case == "LOG_NORMAL":
        return math.exp(p["mu"]) * draw("lognorm", p["s"], i)
    if case == "GAMMA":
        return draw("gamma", p["alfa"], i) / p["beta"]
    if case == "TRUNC_NORMAL":
        sd = math.sqrt(p["var"])
        return p["mean"] + sd * draw("truncnorm", (p["a"] - p["mean"]) / sd, (p["b"] - p["mean"]) / sd, i)
    if case == "CHI_2":
        return draw("chi2", p["df"], i)
    if case == "GUMBEL":
        return p["mu"] + p["beta"] * draw("gumbel_r", i)
    if case == "WEIBULL":
        return draw("exponweib", p["a"], p["k"], i)
    if case == "LO_CON_NORMAL":
        return ite(draw("uniform", i) < p["p"], p["a"] + draw("norm", i), draw("norm", i))
    if case == "SCALE_CON_NORMAL":
        return ite(draw("uniform", i) < p["p"], p["b"] * draw("norm", i), draw("norm", i))
    if case == "MIX_CON_NORMAL":
        return ite(draw("uniform", i) < p["p"], p["a"] + p["b"] * draw("norm", i), draw("norm", i))
    if case == "EXPONENTIAL":
        return draw("expon", i) / p["lam"]
    if case == "INV_GAUSS":
        return p["lam"] * draw("invgauss", p["mu"], i)
    if case == "RICE":
        return p["sigma"] * draw("rice", p["nu"] / p["sigma"], i)
    if case == "GOMPERTZ":
        return p["b"] * draw("gompertz", p["eta"], i)
    if case == "NORMAL":
        return p["mean"] + math.sqrt(p["var"]) * draw("norm", i)
    return p["a"] + (p["b"] - p["a"]) * draw("uniform", i)


class Generate(Contract):
    """the k-th call continues where the previous one stopped: all values are fresh"""

    property = "C14"
    cases = NAMES
    conc = 0.4

    def args(S, case):
        p = params(S, case)
        S.rng()
        return dict(p=p, gen=R(GEN + LAWS[case][0])(**p), n=S.len("n", 1), m=S.len("m", 1))

    def run(gen, n, m):
        return (gen.generate(n), gen.generate(m))

    def post_draws(p, n, m, case, result):
        x, y = result
        return (len(x) == n and forall(n, lambda i: eq(x[i], law(case, p, i)))
                and len(y) == m and forall(m, lambda i: eq(y[i], law(case, p, n + i))))


class GenerateDirect(Contract):
    """the sampling functions themselves"""

    property = "C14"
    cases = NAMES
    conc = 0.3

    def args(S, case):
        S.rng()
        return dict(p=params(S, case), n=S.len("n", 1))

    def run(p, n, case):
        return R(DIST + LAWS[case][2])(size=n, **p)

    def post_draws(p, n, case, result):
        return len(result) == n and forall(n, lambda i: eq(result[i], law(case, p, i)))


class Lookup(Contract):
    property = "C15"
    cases = NAMES
    conc = 0.2

    def args(S, case):
        return dict(p=params(S, case), kind=getattr(R(TYPE), case))

    def run(p, kind):
        return R("pysatl_criterion.utils.generator:get_available_generator")(kind, p)

    def post_class(kind, case, result):
        return typename(result) == LAWS[case][0] and same(result.distribution_type(), kind)

    def post_parameters(p, result):
        return mapping_eq(result.parameters(), p)

    def post_code(p, kind, case, result):
        return same(result.code(), "_".join([str(kind)] + [str(p[q]) for q in LAWS[case][1]]))


DEFAULTS = {
    "BETA": dict(a=1, b=1), "LOG_NORMAL": dict(s=1, mu=0), "GAMMA": dict(alfa=1, beta=1), "TRUNC_NORMAL": dict(mean=0, var=1, a=-10, b=10),
    "CHI_2": dict(df=2), "GUMBEL": dict(mu=0, beta=1), "WEIBULL": dict(a=1, k=5), "LO_CON_NORMAL": dict(p=0.5, a=0),
    "SCALE_CON_NORMAL": dict(p=0.5, b=1), "MIX_CON_NORMAL": dict(p=0.5, a=0, b=1), "EXPONENTIAL": dict(lam=0.5), "INV_GAUSS": dict(mu=1, lam=1),
    "RICE": dict(nu=0, sigma=1), "GOMPERTZ": dict(eta=1, b=1), "NORMAL": dict(mean=0, var=1), "UNIFORM": dict(a=0, b=1),
}


class LookupDefault(Contract):
    """without parameters the documented defaults are used, and the generator works with them"""

    property = "C15"
    cases = list(DEFAULTS)
    conc = 0.1

    def args(S, case):
        S.rng()
        return dict(kind=getattr(R(TYPE), case), none=S.bool("none"), n=S.len("n", 1))

    def run(kind, none, n):
        g = R("pysatl_criterion.utils.generator:get_available_generator")(kind, None if none else {})
        return (g, g.generate(n))

    def post_class(case, result):
        return typename(result[0]) == LAWS[case][0]

    def post_defaults(case, result):
        return mapping_eq(result[0].parameters(), DEFAULTS[case])

    def post_draws(n, case, result):
        return len(result[1]) == n and forall(n, lambda i: eq(result[1][i], law(case, DEFAULTS[case], i)))


class LookupUnique(Contract):
    """exactly one concrete generator per distribution, so that the choice does not depend on the registry's order"""

    property = "C15"
    conc = 0.1

    def args(S):
        R("pysatl_criterion.utils.generator:_load_generators")()
        return dict(classes=[R(GEN + LAWS[c][0]) for c in NAMES])

    def run(classes):
        base = R("pysatl_criterion.generator.model:AbstractRVSGenerator")
        return [c.__name__ for c in base.__subclasses__()]

    def post_known(classes, result):
        return len(result) == len(classes) and all(c.__name__ in result for c in classes) and all(len(c.__subclasses__()) == 0 for c in classes)

    def post_types(classes):
        return all(c.distribution_type() == getattr(R(TYPE), n) for n, c in zip(NAMES, classes))


class OneGenerator(Contract):
    property = "C15"
    conc = 0.1

    def args(S):
        return dict(types=list(R(TYPE)))

    def run(types):
        return len(types)

    def post_all(result):
        return result == len(NAMES)


# ------------------------------------------------------------------------------------ C04: hypothesis -> generator
ST = "pysatl_criterion.statistics.goodness_of_fit."
FAMILIES = {
    "NORMAL": (ST + "normal:KolmogorovSmirnovNormalityGofStatistic", ["mean", "var"]),
    "EXPONENTIAL": (ST + "exponent:KolmogorovSmirnovExponentialityGofStatistic", ["lam"]),
    "WEIBULL": (ST + "weibull:KolmogorovSmirnovWeibullGofStatistic", ["a", "k"]),
    "UNIFORM": (ST + "uniform:KolmogorovSmirnovUniformGofStatistic", ["a", "b"]),
    "BETA": (ST + "beta:KolmogorovSmirnovBetaGofStatistic", ["alpha", "beta"]),
    "GAMMA": (ST + "gamma:KolmogorovSmirnovGammaGofStatistic", ["alpha", "beta"]),
    "LOG_NORMAL": (ST + "log_normal:KolmogorovSmirnovLogNormalGofStatistic", ["s", "scale"]),
    "STUDENT": (ST + "student:KolmogorovSmirnovStudentGofStatistic", ["df"]),
}


class Hypothesis(Contract):
    """the samples behind a criterion's null distribution follow the very law the criterion tests for"""

    property = "C04"
    cases = list(FAMILIES)
    conc = 0.5

    def args(S, case):
        qual, names = FAMILIES[case]
        p = {}
        for q in names:
            p[q] = S.real(q) if q == "mean" or case == "UNIFORM" else S.real(q, pos=True)
        if case == "UNIFORM":
            S.assume(p["a"] < p["b"])
        S.rng()
        n = S.len("n", 1)
        return dict(p=p, stat=S.obj(qual, execute_statistic=lambda rvs: Sum(n, lambda j: (j + 1) * rvs[j]), **p), n=n, m=S.len("m", 1))

    def run(stat, n, m):
        return R("pysatl_criterion.hypothesis_testing.limit_distribution.base:MonteCarloLimitDistributionResolver")(m).resolve(stat, n)

    def post_law(p, n, m, case, result):
        return eq(result, seqof(m, lambda k: Sum(n, lambda i: (i + 1) * null_law(case, p, k * n + i))))


def null_law(case, p, i):
    if case == "BETA":
        return draw("beta", p["alpha"], p["beta"], i)
    if case == "GAMMA":
        return draw("gamma", p["alpha"], i) / p["beta"]
    if case == "LOG_NORMAL":
        return p["scale"] * draw("lognorm", p["s"], i)
    return law(case, p, i)


class HypothesisStudentShifted(Contract):
    """listed finding: location and scale of Student criteria are not part of their hypothesis"""

    property = "C04"
    witness = True

    def args(S):
        S.rng()
        p = dict(df=S.real("df", pos=True), loc=S.real("loc"), scale=S.real("scale", pos=True))
        return dict(p=p, stat=S.obj(FAMILIES["STUDENT"][0], execute_statistic=lambda rvs: rvs[0], **p), n=S.len("n", 1))

    def run(stat, n):
        return R("pysatl_criterion.hypothesis_testing.limit_distribution.base:MonteCarloLimitDistributionResolver")(1).resolve(stat, n)

    def post_law(p, n, result):
        return eq(result[0], p["loc"] + p["scale"] * draw("t", p["df"], 0))
