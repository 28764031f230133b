"""Contracts: p-values, critical values, critical regions, decisions, test pipeline, null distributions."""
from speclib import *

HT = "pysatl_criterion.hypothesis_testing."
PV = HT + "p_value.calculator.p_value_calculator:"
CV = HT + "critical_values.calculator.critical_value_calculator:"
CA = HT + "critical_values.critical_area.critical_areas:"
AF = HT + "alternative_factory.alternative_factories:"
GT = HT + "goodness_of_fit_test.goodness_of_fit_test:"
LD = HT + "limit_distribution.base:"
ALT = "pysatl_criterion.statistics.alternative:"
STAT = "pysatl_criterion.statistics.statistic:AbstractGoodnessOfFitStatistic"
HYP = "pysatl_criterion.statistics.hypothesis:GoodnessOfFitHypothesis"
SIDES = ["LEFT", "RIGHT", "TWO_TAILED"]


def share_le(dist, x):
    """share of the simulated values that do not exceed x"""
    return count(dist, lambda v: v <= x) / len(dist)


def share_gt(dist, x):
    return count(dist, lambda v: v > x) / len(dist)


def p_value_spec(side, dist, x):
    if side == "LEFT":
        return share_le(dist, x)
    if side == "RIGHT":
        return share_gt(dist, x)
    return 2 * min(share_le(dist, x), share_gt(dist, x))


def critical_spec(side, dist, level):
    if side == "LEFT":
        return np.quantile(dist, level)
    if side == "RIGHT":
        return np.quantile(dist, 1 - level)
    return (np.quantile(dist, level / 2), np.quantile(dist, 1 - level / 2))


def accepts_spec(side, crit, x):
    if side == "LEFT":
        return x >= crit
    if side == "RIGHT":
        return x <= crit
    return crit[0] <= x and x <= crit[1]


PVC = {"LEFT": "LeftPValueCalculator", "RIGHT": "RightPValueCalculator", "TWO_TAILED": "TwoSidedPValueCalculator"}
CVC = {"LEFT": "LeftCriticalValueCalculator", "RIGHT": "RightCriticalValueCalculator",
       "TWO_TAILED": "TwoSidedCriticalValueCalculator"}
FAC = {"LEFT": "LeftAlternativeFactory", "RIGHT": "RightAlternativeFactory", "TWO_TAILED": "TwoSidedAlternativeFactory"}
ALTC = {"LEFT": "LeftAlternative", "RIGHT": "RightAlternative", "TWO_TAILED": "TwoSidedAlternative"}


def factory(side):
    return R(AF + "AbstractAlternativeFactory").get_concrete_factory(getattr(R(ALT + "AlternativeType"), side))


# ---------------------------------------------------------------------------------------------- C01
class PValueIsEmpiricalTail(Contract):
    property = "C01"
    cases = SIDES
    unchanged = ("dist",)

    def args(S, case):
        return dict(dist=S.arr("dist", S.len("n", 1), kind="list"), x=S.real("x"))

    def run(dist, x, case):
        return R(PV + PVC[case])().calculate(dist, x)

    def post_tail(dist, x, case, result):
        return eq(result, p_value_spec(case, dist, x))

    def post_range(result):
        return leq(0, result) and leq(result, 1)


class PValueIsMonotone(Contract):
    property = "C01"
    cases = SIDES
    unchanged = ("dist",)

    def args(S, case):
        return dict(dist=S.arr("dist", S.len("n", 1), kind="nd"), x=S.real("x"), y=S.real("y"))

    def run(dist, x, y, case):
        c = R(PV + PVC[case])()
        return (c.calculate(dist, x), c.calculate(dist, y))

    def post_tail(dist, x, y, case, result):
        return eq(result[0], p_value_spec(case, dist, x)) and eq(result[1], p_value_spec(case, dist, y))

    def post_monotone(x, y, case, result):
        if case == "LEFT":
            return implies(x <= y, lambda: leq(result[0], result[1]))
        if case == "RIGHT":
            return implies(x <= y, lambda: leq(result[1], result[0]))
        return True


class PValueCalculatorOfAlternative(Contract):
    """the calculator handed out for an alternative is the one of that alternative"""

    property = "C01"
    cases = SIDES
    unchanged = ("dist",)

    def args(S, case):
        return dict(dist=S.arr("dist", S.len("n", 1), kind="list"), x=S.real("x"))

    def run(dist, x, case):
        return factory(case).get_p_value_calculator().calculate(dist, x)

    def post_tail(dist, x, case, result):
        return eq(result, p_value_spec(case, dist, x))


# ---------------------------------------------------------------------------------------------- C02
class CriticalValueIsEmpiricalQuantile(Contract):
    property = "C02"
    cases = SIDES
    unchanged = ("dist",)

    def args(S, case):
        return dict(dist=S.arr("dist", S.len("n", 1), kind="list"), level=S.real("level", lo=0, hi=1))

    def run(dist, level, case):
        return R(CV + CVC[case])().calculate(dist, level)

    def post_quantile(dist, level, case, result):
        return eq(result, critical_spec(case, dist, level))

    def post_ordered(case, result):
        if case == "TWO_TAILED":
            return leq(result[0], result[1])
        return True

    def post_within_support(dist, case, result):
        if case == "TWO_TAILED":
            return leq(Min(dist, lambda v: v), result[0]) and leq(result[1], Max(dist, lambda v: v))
        return leq(Min(dist, lambda v: v), result) and leq(result, Max(dist, lambda v: v))


class CriticalValueOfAlternative(Contract):
    property = "C02"
    cases = SIDES
    unchanged = ("dist",)

    def args(S, case):
        return dict(dist=S.arr("dist", S.len("n", 1), kind="nd"), level=S.real("level", lo=0, hi=1))

    def run(dist, level, case):
        return factory(case).get_critical_value_calculator().calculate(dist, level)

    def post_quantile(dist, level, case, result):
        return eq(result, critical_spec(case, dist, level))


class CriticalValuesShrinkWithLevel(Contract):
    """a larger significance level never enlarges the acceptance region"""

    property = "C02"
    cases = SIDES

    def args(S, case):
        return dict(dist=S.arr("dist", S.len("n", 1), kind="list"), a=S.real("a", lo=0, hi=1), b=S.real("b", lo=0, hi=1),
                    x=S.real("x"))

    def run(dist, a, b, x, case):
        f = factory(case)
        c = f.get_critical_value_calculator()
        return (f.get_critical_area(c.calculate(dist, a)).contains(x), f.get_critical_area(c.calculate(dist, b)).contains(x))

    def post_monotone(a, b, result):
        return implies(a <= b and result[1], lambda: result[0])


class AcceptanceRegion(Contract):
    property = "C02"
    cases = SIDES

    def args(S, case):
        c = S.real("c")
        d = S.real("d")
        if case == "TWO_TAILED":
            return dict(crit=(c, d), x=S.real("x"))
        return dict(crit=c, x=S.real("x"))

    def run(crit, x, case):
        return factory(case).get_critical_area(crit).contains(x)

    def post_region(crit, x, case, result):
        return iff(result, accepts_spec(case, crit, x))


class AcceptanceRegionDirect(Contract):
    property = "C02"
    cases = SIDES

    def args(S, case):
        return dict(c=S.real("c"), d=S.real("d"), x=S.real("x"))

    def run(c, d, x, case):
        if case == "LEFT":
            return R(CA + "LeftCriticalArea")(c).contains(x)
        if case == "RIGHT":
            return R(CA + "RightCriticalArea")(c).contains(x)
        return R(CA + "TwoSidedCriticalArea")(c, d).contains(x)

    def post_region(c, d, x, case, result):
        return iff(result, accepts_spec(case, (c, d) if case == "TWO_TAILED" else c, x))


class FactoryOfAlternative(Contract):
    properties = ["C01", "C02", "C03"]
    cases = SIDES

    def args(S, case):
        return dict(s=case)

    def run(s, case):
        alt = R(ALT + "Alternative").get_alternative(getattr(R(ALT + "AlternativeType"), case))
        return (factory(case), alt, alt.type() == getattr(R(ALT + "AlternativeType"), case))

    def post_classes(case, result):
        return clsname(result[0]) == FAC[case] and clsname(result[1]) == ALTC[case] and result[2]


# ---------------------------------------------------------------------------------------------- C03
def mk_statistic(S, case, params=None):
    alt = R(ALT + ALTC[case])()
    hyp = R(HYP)(params)
    return S.collab("statistic", cls=STAT, methods={
        "alternative": lambda: alt,
        "hypothesis": lambda: hyp,
        "code": lambda: "CODE_OF_STATISTIC",
        "execute_statistic": lambda rvs: UF("stat", rvs),
    })


def decision_args(S, case):
    dist = S.arr("dist", S.len("n", 1), kind="list")
    st = mk_statistic(S, case)
    return dict(dist=dist, st=st, x=S.real("x"), level=S.real("level", lo=0, hi=1), size=S.int("size", 1),
                res=S.collab("resolver", cls=LD + "AbstractLimitDistributionResolver",
                             methods={"resolve": lambda statistic, sample_size: dist}))


class PValueDecision(Contract):
    property = "C03"
    cases = SIDES
    unchanged = ("dist",)

    def args(S, case):
        return decision_args(S, case)

    def run(st, x, level, size, res):
        return R(GT + "PValueDecisionMethod")(res).decide(st, x, level, size)

    def post_p_value(dist, x, case, result):
        return eq(result.p_value, p_value_spec(case, dist, x)) and isnone(result.critical_value)

    def post_rejects(level, result):
        return iff(result.rejected, result.p_value <= level)

    def post_echo(x, level, result):
        return same(result.statistic, x) and same(result.significance_level, level)

    def post_resolved(st, size, res):
        cs = calls(res, "resolve")
        return len(cs) == 1 and cs[0][0][0] is st and same(cs[0][0][1], size)


class CriticalValueDecision(Contract):
    property = "C03"
    cases = SIDES
    unchanged = ("dist",)

    def args(S, case):
        return decision_args(S, case)

    def run(st, x, level, size, res):
        return R(GT + "CriticalValueDecisionMethod")(res).decide(st, x, level, size)

    def post_critical(dist, level, case, result):
        return eq(result.critical_value, critical_spec(case, dist, level)) and isnone(result.p_value)

    def post_rejects(x, case, result):
        return iff(result.rejected, not accepts_spec(case, result.critical_value, x))

    def post_echo(x, level, result):
        return same(result.statistic, x) and same(result.significance_level, level)

    def post_resolved(st, size, res):
        cs = calls(res, "resolve")
        return len(cs) == 1 and cs[0][0][0] is st and same(cs[0][0][1], size)


class NoNullDistribution(Contract):
    """without a null distribution no verdict is given"""

    property = "C03"
    cases = ["PValueDecisionMethod", "CriticalValueDecisionMethod"]

    def args(S, case):
        return dict(st=mk_statistic(S, S.choice("side", SIDES)), x=S.real("x"), level=S.real("level", lo=0, hi=1),
                    size=S.int("size", 1),
                    res=S.collab("resolver", cls=LD + "AbstractLimitDistributionResolver",
                                 methods={"resolve": lambda statistic, sample_size: None}))

    def run(st, x, level, size, res, case):
        return R(GT + case)(res).decide(st, x, level, size)

    def post_error(exc):
        return exc == "ValueError"


def pipeline_args(S, case):
    d = decision_args(S, case)
    d["rvs"] = S.arr("rvs", S.len("m", 1), kind="list")
    return d


class PipelinePValue(Contract):
    property = "C03"
    cases = SIDES
    unchanged = ("dist", "rvs")

    def args(S, case):
        return pipeline_args(S, case)

    def run(st, rvs, level, res):
        return R(GT + "GoodnessOfFitTest")(st).test(rvs, level, R(GT + "PValueDecisionMethod")(res))

    def post_statistic(rvs, level, result):
        return same(result.statistic, UF("stat", rvs)) and same(result.significance_level, level)

    def post_p_value(dist, rvs, case, result):
        return eq(result.p_value, p_value_spec(case, dist, UF("stat", rvs))) and isnone(result.critical_value)

    def post_rejects(level, result):
        return iff(result.rejected, result.p_value <= level)

    def post_calls(st, rvs, res):
        rs = calls(res, "resolve")
        es = calls(st, "execute_statistic")
        return (len(rs) == 1 and rs[0][0][0] is st and same(rs[0][0][1], len(rvs)) and len(es) == 1
                and same(es[0][0][0], rvs))


class PipelineCriticalValue(Contract):
    property = "C03"
    cases = SIDES
    unchanged = ("dist", "rvs")

    def args(S, case):
        return pipeline_args(S, case)

    def run(st, rvs, level, res):
        return R(GT + "GoodnessOfFitTest")(st).test(rvs, level, R(GT + "CriticalValueDecisionMethod")(res))

    def post_statistic(rvs, level, result):
        return same(result.statistic, UF("stat", rvs)) and same(result.significance_level, level)

    def post_critical(dist, level, case, result):
        return eq(result.critical_value, critical_spec(case, dist, level)) and isnone(result.p_value)

    def post_rejects(rvs, case, result):
        return iff(result.rejected, not accepts_spec(case, result.critical_value, UF("stat", rvs)))

    def post_calls(st, rvs, res):
        rs = calls(res, "resolve")
        es = calls(st, "execute_statistic")
        return (len(rs) == 1 and rs[0][0][0] is st and same(rs[0][0][1], len(rvs)) and len(es) == 1
                and same(es[0][0][0], rvs))


class PipelineDefaultMethod(Contract):
    """without an explicit method the critical value of a simulated null distribution decides"""

    property = "C03"
    cases = SIDES
    unchanged = ("dist", "rvs")

    def args(S, case):
        d = pipeline_args(S, case)
        dist = d["dist"]
        d["sim"] = S.stub(LD + "MonteCarloLimitDistributionResolver.resolve", lambda self, statistic, sample_size: dist)
        return d

    def run(st, rvs, level, case):
        return R(GT + "GoodnessOfFitTest")(st).test(rvs, level)

    def post_statistic(rvs, level, result):
        return same(result.statistic, UF("stat", rvs)) and same(result.significance_level, level)

    def post_critical(dist, level, case, result):
        return eq(result.critical_value, critical_spec(case, dist, level)) and isnone(result.p_value)

    def post_rejects(rvs, case, result):
        return iff(result.rejected, not accepts_spec(case, result.critical_value, UF("stat", rvs)))

    def post_calls(st, rvs, sim):
        cs = calls(sim, "call")
        return len(cs) == 1 and cs[0][0][1] is st and same(cs[0][0][2], len(rvs))


class DefaultResolver(Contract):
    property = "C03"
    cases = ["PValueDecisionMethod", "CriticalValueDecisionMethod"]

    def args(S, case):
        return dict(u=S.real("u"))

    def run(u, case):
        return R(GT + case)()

    def post_resolver(result):
        return clsname(result.resolver) == "MonteCarloLimitDistributionResolver" and result.resolver.monte_carlo_count >= 1000


# ---------------------------------------------------------------------------------------------- C04
GENU = "pysatl_criterion.utils.generator:get_available_generator"


class MonteCarloCount(Contract):
    property = "C04"

    def args(S):
        return dict(n=S.int("n"))

    def run(n):
        return R(LD + "MonteCarloLimitDistributionResolver")(n)

    def post_validated(n, result, exc):
        if isnone(exc):
            return n > 0 and same(result.monte_carlo_count, n)
        return exc == "ValueError" and n <= 0


class MonteCarloSampleSize(Contract):
    property = "C04"

    def args(S):
        return dict(st=mk_statistic(S, "RIGHT"), n=S.int("n", 1), size=S.int("size", hi=0))

    def run(st, n, size):
        return R(LD + "MonteCarloLimitDistributionResolver")(n).resolve(st, size)

    def post_rejected(exc):
        return exc == "ValueError"


def simulated_statistic(S, params):
    alt = R(ALT + "RightAlternative")()
    hyp = R(HYP)(params)
    return S.collab("statistic", cls=STAT, methods={
        "alternative": lambda: alt,
        "hypothesis": lambda: hyp,
        "distribution": lambda: "DIST",
        "execute_statistic": lambda rvs: UF("stat", rvs),
    })


class MonteCarloNullDistribution(Contract):
    """entry i is the statistic of the i-th freshly generated sample of the requested size; the generator is built for
    the distribution and the parameters of the tested hypothesis"""

    property = "C04"
    cases = ["params", "default"]

    def args(S, case):
        params = {"p1": S.real("p1"), "p2": S.real("p2")} if case == "params" else None
        draw = S.stream("draw", lambda k, size: seqof(size, lambda j: UF("sample", k, j)))
        gen = S.collab("generator", cls="pysatl_criterion.generator.model:AbstractRVSGenerator",
                       methods={"generate": lambda size: draw(size)})
        return dict(st=simulated_statistic(S, params), draw=draw, params=params,
                    lookup=S.stub(GENU, lambda distribution, params: gen),
                    n=S.int("n", 1, chi=150), size=S.int("size", 1, chi=9))

    def run(st, n, size):
        return R(LD + "MonteCarloLimitDistributionResolver")(n).resolve(st, size)

    def post_values(n, size, result):
        return eq(result, seqof(n, lambda i: UF("stat", seqof(size, lambda j: UF("sample", i, j)))))

    def post_count(n, draw, result):
        return len(result) == n and same(ncalls(draw), n) and typename(result) == "list"

    def post_generator(params, lookup):
        cs = calls(lookup, "call")
        return len(cs) == 1 and cs[0][0][0] == "DIST" and mapping_eq(cs[0][0][1], params)


class MonteCarloTwice(Contract):
    """every simulation draws new samples"""

    property = "C04"

    def args(S):
        draw = S.stream("draw", lambda k, size: seqof(size, lambda j: UF("sample", k, j)))
        gen = S.collab("generator", cls="pysatl_criterion.generator.model:AbstractRVSGenerator",
                       methods={"generate": lambda size: draw(size)})
        return dict(st=simulated_statistic(S, None), draw=draw, lookup=S.stub(GENU, lambda distribution, params: gen),
                    n=S.int("n", 1, chi=150), size=S.int("size", 1, chi=9))

    def run(st, n, size):
        r = R(LD + "MonteCarloLimitDistributionResolver")(n)
        r.resolve(st, size)
        return r.resolve(st, size)

    def post_values(n, size, result):
        return eq(result, seqof(n, lambda i: UF("stat", seqof(size, lambda j: UF("sample", n + i, j)))))


# ---------------------------------------------------------------------------------------------- C05
class StoredNullDistribution(Contract):
    """the storage is asked for this statistic, the parameters of its hypothesis and this sample size; its values are
    handed over unchanged"""

    property = "C05"
    cases = ["found", "missing", "no_params"]
    unchanged = ("values",)

    def args(S, case):
        a = S.real("p1")
        b = S.real("p2")
        params = None if case == "no_params" else {"x": a, "y": b}
        values = S.arr("values", S.len("n"), kind="list")
        hyp = R(HYP)(params)
        st = S.collab("statistic", cls=STAT, methods={"hypothesis": lambda: hyp, "code": lambda: "CODE_X"})
        model = S.obj("pysatl_criterion.persistence.models.limit_distribution:LimitDistributionModel",
                      results_statistics=values)
        storage = S.collab("storage", cls="pysatl_criterion.persistence.models.limit_distribution:ILimitDistributionStorage",
                           methods={"get_data": lambda query: None if case == "missing" else model})
        return dict(st=st, storage=storage, values=values, size=S.int("size", 1), expected=[] if case == "no_params" else [a, b])

    def run(st, storage, size):
        return R(LD + "StorageLimitDistributionResolver")(storage).resolve(st, size)

    def post_values(values, case, result):
        return isnone(result) if case == "missing" else same(result, values)

    def post_query(storage, size, expected):
        cs = calls(storage, "get_data")
        if len(cs) != 1:
            return False
        q = cs[0][0][0]
        return (q.criterion_code == "CODE_X" and same(q.sample_size, size) and same(q.criterion_parameters, expected)
                and q.monte_carlo_count >= 1)
