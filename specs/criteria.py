"""Contracts: parameter domains (C16), identity and listing of criteria (C17)."""
from speclib import *

TYPE = "pysatl_criterion:DistributionType"
ST = "pysatl_criterion.statistics.goodness_of_fit."
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"

# documented domain of every parameter of every distribution: any number, >0, >=0 or a probability
DOMAINS = {
    "NORMAL": dict(mean="any", var="pos"), "EXPONENTIAL": dict(lam="pos"), "WEIBULL": dict(a="pos", k="pos"), "UNIFORM": dict(a="any", b="any"),
    "STUDENT": dict(df="pos"), "GAMMA": dict(alfa="pos", beta="pos"), "BETA": dict(a="pos", b="pos"), "LOG_NORMAL": dict(mu="any", s="pos"),
    "CAUCHY": dict(t="any", s="pos"), "CHI_2": dict(df="pos"), "GOMPERTZ": dict(eta="pos", b="pos"), "GUMBEL": dict(mu="any", beta="pos"),
    "INV_GAUSS": dict(mu="pos", lam="pos"), "LAPLACE": dict(t="any", s="pos"), "LO_CON_NORMAL": dict(p="prob", a="any"),
    "LOGISTIC": dict(t="any", s="pos"), "MIX_CON_NORMAL": dict(p="prob", a="any", b="pos"), "RICE": dict(nu="nonneg", sigma="nonneg"),
    "SCALE_CON_NORMAL": dict(p="prob", b="pos"), "TRUNC_NORMAL": dict(mean="any", var="pos", a="any", b="any"), "TUKEY": dict(lam="any"),
}


def inside(domain, v):
    if domain == "pos":
        return v > 0
    if domain == "nonneg":
        return v >= 0
    if domain == "prob":
        return 0 <= v and v <= 1
    return True


class Descriptor(Contract):
    """the description of a distribution: its parameters, their domains, defaults inside the domains"""

    property = "C16"
    cases = list(DOMAINS)
    conc = 0.3

    def args(S, case):
        return dict(kind=getattr(R(TYPE), case), v=S.real("v"))

    def run(kind, v):
        d = R("pysatl_criterion.utils.distribution:get_available_distribution_descriptor")(kind)
        return (d, [(p.name, p.default, True if p.validator is None else p.validator(v), True if p.validator is None else p.validator(p.default)) for p in d.parameters()])

    def post_type(kind, result):
        return same(result[0].type(), kind)

    def post_names(case, result):
        return sorted([p[0] for p in result[1]]) == sorted(DOMAINS[case])

    def post_domains(case, v, result):
        return all(iff(p[2], inside(DOMAINS[case][p[0]], v)) for p in result[1])

    def post_defaults(case, result):
        return all(isnum(p[1]) and inside(DOMAINS[case][p[0]], p[1]) and p[3] for p in result[1])


class DescriptorGenerator(Contract):
    """every described parameter is one the distribution's generator takes"""

    property = "C16"
    cases = list(DOMAINS)
    conc = 0.1

    def args(S, case):
        return dict(kind=getattr(R(TYPE), case))

    def run(kind):
        d = R("pysatl_criterion.utils.distribution:get_available_distribution_descriptor")(kind)
        params = {p.name: p.default for p in d.parameters()}
        return (params, R("pysatl_criterion.utils.generator:get_available_generator")(kind, params))

    def post_taken(result):
        return mapping_eq(result[1].parameters(), result[0])


class DescriptorComplete(Contract):
    property = "C16"
    conc = 0.1

    def args(S):
        return dict(kinds=list(R(TYPE)))

    def run(kinds):
        base = R("pysatl_criterion.distribution.distributions:DistributionDescriptor")
        return [c.type() for c in base.__subclasses__()]

    def post_each_once(kinds, result):
        return len(kinds) == len(DOMAINS) and len(result) == len(kinds) and all(any(same(k, r) for r in result) for k in kinds)


class Validators(Contract):
    property = "C16"
    cases = ["PositiveNumberValidator", "NonNegativeNumberValidator", "ProbabilityValidator"]

    def args(S, case):
        return dict(v=S.real("v"))

    def run(v, case):
        x = R("pysatl_criterion.distribution.validator:" + case)()
        return (x(v), x.validate(v))

    def post_domain(v, case, result):
        d = inside({"PositiveNumberValidator": "pos", "NonNegativeNumberValidator": "nonneg", "ProbabilityValidator": "prob"}[case], v)
        return iff(result[0], d) and iff(result[1], d)


class ValidatorsWhole(Validators):
    """the same for integers"""

    property = "C16"

    def args(S, case):
        return dict(v=S.int("v"))


class DescriptorWhole(Descriptor):
    property = "C16"
    cases = list(DOMAINS)
    conc = 0.3

    def args(S, case):
        return dict(kind=getattr(R(TYPE), case), v=S.int("v"))


# ------------------------------------------------------------------------------------ criteria
# family -> (module, part of the code, parameters of the constructor)
FAMILIES = {
    "BETA": ("beta", "BETA", ["alpha", "beta"]),
    "EXPONENTIAL": ("exponent", "EXPONENTIALITY", ["lam"]),
    "GAMMA": ("gamma", "GAMMA", ["alpha", "beta"]),
    "NORMAL": ("normal", "NORMALITY", ["mean", "var"]),
    "LOG_NORMAL": ("log_normal", "LOGNORMAL", ["s", "scale"]),
    "STUDENT": ("student", "STUDENT", ["df"]),
    "UNIFORM": ("uniform", "UNIFORM", ["a", "b"]),
    "WEIBULL": ("weibull", "WEIBULL", ["a", "k"]),
}

# family -> alternative -> criterion -> short code
CRITERIA = {
    "BETA": {
        "RIGHT": {
            "AndersonDarlingBetaGofStatistic": "AD", "Chi2PearsonBetaGofStatistic": "CHI2_PEARSON", "CrammerVonMisesBetaGofStatistic": "CVM",
            "EntropyBetaGofStatistic": "ENT", "KuiperBetaGofStatistic": "KUIPER", "ModeBetaGofStatistic": "MODE", "MomentBasedBetaGofStatistic": "MB",
            "RatioBetaGofStatistic": "RT", "SkewnessKurtosisBetaGofStatistic": "SK", "WatsonBetaGofStatistic": "W",
        },
        "TWO_TAILED": {
            "KolmogorovSmirnovBetaGofStatistic": "KS", "LillieforsTestBetaGofStatistic": "LILLIE",
        },
    },
    "EXPONENTIAL": {
        "RIGHT": {
            "AhsanullahExponentialityGofStatistic": "AHS", "AtkinsonExponentialityGofStatistic": "ATK", "CramerVonMisesExponentialityGofStatistic": "CVM",
            "DeshpandeExponentialityGofStatistic": "DSP", "EppsPulleyExponentialityGofStatistic": "EP", "FroziniExponentialityGofStatistic": "FZ",
            "GnedenkoExponentialityGofStatistic": "GD", "HarrisExponentialityGofStatistic": "HM", "HollanderProshanExponentialityGofStatistic": "HP",
            "KocharExponentialityGofStatistic": "KC", "LorenzExponentialityGofStatistic": "LZ", "MoranExponentialityGofStatistic": "MN",
            "RossbergExponentialityGofStatistic": "RS", "WeExponentialityGofStatistic": "WE", "WongWongExponentialityGofStatistic": "WW",
        },
        "LEFT": {
            "HegazyGreen1ExponentialityGofStatistic": "HG1", "HegazyGreen2ExponentialityGofStatistic": "HG2", "KimberMichaelExponentialityGofStatistic": "KM",
            "ShapiroWilkExponentialityGofStatistic": "SW",
        },
        "TWO_TAILED": {
            "CoxOakesExponentialityGofStatistic": "CO", "EpsteinExponentialityGofStatistic": "EPS", "GiniExponentialityGofStatistic": "GINI",
            "GraphAverageDegreeExponentialityGofStatistic": "AVGDEGREE", "GraphCliqueNumberExponentialityGofStatistic": "CLIQUENUMBER",
            "GraphConnectedComponentsExponentialityGofStatistic": "CONNECTEDCOMPONENTS", "GraphEdgesNumberExponentialityGofStatistic": "EDGESNUMBER",
            "GraphIndependenceNumberExponentialityGofStatistic": "INDEPENDENCENUMBER", "GraphMaxDegreeExponentialityGofStatistic": "MAXDEGREE",
            "KolmogorovSmirnovExponentialityGofStatistic": "KS", "PietraExponentialityGofStatistic": "PT",
        },
    },
    "GAMMA": {
        "RIGHT": {
            "AndersonDarlingGammaGofStatistic": "AD", "Chi2PearsonGammaGofStatistic": "CHI2_PEARSON", "CramerVonMisesGammaGofStatistic": "CVM",
            "CressieReadGammaGofStatistic": "CRESSIE_READ", "GreenwoodGammaGofStatistic": "GRW", "KuiperGammaGofStatistic": "KUI",
            "LikelihoodRatioGammaGofStatistic": "G_TEST", "MoranGammaGofStatistic": "MOR", "WatsonGammaGofStatistic": "WAT",
        },
        "LEFT": {
            "ProbabilityPlotCorrelationGammaGofStatistic": "PPCC",
        },
        "TWO_TAILED": {
            "GraphAverageDegreeGammaGofStatistic": "AVGDEGREE", "GraphCliqueNumberGammaGofStatistic": "CLIQUENUMBER",
            "GraphConnectedComponentsGammaGofStatistic": "CONNECTEDCOMPONENTS", "GraphEdgesNumberGammaGofStatistic": "EDGESNUMBER",
            "GraphIndependenceNumberGammaGofStatistic": "INDEPENDENCENUMBER", "GraphMaxDegreeGammaGofStatistic": "MAXDEGREE", "KolmogorovSmirnovGammaGofStatistic": "KS",
            "LillieforsGammaGofStatistic": "LILLIE", "MinToshiyukiGammaGofStatistic": "MT",
        },
    },
    "NORMAL": {
        "RIGHT": {
            "AndersonDarlingNormalityGofStatistic": "AD", "BHSNormalityGofStatistic": "BHS", "BontempsMeddahi1NormalityGofStatistic": "BM1",
            "BontempsMeddahi2NormalityGofStatistic": "BM2", "CabanaCabana1NormalityGofStatistic": "CC1", "CabanaCabana2NormalityGofStatistic": "CC2",
            "ChenShapiroNormalityGofStatistic": "CS", "CoinNormalityGofStatistic": "COIN", "CramerVonMiseNormalityGofStatistic": "CVM", "DAPNormalityGofStatistic": "DAP",
            "DesgagneLafayeNormalityGofStatistic": "DLDMZEPD", "DoornikHansenNormalityGofStatistic": "DH", "EppsPulleyNormalityGofStatistic": "EP",
            "GMGNormalityGofStatistic": "GMG", "GlenLeemisBarrNormalityGofStatistic": "GLB", "JBNormalityGofStatistic": "JB", "KurtosisNormalityGofStatistic": "KURTOSIS",
            "MartinezIglewiczNormalityGofStatistic": "MI", "RobustJarqueBeraNormalityGofStatistic": "RJB", "SWRGNormalityGofStatistic": "SWRG",
            "SkewNormalityGofStatistic": "SKEW", "ZhangQNormalityGofStatistic": "ZQ", "ZhangQStarNormalityGofStatistic": "ZQS", "ZhangWuANormalityGofStatistic": "ZWA",
            "ZhangWuCNormalityGofStatistic": "ZWC",
        },
        "LEFT": {
            "FilliNormalityGofStatistic": "FILLI", "LooneyGulledgeNormalityGofStatistic": "LG", "RyanJoinerNormalityGofStatistic": "RJ", "SFNormalityGofStatistic": "SF",
            "ShapiroWilkNormalityGofStatistic": "SW",
        },
        "TWO_TAILED": {
            "BonettSeierNormalityGofStatistic": "BS", "DagostinoNormalityGofStatistic": "D", "GraphAverageDegreeNormalityGofStatistic": "AVGDEGREE",
            "GraphCliqueNumberNormalityGofStatistic": "CLIQUENUMBER", "GraphConnectedComponentsNormalityGofStatistic": "CONNECTEDCOMPONENTS",
            "GraphEdgesNumberNormalityGofStatistic": "EDGESNUMBER", "GraphIndependenceNumberNormalityGofStatistic": "INDEPENDENCENUMBER",
            "GraphMaxDegreeNormalityGofStatistic": "MAXDEGREE", "Hosking1NormalityGofStatistic": "HOSKING1", "Hosking2NormalityGofStatistic": "HOSKING2",
            "Hosking3NormalityGofStatistic": "HOSKING3", "Hosking4NormalityGofStatistic": "HOSKING4", "KolmogorovSmirnovNormalityGofStatistic": "KS",
            "LillieforsNormalityGofStatistic": "LILLIE", "SpiegelhalterNormalityGofStatistic": "SH",
        },
    },
    "LOG_NORMAL": {
        "RIGHT": {
            "AndersonDarlingLogNormalGofStatistic": "AD", "BontempsMeddahi1LogNormalGofStatistic": "BM1", "BontempsMeddahi2LogNormalGofStatistic": "BM2",
            "CabanaCabana1LogNormalGofStatistic": "CC1", "CabanaCabana2LogNormalGofStatistic": "CC2", "ChenShapiroLogNormalGofStatistic": "CS",
            "CoinLogNormalGofStatistic": "COIN", "CramerVonMiseLogNormalGofStatistic": "CVM", "DAPLogNormalGofStatistic": "DAP",
            "DesgagneLafayeLogNormalGofStatistic": "DLDMZEPD", "DoornikHansenLogNormalGofStatistic": "DH", "EppsPulleyLogNormalGofStatistic": "EP",
            "GMGLogNormalGofStatistic": "GMG", "GlenLeemisBarrLogNormalGofStatistic": "GLB", "JBLogNormalGofStatistic": "JB", "KLIntegralLogNormalGoFStatistic": "KL_INT",
            "KLSupremumLogNormalGoFStatistic": "KL_SUP", "KurtosisLogNormalGofStatistic": "KURTOSIS", "MartinezIglewiczLogNormalGofStatistic": "MI",
            "QuesenberryMillerLogNormalGofStatistic": "QUESENBERRY_MILLER", "RobustJarqueBeraLogNormalGofStatistic": "RJB", "SWRGLogNormalGofStatistic": "SWRG",
            "SkewLogNormalGofStatistic": "SKEW", "ZhangQLogNormalGofStatistic": "ZQ", "ZhangQStarLogNormalGofStatistic": "ZQS", "ZhangWuALogNormalGofStatistic": "ZWA",
            "ZhangWuCLogNormalGofStatistic": "ZWC",
        },
        "LEFT": {
            "FilliLogNormalGofStatistic": "FILLI", "LooneyGulledgeLogNormalGofStatistic": "LG", "RyanJoinerLogNormalGofStatistic": "RJ", "SFLogNormalGofStatistic": "SF",
            "ShapiroWilkLogNormalGofStatistic": "SW",
        },
        "TWO_TAILED": {
            "BonettSeierLogNormalGofStatistic": "BS", "DagostinoLogNormalGofStatistic": "D", "Hosking1LogNormalGofStatistic": "HOSKING1",
            "Hosking2LogNormalGofStatistic": "HOSKING2", "Hosking3LogNormalGofStatistic": "HOSKING3", "Hosking4LogNormalGofStatistic": "HOSKING4",
            "KolmogorovSmirnovLogNormalGofStatistic": "KS", "LillieforsLogNormalGofStatistic": "LILLIE", "SpiegelhalterLogNormalGofStatistic": "SH",
        },
    },
    "STUDENT": {
        "RIGHT": {
            "AndersonDarlingStudentGofStatistic": "AD", "ChiSquareStudentGofStatistic": "CHI2", "CramerVonMisesStudentGofStatistic": "CVM",
            "KuiperStudentGofStatistic": "KUIPER", "WatsonStudentGofStatistic": "WATSON", "ZhangZaStudentGofStatistic": "ZHANG_ZA",
            "ZhangZcStudentGofStatistic": "ZHANG_ZC",
        },
        "TWO_TAILED": {
            "KolmogorovSmirnovStudentGofStatistic": "KS", "LillieforsStudentGofStatistic": "LILLIE",
        },
    },
    "UNIFORM": {
        "RIGHT": {
            "AndersonDarlingUniformGofStatistic": "AD", "BickelRosenblattUniformGofStatistic": "BICKEL_ROSENBLATT", "CensoredSteinUniformGofStatistic": "CENSORED_STEIN_U",
            "Chi2PearsonUniformGofStatistic": "CHI2_PEARSON", "CrammerVonMisesUniformGofStatistic": "CVM", "GreenwoodTestUniformGofStatistic": "GREENWOOD",
            "KuiperUniformGofStatistic": "KUIPER", "NeymanSmoothTestUniformGofStatistic": "NEYMAN", "QuesenberryMillerUniformGofStatistic": "QUESENBERRY_MILLER",
            "ShermanUniformGofStatistic": "SHERMAN", "SteinUniformGofStatistic": "STEIN_U", "WatsonUniformGofStatistic": "WATSON", "ZhangTestsUniformGofStatistic": "ZHANG",
        },
        "TWO_TAILED": {
            "KolmogorovSmirnovUniformGofStatistic": "KS", "LillieforsTestUniformGofStatistic": "LILLIE",
        },
    },
    "WEIBULL": {
        "RIGHT": {
            "AndersonDarlingWeibullGofStatistic": "AD", "CabanaQuirozWeibullGofStatistic": "CQ*", "Chi2PearsonWeibullGofStatistic": "CHI2_PEARSON",
            "CrammerVonMisesWeibullGofStatistic": "CVM", "KullbackLeiblerWeibullGofStatistic": "KL", "LOSWeibullGofStatistic": "LOS",
            "LaplaceTransform2WeibullGofStatistic": "LT2", "LaplaceTransform3WeibullGofStatistic": "LT3", "LiaoShimokawaWeibullGofStatistic": "LS",
            "MSFWeibullGofStatistic": "MSF", "MahdiDoostparastWeibullGofStatistic": "MD", "OKWeibullGofStatistic": "OK", "RSBWeibullGofStatistic": "RSB",
            "ST1WeibullGofStatistic": "ST1", "ST2WeibullGofStatistic": "ST2", "TikuSinghWeibullGofStatistic": "TS", "WatsonWeibullGofStatistic": "W",
        },
        "LEFT": {
            "REJGWeibullGofStatistic": "REJG", "SBWeibullGofStatistic": "SB", "SPPWeibullGofStatistic": "SPP", "SbWeibullGofStatistic": "SB",
        },
        "TWO_TAILED": {
            "KolmogorovSmirnovWeibullGofStatistic": "KS", "LillieforsWeibullGofStatistic": "LILLIE", "MinToshiyukiWeibullGofStatistic": "MT",
        },
    },
}


def members(case):
    """(class name, short code, alternative) of every criterion of a family"""
    return [(n, s, alt) for alt, d in CRITERIA[case].items() for n, s in d.items()]


def cls(case, name):
    return R(ST + FAMILIES[case][0] + ":" + name)


def admissible(S, case):
    p = {}
    for q in FAMILIES[case][2]:
        p[q] = S.real(q) if q == "mean" or case == "UNIFORM" else S.real(q, pos=True)
    if case == "UNIFORM":
        S.assume(p["a"] < p["b"])
    return p


class Identity(Contract):
    """short code, code, distribution and alternative of every criterion"""

    property = "C17"
    cases = list(CRITERIA)
    conc = 0.1

    def args(S, case):
        return dict(names=[m[0] for m in members(case)])

    def run(names, case):
        out = []
        for n in names:
            c = cls(case, n)
            out.append((c.short_code(), c.code(), c.distribution(), c().alternative().type(), c().code()))
        return out

    def post_short_code(case, result):
        return all(r[0] == m[1] for r, m in zip(result, members(case)))

    def post_code(case, result):
        return all(r[1] in (m[1] + "_" + FAMILIES[case][1] + "_GOODNESS_OF_FIT", m[1] + "_GRAPH_" + FAMILIES[case][1] + "_GOODNESS_OF_FIT") and r[4] == r[1]
                   for r, m in zip(result, members(case)))

    def post_distribution(case, result):
        return all(same(r[2], getattr(R(TYPE), case)) for r in result)

    def post_alternative(case, result):
        return all(same(r[3], getattr(R(ALT), m[2])) for r, m in zip(result, members(case)))


class HypothesisOf(Contract):
    """every criterion's hypothesis has the parameters it was built with, in the order of its family"""

    property = "C17"
    cases = list(CRITERIA)
    conc = 0.2

    def args(S, case):
        p = admissible(S, case)
        S.assume(all(v > 1 for v in p.values()) if case == "BETA" else True)
        return dict(p=p, stats=[S.obj(ST + FAMILIES[case][0] + ":" + m[0], **p) for m in members(case) if not (m[0] == "RyanJoinerNormalityGofStatistic")])

    def run(stats):
        return [s.hypothesis().parameters() for s in stats]

    def post_parameters(p, case, result):
        want = list(p.values())
        if case == "LOG_NORMAL":
            want = [p["s"], math.log(p["scale"])]
        return all(len(r) == len(want) and all(eq(x, y) for x, y in zip(r, want)) for r in result)


class HypothesisRyanJoiner(Contract):
    property = "C17"
    conc = 0.05

    def args(S):
        return dict(weighted=S.bool("w"))

    def run(weighted):
        return R(ST + "normal:RyanJoinerNormalityGofStatistic")(weighted=weighted).hypothesis().parameters()

    def post_parameters(result):
        return len(result) == 2 and result[0] == 0 and result[1] == 1


class AlternativeOf(Contract):
    """criteria whose alternative is chosen by the caller report that one"""

    property = "C17"
    cases = list(CRITERIA)
    conc = 0.1

    def args(S, case):
        name = [m[0] for m in members(case) if m[1] == "KS"][0]
        return dict(kinds=list(R(ALT)), name=name)

    def run(kinds, name, case):
        return [cls(case, name)(alternative_type=k).alternative().type() for k in kinds]

    def post_alternative(kinds, result):
        return len(kinds) == 3 and all(same(a, b) for a, b in zip(kinds, result))


class UniqueCodes(Contract):
    """no two criteria share a code (the listed pair of Weibull criteria apart)"""

    property = "C17"
    conc = 0.1

    def args(S):
        return dict(classes=[cls(f, m[0]) for f in CRITERIA for m in members(f) if m[0] != "SbWeibullGofStatistic"])

    def run(classes):
        return [c.code() for c in classes]

    def post_unique(result):
        return len(set(result)) == len(result)


class UniqueCodesWeibull(Contract):
    """listed finding: SbWeibullGofStatistic and SBWeibullGofStatistic share their code"""

    property = "C17"
    witness = True

    def args(S):
        return dict(classes=[cls("WEIBULL", "SbWeibullGofStatistic"), cls("WEIBULL", "SBWeibullGofStatistic")])

    def run(classes):
        return [c.code() for c in classes]

    def post_unique(result):
        return result[0] != result[1]


class Listing(Contract):
    """the criteria listed for a distribution"""

    property = "C17"
    cases = list(DOMAINS)
    conc = 0.1

    def args(S, case):
        return dict(kind=getattr(R(TYPE), case), get=R("pysatl_criterion.utils.statistic:get_available_criteria"))

    def run(kind, get):
        return get(kind)

    def post_exactly(case, result):
        return sorted(result) == (sorted([m[1] for m in members(case)]) if case in CRITERIA else [])


# ------------------------------------------------------------------------------------ C16: refusals of criteria
def refused(case, name, p):
    try:
        cls(case, name)(**p)
    except ValueError:
        return True
    return False


class Refusals(Contract):
    """criteria with restricted parameters refuse exactly the values outside their domain"""

    property = "C16"
    cases = ["BETA", "GAMMA", "LOG_NORMAL", "STUDENT", "UNIFORM"]
    conc = 0.5

    def args(S, case):
        p = {}
        for q in FAMILIES[case][2]:
            p[q] = S.real(q)
        return dict(p=p, names=[m[0] for m in members(case) if m[0] != "ModeBetaGofStatistic"])

    def run(p, names, case):
        return [refused(case, n, p) for n in names]

    def post_refused(p, case, result):
        bad = p["b"] <= p["a"] if case == "UNIFORM" else any(v <= 0 for v in p.values())
        return all(iff(r, bad) for r in result)


class RefusalsStudentScale(Contract):
    property = "C16"

    def args(S):
        return dict(df=S.real("df", pos=True), loc=S.real("loc"), scale=S.real("scale"), names=[m[0] for m in members("STUDENT") if m[1] != "LILLIE"])

    def run(df, loc, scale, names):
        return [refused("STUDENT", n, dict(df=df, loc=loc, scale=scale)) for n in names]

    def post_refused(scale, result):
        return all(iff(r, scale <= 0) for r in result)


class RefusalsMode(Contract):
    """the mode of a beta distribution is only defined for parameters above one"""

    property = "C16"

    def args(S):
        return dict(p=dict(alpha=S.real("alpha"), beta=S.real("beta")))

    def run(p):
        return refused("BETA", "ModeBetaGofStatistic", p)

    def post_refused(p, result):
        return iff(result, p["alpha"] <= 1 or p["beta"] <= 1)


class RefusalsBins(Contract):
    property = "C16"
    cases = ["Chi2PearsonGammaGofStatistic", "CressieReadGammaGofStatistic", "LikelihoodRatioGammaGofStatistic"]

    def args(S, case):
        return dict(bins=S.int("bins", -5, 50))

    def run(bins, case):
        return refused("GAMMA", case, dict(bins=bins))

    def post_refused(bins, result):
        return iff(result, bins < 2)


class RefusalsZhang(Contract):
    property = "C16"
    cases = ["A", "C", "K", "a", "k", "B", "", "AC"]
    conc = 0.1

    def args(S, case):
        return dict(t=case)

    def run(t):
        return refused("UNIFORM", "ZhangTestsUniformGofStatistic", dict(test_type=t))

    def post_refused(t, result):
        return result == (t.upper() not in ("A", "C", "K"))
