"""Regenerates properties.jsonl and MANIFEST.json from the table below (development helper, not used by the checks)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HT = "src/pysatl_criterion/hypothesis_testing/"
SG = "src/pysatl_criterion/statistics/goodness_of_fit/"
SRC = "src/pysatl_criterion/"

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": state} if state else {}), hook_needed=None)))


prop("C01", "P-values are empirical tail probabilities of the null distribution",
     "The left-tailed p-value is the share of simulated null values not exceeding the observed statistic, the right-tailed one the share exceeding it, and the two-sided one twice the smaller of the two. Every p-value lies in [0, 1] and moves monotonically with the observed statistic in the tested direction, and the simulated values are left as they were.",
     "every non-empty list of simulated values (ties, unsorted, any length) and every observed value",
     "Tests compare a few hand-made distributions; ties, single-element and unsorted distributions of any length and observed values equal to a simulated value are not reachable by samples.",
     [HT + "p_value/calculator/p_value_calculator.py", HT + "alternative_factory/alternative_factories.py"],
     [("tail calculators", HT + "p_value/calculator/p_value_calculator.py"), ("choice by alternative", HT + "alternative_factory/alternative_factories.py")])

prop("C02", "Critical values are quantiles; acceptance regions follow the alternative",
     "The critical value of a left-tailed test is the quantile of the simulated null distribution at the significance level, of a right-tailed test the quantile at one minus the level, and of a two-sided test the pair of quantiles at half the level and one minus half the level. The acceptance region is everything not below, not above, or between the critical values, boundaries included; a larger level never makes an observation acceptable that a smaller one rejects.",
     "every non-empty list of simulated values, every significance level in [0, 1], every observed value",
     "Tests use a handful of levels and distributions without ties; boundary values and tied distributions decide whether the stated level is respected.",
     [HT + "critical_values/calculator/critical_value_calculator.py", HT + "critical_values/critical_area/critical_areas.py", HT + "alternative_factory/alternative_factories.py"],
     [("quantile calculators", HT + "critical_values/calculator/critical_value_calculator.py"), ("acceptance regions", HT + "critical_values/critical_area/critical_areas.py")])

prop("C03", "A goodness-of-fit test reports the decision its null distribution implies",
     "Testing a sample evaluates the chosen statistic on that sample, obtains the null distribution for that statistic and the sample's size, and reports the statistic, the level and either the p-value or the critical value for the statistic's alternative. The hypothesis is rejected exactly when the p-value does not exceed the level, respectively when the statistic lies outside the acceptance region; without an explicit method the critical value of a simulated null distribution decides, and without a null distribution no verdict is given but an error raised.",
     "every sample, statistic, alternative, significance level and null distribution",
     "Tests mock one collaborator at a time with one distribution; the composition for every alternative, sample and boundary value is not covered.",
     [HT + "goodness_of_fit_test/goodness_of_fit_test.py", HT + "alternative_factory/alternative_factories.py", HT + "model.py"],
     [("decision methods", HT + "goodness_of_fit_test/goodness_of_fit_test.py"), ("alternative dispatch", HT + "alternative_factory/alternative_factories.py")])

prop("C04", "Simulated null distributions come from fresh samples of the tested hypothesis",
     "A simulated null distribution has exactly the requested number of entries, each being the statistic evaluated on its own freshly generated sample of the requested size, drawn from the hypothesised distribution with the hypothesised parameters. A non-positive number of simulations or sample size is refused.",
     "every number of simulations, every sample size, every statistic and hypothesis parameters",
     "Tests look at lengths and types for a few counts; reuse of samples or a wrong size cannot be seen from a random result.",
     [HT + "limit_distribution/base.py", SRC + "utils/generator.py"],
     [("Monte Carlo loop", HT + "limit_distribution/base.py"), ("generator lookup", SRC + "utils/generator.py")])

prop("C05", "Stored null distributions are looked up for exactly the tested hypothesis",
     "When null distributions are taken from storage, the storage is asked for the statistic's code, the hypothesis' parameter values in their order and the sample size at hand, and what it returns is passed on value for value. If nothing is stored the answer is that there is none.",
     "every statistic, hypothesis parameters, sample size and stored distribution",
     "Tests check single mocked calls with fixed values.",
     [HT + "limit_distribution/base.py", SRC + "statistics/hypothesis.py"],
     [("storage-backed resolver", HT + "limit_distribution/base.py")])

prop("C06", "Multiple-testing corrections keep positions, order, bounds and decisions",
     "For every correction the adjusted p-values have the length and positions of the raw ones, lie in [0, 1], are never below the raw ones, keep their order, and do not alter the caller's list. Testing rejects exactly the hypotheses whose adjusted p-value is below the threshold and refuses input containing a value outside [0, 1].",
     "every list of p-values of any length (ties, zeros, ones) and every threshold",
     "Tests use lists of at most a handful of p-values; order preservation and positions under ties need all lists.",
     [HT + "multiple_testing/abstract_multiple_testing.py", HT + "multiple_testing/fwer.py", HT + "multiple_testing/fdr.py"],
     [("common test procedure", HT + "multiple_testing/abstract_multiple_testing.py"), ("corrections", HT + "multiple_testing/fwer.py"), ("step-up correction", HT + "multiple_testing/fdr.py")])

prop("C07", "Single-step corrections follow the Bonferroni and Sidak formulas",
     "The Bonferroni-adjusted p-value is the raw one times the number of hypotheses capped at one, the Sidak-adjusted one is one minus the complement of the raw one to the power of the number of hypotheses. Neither depends on the other p-values, and both refuse values outside [0, 1].",
     "every list of p-values of any length",
     "Tests compare a few lists against fixed numbers.",
     [HT + "multiple_testing/fwer.py"], [("closed-form corrections", HT + "multiple_testing/fwer.py")])

prop("C08", "Step-wise corrections follow the Holm and Benjamini-Yekutieli procedures",
     "The Benjamini-Yekutieli adjusted p-value of the k-th smallest of n p-values is the minimum over all not smaller ones of p times n times the n-th harmonic number divided by the rank, capped at one. Where the products of the Holm procedure (the k-th smallest p-value times the number of not yet handled hypotheses) do not decrease with k, the Holm adjusted p-values are these products capped at one; always they lie between the raw and the Bonferroni-adjusted ones.",
     "every list of p-values up to ten thousand entries, including ties",
     "Tests use short lists; the running minimum, ranks under ties and the position mapping need all lists.",
     [HT + "multiple_testing/fwer.py", HT + "multiple_testing/fdr.py"], [("step-down correction", HT + "multiple_testing/fwer.py"), ("step-up correction", HT + "multiple_testing/fdr.py")])

prop("C09", "Loading a critical-value distribution consults local storage before the remote",
     "When a remote storage is configured, loading looks for the requested criterion, sample size and tolerance in the local storage first; if it is there, loading succeeds without any remote access and stores nothing. Otherwise the remote storage is asked for exactly the same criterion, size and tolerance; what it returns is stored locally unchanged and loading succeeds, and when it has nothing, nothing is stored and loading reports failure. Without a remote storage nothing is stored and failure is reported, and an error of either storage is never turned into success.",
     "every key, every state of the two storages, every storage failure",
     "Tests script a few mock sequences; orderings of failures and the key passed on to both storages are sampled, not covered.",
     [HT + "critical_values/loader/remote_loader.py"], [("load", HT + "critical_values/loader/remote_loader.py")],
     over=("inputs", "fault_sequences"))

prop("C10", "Bulk loading reports exactly what was newly stored and what was not found",
     "Bulk loading asks the remote storage, with the given sample size and tolerance, for exactly those requested codes that the local storage does not already hold, in their order, and saves locally exactly the distributions it returns. It reports the number of requested codes, the number already held locally, the number of newly saved distributions (none if the local save fails), and lists exactly the requested codes that neither storage provides. An error of the remote storage is never turned into success.",
     "every list of codes, every remote answer, every pattern of local save failures",
     "Tests cover single failures in fixed positions.",
     [HT + "critical_values/loader/remote_loader.py"], [("load_bulk", HT + "critical_values/loader/remote_loader.py")],
     over=("inputs", "fault_sequences"))

prop("C11", "Stored null distributions are found again under their key, replaced and deleted",
     "A distribution saved under a key (code, parameters, sample size, number of simulations) is returned by a lookup of that key with its values in order (to single precision), its code, parameters, sizes and experiment; if several experiments stored the same key, the latest experiment's is returned. Saving the same key for the same experiment again replaces the values instead of adding a second copy; deleting removes all distributions of that key and no others. A lookup of an absent key answers that there is none.",
     "every sequence of save, lookup and delete operations over every key and value list",
     "Tests use mocks of the database session, so nothing checks that the stored row is found again.",
     [SRC + "persistence/sqlalchemy/datastorage.py", SRC + "persistence/sqlalchemy/models/limit_distribution_orm.py", SRC + "persistence/sqlalchemy/alchemy_decorator.py"],
     [("store operations", SRC + "persistence/sqlalchemy/datastorage.py"), ("row mapping", SRC + "persistence/sqlalchemy/models/limit_distribution_orm.py")],
     over=("inputs", "histories"))

prop("C12", "Lookups for critical values return the best admissible simulation",
     "A lookup for critical values only considers distributions of the requested code whose sample size lies within the tolerance around the requested one, bounds included, and returns one with the most simulations among them, or nothing if there is none. A bulk lookup returns, for every requested code that has any distribution within the tolerance, exactly one of them, again one with the most simulations, and nothing outside the request.",
     "every stored collection and every query",
     "Tests mock the database session.",
     [SRC + "persistence/sqlalchemy/datastorage.py"], [("critical-value lookups", SRC + "persistence/sqlalchemy/datastorage.py")],
     over=("inputs", "histories"))

prop("C13", "Compressing stored numbers loses nothing",
     "Whatever list of numbers is written to a compressed column is read back with the same length, order and values up to the column's precision, and an absent value stays absent.",
     "every list of representable numbers, every precision",
     "Tests use a few short arrays.",
     [SRC + "persistence/sqlalchemy/alchemy_decorator.py"], [("column type", SRC + "persistence/sqlalchemy/alchemy_decorator.py")])

prop("C14", "Random generators draw the requested number of values from the configured law",
     "A generator produces exactly the requested number of independent values of the distribution it is named after, with each configured parameter in its documented role (gamma: shape and rate; Weibull: exponentiated with shapes a and k). Composite distributions (contaminated, mixed, truncated) combine their components with the configured probabilities, shifts and scales.",
     "every parameter value and every positive sample size",
     "Random output hides swapped or ignored parameters; tests check lengths only.",
     [SRC + "generator/generators.py", SRC + "core/distributions/"], [("generators", SRC + "generator/generators.py"), ("samplers", SRC + "core/distributions/")])

prop("C15", "Generators are found by distribution and labelled by their parameters",
     "Asking for a generator of a distribution yields one generator of exactly that distribution, built with the given parameters, or, where the generator has defaults, with these if none are given. Each generator reports a code that contains its name and all its parameter values.",
     "every distribution and parameter assignment",
     "Tests look at a few distributions; a wrong class picked from the registry yields plausible samples.",
     [SRC + "utils/generator.py", SRC + "generator/generators.py", SRC + "generator/model.py"], [("registry lookup", SRC + "utils/generator.py")], over=("inputs", "configurations"))

prop("C16", "Distribution parameters are validated exactly by their documented domain",
     "A distribution description lists exactly the parameters its generator takes; each parameter's validator accepts exactly the numbers of the documented domain, and the default values lie in it. Statistics refuse parameters outside their documented domain at construction.",
     "every parameter assignment",
     "Tests probe a few values on each side of a bound.",
     [SRC + "distribution/distributions.py", SRC + "distribution/validator.py"], [("descriptors", SRC + "distribution/distributions.py"), ("validators", SRC + "distribution/validator.py")])

prop("C17", "Criteria are identified by unique codes and listed under their distribution",
     "No two concrete criteria share a code, each criterion's code is built from its short code and its family, its hypothesis and distribution are the ones of its family, and its alternative is the side on which its statistic speaks against the hypothesis. Listing the criteria of a distribution yields the short codes of exactly the criteria declared for that distribution.",
     "every criterion in the library and every distribution",
     "A duplicate or misfiled code only shows when all criteria are compared with each other.",
     [SG, SRC + "utils/statistic.py", SRC + "utils/distribution.py"], [("codes", SG), ("listing", SRC + "utils/statistic.py")], over=("configurations",))

prop("C18", "Density and distribution functions match their named laws",
     "The library's density, distribution and log-likelihood style helpers of the named laws evaluate the textbook formula of that law at every point of its domain with each parameter in its documented role. The sample moment helpers equal the mean of powers of the (centred) observations.",
     "every argument and parameter value",
     "Tests compare a few points.",
     [SRC + "core/distributions/"], [("distribution functions", SRC + "core/distributions/")])

prop("C19", "Likelihood helpers evaluate the maximised likelihood of the named law",
     "For every supported law the likelihood helper returns the product over the sample of the law's density at the maximum-likelihood (documented estimator's) parameters of that sample, and zero for samples outside the law's support.",
     "every sample and every parameter value",
     "Tests compare a few samples.",
     [SRC + "estimation/maximum_likelihood/function_for_maximum_likelihood.py"], [("likelihood functions", SRC + "estimation/maximum_likelihood/function_for_maximum_likelihood.py")])

prop("C20", "Distribution-distance statistics equal their definitions",
     "The Kolmogorov-Smirnov, Anderson-Darling, Cramer-von Mises, Lilliefors, minimum-distance and Pearson chi-square statistics equal their textbook definitions in terms of the hypothesised distribution function of the ordered sample or the observed and expected counts, for the chosen alternative.",
     "every ordered sample and every hypothesised distribution function",
     "Tests compare one or two samples per statistic with reference numbers; ranks, ties and edges are not distinguished by them.",
     [SG + "common.py"], [("shared statistics", SG + "common.py")])

prop("C21", "Normality criteria compute their documented statistics",
     "Each normality criterion evaluated on a sample equals the documented statistic of that sample: moments, order-statistic regressions, empirical-distribution distances, spacings and characteristic-function distances as defined in the literature it names.",
     "every sample of admissible size",
     "Tests compare one or two samples with reference numbers.",
     [SG + "normal.py", SG + "common.py"], [("normality criteria", SG + "normal.py")])

prop("C22", "Exponentiality criteria compute their documented statistics",
     "Each exponentiality criterion evaluated on a sample of positive values equals the documented statistic of that sample.",
     "every sample of admissible size", "Tests compare one or two samples with reference numbers.",
     [SG + "exponent.py", SG + "common.py"], [("exponentiality criteria", SG + "exponent.py")])

prop("C23", "Weibull criteria compute their documented statistics",
     "Each criterion for the Weibull distribution evaluated on a sample equals the documented statistic of that sample for the hypothesised parameters.",
     "every sample of admissible size and every parameter value", "Tests compare one or two samples with reference numbers.",
     [SG + "weibull.py", SG + "common.py"], [("Weibull criteria", SG + "weibull.py")])

prop("C24", "Uniformity criteria compute their documented statistics",
     "Each uniformity criterion evaluated on a sample equals the documented statistic of that sample for the hypothesised interval, and observations outside the interval are refused.",
     "every sample of admissible size and every interval", "Tests compare one or two samples with reference numbers.",
     [SG + "uniform.py", SG + "common.py"], [("uniformity criteria", SG + "uniform.py")])

prop("C25", "Gamma criteria compute their documented statistics",
     "Each criterion for the gamma distribution evaluated on a sample of positive values equals the documented statistic of that sample for the hypothesised shape and rate.",
     "every sample of admissible size and every parameter value", "Tests compare one or two samples with reference numbers.",
     [SG + "gamma.py", SG + "common.py"], [("gamma criteria", SG + "gamma.py")])

prop("C26", "Beta criteria compute their documented statistics",
     "Each criterion for the beta distribution evaluated on a sample from the unit interval equals the documented statistic of that sample for the hypothesised parameters, and observations outside the unit interval are refused.",
     "every sample of admissible size and every parameter value", "Tests compare one or two samples with reference numbers.",
     [SG + "beta.py", SG + "common.py"], [("beta criteria", SG + "beta.py")])

prop("C27", "Log-normal and Student criteria compute their documented statistics",
     "Each criterion for the log-normal distribution equals the documented statistic of the sample, criteria derived from normality criteria being those criteria of the logarithms; each criterion for Student's distribution equals the documented statistic of the standardised sample.",
     "every sample of admissible size and every parameter value", "Tests compare one or two samples with reference numbers.",
     [SG + "log_normal.py", SG + "student.py", SG + "common.py"], [("log-normal criteria", SG + "log_normal.py"), ("Student criteria", SG + "student.py")])

prop("C28", "Graph criteria measure the proximity graph of the sample",
     "The graph criteria connect two observations exactly when they are closer than the family's distance threshold and report that graph's number of edges, maximal degree, average degree, number of connected components, clique number and independence number.",
     "every sample", "Tests use samples of at most a dozen points; connectivity and clique computations need all graphs.",
     [SG + "graph_goodness_of_fit.py", SG + "normal.py", SG + "exponent.py", SG + "gamma.py"], [("graph statistics", SG + "graph_goodness_of_fit.py")])

prop("C29", "Evaluating a criterion leaves the sample untouched and is repeatable",
     "Evaluating a criterion on a sample does not change the sample, and evaluating it again on the same sample yields the same value. The value depends on nothing but the sample and the criterion's own parameters.",
     "every criterion and every sample", "Tests evaluate once per sample and discard it.",
     [SG], [("criteria", SG)], over=("inputs", "histories"))

prop("C30", "The order of the observations does not matter",
     "Every criterion whose definition uses the sample only through its ordered values or symmetric sums yields the same value for any reordering of the sample.",
     "every sample and every permutation of it", "Tests do not permute samples.",
     [SG], [("criteria", SG)])

prop("C31", "Scale and location invariance of the composite criteria",
     "Normality criteria that estimate location and scale are unchanged when every observation is shifted by a constant or multiplied by a positive constant, and scale-free exponentiality criteria are unchanged when every observation is multiplied by a positive constant.",
     "every sample, shift and positive factor", "Tests do not transform samples.",
     [SG + "normal.py", SG + "exponent.py"], [("normality criteria", SG + "normal.py"), ("exponentiality criteria", SG + "exponent.py")])

LEVEL_NOTE = ("Contracts on the code in /repo/src, parsed on every run; every obligation is generated from the current source by a "
              "symbolic verification-condition generator for the Python subset used and discharged by normalisation rules and z3. "
              "Reals are mathematical (no floating-point rounding); numpy/scipy operations are axiomatised library models, "
              "exercised against the real libraries on every run by concrete conformance executions of the same contracts. ")


def main():
    sys.path.insert(0, os.path.join(ROOT, "pv", "native"))
    props_claimed = set()
    for f in sorted(os.listdir(os.path.join(ROOT, "specs"))):
        if f.endswith(".py"):
            t = open(os.path.join(ROOT, "specs", f)).read()
            for m in re.findall(r'propert(?:y|ies) = (.*)', t):
                props_claimed |= set(re.findall(r"[CZS]\d\d\d?", m))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    notes = {}
    nf = os.path.join(ROOT, "tools", "level_notes.json")
    if os.path.exists(nf):
        notes = json.load(open(nf))
    checks, na = [], []
    for p in P:
        if p["id"] in props_claimed:
            checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                               technique="contract-based deductive verification of the current source (own VC generator + z3)",
                               level="proof", level_note=LEVEL_NOTE + notes.get(p["id"], "")))
        else:
            na.append(dict(property=p["id"], reason="contracts for this property are not written yet"))
    man = dict(version=1, setup_cmd="mkdir -p evidence", checks=checks, not_applicable=na,
               notes="See DESIGN.md; known findings in known_findings.json.")
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
