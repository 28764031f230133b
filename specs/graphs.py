"""Contracts on the criteria of the proximity graph (C28)."""
from itertools import combinations

import scipy.stats as stats
from criteria import CRITERIA, FAMILIES
from edf import *
from speclib import *

G = "pysatl_criterion.statistics.goodness_of_fit."
BASE = G + "graph_goodness_of_fit:"
CASES = [f + "/" + c for f in CRITERIA for side in CRITERIA[f].values() for c in side if c.startswith("Graph")]
ADJACENCY = [c for c in CASES if "Clique" not in c and "Independence" not in c]
SAMPLES = {"NORMAL": (-20, 20), "EXPONENTIAL": (0, 20), "GAMMA": (0.001, 12)}


def spread(x):
    return Max(len(x), lambda i: x[i]) + Max(len(x), lambda i: -x[i])


class Distance(Contract):
    """observations closer than a tenth of the range are connected"""

    property = "C28"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)))

    def run(x):
        return R(BASE + "AbstractGraphTestStatistic._compute_dist")(x)

    def post_tenth(x, result):
        return eq(result, spread(x) / 10)


class DistanceNormality(Distance):
    """... in units of the variance"""

    property = "C28"

    def run(x):
        return R(G + "normal:AbstractGraphNormalityGofStatistic._compute_dist")(x)

    def pre(x):
        return ss(x) == 0 or ss(x) > 0.001

    def post_tenth(x, result):
        return eq(result, ite(ss(x) == 0, spread(x) / 10, len(x) * spread(x) / 10 / ss(x)))


class DistanceExponentiality(Distance):
    """... in units of the mean"""

    property = "C28"

    def run(x):
        return R(G + "exponent:AbstractGraphExponentialityGofStatistic._compute_dist")(x)

    def pre(x):
        return abs(mean(x)) > 0.001 or forall(len(x), lambda i: x[i] == 0)

    def post_tenth(x, result):
        return eq(result, ite(mean(x) == 0, spread(x) / 10, spread(x) / 10 / mean(x)))


def threshold(f, y):
    """the distance threshold of the family"""
    d = (max(y) - min(y)) / 10
    m = sum(y) / len(y)
    if f == "NORMAL":
        v = sum([(t - m) ** 2 for t in y]) / len(y)
        return d / v if v != 0 else d
    if f == "EXPONENTIAL":
        return d / m if m != 0 else d
    return d


def measures(c, y, d):
    """the graph statistic by definition"""
    n = len(y)
    near = [[i != j and abs(y[i] - y[j]) < d for j in range(n)] for i in range(n)]
    degrees = [sum(r) for r in near]
    if c.startswith("GraphEdges"):
        return sum([near[i][j] for i in range(n) for j in range(i)])
    if c.startswith("GraphMaxDegree"):
        return max(degrees)
    if c.startswith("GraphAverage"):
        return sum(degrees) / n
    if c.startswith("GraphConnected"):
        label = list(range(n))
        for _ in range(n):
            for i in range(n):
                for j in range(n):
                    if near[i][j]:
                        label[i] = min(label[i], label[j])
        return len(set(label))
    best = 1
    for k in range(2, n + 1):
        wanted = c.startswith("GraphClique")
        if not any([all([near[i][j] == wanted for i, j in combinations(s, 2)]) for s in combinations(range(n), k)]):
            break
        best = k
    return best


class GraphStatistic(Contract):
    """the statistic of a small sample against the definition by exhaustive search"""

    property = "C28"
    bounded = "adjacency lists grown from both ends and depth-first search are outside the verifier's loop rules"
    bound = "samples of at most 9 observations"
    conc = 4
    cases = ADJACENCY
    unchanged = ["x"]

    def args(S, case):
        f = case.split("/")[0]
        n = S.len("n", 1, chi=9)
        lo, hi = SAMPLES[f]
        kind = S.choice("kind", ["spread", "ties", "constant", "wide"])
        if kind == "spread":
            x = S.arr("x", n, lo=lo, hi=hi)
        elif kind == "ties":
            x = S.arr("x", n, lo=max(lo, 0), hi=6, integer=True)
        elif kind == "constant":
            t = S.real("t", lo=lo, hi=hi)
            x = [t for i in range(n)]
        else:
            x = S.arr("x", n, lo=max(lo, 0), hi=1.5)
        return dict(x=x, case=case, kind=kind, a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6))

    def pre(x, case, a, b):
        f = case.split("/")[0]
        y = scaled(f, x, a, b)
        d = threshold(f, y)
        return max(y) == min(y) or all([abs(abs(y[i] - y[j]) - d) > 1e-9 for i in range(len(y)) for j in range(i)])

    def run(x, case, a, b):
        f, c = case.split("/")
        q = dict(alpha=a, beta=b) if f == "GAMMA" else {}
        return R(G + FAMILIES[f][0] + ":" + c)(**q).execute_statistic(x)

    def post_definition(x, case, a, b, result):
        f, c = case.split("/")
        y = scaled(f, x, a, b)
        return eq(result, measures(c, y, threshold(f, y)))


class GraphSearch(GraphStatistic):
    """clique and independence numbers (proved from loop invariants below) against exhaustive search"""

    property = "C28"
    bounded = "end-to-end cross-check of CliqueNumber and IndependenceNumber, which are proved: exhaustive search of a small sample"
    cases = [c for c in CASES if c not in ADJACENCY]


def scaled(f, x, a, b):
    """what the graph is built on"""
    return [float(t) for t in stats.gamma.cdf(x, a, scale=1 / b)] if f == "GAMMA" else [float(t) for t in x]


SUFFIX = {"NORMAL": "NormalityGofStatistic", "EXPONENTIAL": "ExponentialityGofStatistic", "GAMMA": "GammaGofStatistic"}


class GraphOfSample(Contract):
    """adjacency statistics are taken of the graph of the (transformed) sample with the family's threshold"""

    property = "C28"
    cases = ADJACENCY
    unchanged = ["x"]

    def args(S, case):
        f, c = case.split("/")
        lo, hi = SAMPLES[f]
        short = c[:-len(SUFFIX[f])]
        return dict(x=S.arr("x", S.len("n", 1), lo=lo, hi=hi), case=case, a=S.real("a", lo=0.3, hi=6), b=S.real("b", lo=0.3, hi=6),
                    adjacency=S.stub(BASE + "AbstractGraphTestStatistic._make_adjacency_list", lambda rvs, dist: (rvs, dist)),
                    statistic=S.stub(BASE + short + "TestStatistic.get_graph_stat", lambda graph: graph))

    def pre(x, case):
        return case[:5] == "GAMMA" or (ss(x) > 0.001 and abs(mean(x)) > 0.001)

    def run(x, case, a, b):
        f, c = case.split("/")
        q = dict(alpha=a, beta=b) if f == "GAMMA" else {}
        return R(G + FAMILIES[f][0] + ":" + c)(**q).execute_statistic(x)

    def post_graph(x, case, a, b, result):
        y, d = result
        f = case.split("/")[0]
        if f == "GAMMA":
            z = sorted(values(x, lambda t: stats.gamma.cdf(t, a, scale=1 / b)))
            return len(y) == len(x) and forall(len(x), lambda i: eq(y[i], z[i])) and eq(d, spread(z) / 10)
        u = mean(x) if f == "EXPONENTIAL" else ss(x) / len(x)
        return len(y) == len(x) and forall(len(x), lambda i: y[i] == x[i]) and eq(d, spread(x) / 10 / u)


def ordered(case, x, a, b):
    """the ordered observations the graph is built on"""
    return sorted(values(x, lambda t: stats.gamma.cdf(t, a, scale=1 / b))) if case == "GAMMA" else sorted(x)


def reach(z):
    """stands for the distance threshold (its own contracts say what it is)"""
    return spread(z) / 10


class Windows(Contract):
    unchanged = ["x"]
    conc = 4
    cases = ["NORMAL", "EXPONENTIAL", "GAMMA"]

    def args(S, case):
        lo, hi = SAMPLES[case]
        m = dict(NORMAL=G + "normal:AbstractGraph" + SUFFIX[case], EXPONENTIAL=G + "exponent:AbstractGraph" + SUFFIX[case],
                 GAMMA=BASE + "AbstractGraphTestStatistic")[case]
        n = S.len("n", 1)
        x = S.arr("x", n, lo=lo, hi=hi)
        a, b = S.real("a", lo=0.3, hi=6), S.real("b", lo=0.3, hi=6)
        return dict(x=x, n=n, case=case, a=a, b=b, dist=S.stub(m + "._compute_dist", reach),
                    longest=S.ghost("longest", n, lambda: chains(ordered(case, x, a, b)), integer=True))


def chains(z):
    """longest[j]: how many observations of a set with pairwise distances of at least the threshold, ending at j, there are"""
    h = []
    for j in range(len(z)):
        h.append(1 + max([h[i] for i in range(j) if z[j] >= z[i] + reach(z)], default=0))
    return h


class CliqueNumber(Windows):
    """the largest number of observations pairwise closer than the threshold: consecutive ones of the ordered sample"""

    property = "C28"
    loops = {"GraphCliqueNumberTestStatistic.execute_statistic": ["inv_windows", "inv_advance"]}

    def run(x, case, a, b):
        q = dict(alpha=a, beta=b) if case == "GAMMA" else {}
        return R(G + FAMILIES[case][0] + ":GraphCliqueNumber" + SUFFIX[case])(**q).execute_statistic(x)

    def inv_windows(done, n, rvs, dist, right_border, clique_number):
        """after `done` left borders: the right border closes the last window, the number is the best so far"""
        return (0 <= right_border <= n and clique_number >= 1 and implies(done == 0, right_border == 0)
                and implies(done >= 1, forall(right_border, lambda j: rvs[j] < rvs[done - 1] + dist))
                and forall(done, lambda i: forall(n, lambda j: implies(i <= j and rvs[j] < rvs[i] + dist, j - i + 1 <= clique_number)))
                and (clique_number == 1 or exists(n, lambda w: w + clique_number <= n and rvs[w + clique_number - 1] < rvs[w] + dist)))

    def inv_advance(n, rvs, dist, left_border, right_border):
        return 0 <= right_border <= n and forall(right_border, lambda j: rvs[j] < rvs[left_border] + dist)

    def post_no_larger(x, n, case, a, b, result):
        z = ordered(case, x, a, b)
        d = reach(z)
        return forall(n, lambda i: forall(n, lambda j: implies(i <= j and z[j] < z[i] + d, j - i + 1 <= result)))

    def post_attained(x, n, case, a, b, result):
        z = ordered(case, x, a, b)
        d = reach(z)
        return result == 1 or result > 1 and exists(n, lambda w: w + result <= n and z[w + result - 1] < z[w] + d)


class IndependenceNumber(Windows):
    """the largest number of observations with pairwise distances of at least the threshold"""

    property = "C28"
    loops = {"GraphIndependenceNumberTestStatistic.execute_statistic": ["inv_greedy"]}

    def pre(x, n, case, a, b, longest):
        z = ordered(case, x, a, b)
        d = reach(z)
        return (forall(n, lambda j: longest[j] == 1 or exists(j, lambda i: z[j] >= z[i] + d and longest[j] == longest[i] + 1))
                and forall(n, lambda j: longest[j] >= 1 and forall(j, lambda i: implies(z[j] >= z[i] + d, longest[j] >= longest[i] + 1))))

    def run(x, case, a, b):
        q = dict(alpha=a, beta=b) if case == "GAMMA" else {}
        return R(G + FAMILIES[case][0] + ":GraphIndependenceNumber" + SUFFIX[case])(**q).execute_statistic(x)

    def inv_greedy(done, rvs, dist, longest, stat, last_chosen_position):
        """the chosen observations are as many as any independent set of those seen has, and end as early"""
        return (stat >= 1 and last_chosen_position <= rvs[done]
                and exists(done + 1, lambda w: rvs[w] == last_chosen_position and longest[w] >= stat)
                and forall(done + 1, lambda j: longest[j] <= stat and implies(longest[j] == stat, last_chosen_position <= rvs[j])))

    def post_maximal(n, longest, result):
        return forall(n, lambda j: longest[j] <= result)

    def post_attained(n, longest, result):
        return exists(n, lambda j: longest[j] >= result)


class Degrees(Contract):
    """edges, largest and average degree of a graph with any degrees"""

    property = "C28"
    cases = ["EdgesNumber", "MaxDegree", "AverageDegree"]

    def args(S, case):
        return dict(deg=S.arr("deg", S.len("n", 1), lo=0, hi=9, integer=True), case=case)

    def run(deg, case):
        return R(BASE + "Graph" + case + "TestStatistic.get_graph_stat")([list(range(deg[i])) for i in range(len(deg))])

    def post_degrees(deg, case, result):
        if case == "EdgesNumber":
            return result == Sum(len(deg), lambda i: deg[i]) // 2
        if case == "MaxDegree":
            return result == Max(len(deg), lambda i: deg[i])
        return eq(result, mean(deg))
