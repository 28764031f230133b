"""Contracts: criteria for the normal distribution (C21)."""
import numpy as np
import scipy.stats as st
from edf import *
from numpy import exp, log, pi, sqrt
from scipy.special import comb, gamma
from speclib import *

X = "pysatl_criterion.statistics.goodness_of_fit.normal:"
ALT = "pysatl_criterion.statistics.alternative:AlternativeType"


def var1(x):
    return ss(x) / (len(x) - 1)


def standard(x):
    """observations standardised by the sample mean and the unbiased variance"""
    m, s = mean(x), sqrt(var1(x))
    return seqof(len(x), lambda i: (x[i] - m) / s)


def fitted(x):
    """ordered values of the fitted normal distribution function"""
    y, m, s = sorted(x), mean(x), sqrt(var1(x))
    return seqof(len(x), lambda i: st.norm.cdf((y[i] - m) / s))


def median(x):
    n, y = len(x), sorted(x)
    return ite(n % 2 == 0, lambda: (y[n // 2 - 1] + y[n // 2]) / 2, lambda: y[n // 2])


def skew(x):
    return cmom(x, 3) / cmom(x, 2) ** (3 / 2)


def kurt(x):
    return cmom(x, 4) / cmom(x, 2) ** 2


def scores(n, a=3 / 8):
    """approximate normal scores"""
    return seqof(n, lambda i: st.norm.ppf((i + 1 - a) / (n - 2 * a + 1)))


def filliben(n):
    def level(i):
        return ite(i == 0, lambda: 1 - 0.5 ** (1 / n), lambda: ite(i == n - 1, lambda: 0.5 ** (1 / n), lambda: (i + 1 - 0.3175) / (n + 0.365)))

    return seqof(n, lambda i: st.norm.ppf(level(i)))


def jarque_bera(x):
    return len(x) / 6 * (skew(x) ** 2 + (kurt(x) - 3) ** 2 / 4)


def skew_b(n):
    """kurtosis of the skewness of n normal observations"""
    return 3 * (n ** 2 + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))


def skew_w(n):
    return sqrt(2 * (skew_b(n) - 1)) - 1


def skew_z(x):
    """D'Agostino's transformed skewness"""
    n = len(x)
    y = skew(x) * sqrt((n + 1) * (n + 3) / (6 * (n - 2)))
    w = skew_w(n)
    t = ite(y == 0, 1, y) / sqrt(2 / (w - 1))
    return log(t + sqrt(t ** 2 + 1)) / sqrt(log(w) / 2)


def kurt_parts(x):
    """numerator and denominator of the cube in Anscombe and Glynn's transformation"""
    n = len(x)
    e = 3 * (n - 1) / (n + 1)
    v = 24 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    z = (kurt(x) - e) / sqrt(v)
    g = 6 * (n ** 2 - 5 * n + 2) / ((n + 7) * (n + 9)) * sqrt(6 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    a = 6 + 8 / g * (2 / g + sqrt(1 + 4 / g ** 2))
    return a, 1 + z * sqrt(2 / (a - 4))


def kurt_z(x):
    """Anscombe and Glynn's transformed kurtosis"""
    a, d = kurt_parts(x)
    c = ((1 - 2 / a) / abs(d)) ** (1 / 3)
    return (1 - 2 / (9 * a) - ite(d > 0, c, -c)) / sqrt(2 / (9 * a))


def shapiro_francia(x):
    n, y = len(x), sorted(x)
    e = scores(n)
    return Sum(n, lambda i: e[i] * y[i]) ** 2 / (ss(x) * Sum(n, lambda i: e[i] ** 2))


def epps_pulley(x):
    n, m, v, y = len(x), mean(x), cmom(x, 2), sorted(x)
    pairs = Sum(n, lambda k: Sum(k, lambda j: exp(-(y[k] - y[j]) ** 2 / (2 * v))))
    return 1 + n / sqrt(3) + 2 / n * pairs - sqrt(2) * Sum(n, lambda i: exp(-(x[i] - m) ** 2 / (4 * v)))


def lmoment(y, r, t):
    """sample L-moment of order r of the ordered sample, trimmed by t on both sides"""
    n = len(y)

    def weight(i):
        w = comb(i, r + t - 1) * comb(n - 1 - i, t)
        for k in range(1, r):
            w = w + (-1) ** k * CHOOSE[r - 1][k] * comb(i, r + t - 1 - k) * comb(n - 1 - i, t + k)
        return w

    if t == 0:
        return Sum(n, lambda i: y[i] * weight(i)) / (r * comb(n, r))
    return Sum(n - 2, lambda i: y[i + 1] * weight(i + 1)) / (r * comb(n, r + 2 * t))


CHOOSE = {1: (1, 1), 2: (1, 2, 1), 3: (1, 3, 3, 1)}
HOSKING = {
    0: ((0.12383, 0.0088038, 0.0049295), (0.12321, 0.0040493, 0.0020802), (0.12291, 0.0019434, 0.00095785)),
    1: ((0.067077, 0.0081391, 0.0042752), (0.064456, 0.0034657, 0.0015699), (0.063424, 0.0016064, 0.00068100)),
    2: ((0.044174, 0.0086570, 0.0042066), (0.040389, 0.0033818, 0.0013301), (0.039030, 0.0015120, 0.00054207)),
    3: ((0.033180, 0.0095765, 0.0044609), (0.028224, 0.0033813, 0.0011823), (0.026645, 0.0014547, 0.00045107)),
}


def hosking(y, t):
    n = len(y)
    l2, l3, l4 = lmoment(y, 2, t), lmoment(y, 3, t), lmoment(y, 4, t)

    def form(c):
        return (l3 / l2) ** 2 / c[1] + (l4 / l2 - c[0]) ** 2 / c[2]

    a, b, c = HOSKING[t]
    return ite(n <= 25, lambda: form(a), lambda: ite(n <= 50, lambda: form(b), lambda: form(c)))


def zhang_c(F):
    n = len(F)
    return Sum(n, lambda i: log((1 / F[i] - 1) / ((n - 1 / 2) / (i + 1 / 4) - 1)) ** 2)


def zhang_a(F):
    n = len(F)
    return -Sum(n, lambda i: log(F[i]) / (n - i - 1 / 2) + log(1 - F[i]) / (i + 1 / 2))


def glen_leemis_barr(F):
    """Anderson-Darling form of the ordered levels of the order statistics"""
    n = len(F)
    p = sorted(seqof(n, lambda i: st.beta.cdf(F[i], i + 1, n - i)))
    return -n - Sum(n, lambda i: (2 * n - 1 - 2 * i) * log(p[i]) + (2 * i + 1) * log(1 - p[i])) / n


def doornik_alpha(x):
    """degrees of freedom of the chi-squared approximation (halved)"""
    n, b1 = len(x), skew(x)
    d = (n - 3) * (n + 1) * (n ** 2 + 15 * n - 4)
    a = (n - 2) * (n + 5) * (n + 7) * (n ** 2 + 27 * n - 70) / (6 * d)
    c = (n - 7) * (n + 5) * (n + 7) * (n ** 2 + 2 * n - 5) / (6 * d)
    return a + b1 ** 2 * c


def doornik_y(x):
    n = len(x)
    return skew(x) * sqrt((n + 1) * (n + 3) / (6 * (n - 2))) / sqrt(2 / (skew_w(n) - 1))


def doornik_hansen(x):
    n, b1, b2 = len(x), skew(x), kurt(x)
    w = skew_w(n)
    y = doornik_y(x)
    z1 = log(y + sqrt(y ** 2 + 1)) / sqrt(log(sqrt(w)))
    d = (n - 3) * (n + 1) * (n ** 2 + 15 * n - 4)
    k = (n + 5) * (n + 7) * (n ** 3 + 37 * n ** 2 + 11 * n - 313) / (12 * d)
    alpha = doornik_alpha(x)
    chi = (b2 - 1 - b1 ** 2) * 2 * k
    z2 = ((chi / (2 * alpha)) ** (1 / 3) - 1 + 1 / (9 * alpha)) * sqrt(9 * alpha)
    return z1 ** 2 + z2 ** 2


def deviation(x, m):
    """mean absolute deviation from the median m, consistent for the normal standard deviation"""
    return sqrt(pi / 2) * Sum(len(x), lambda i: abs(x[i] - m)) / len(x)


def robust_jarque_bera(x):
    n, j = len(x), deviation(x, np.median(x))
    return n / 6 * (cmom(x, 3) / j ** 3) ** 2 + n / 64 * (cmom(x, 4) / j ** 4 - 3) ** 2


def hermite(k, t):
    """normalised Hermite polynomial"""
    if k == 0:
        return 1
    if k == 1:
        return t
    if k == 2:
        return (t ** 2 - 1) / sqrt(2)
    if k == 3:
        return (t ** 3 - 3 * t) / sqrt(6)
    if k == 4:
        return (t ** 4 - 6 * t ** 2 + 3) / sqrt(24)
    if k == 5:
        return (t ** 5 - 10 * t ** 3 + 15 * t) / sqrt(120)
    if k == 6:
        return (t ** 6 - 15 * t ** 4 + 45 * t ** 2 - 15) / sqrt(720)
    if k == 7:
        return (t ** 7 - 21 * t ** 5 + 105 * t ** 3 - 105 * t) / sqrt(5040)
    return (t ** 8 - 28 * t ** 6 + 210 * t ** 4 - 420 * t ** 2 + 105) / sqrt(40320)


def hermite_sum(z, k):
    return Sum(len(z), lambda i: hermite(k, z[i])) / sqrt(len(z))


def bontemps_meddahi(x, top):
    z = standard(x)
    q = hermite_sum(z, 3) ** 2
    for k in range(4, top + 1):
        q = q + hermite_sum(z, k) ** 2
    return q


def bonett_seier(x):
    n, m = len(x), mean(x)
    omega = 13.29 * (log(sqrt(cmom(x, 2))) - log(Sum(n, lambda i: abs(x[i] - m)) / n))
    return sqrt(n + 2) * (omega - 3) / 3.54


def martinez_iglewicz(x):
    n, m = len(x), median(x)
    a = 9 * median(seqof(n, lambda i: abs(x[i] - m)))
    z = seqof(n, lambda i: (x[i] - m) / a)
    top = Sum(n, lambda i: ite(abs(z[i]) < 1, (x[i] - m) ** 2 * (1 - z[i] ** 2) ** 4, 0))
    low = Sum(n, lambda i: ite(abs(z[i]) < 1, (1 - z[i] ** 2) * (1 - 5 * z[i] ** 2), 0))
    return Sum(n, lambda i: (x[i] - m) ** 2) / (n - 1) / (n * top / low ** 2)


def cabana_s(x):
    n, z = len(x), standard(x)
    h = {k: hermite_sum(z, k) for k in range(3, 9)}

    def at(t):
        s = h[4]
        for j in range(2, 6):
            s = s + hermite(j - 1, t) * h[j + 3] / sqrt(j)
        return abs(st.norm.cdf(t) * h[3] - st.norm.pdf(t) * s)

    return Max(n, lambda i: at(z[i]))


def cabana_k(x, last=1):
    """kurtosis process of Cabana and Cabana, order 5; the last term carries the given weight"""
    n, z = len(x), standard(x)
    h = {k: hermite_sum(z, k) for k in range(3, 9)}

    def at(t):
        s = 0
        for j in range(2, 6):
            s = s + (sqrt(j / (j - 1)) * hermite(j - 2, t) + hermite(j, t)) * h[j + 3] * (last if j == 5 else 1)
        return abs((st.norm.cdf(t) - t * st.norm.pdf(t)) * h[4] - st.norm.pdf(t) * (h[3] + s))

    return Max(n, lambda i: at(z[i]))


def chen_shapiro(x):
    n, y, m = len(x), sorted(x), scores(len(x))
    q = Sum(n - 1, lambda i: (y[i + 1] - y[i]) / (m[i + 1] - m[i])) / ((n - 1) * sqrt(var1(x)))
    return sqrt(n) * (1 - q)


def lag_four(y, u):
    """mean slope over gaps of lag four, as a linear form in the ordered sample (the scores are antisymmetric)"""
    n = len(y)
    ends = Sum(4, lambda i: (y[i] - y[n - 1 - i]) / (u[i] - u[i + 4]))
    return (ends + Sum(n - 8, lambda i: y[i + 4] * (1 / (u[i + 4] - u[i + 8]) - 1 / (u[i] - u[i + 4])))) / (n - 4)


def zhang_q(y):
    """logarithm of the ratio of two estimators of scale: gaps from the minimum and gaps of lag four"""
    n, u = len(y), scores(len(y))
    return log(Sum(n - 1, lambda i: (y[i + 1] - y[0]) / (u[i + 1] - u[0])) / (n - 1) / lag_four(y, u))


def zhang_q_star(y):
    """the same of the reflected sample"""
    n = len(y)
    return zhang_q(seqof(n, lambda i: -y[n - 1 - i]))


def dagostino(x):
    n, y = len(x), sorted(x)
    d = Sum(n, lambda i: (i + 1 - (n + 1) / 2) * y[i]) / (n ** 2 * sqrt(cmom(x, 2)))
    return sqrt(n) * (d - 0.28209479) / 0.02998598


def rahman_govindarajulu(x):
    n, y = len(x), sorted(x)

    def g(k):
        """m f(m) at the score number k, zero beyond both ends"""
        m = st.norm.ppf(k / (n + 1))
        return m * st.norm.pdf(m)

    a = seqof(n, lambda i: -(n + 1) * (n + 2) * st.norm.pdf(st.norm.ppf((i + 1) / (n + 1)))
              * (ite(i > 0, lambda: g(i), 0) - 2 * g(i + 1) + ite(i < n - 1, lambda: g(i + 2), 0)))
    return Sum(n, lambda i: a[i] * y[i]) ** 2 / Sum(n, lambda i: a[i] ** 2) / ss(x)


def spiegelhalter(x):
    n, m = len(x), mean(x)
    s = sqrt(var1(x))
    u = (Max(n, lambda i: x[i]) - Min(n, lambda i: x[i])) / s
    g = Sum(n, lambda i: abs(x[i] - m)) / (s * sqrt(n) * sqrt(n - 1))
    small = gamma(n + 1) ** (1 / (n - 1)) / (2 * n)
    large = (2 * pi) ** (1 / (2 * (n - 1))) * (n * sqrt(n) / exp(1)) ** (1 / (n - 1)) / (2 * exp(1))
    c = ite(n < 150, lambda: small, lambda: large)
    return ((c * u) ** (-(n - 1)) + g ** (-(n - 1))) ** (1 / (n - 1))


def desgagne(x):
    n, m = len(x), mean(x)
    s = sqrt(cmom(x, 2))
    y = seqof(n, lambda i: abs(x[i] - m) / s)
    r1 = 0.18240929 - Sum(n, lambda i: y[i] ** 2 * log(y[i])) / (2 * n)
    r2 = 0.5348223 - Sum(n, lambda i: log(1 + y[i])) / n
    r3 = 0.20981558 - Sum(n, lambda i: log(log(2.71828182846 + y[i]))) / n
    return n * (
        1259.04213344 * r1 * r1 + 918649.9005906 * r2 * r2 + 6407749.8211208 * r3 * r3
        - (32040.69569026 + 32040.6956903) * r1 * r2 + (85065.77739473 + 85065.7773947) * r1 * r3 - 2 * 2425883.3443201 * r2 * r3)


def shapiro_wilk(x):
    """Royston's approximation of the weights"""
    n, y = len(x), sorted(x)
    m, u = scores(n), 1 / sqrt(n)
    mm = Sum(n, lambda i: m[i] ** 2)

    def last():
        return m[n - 1] / sqrt(mm) + 0.221157 * u - 0.147981 * u ** 2 - 2.071190 * u ** 3 + 4.434685 * u ** 4 - 2.706056 * u ** 5

    def last1():
        return m[n - 2] / sqrt(mm) + 0.042981 * u - 0.293762 * u ** 2 - 1.752461 * u ** 3 + 5.682633 * u ** 4 - 3.582633 * u ** 5

    def short():
        phi = (mm - 2 * m[n - 1] ** 2) / (1 - 2 * last() ** 2)
        return last() * (y[n - 1] - y[0]) + Sum(n - 2, lambda i: m[i + 1] * y[i + 1]) / sqrt(phi)

    def long():
        phi = (mm - 2 * m[n - 1] ** 2 - 2 * m[n - 2] ** 2) / (1 - 2 * last() ** 2 - 2 * last1() ** 2)
        return last() * (y[n - 1] - y[0]) + last1() * (y[n - 2] - y[1]) + Sum(n - 4, lambda i: m[i + 2] * y[i + 2]) / sqrt(phi)

    top = ite(n == 3, lambda: sqrt(1 / 2) * (y[2] - y[0]), lambda: ite(n <= 5, short, long))
    return top ** 2 / ss(x)


def normal_score(i, n):
    """expected value of the i-th largest of n standard normal values (AS 177)"""
    eps, gam = (0.419885, 0.450536, 0.456936, 0.468488), (0.474798, 0.469051, 0.208597, 0.259784)
    dl1, dl2 = (0.112063, 0.12177, 0.239299, 0.215159), (0.080122, 0.111348, -0.211867, -0.115049)
    lam = (0.282765, 0.304856, 0.407708, 0.414093)
    c1 = (9.5, 28.7, 1.9, 0.0, -7.0, -6.2, -1.6)
    c2 = (-6195.0, -9569.0, -6728.0, -17614.0, -8278.0, -3570.0, 1075.0)
    c3 = (93380.0, 175160.0, 410400.0, 2157600.0, 2.376e6, 2.065e6, 2.065e6)

    def level(k, power):
        e1 = (i - eps[k]) / (n + gam[k])
        e2 = e1 ** power
        return e1 + e2 * (dl1[k] + e2 * dl2[k]) / n

    def correction(k):
        return (c1[k] + (c2[k] + c3[k] / n ** 2) / n ** 2) * 1e-6

    c = 0
    for k in range(7):
        c = ite(i == k + 1 and n <= (40 if k == 3 else 20), correction(k), c)
    c = ite(i * n == 4, 1.9e-5, c)
    p = level(3, lam[3] - 0.283833 / (i - 0.106136))
    for k in range(3):
        p = ite(i == k + 1, level(k, lam[k]), p)
    return -st.norm.ppf(p - c)


def coin(x):
    """squared cubic coefficient in the regression of the ordered standardised sample on the normal scores"""
    n, z = len(x), sorted(standard(x))
    a = seqof(n, lambda i: ite(i < n // 2, lambda: -normal_score(i + 1, n), lambda: ite(n - 1 - i < n // 2, lambda: normal_score(n - i, n), 0)))
    a2, a4, a6 = Sum(n, lambda i: a[i] ** 2), Sum(n, lambda i: a[i] ** 4), Sum(n, lambda i: a[i] ** 6)
    az, aaz = Sum(n, lambda i: a[i] * z[i]), Sum(n, lambda i: a[i] ** 3 * z[i])
    return ((a2 * aaz - a4 * az) / (a2 * a6 - a4 ** 2)) ** 2


FORMULAS = {
    "ShapiroWilkNormalityGofStatistic": (3, shapiro_wilk),
    "AndersonDarlingNormalityGofStatistic": (2, lambda x: ad(fitted(x))),
    "LillieforsNormalityGofStatistic": (2, lambda x: ks(fitted(x))),
    "JBNormalityGofStatistic": (2, jarque_bera),
    "SkewNormalityGofStatistic": (8, skew_z),
    "KurtosisNormalityGofStatistic": (5, kurt_z),
    "DAPNormalityGofStatistic": (8, lambda x: skew_z(x) ** 2 + kurt_z(x) ** 2),
    "FilliNormalityGofStatistic": (3, lambda x: correlation(sorted(x), filliben(len(x)))),
    "LooneyGulledgeNormalityGofStatistic": (3, lambda x: correlation(sorted(x), scores(len(x)))),
    "RyanJoinerNormalityGofStatistic": (3, lambda x: correlation(sorted(x), scores(len(x)))),
    "SFNormalityGofStatistic": (3, shapiro_francia),
    "EppsPulleyNormalityGofStatistic": (2, epps_pulley),
    "Hosking1NormalityGofStatistic": (4, lambda x: hosking(sorted(x), 0)),
    "Hosking2NormalityGofStatistic": (6, lambda x: hosking(sorted(x), 1)),
    "Hosking3NormalityGofStatistic": (8, lambda x: hosking(sorted(x), 2)),
    "Hosking4NormalityGofStatistic": (10, lambda x: hosking(sorted(x), 3)),
    "ZhangWuCNormalityGofStatistic": (4, lambda x: zhang_c(fitted(x))),
    "ZhangWuANormalityGofStatistic": (4, lambda x: 10 * zhang_a(fitted(x)) - 32),
    "GlenLeemisBarrNormalityGofStatistic": (4, lambda x: glen_leemis_barr(fitted(x))),
    "DoornikHansenNormalityGofStatistic": (8, doornik_hansen),
    "RobustJarqueBeraNormalityGofStatistic": (2, robust_jarque_bera),
    "BontempsMeddahi1NormalityGofStatistic": (4, lambda x: bontemps_meddahi(x, 4)),
    "BontempsMeddahi2NormalityGofStatistic": (4, lambda x: bontemps_meddahi(x, 6)),
    "BonettSeierNormalityGofStatistic": (4, bonett_seier),
    "MartinezIglewiczNormalityGofStatistic": (4, martinez_iglewicz),
    "CabanaCabana1NormalityGofStatistic": (4, cabana_s),
    "CabanaCabana2NormalityGofStatistic": (4, lambda x: cabana_k(x, 2)),
    "ChenShapiroNormalityGofStatistic": (4, chen_shapiro),
    "ZhangQNormalityGofStatistic": (8, lambda x: zhang_q(sorted(x))),
    "DagostinoNormalityGofStatistic": (4, dagostino),
    "ZhangQStarNormalityGofStatistic": (8, lambda x: zhang_q_star(sorted(x))),
    "SWRGNormalityGofStatistic": (4, rahman_govindarajulu),
    "GMGNormalityGofStatistic": (4, lambda x: sqrt(cmom(x, 2)) / deviation(x, median(x))),
    "SpiegelhalterNormalityGofStatistic": (4, spiegelhalter),
    "DesgagneLafayeNormalityGofStatistic": (4, desgagne),
}


SKEWNESS = ("Ske", "DAP", "Doo")


class NormalCriterion(Contract):
    """the statistic of a sample that is not constant"""

    property = "C21"
    cases = FORMULAS
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", FORMULAS[case][0]), lo=-20, hi=20), case=case)

    def pre(x, case):
        if ss(x) <= 0.01:
            return False
        if case[:6] == "Bonett":
            return Sum(len(x), lambda i: abs(x[i] - mean(x))) > 0
        if case[:3] == "Mar":
            return median(values(x, lambda t: abs(t - median(x)))) > 0
        if case[:3] in ("Kur", "DAP"):
            return kurt_parts(x)[1] != 0
        if case[:3] == "Doo":
            return doornik_alpha(x) > 0 and kurt(x) > 1.001 + skew(x) ** 2
        return True

    def lemma_heavier(x, case):
        return case[:3] not in SKEWNESS or skew_b(len(x)) > 3

    def lemma_wide(x, case):
        return case[:3] not in SKEWNESS or skew_w(len(x)) > 1

    def lemma_spread(x, case):
        return case[:3] not in SKEWNESS or log(skew_w(len(x))) > 0

    def lemma_argument(x, case):
        return case[:3] != "Doo" or instance(lambda y: y + sqrt(y ** 2 + 1) > 0, doornik_y(x))

    def run(x, case):
        return R(X + case)().execute_statistic(x)

    def post_formula(x, case, result):
        return eq(result, FORMULAS[case][1](x), 1e-6)


class NormalKolmogorovSmirnov(Contract):
    property = "C21"
    cases = ["TWO_TAILED", "RIGHT", "LEFT"]
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 1)), m=S.real("m"), v=S.real("v", lo=0.1, hi=10), case=case)

    def run(x, m, v, case):
        return R(X + "KolmogorovSmirnovNormalityGofStatistic")(R(ALT)[case], mean=m, var=v).execute_statistic(x)

    def post_distance(x, m, v, case, result):
        return eq(result, ks(values(sorted(x), lambda t: st.norm.cdf(t, loc=m, scale=sqrt(v))), case))


class NormalCramerVonMises(Contract):
    property = "C21"
    unchanged = ["x"]

    def args(S):
        return dict(x=S.arr("x", S.len("n", 1)), m=S.real("m"), v=S.real("v", lo=0.1, hi=10))

    def run(x, m, v):
        return R(X + "CramerVonMiseNormalityGofStatistic")(mean=m, var=v).execute_statistic(x)

    def post_distance(x, m, v, result):
        return eq(result, cvm(values(sorted(x), lambda t: st.norm.cdf(t, loc=m, scale=sqrt(v)))))


class RyanJoinerOffsets(Contract):
    """plotting positions with offsets 0 and 1/2"""

    property = "C21"
    cases = {"0": 0, "1/2": 0.5, "3/8": 3 / 8}
    unchanged = ["x"]

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 3), lo=-20, hi=20), case=case)

    def pre(x, case):
        return ss(x) > 0.01

    def run(x, case):
        return R(X + "RyanJoinerNormalityGofStatistic")(False, case).execute_statistic(x)

    def post_correlation(x, case, result):
        return eq(result, correlation(sorted(x), scores(len(x), RyanJoinerOffsets.cases[case])), 1e-6)


class NormalTooShort(Contract):
    """samples too small for the transformation are refused"""

    property = "C21"
    cases = {"Skew": 8, "Kurtosis": 5, "JB": 1}

    def args(S, case):
        return dict(x=S.arr("x", S.len("n", 0)), case=case)

    def pre(x, case):
        return len(x) < NormalTooShort.cases[case]

    def run(x, case):
        return R(X + case + "NormalityGofStatistic")().execute_statistic(x)

    def post_refused(exc):
        return exc == "ValueError"


def tied_scores(x):
    """normal quantiles of the plotting positions, averaged over equal observations"""
    n, y = len(x), sorted(x)

    def position(i):
        return Sum(n, lambda j: ite(y[j] == y[i], (j + 1 - 3 / 8) / (n + 1 / 4), 0)) / Sum(n, lambda j: ite(y[j] == y[i], 1, 0))

    return seqof(n, lambda i: st.norm.ppf(position(i)))


def medcouple(x):
    """median (the lower one of an even number of pairs) of the kernel over all pairs below and above the median
    (Brys, Hubert and Struyf); -1 and 1 when the median is the largest or the smallest observation"""
    y = sorted(x)
    n = len(y)
    m = (y[n // 2] + y[(n - 1) // 2]) / 2
    if n < 3:
        return 0.0
    if m in (y[-1], y[0]):
        return -1.0 if m == y[-1] else 1.0
    low, high = [t for t in y if t <= m], [t for t in y if t >= m]
    ties = sum(1 for t in y if t == m)
    ks_ = []
    for i, b in enumerate(high):
        for j, a in enumerate(low):
            if a == m and b == m:
                k, l = len(low) - ties, i
                ks_.append(np.sign((j - k) + l - (ties - 1)))
            else:
                ks_.append(((b - m) - (m - a)) / (b - a))
    return float(sorted(ks_)[(len(ks_) - 1) // 2])


def bhs(x):
    n, y = len(x), sorted(x)
    v = np.array([[1.24581, 0.322918, -0.322918], [0.322918, 2.62068, -0.0123455], [-0.322918, -0.0123455, 2.62068]])
    w = np.array([medcouple(y), -medcouple(y[: n // 2]) - 0.198828, medcouple(y[(n + 1) // 2:]) - 0.198828])
    return n * float(w @ np.linalg.inv(v) @ w)


class NormalCoin(Contract):
    """cubic regression on the approximate normal scores"""

    property = "C21"
    bounded = "the sums split at every tabulated correction; their square is out of reach"
    conc = 3

    def args(S):
        return dict(x=S.arr("x", S.len("n", 4), lo=-20, hi=20))

    def pre(x):
        return ss(x) > 0.01

    def run(x):
        return R(X + "CoinNormalityGofStatistic")().execute_statistic(x)

    def post_formula(x, result):
        return eq(result, coin(x), 1e-6)


class NormalMedcouples(Contract):
    """BHS statistic: medcouples of the sample and of both halves"""

    property = "C21"
    bounded = "search of the median of the kernel table, a while loop over work arrays"
    conc = 3

    def args(S):
        return dict(x=S.arr("x", S.len("n", 6), lo=-20, hi=20))

    def run(x):
        return R(X + "BHSNormalityGofStatistic")().execute_statistic(x)

    def post_formula(x, result):
        return eq(result, bhs(x), 1e-6)


class RyanJoinerWeighted(Contract):
    property = "C21"
    bounded = "grouping of equal observations by pandas"

    def args(S):
        return dict(x=S.arr("x", S.len("n", 3), lo=-20, hi=20))

    def pre(x):
        return ss(x) > 0.01

    def run(x):
        return R(X + "RyanJoinerNormalityGofStatistic")(True).execute_statistic(x)

    def post_correlation(x, result):
        return eq(result, correlation(sorted(x), tied_scores(x)), 1e-6)


class CabanaKurtosisProcess(Contract):
    """statistic of the kurtosis process as published"""

    property = "C21"
    witness = True

    def args(S):
        return dict(x=S.arr("x", S.len("n", 4), lo=-20, hi=20))

    def run(x):
        return R(X + "CabanaCabana2NormalityGofStatistic")().execute_statistic(x)

    def post_formula(x, result):
        return eq(result, cabana_k(x), 1e-6)
