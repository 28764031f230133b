"""Models (assumed contracts) of numpy, scipy, math and other library functions on mathematical reals."""
from __future__ import annotations

import ast
import math as _math
from fractions import Fraction

from . import terms as tm
from .terms import T, num, ZERO, ONE, TRUE, FALSE
from .values import *

PI = tm.sym("pi", False, "pos")
EULER = tm.sym("e_const", False, "pos")


def _digamma(x):
    if tm.is_num(x) and tm.numval(x).denominator == 1 and 1 <= tm.numval(x) <= 50:
        return tm.sub(num(sum((Fraction(1, k) for k in range(1, int(tm.numval(x)))), Fraction(0))), tm.sym("euler_gamma", False, "pos"))
    return tm.app("digamma", x)


def L():
    from . import lib

    return lib


def PIt():
    return PI


NUMPY_EQ = {"numpy", "np"}


# ------------------------------------------------------------------ helpers
def N(I, v):
    return L().N(I, v)


def seq(I, v):
    v = I.force(v)
    if isinstance(v, SeqV):
        return v
    if isinstance(v, tuple):
        return SeqV("list", list(v))
    if isinstance(v, FlatV):
        raise Unsupported("array of a generator")
    return L().as_seqv(I, v)


def toarr(I, v):
    """np.asarray semantics: an ndarray is returned as is (aliasing), a list becomes a new array"""
    v = I.force(v)
    if isinstance(v, SeqV):
        if v.kind == "nd":
            return v
        return copyarr(I, v)
    if isinstance(v, tuple):
        return copyarr(I, SeqV("list", list(v)))
    if is_num(v) or is_boolish(v):
        return v
    if isinstance(v, T) and v.kind == "O":
        return v
    if v is None:
        raise Unsupported("array of None")
    if isinstance(v, str):
        raise Unsupported("array of a string")
    raise Unsupported(f"asarray of {type(v).__name__}")


def copyarr(I, v):
    v = I.force(v)
    if isinstance(v, tuple):
        v = SeqV("list", list(v))
    if not isinstance(v, SeqV):
        return v
    if v.poison:
        raise Unsupported(v.poison)
    if v.items is not None:
        return SeqV("nd", [copyarr(I, x) if isinstance(I.force(x), (SeqV, tuple)) else x for x in v.items])
    r = L()._view(v, "nd")
    p = L()._probe(I, v)
    if isinstance(p, (SeqV, tuple)):
        g = v.getf
        r.getf = lambda i: copyarr(I, g(i))
    return r


def emap(I, v, f):
    v = I.force(v)
    if isinstance(v, SeqV) and v.kind != "nd":
        v = copyarr(I, v)
    return L().map_parts(I, v, lambda x: f(N(I, x)))


def emap2(I, a, b, f):
    a, b = I.force(a), I.force(b)
    if isinstance(a, (SeqV, tuple)) and getattr(a, "kind", "") != "nd":
        a = copyarr(I, a)
    if isinstance(b, (SeqV, tuple)) and getattr(b, "kind", "") != "nd":
        b = copyarr(I, b)
    return L().elementwise(I, lambda x, y: f(N(I, x), N(I, y)), a, b)


def log_t(t):
    return tm.app("log", t)


def exp_t(t):
    return tm.app("exp", t)


def floor_t(t):
    return tm.app("floor", t)


def ceil_t(t):
    return tm.neg(tm.app("floor", tm.neg(t)))


def sign_t(t):
    if tm.positive(t):
        return ONE
    return tm.ite(tm.gt(t, ZERO), ONE, tm.ite(tm.eq(t, ZERO), ZERO, num(-1)))


def size_of(I, v):
    v = I.force(v)
    if not isinstance(v, SeqV):
        return ONE
    p = L()._probe(I, v)
    if isinstance(p, SeqV):
        return tm.mul(v.length(), size_of(I, p))
    return v.length()


def with_axis(I, v, axis, f):
    """apply reduction f (1-D or flat) along axis"""
    v = I.force(v)
    if isinstance(v, (tuple,)):
        v = SeqV("list", list(v))
    d = L().ndim(I, v)
    if axis is None or d <= 1:
        return f(v)
    ax = L().toint(I, axis)
    if ax < 0:
        ax += d
    if d == 2 and ax == 1:
        return L().map_seq_fn(I, v, f, "nd")
    if d == 2 and ax == 0:
        row = I._get_any(v, ZERO) if v.items is None else v.items[0]
        m = row.length()
        col = lambda j: (SeqV("nd", [I._get_any(r, j) for r in v.items]) if v.items is not None else SeqV("nd", None, v.n, lambda i: I._get_any(v.getf(i), j)))
        if tm.is_num(m):
            return SeqV("nd", [f(col(num(j))) for j in range(int(tm.numval(m)))])
        w = tm.fresh("ax")
        body = I.pure(lambda: f(col(w)), [tm.ge(w, ZERO), tm.lt(w, m)])
        return I.seq_from_body("nd", m, w, body)
    raise Unsupported("axis")


def np_sum(I, v, axis=None):
    return with_axis(I, v, axis, lambda s: L().reduce_seq(I, "sum", s))


def np_mean(I, v, axis=None):
    def f(s):
        n = size_of(I, s)
        if n is ZERO:
            raise Unsupported("mean of an empty array")
        return tm.div(L().reduce_seq(I, "sum", s), n)

    return with_axis(I, v, axis, f)


def np_var(I, v, ddof=ZERO, axis=None):
    def f(s):
        n = size_of(I, s)
        m = np_mean(I, s)
        ss = L().reduce_seq(I, "sum", L().map_parts(I, s, lambda x: tm.power(tm.sub(N(I, x), m), 2)))
        d = tm.sub(n, N(I, ddof))
        if d is ZERO:
            raise Unsupported("variance with no degrees of freedom")
        return tm.div(ss, d)

    return with_axis(I, v, axis, f)


def np_sort(I, v, kind="nd"):
    s = seq(I, v)
    if s.items is not None and all(is_num(x) and tm.is_num(x) for x in s.items):
        return SeqV(kind, sorted(s.items, key=lambda t: tm.numval(t)))
    if s.items is not None and len(s.items) <= 1:
        return SeqV(kind, list(s.items))
    if s.items is not None and len(s.items) == 2:
        a, b = (N(I, x) for x in s.items)
        return SeqV(kind, [tm.min_(a, b), tm.max_(a, b)])
    if L().ndim(I, s) != 1:
        raise Unsupported("sort of a matrix")
    s2 = I.seqmap(s, lambda x: N(I, x), "nd") if getattr(s, "filt", None) is None else s
    return term_seq(sort_term(I, I.reify(s2)), kind)


def _cumulative(t):
    """a sequence whose elements are built from reductions over a range growing with the index"""
    if t.op != "lam":
        return False
    n, v = tm.seqlen(t), tm.fresh("c")
    body = tm.sel(t, v)
    seen = set()

    def walk(q):
        if q.id in seen or not tm.occurs(q, v):
            return False
        seen.add(q.id)
        if q.op == "red" and tm.occurs(q.a[1], v):
            return True
        return any(walk(c) for c in tm._children(q.op, q.a))

    return walk(body)


def sort_term(I, t):
    """ascending sort; a sequence known to be ascending is its own sort"""
    if t.op == "ssym":
        return t if t in I.ascending else tm.sorted_seq(t)
    if _cumulative(t):
        v = tm.fresh("c")
        n = tm.sub(tm.seqlen(t), tm.ONE)
        if I.prover.prove(I.pc_terms(), tm.quant("all", n, v, tm.le(tm.sel(t, v), tm.sel(t, tm.add(v, tm.ONE)))), budget=6):
            return t
    r = tm.sorted_seq(t)
    for x in I.ascending:
        s = tm.sorted_seq(x)
        if s is not x and tm.occurs(r, s):
            r = tm.subst_term(r, {s: x})
    return r


def term_seq(t, kind="nd"):
    n = tm.seqlen(t)
    if tm.is_num(n) and tm.numval(n) <= 64:
        return SeqV(kind, [tm.sel(t, num(k)) for k in range(int(tm.numval(n)))])
    return SeqV(kind, None, n, lambda i: tm.sel(t, i), t)


def argext(I, v, ismax=True):
    s = seq(I, v)
    if s.items is not None and len(s.items) == 1:
        return ZERO
    t = I.reify(I.seqmap(s, lambda x: N(I, x), "nd"))
    n = tm.seqlen(t)
    if not tm.positive(n) and not I.branch(tm.gt(n, ZERO)):
        raise PyExc("ValueError", ("argmax of an empty sequence",))
    return tm.app("argmax" if ismax else "argmin", t, isint=True)


def dot(I, a, b):
    a, b = toarr(I, a), toarr(I, b)
    da, db = L().ndim(I, a), L().ndim(I, b)
    if da == 0 or db == 0:
        return emap2(I, a, b, tm.mul)
    if da == 1 and db == 1:
        if not I.branch(tm.eq(a.length(), b.length())):
            raise PyExc("ValueError", ("shapes not aligned",))
        return L().reduce_seq(I, "sum", emap2(I, a, b, tm.mul))
    if da == 2 and db == 1:
        return I.seqmap(a, lambda r: dot(I, r, b), "nd")
    if da == 1 and db == 2:
        return np_sum(I, L().elementwise(I, lambda x, y: tm.mul(N(I, x), N(I, y)), I.seqmap(a, lambda x: SeqV("nd", [x]), "nd"), b), ZERO)
    raise Unsupported("matrix product")


def arange(I, a):
    a = [N(I, x) for x in a]
    lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a)
    if not tm.is_num(st):
        raise Unsupported("symbolic arange step")
    d = tm.div(tm.sub(hi, lo), st)
    n = ceil_t(d)
    n = L().nn_len(I, n)
    return _affine_seq(n, lo, st)


def _affine_seq(n, lo, st):
    get = lambda i: tm.add(lo, tm.mul(st, i))
    if tm.is_num(n):
        k = int(tm.numval(n))
        if k <= 64:
            return SeqV("nd", [get(num(j)) for j in range(max(k, 0))])
    v = tm.fresh("ar")
    t = tm.lam(n, v, get(v))
    return SeqV("nd", None, n, get, t)


def linspace(I, a, k):
    lo, hi = N(I, a[0]), N(I, a[1])
    n = N(I, a[2] if len(a) > 2 else k.get("num", num(50)))
    endpoint = k.get("endpoint", True)
    d = tm.sub(n, ONE) if endpoint else n
    if d is ZERO:
        return SeqV("nd", [lo])
    st = tm.div(tm.sub(hi, lo), d)
    return _affine_seq(n, lo, st)


def full(I, shape, v):
    shape = I.force(shape)
    if isinstance(shape, tuple):
        if len(shape) == 1:
            return full(I, shape[0], v)
        return L().seqn(I, N(I, shape[0]), lambda i: full(I, shape[1:], v), "nd")
    n = N(I, shape)
    if not n.isint:
        raise PyExc("TypeError", ("shape must be an integer",))
    if tm.is_num(n) and tm.numval(n) < 0:
        raise PyExc("ValueError", ("negative dimension",))
    if not tm.nonneg(n) and not I.entails(tm.ge(n, ZERO)):
        if not I.branch(tm.ge(n, ZERO)):
            raise PyExc("ValueError", ("negative dimension",))
    return L().seqn(I, n, lambda i: v, "nd")


def diff(I, v):
    s = toarr(I, v)
    n = s.length()
    if s.items is not None:
        xs = s.items
        return SeqV("nd", [tm.sub(N(I, xs[i + 1]), N(I, xs[i])) for i in range(len(xs) - 1)])
    m = L().nn_len(I, tm.sub(n, ONE))
    parts = getattr(s, "parts", None)
    if parts:
        out = []
        prev = None
        for p in parts:
            if p.items is not None:
                if not p.items:
                    continue
                xs = ([prev] if prev is not None else []) + [N(I, x) for x in p.items]
                out.append(SeqV("nd", [tm.sub(xs[i + 1], xs[i]) for i in range(len(xs) - 1)]))
                prev = xs[-1]
                continue
            k = p.length()
            if not tm.positive(k) and not I.entails(tm.gt(k, ZERO)):
                out = None
                break
            first = N(I, p.getf(ZERO))
            if prev is not None:
                out.append(SeqV("nd", [tm.sub(first, prev)]))
            g = p.getf
            out.append(L().seqn(I, tm.sub(k, ONE), lambda i, g=g: tm.sub(N(I, g(tm.add(i, ONE))), N(I, g(i))), "nd"))
            prev = N(I, g(tm.sub(k, ONE)))
        if out is not None:
            return L().concat(I, out, "nd")
    return L().seqn(I, m, lambda i: tm.sub(N(I, s.getf(tm.add(i, ONE))), N(I, s.getf(i))), "nd")


def cumsum(I, v):
    s = toarr(I, v)
    if s.items is not None:
        out, acc = [], ZERO
        for x in s.items:
            acc = tm.add(acc, N(I, x))
            out.append(acc)
        return SeqV("nd", out)
    g = s.getf

    def get(i):
        u = tm.fresh("cs")
        body = I.pure(lambda: N(I, g(u)), [tm.ge(u, ZERO), tm.lt(u, s.n)])
        return tm.red("sum", tm.add(i, ONE), u, body)

    return L().seqn(I, s.n, get, "nd")


def concatenate(I, v):
    parts = [I.force(x) for x in L().iterate(I, v)] if not isinstance(I.force(v), SeqV) or I.force(v).items is not None else None
    if parts is None:
        s = I.force(v)
        if I.branch(tm.eq(s.length(), ZERO)):
            raise PyExc("ValueError", ("need at least one array to concatenate",))
        probe = tm.fresh("i")
        rng = [tm.ge(probe, ZERO), tm.lt(probe, s.length())]

        def ln():
            x = I.force(I._get_any(s, probe))
            return x.length() if isinstance(x, SeqV) else ZERO

        if I.pure(ln, rng) is not ONE:
            raise Unsupported("concatenate of a symbolic list of arrays")

        def get(i):
            return I.pure(lambda: I._get_any(I.force(I._get_any(s, i)), ZERO), [tm.ge(i, ZERO), tm.lt(i, s.length())])

        return SeqV("nd", None, s.length(), get)
    ps = []
    for p in parts:
        if is_num(p):
            raise PyExc("ValueError", ("zero-dimensional arrays cannot be concatenated",))
        p = toarr(I, p)
        if isinstance(p, T):
            raise Unsupported("concatenate of an opaque array")
        ps.append(p)
    return L().concat(I, ps, "nd")


def quantile(I, v, q):
    s = seq(I, v)
    p = L()._probe(I, s)
    t = sort_term(I, I.reify(I.seqmap(s, lambda x: N(I, x), "nd") if getattr(s, "filt", None) is None else s))
    q = I.force(q)
    if isinstance(q, (SeqV, tuple)):
        return L().map_parts(I, toarr(I, q), lambda x: tm.app("quantile", t, N(I, x)))
    return tm.app("quantile", t, N(I, q))


def unique(I, v):
    s = seq(I, v)
    t = tm.sorted_seq(I.reify(I.seqmap(s, lambda x: N(I, x), "nd")))
    u = tm.sapp("unique", tm.app("nunique", t, isint=True), t)
    return term_seq(u)


def polyval(I, p, x):
    cs = [N(I, c) for c in L().iterate(I, p)]
    x = I.force(x)

    def f(t):
        r = ZERO
        for c in cs:
            r = tm.add(tm.mul(r, t), c)
        return r

    return emap(I, x, f)


def where(I, a):
    if len(a) == 1:
        raise Unsupported("np.where with one argument")
    c, x, y = (I.force(z) for z in a)

    def g(cv, pair):
        return None

    lib = L()
    if not isinstance(c, SeqV):
        return I.merge([(I.truth_T(c), x), (tm.not_(I.truth_T(c)), y)])
    xy = lib.elementwise(I, lambda p, q: (p, q), x, y) if isinstance(x, SeqV) or isinstance(y, SeqV) else (x, y)
    if isinstance(xy, tuple):
        return lib.map_parts(I, c, lambda b: tm.ite(I.scalar(b), N(I, x), N(I, y)))
    if isinstance(x, SeqV):
        cx = lib.elementwise(I, lambda b, p: tm.ite(I.scalar(b), N(I, p), ZERO), c, x)
    else:
        cx = lib.map_parts(I, c, lambda b: tm.ite(I.scalar(b), N(I, x), ZERO))
    if isinstance(y, SeqV):
        cy = lib.elementwise(I, lambda b, p: tm.ite(I.scalar(b), ZERO, N(I, p)), c, y)
    else:
        cy = lib.map_parts(I, c, lambda b: tm.ite(I.scalar(b), ZERO, N(I, y)))
    return lib.elementwise(I, lambda p, q: merge_ite(p, q), cx, cy)


def merge_ite(p, q):
    """ite(c, a, 0) + ite(c, 0, b) -> ite(c, a, b)"""
    return tm.add(p, q)


def moment_central(I, v, k):
    m = np_mean(I, v)
    return np_mean(I, emap(I, v, lambda x: tm.power(tm.sub(x, m), k)))


def histogram(I, a, k):
    s = seq(I, a[0])
    bins = I.force(k.get("bins", a[1] if len(a) > 1 else num(10)))
    if isinstance(bins, SeqV):
        edges = bins
    else:
        rng = I.force(k.get("range", a[2] if len(a) > 2 else None))
        if rng is None:
            lo, hi = L().seq_max(I, s, True), L().seq_max(I, s, False)
            if I.branch(tm.eq(lo, hi)):
                lo, hi = tm.sub(lo, num(Fraction(1, 2))), tm.add(hi, num(Fraction(1, 2)))
            rng = (lo, hi)
        lo, hi = (N(I, x) for x in L().iterate(I, rng))
        edges = linspace(I, [lo, hi, tm.add(N(I, bins), ONE)], {})
    m = tm.sub(edges.length(), ONE)

    def cnt(j):
        lo, hi = N(I, I._get_any(edges, j)), N(I, I._get_any(edges, tm.add(j, ONE)))
        last = tm.eq(j, tm.sub(m, ONE))
        f = lambda x: tm.ite(tm.and_(tm.le(lo, x), tm.or_(tm.lt(x, hi), tm.and_(last, tm.eq(x, hi)))), ONE, ZERO)
        return L().reduce_seq(I, "sum", L().map_parts(I, s, lambda x: f(N(I, x))))

    return (L().seqn(I, m, cnt, "nd"), edges)


# ------------------------------------------------------------------ distributions
SHAPES = {
    "norm": 0, "expon": 0, "uniform": 0, "cauchy": 0, "laplace": 0, "logistic": 0, "gumbel_l": 0, "gumbel_r": 0,
    "rayleigh": 0, "beta": 2, "gamma": 1, "t": 1, "chi2": 1, "lognorm": 1, "exponweib": 2, "weibull_min": 1,
    "rice": 1, "invgauss": 1, "truncnorm": 2, "tukeylambda": 1, "gompertz": 1, "f": 2,
}
SHAPE_NAMES = {
    "beta": ["a", "b"], "gamma": ["a"], "t": ["df"], "chi2": ["df"], "lognorm": ["s"], "exponweib": ["a", "c"],
    "weibull_min": ["c"], "rice": ["b"], "invgauss": ["mu"], "truncnorm": ["a", "b"], "tukeylambda": ["lam"],
    "gompertz": ["c"], "f": ["dfn", "dfd"],
}
POSITIVE_SUPPORT = {"expon", "lognorm", "exponweib", "weibull_min", "gamma", "beta", "chi2", "rayleigh", "f"}


def cdf_std(name, shapes, z):
    if tm.inf_sign(z):
        return ONE if tm.inf_sign(z) > 0 else ZERO
    if name == "norm":
        return tm.app("normcdf", z)
    if name == "uniform":
        return tm.max_(ZERO, tm.min_(ONE, z))
    if name == "expon":
        return tm.ite(tm.le(z, ZERO), ZERO, tm.sub(ONE, exp_t(tm.neg(z))))
    if name in ("exponweib", "weibull_min"):
        if name == "exponweib":
            a, c = shapes
        else:
            a, c = ONE, shapes[0]
        base = tm.sub(ONE, exp_t(tm.neg(tm.pow_(z, c))))
        return tm.ite(tm.le(z, ZERO), ZERO, tm.pow_(base, a))
    if name == "lognorm" and tm.positive(z):
        return tm.app("normcdf", tm.div(log_t(z), shapes[0]))
    if name == "gumbel_l":
        return tm.sub(ONE, exp_t(tm.neg(exp_t(z))))
    if name == "gumbel_r":
        return exp_t(tm.neg(exp_t(tm.neg(z))))
    if name == "logistic":
        return tm.power(tm.add(ONE, exp_t(tm.neg(z))), -1)
    return tm.app("cdf_" + name, *shapes, z)


def sf_std(name, shapes, z):
    if name == "expon":
        return tm.ite(tm.le(z, ZERO), ONE, exp_t(tm.neg(z)))
    if name in ("exponweib", "weibull_min") and (name == "weibull_min" or shapes[0] is ONE):
        c = shapes[-1]
        return tm.ite(tm.le(z, ZERO), ONE, exp_t(tm.neg(tm.pow_(z, c))))
    if name == "gumbel_l":
        return exp_t(tm.neg(exp_t(z)))
    return tm.sub(ONE, cdf_std(name, shapes, z))


def pdf_std(name, shapes, z):
    if name == "norm":
        return tm.div(exp_t(tm.scale(tm.power(z, 2), Fraction(-1, 2))), tm.sqrt(tm.scale(PI, 2)))
    if name == "expon" and tm.nonneg(z):
        return exp_t(tm.neg(z))
    if name == "uniform":
        return tm.ite(tm.and_(tm.le(ZERO, z), tm.le(z, ONE)), ONE, ZERO)
    return tm.app("pdf_" + name, *shapes, z)


def ppf_std(name, shapes, q):
    if name == "norm":
        return tm.app("normppf", q)
    if name == "uniform":
        return q
    if name == "expon":
        return tm.neg(log_t(tm.sub(ONE, q)))
    return tm.app("ppf_" + name, *shapes, q)


def draw(I, dname, shapes, loc, scale, size):
    """independent draws: the next values of the stream of standardised draws of the law"""
    key = "rng_" + dname
    if key not in I.counters and I.loops:
        raise Unsupported("random draws in a symbolic loop outside a contract about draws")
    d = I.counters.get(key, ZERO)
    one = lambda i: tm.add(loc, tm.mul(scale, tm.app("draw_" + dname, *shapes, i)))
    if size is None:
        I.counters[key] = tm.add(d, ONE)
        return one(d)
    if isinstance(size, (tuple, SeqV)):
        size = list(size.items if isinstance(size, SeqV) else size)
        if len(size) != 1:
            raise Unsupported("multi-dimensional sample")
        size = size[0]
    n = N(I, size)
    if not tm.is_num(n) and I.branch(tm.lt(n, ZERO)):
        raise PyExc("ValueError", ("negative size",))
    I.counters[key] = tm.add(d, n)
    if tm.is_num(n):
        if tm.numval(n) < 0:
            raise PyExc("ValueError", ("negative size",))
        return SeqV("nd", [one(tm.add(d, num(i))) for i in range(int(tm.numval(n)))])
    return SeqV("nd", None, n, lambda i: one(tm.add(d, i)))


def dist_call(I, dname, meth, a, k):
    lib = L()
    ns = SHAPES[dname]
    if meth == "fit":
        s = seq(I, a[0])
        t = I.reify(I.seqmap(s, lambda x: N(I, x), "nd"))
        extra = [tm.oapp("kw", tm.strc(q), N(I, w)) for q, w in sorted(k.items())]
        return tuple(tm.app(f"fit_{dname}_{j}", t, *extra) for j in range(ns + 2))
    a = list(a)
    names = ([] if meth in ("rvs", "mean", "std", "var") else ["x"]) + SHAPE_NAMES.get(dname, []) + ["loc", "scale"]
    if meth == "rvs":
        names += ["size", "random_state"]
    got = dict(zip(names, a))
    for q, w in k.items():
        if q in ("q", "x", "k") and "x" in names and "x" not in got:
            got["x"] = w
            continue
        if q not in names:
            raise PyExc("TypeError", (f"unexpected keyword {q}",))
        if q in got:
            raise PyExc("TypeError", (f"multiple values for {q}",))
        got[q] = w
    loc, scale = got.get("loc", ZERO), got.get("scale", ONE)
    shapes = []
    for nm in SHAPE_NAMES.get(dname, []):
        if nm not in got:
            raise PyExc("TypeError", (f"missing shape {nm}",))
        shapes.append(got[nm])
    if any(isinstance(I.force(x), SeqV) for x in shapes + [loc, scale]):
        raise Unsupported("array parameters of a distribution")
    shapes = [N(I, x) for x in shapes]
    loc, scale = N(I, loc), N(I, scale)
    I.assumed.add(f"scipy.stats.{dname}.{meth}: the {meth} of the {dname} distribution (loc/scale standardised)")
    if meth == "rvs":
        size = got.get("size", None)
        size = I.force(size) if size is not None else None
        return draw(I, dname, shapes, loc, scale, size)
    if meth in ("mean", "std", "var"):
        return tm.app(f"{meth}_{dname}", *shapes, loc, scale)
    x = got.get("x")
    if x is None:
        raise PyExc("TypeError", ("missing x",))
    z = lambda v: tm.div(tm.sub(v, loc), scale)
    fns = {
        "cdf": lambda v: cdf_std(dname, shapes, z(v)),
        "sf": lambda v: sf_std(dname, shapes, z(v)),
        "logcdf": lambda v: log_t(cdf_std(dname, shapes, z(v))),
        "logsf": lambda v: log_t(sf_std(dname, shapes, z(v))),
        "pdf": lambda v: tm.div(pdf_std(dname, shapes, z(v)), scale),
        "logpdf": lambda v: log_t(tm.div(pdf_std(dname, shapes, z(v)), scale)),
        "ppf": lambda v: tm.add(loc, tm.mul(scale, ppf_std(dname, shapes, v))),
        "isf": lambda v: tm.add(loc, tm.mul(scale, ppf_std(dname, shapes, tm.sub(ONE, v)))),
    }
    if meth not in fns:
        raise Unsupported(f"{dname}.{meth}")
    return emap(I, x, fns[meth])


# ------------------------------------------------------------------ ndarray attributes
def nd_attr(I, o, name):
    lib = L()
    fl = {
        "sum": lambda a, k: np_sum(I, o, k.get("axis", a[0] if a else None)),
        "mean": lambda a, k: keepdims(np_mean(I, o, k.get("axis", a[0] if a else None)), k),
        "var": lambda a, k: np_var(I, o, k.get("ddof", ZERO), k.get("axis", a[0] if a else None)),
        "std": lambda a, k: sqrt_v(I, np_var(I, o, k.get("ddof", ZERO), k.get("axis", a[0] if a else None))),
        "max": lambda a, k: with_axis(I, o, k.get("axis", a[0] if a else None), lambda s: lib.seq_max(I, s)),
        "min": lambda a, k: with_axis(I, o, k.get("axis", a[0] if a else None), lambda s: lib.seq_min(I, s)),
        "prod": lambda a, k: lib.reduce_seq(I, "prod", o),
        "all": lambda a, k: lib.seq_all(I, o, True),
        "any": lambda a, k: lib.seq_all(I, o, False),
        "argmax": lambda a, k: argext(I, o, True),
        "argmin": lambda a, k: argext(I, o, False),
        "argsort": lambda a, k: term_seq(tm.argsort_seq(I.reify(o))),
        "copy": lambda a, k: copyarr(I, o),
        "astype": lambda a, k: astype(I, o, a[0] if a else k.get("dtype")),
        "tolist": lambda a, k: tolist(I, o),
        "tobytes": lambda a, k: _tobytes(I, o),
        "cumsum": lambda a, k: cumsum(I, o),
        "dot": lambda a, k: dot(I, o, a[0]),
        "item": lambda a, k: I.seq_get(o, ZERO),
        "flatten": lambda a, k: flatten(I, o),
        "ravel": lambda a, k: flatten(I, o),
        "round": lambda a, k: emap(I, o, lambda x: tm.app("round", x)),
        "clip": lambda a, k: clip(I, [o] + list(a), k),
        "reshape": lambda a, k: reshape(I, o, a),
        "fill": lambda a, k: lib.slice_assign(I, o, SliceV(None, None, None), a[0]),
    }

    def keepdims(v, k):
        if k.get("keepdims") is True:
            return SeqV("nd", [v])
        return v

    if name == "sort":
        def sort(a, k):
            r = np_sort(I, o)
            if I.outer_loop_for(o) is not None:
                raise Unsupported("sort of an outer array in a symbolic loop")
            I.seq_touch(o, "sort")
            I.seq_assign(o, r.items, r.n, r.getf, r.term)

        return BuiltinV("nd.sort", sort)
    if name in fl:
        return BuiltinV("nd." + name, fl[name])
    if name == "size":
        return size_of(I, o)
    if name == "shape":
        d = lib.ndim(I, o)
        if d == 1:
            return (o.length(),)
        return (o.length(), lib._probe(I, o).length())
    if name == "ndim":
        return num(lib.ndim(I, o))
    if name == "T":
        if lib.ndim(I, o) == 1:
            return o
        raise Unsupported("transpose")
    if name == "dtype":
        return ExtV("dtype", I.force(lib._probe(I, o)))
    if name == "itemsize":
        return num(8)
    if name == "__len__":
        return BuiltinV("len", lambda a, k: o.length())
    raise PyExc("AttributeError", (name,))


def sqrt_v(I, v):
    return emap(I, v, tm.sqrt)


def astype(I, o, dt):
    dt = I.force(dt)
    nm = dt if isinstance(dt, str) else dt.path.split(".")[-1] if isinstance(dt, ExtV) else dt.name if isinstance(dt, BuiltinV) else "?"
    if nm.startswith("float64") or nm in ("float", "double", "f8"):
        return copyarr(I, o)
    if nm.startswith("int"):
        return emap(I, o, lambda x: x if x.isint else trunc_t(I, x))
    if nm.startswith("float32") or nm == "f4":
        I.assumed.add("float32 conversion rounds: modelled as an uninterpreted function")
        r = emap(I, o, lambda x: tm.app("float32", x))
        if isinstance(r, SeqV):
            r.dtype = "float32"
        return r
    if nm.startswith("bool"):
        return emap(I, o, lambda x: tm.not_(tm.eq0(x)))
    raise Unsupported(f"astype {nm}")


def trunc_t(I, x):
    if tm.nonneg(x):
        return floor_t(x)
    return tm.app("trunc", x, isint=True)


def tolist(I, o):
    p = L()._probe(I, o)
    if isinstance(p, SeqV):
        return I.seqmap(o, lambda r: tolist(I, r), "list")
    return L()._view(o, "list")


def flatten(I, o):
    if L().ndim(I, o) == 1:
        return copyarr(I, o)
    if o.items is not None:
        return L().concat(I, o.items, "nd")
    raise Unsupported("flatten of a symbolic matrix")


def reshape(I, o, a):
    shp = a[0] if len(a) == 1 and isinstance(I.force(a[0]), tuple) else tuple(a)
    shp = [N(I, x) for x in shp]
    if len(shp) == 1:
        return o
    if len(shp) == 2 and shp[1] is ONE:
        return I.seqmap(o, lambda x: SeqV("nd", [x]), "nd")
    if len(shp) == 2 and shp[0] is ONE:
        return SeqV("nd", [o])
    raise Unsupported("reshape")


def clip(I, a, k):
    lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
    hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))

    def f(x):
        if lo is not None:
            x = tm.max_(x, N(I, lo))
        if hi is not None:
            x = tm.min_(x, N(I, hi))
        return x

    return emap(I, a[0], f)


def opaque_attr(I, o, name):
    return NotImplemented


# ------------------------------------------------------------------ external modules
EXC_LAST = None


def ext_attr(I, o, name):
    path = o.path
    if path.startswith("@"):
        base = path[1:]
        if f"{base}.{name}" in I.prog.modules or I.prog.is_package_prefix(f"{base}.{name}"):
            return ExtV(f"@{base}.{name}")
        m = I.prog.modules.get(base)
        if m is not None:
            try:
                return I.module_get(m, name)
            except KeyError:
                pass
            if name == "__name__":
                return base
        raise PyExc("AttributeError", (name,))
    full_ = f"{path}.{name}"
    if full_ == "numpy.newaxis":
        return None
    c = constant(I, full_)
    if c is not None:
        return c
    if isinstance(o.data, tuple) and path == "builtins.@exc":
        if name == "args":
            return tuple(o.data[1])
        raise Unsupported("exception attribute")
    if path == "optres":
        if name in o.data:
            return o.data[name]
        raise Unsupported(f"optimisation result .{name}")
    if path == "ecdf":
        if name in ("cdf", "sf"):
            return ExtV("ecdf." + name, o.data)
    if path in ("ecdf.cdf", "ecdf.sf"):
        if name == "evaluate":
            def ev(a, k):
                x = I.force(a[0])
                s = o.data
                n = s.length()

                def frac(t):
                    c = L().reduce_seq(I, "sum", L().map_parts(I, s, lambda y: tm.ite(tm.le(N(I, y), t), ONE, ZERO)))
                    f = tm.div(c, n)
                    return f if path == "ecdf.cdf" else tm.sub(ONE, f)

                return emap(I, x, frac)

            I.assumed.add("scipy.stats.ecdf(x).cdf.evaluate(v) = #{x_i <= v}/n; quantiles = sorted distinct values")
            return BuiltinV("ecdf.evaluate", ev)
        if name == "quantiles":
            return unique(I, o.data)
        if name == "probabilities":
            raise Unsupported("ecdf probabilities")
    if isinstance(o.data, dict) or path.startswith("sqlalchemy") or path.startswith("sql"):
        from . import sqlmodel

        r = sqlmodel.ext_attr(I, o, name)
        if r is not NotImplemented:
            return r
    if path == "dtype":
        return ExtV("dtype." + name, o.data)
    return ExtV(full_)


def constant(I, p):
    if p in ("numpy.pi", "math.pi", "scipy.constants.pi"):
        return PI
    if p in ("numpy.e", "math.e"):
        return tm.app("exp", ONE)
    if p in ("numpy.euler_gamma",):
        return tm.sym("euler_gamma", False, "pos")
    if p in ("numpy.inf", "math.inf", "numpy.nan", "math.nan"):
        return tm.INF if p.endswith("inf") else ExtV("float.nan")
    return None



def _getmembers(I, o):
    o = I.force(o)
    if not (isinstance(o, ExtV) and o.path.startswith("@")):
        raise Unsupported("inspect.getmembers")
    m = I.prog.modules[o.path[1:]]
    I.run_dynamic(m)
    return SeqV("list", [(nm, I.module_get(m, nm)) for nm in sorted(m.bindings) if nm != "*"])


def ext_getitem(I, o, idx):
    if o.path == "sys.modules" and isinstance(idx, str) and idx in I.prog.modules:
        return ExtV("@" + idx)
    if o.path == "bytes" and isinstance(idx, SliceV):
        from . import sqlmodel

        return sqlmodel.bytes_slice(I, o, idx)
    raise Unsupported(f"subscript of {o.path}")


NOOP = ("logging.", "warnings.filterwarnings", "warnings.simplefilter", "warnings.warn")


def ext_call(I, f, args, kwargs):
    p = f.path
    if p.startswith("builtins."):
        nm = p.split(".")[1]
        if nm == "@exc":
            raise Unsupported("call of an exception instance")
        return ExtV("builtins.@exc", (nm, tuple(args)))
    if p.startswith("@"):
        raise PyExc("TypeError", ("module is not callable",))
    if p.startswith(NOOP):
        if p == "logging.getLogger":
            return ExtV("logging.logger")
        return None
    if p == "warnings.catch_warnings":
        return ExtV("warnings.ctx")
    segs = p.split(".")
    # scipy distributions
    if len(segs) >= 2 and segs[-2] in SHAPES and (segs[0] == "scipy"):
        return dist_call(I, segs[-2], segs[-1], args, kwargs)
    root = segs[0]
    name = segs[-1]
    key = None
    if root == "numpy":
        key = ".".join(segs[1:])
        fn = NP.get(key)
    elif root == "math":
        fn = MATH.get(name)
    elif p.startswith("scipy.special"):
        fn = SPECIAL.get(name)
    elif p.startswith("scipy.stats"):
        fn = STATS.get(name)
    else:
        fn = OTHER.get(p)
        if fn is None:
            from . import sqlmodel

            r = sqlmodel.ext_call(I, f, args, kwargs)
            if r is not NotImplemented:
                return r
    if fn is None:
        raise Unsupported(f"library function {p}")
    I.assumed.add(f"{p}: modelled by its documented mathematical meaning")
    a, k = _Args(args), _Kwargs(kwargs)
    r = fn(I, a, k)
    ignored(p, a, k)
    return r


def ignored(p, a, k):
    # an argument the model never looked at would be ignored silently
    for i in range(len(a)):
        if i not in a.seen and not a.all and p != "typing.cast":
            raise Unsupported(f"{p}: positional argument {i + 1} is not modelled")
    for x in k:
        if x not in k.seen and x not in ("dtype", "copy", "nan_policy", "_no_deco") and (p, x) not in NUMERICAL:
            v = dict.get(k, x)
            if x == "axis" and (v is None or is_num(v) and tm.is_num(v) and tm.numval(v) in (0, -1)):
                continue
            if x in ("method", "interpolation") and v == "linear":
                continue
            raise Unsupported(f"{p}: argument {x} is not modelled")


# how a number is computed, not which
NUMERICAL = {("scipy.optimize.root_scalar", "method"), ("scipy.integrate.quad", "limit"), ("scipy.integrate.quad", "epsabs"),
             ("scipy.integrate.quad", "epsrel")}


class _Args(list):
    """positional arguments of a library call, with a record of those the model looked at"""

    def __init__(self, xs):
        super().__init__(xs)
        self.seen, self.all = set(), False

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.seen.update(range(*i.indices(len(self))))
        else:
            self.seen.add(i if i >= 0 else len(self) + i)
        return super().__getitem__(i)

    def __iter__(self):
        self.all = True
        return super().__iter__()

    def __add__(self, o):
        self.all = True
        return super().__add__(o)

    def __radd__(self, o):
        self.all = True
        return list(o) + list(self)

    def pop(self, *i):
        self.all = True
        return super().pop(*i)


class _Kwargs(dict):
    """keyword arguments of a library call, with a record of those the model looked at"""

    def __init__(self, d):
        super().__init__(d)
        self.seen = set()

    def __iter__(self):
        self.seen.update(dict.keys(self))
        return super().__iter__()

    def __getitem__(self, x):
        self.seen.add(x)
        return super().__getitem__(x)

    def __contains__(self, x):
        self.seen.add(x)
        return super().__contains__(x)

    def get(self, x, d=None):
        self.seen.add(x)
        return super().get(x, d)

    def pop(self, x, *d):
        self.seen.add(x)
        return super().pop(x, *d)

    def items(self):
        self.seen.update(dict.keys(self))
        return super().items()

    def keys(self):
        self.seen.update(dict.keys(self))
        return super().keys()


def _diff(I, a, k):
    xs = []
    for x in (k.get("prepend", a[2] if len(a) > 2 and I.force(a[2]) is not None else None), a[0], k.get("append", None)):
        if x is not None:
            xs.append(x if isinstance(I.force(x), (SeqV, tuple)) else SeqV("nd", [x]))
    if len(a) > 1 and not (is_num(I.force(a[1])) and I.force(a[1]) is ONE):
        raise Unsupported("numpy.diff of higher order")
    return diff(I, concatenate(I, tuple(xs)) if len(xs) > 1 else a[0])


def _e(f):
    return lambda I, a, k: emap(I, a[0], f)


def _stats_moment(I, a, k):
    if "a" in k:
        k = dict(k)
        a = [k.pop("a")] + list(a)
    order = k.get("order", k.get("moment", a[1] if len(a) > 1 else ONE))
    center = k.get("center")
    o = I.force(order)
    if isinstance(o, SeqV):
        return I.seqmap(o, lambda q: _stats_moment(I, [a[0], q], {x: y for x, y in k.items() if x not in ("order", "moment")}), "nd")
    q = N(I, o)
    if not tm.is_num(q):
        raise Unsupported("symbolic moment order")
    if center is not None:
        c = N(I, center)
        return np_mean(I, emap(I, a[0], lambda x: tm.power(tm.sub(x, c), tm.numval(q))))
    return moment_central(I, a[0], int(tm.numval(q)))


def _skew(I, a, k):
    m2, m3 = moment_central(I, a[0], 2), moment_central(I, a[0], 3)
    r = tm.div(m3, tm.power(m2, Fraction(3, 2)))
    if I.force(k.get("bias", True)) is False:
        n = seq(I, a[0]).length()
        _known_size(I, n, 3)
        r = tm.div(tm.mul(r, tm.sqrt(tm.mul(n, tm.sub(n, ONE)))), tm.sub(n, num(2)))
    return r


def _known_size(I, n, k):
    if not (tm.nonneg(tm.sub(n, num(k)))):
        if not I.branch(tm.ge(n, num(k))):
            raise Unsupported("unbiased estimator of a tiny sample")


def _kurt(I, a, k):
    m2, m4 = moment_central(I, a[0], 2), moment_central(I, a[0], 4)
    r = tm.div(m4, tm.power(m2, 2))
    if I.force(k.get("bias", True)) is False:
        n = seq(I, a[0]).length()
        _known_size(I, n, 4)
        n1 = tm.sub(n, ONE)
        e = tm.sub(tm.mul(tm.sub(tm.power(n, 2), ONE), r), tm.scale(tm.power(n1, 2), 3))
        r = tm.add(tm.div(e, tm.mul(tm.sub(n, num(2)), tm.sub(n, num(3)))), num(3))
    fisher = I.force(k.get("fisher", True))
    return tm.sub(r, num(3)) if fisher is True else r


def _pearsonr(I, a, k):
    x, y = toarr(I, a[0]), toarr(I, a[1])
    mx, my = np_mean(I, x), np_mean(I, y)
    sxy = L().reduce_seq(I, "sum", emap2(I, x, y, lambda p, q: tm.mul(tm.sub(p, mx), tm.sub(q, my))))
    sx = L().reduce_seq(I, "sum", emap(I, x, lambda p: tm.power(tm.sub(p, mx), 2)))
    sy = L().reduce_seq(I, "sum", emap(I, y, lambda p: tm.power(tm.sub(p, my), 2)))
    r = tm.div(sxy, tm.mul(tm.sqrt(sx), tm.sqrt(sy)))
    return (r, tm.app("pearson_p", r, x.length()))


def _ecdf(I, a, k):
    s = seq(I, a[0])
    return ExtV("ecdf", copyarr(I, s))


STATS = {"moment": _stats_moment, "skew": _skew, "kurtosis": _kurt, "pearsonr": _pearsonr, "ecdf": _ecdf}


def xlogy(x, y):
    if tm.positive(x):
        return tm.mul(x, log_t(y))
    return tm.ite(tm.eq(x, tm.ZERO), tm.ZERO, tm.mul(x, log_t(y)))


SPECIAL = {
    "xlogy": lambda I, a, k: emap2(I, a[0], a[1], xlogy),
    "gamma": _e(lambda x: tm.app("gamma_fn", x)),
    "digamma": _e(lambda x: _digamma(x)),
    "psi": _e(lambda x: _digamma(x)),
    "gammaln": _e(lambda x: log_t(tm.app("gamma_fn", x))),
    "loggamma": _e(lambda x: log_t(tm.app("gamma_fn", x))),
    "beta": lambda I, a, k: emap2(I, a[0], a[1], lambda x, y: tm.div(tm.mul(tm.app("gamma_fn", x), tm.app("gamma_fn", y)), tm.app("gamma_fn", tm.add(x, y)))),
    "betaln": lambda I, a, k: emap2(I, a[0], a[1], lambda x, y: log_t(tm.div(tm.mul(tm.app("gamma_fn", x), tm.app("gamma_fn", y)), tm.app("gamma_fn", tm.add(x, y))))),
    "erf": _e(lambda x: tm.app("erf", x)),
    "i0": _e(lambda x: tm.app("i0", x)),
    "iv": lambda I, a, k: emap2(I, a[0], a[1], lambda x, y: tm.app("iv", x, y)),
    "comb": lambda I, a, k: comb_t(I, N(I, a[0]), N(I, a[1])),
    "factorial": lambda I, a, k: factorial_t(I, N(I, a[0])),
}


def comb_t(I, n, k):
    if tm.is_num(k) and k.isint and 0 <= tm.numval(k) <= 12:
        kk = int(tm.numval(k))
        r = ONE
        for j in range(kk):
            r = tm.mul(r, tm.sub(n, num(j)))
        # math.comb is 0 for 0 <= n < k: the falling factorial vanishes there as well
        return tm.scale(r, Fraction(1, _math.factorial(kk)))
    if tm.is_num(n) and tm.is_num(k):
        return num(_math.comb(int(tm.numval(n)), int(tm.numval(k))))
    return tm.app("comb", n, k, isint=True)


def factorial_t(I, n):
    if tm.is_num(n) and n.isint and tm.numval(n) >= 0:
        return num(_math.factorial(int(tm.numval(n))))
    if not n.isint:
        raise PyExc("TypeError", ())
    return tm.app("gamma_fn", tm.add(n, ONE))


def _domain(I, t, ok, exc="ValueError"):
    if ok is TRUE:
        return
    if not I.branch(ok):
        raise PyExc(exc, ("math domain error",))


def _mlog(I, a, k):
    x = N(I, a[0])
    if not I.spec_mode:
        _domain(I, x, tm.gt(x, ZERO))
    r = log_t(x)
    if len(a) > 1:
        r = tm.div(r, log_t(N(I, a[1])))
    return r


def _msqrt(I, a, k):
    x = N(I, a[0])
    if not I.spec_mode:
        _domain(I, x, tm.ge(x, ZERO))
    return tm.sqrt(x)


def _m1(f):
    return lambda I, a, k: f(N(I, a[0]))


MATH = {
    "log": _mlog, "sqrt": _msqrt, "exp": _m1(exp_t), "pow": lambda I, a, k: tm.pow_(N(I, a[0]), N(I, a[1])),
    "log2": lambda I, a, k: tm.div(_mlog(I, a, k), log_t(num(2))),
    "log10": lambda I, a, k: tm.div(_mlog(I, a, k), log_t(num(10))),
    "log1p": _m1(lambda x: log_t(tm.add(ONE, x))), "expm1": _m1(lambda x: tm.sub(exp_t(x), ONE)),
    "floor": _m1(floor_t), "ceil": _m1(ceil_t), "fabs": _m1(lambda x: tm.app("abs", x)),
    "sin": _m1(lambda x: tm.app("sin", x)), "cos": _m1(lambda x: tm.app("cos", x)), "tan": _m1(lambda x: tm.app("tan", x)),
    "atan": _m1(lambda x: tm.app("atan", x)), "asin": _m1(lambda x: tm.app("asin", x)),
    "gamma": _m1(lambda x: tm.app("gamma_fn", x)), "lgamma": _m1(lambda x: log_t(tm.app("gamma_fn", x))),
    "comb": lambda I, a, k: comb_t(I, N(I, a[0]), N(I, a[1])),
    "factorial": lambda I, a, k: factorial_t(I, N(I, a[0])),
    "erf": _m1(lambda x: tm.app("erf", x)),
    "fsum": lambda I, a, k: L().reduce_seq(I, "sum", a[0]),
    "prod": lambda I, a, k: L().reduce_seq(I, "prod", a[0]),
    "isnan": lambda I, a, k: _isnan(I, a[0]),
    "isinf": lambda I, a, k: bool(tm.inf_sign(N(I, a[0]))),
    "isfinite": lambda I, a, k: True,
    "isclose": lambda I, a, k: tm.eq(N(I, a[0]), N(I, a[1])),
    "copysign": lambda I, a, k: tm.mul(tm.app("abs", N(I, a[0])), sign_t(N(I, a[1]))),
}


def _isnan(I, v):
    v = I.force(v)
    if isinstance(v, ExtV):
        return v.path.endswith("nan")
    if isinstance(v, SeqV):
        return emapB(I, v, lambda x: FALSE)
    return False


def emapB(I, v, f):
    return L().map_parts(I, v, f)


def _asarray(I, a, k):
    r = toarr(I, a[0])
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    if dt is not None and isinstance(r, SeqV):
        nm = _dtname(I, dt)
        if nm.startswith("int") or nm.startswith("float32"):
            return astype(I, r, dt)
    return r


def _dtname(I, dt):
    dt = I.force(dt)
    return dt if isinstance(dt, str) else dt.path.split(".")[-1] if isinstance(dt, ExtV) else dt.name if isinstance(dt, BuiltinV) else "?"


def _array(I, a, k):
    r = copyarr(I, toarr(I, a[0])) if not isinstance(I.force(a[0]), SeqV) or True else None
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    if dt is not None and isinstance(r, SeqV):
        nm = _dtname(I, dt)
        if nm.startswith("int") or nm.startswith("float32"):
            return astype(I, r, dt)
    return r


def _minmax_reduce(neg):
    def f(I, a, k):
        items = L().iterate(I, a[0])
        if not isinstance(items, list):
            return L().seq_max(I, items, neg)
        r = items[0]
        for x in items[1:]:
            r = emap2(I, r, x, (lambda p, q: tm.min_(p, q)) if neg else (lambda p, q: tm.max_(p, q)))
        return r

    return f


def _median(I, a, k):
    s = np_sort(I, a[0])
    n = s.length()
    if tm.is_num(n):
        m = int(tm.numval(n))
        if m % 2:
            return s.items[m // 2] if s.items is not None else s.getf(num(m // 2))
        return tm.scale(tm.add(I._get_any(s, num(m // 2 - 1)), I._get_any(s, num(m // 2))), Fraction(1, 2))
    return tm.app("median", I.reify(s))


def _searchsorted(I, a, k):
    s = toarr(I, a[0])
    side = I.force(k.get("side", a[2] if len(a) > 2 else "left"))
    def f(x):
        g = (lambda y: tm.ite(tm.lt(y, x), ONE, ZERO)) if side == "left" else (lambda y: tm.ite(tm.le(y, x), ONE, ZERO))
        return L().reduce_seq(I, "sum", L().map_parts(I, s, lambda y: g(N(I, y))))
    return emap(I, a[1], f)


def _outer(I, a, k):
    x, y = toarr(I, a[0]), toarr(I, a[1])
    return I.seqmap(x, lambda p: I.seqmap(y, lambda q: tm.mul(N(I, p), N(I, q)), "nd"), "nd")


def _empty_like(I, v, x):
    s = seq(I, v)
    return I.seqmap(s, lambda y: x, "nd")


def _np_max(neg):
    return lambda I, a, k: with_axis(I, toarr(I, a[0]), k.get("axis", a[1] if len(a) > 1 else None), lambda s: L().seq_max(I, s, neg))


def _axis(a, k):
    return k.get("axis", a[1] if len(a) > 1 else None)


def _random_choice(I, a, k):
    lib = L()
    arr = k.get("a", a[0] if a else None)
    p = k.get("p", a[3] if len(a) > 3 else None)
    size = k.get("size", a[1] if len(a) > 1 else None)
    if size is not None or p is None:
        raise Unsupported("np.random.choice")
    arr, p = lib.as_seqv(I, I.force(arr)), lib.as_seqv(I, I.force(p))
    if arr.items is None or p.items is None or len(arr.items) != len(p.items):
        raise Unsupported("np.random.choice")
    ps = [N(I, x) for x in p.items]
    for x in ps:
        if I.branch(tm.lt(x, ZERO)):
            raise PyExc("ValueError", ("probabilities are not non-negative",))
    if I.branch(tm.not_(tm.eq(tm.add(*ps), ONE))):
        raise PyExc("ValueError", ("probabilities do not sum to 1",))
    u = draw(I, "uniform", [], ZERO, ONE, None)
    r = arr.items[-1]
    for j in range(len(ps) - 2, -1, -1):
        r = I.merge_ite(tm.lt(u, tm.add(*ps[: j + 1])), arr.items[j], r) if hasattr(I, "merge_ite") else tm.ite(tm.lt(u, tm.add(*ps[: j + 1])), N(I, arr.items[j]), N(I, r))
    return r


def _rnd(dname, *names):
    """np.random.<law>(loc, scale, size) and the like"""

    def f(I, a, k):
        g = dict(zip(names, a))
        g.update(k)
        loc, scale = ZERO, ONE
        if "loc" in names:
            loc = N(I, g.get("loc", ZERO))
        if "scale" in names:
            scale = N(I, g.get("scale", ONE))
        if "low" in names:
            loc = N(I, g.get("low", ZERO))
            scale = tm.sub(N(I, g.get("high", ONE)), loc)
        size = g.get("size")
        return draw(I, dname, [], loc, scale, I.force(size) if size is not None else None)

    return f


NP = {
    "sum": lambda I, a, k: np_sum(I, a[0], _axis(a, k)),
    "mean": lambda I, a, k: np_mean(I, toarr(I, a[0]), _axis(a, k)),
    "average": lambda I, a, k: np_mean(I, toarr(I, a[0]), _axis(a, k)),
    "var": lambda I, a, k: np_var(I, toarr(I, a[0]), k.get("ddof", ZERO), _axis(a, k)),
    "std": lambda I, a, k: sqrt_v(I, np_var(I, toarr(I, a[0]), k.get("ddof", ZERO), _axis(a, k))),
    "prod": lambda I, a, k: L().reduce_seq(I, "prod", a[0]),
    "sort": lambda I, a, k: np_sort(I, a[0]),
    "argsort": lambda I, a, k: term_seq(tm.argsort_seq(I.reify(I.seqmap(seq(I, a[0]), lambda x: N(I, x), "nd")))),
    "argmax": lambda I, a, k: argext(I, a[0], True),
    "argmin": lambda I, a, k: argext(I, a[0], False),
    "log": _e(log_t), "exp": _e(exp_t), "sqrt": _e(tm.sqrt), "abs": _e(lambda x: tm.app("abs", x)),
    "absolute": _e(lambda x: tm.app("abs", x)), "fabs": _e(lambda x: tm.app("abs", x)),
    "log1p": _e(lambda x: log_t(tm.add(ONE, x))), "expm1": _e(lambda x: tm.sub(exp_t(x), ONE)),
    "log2": _e(lambda x: tm.div(log_t(x), log_t(num(2)))), "log10": _e(lambda x: tm.div(log_t(x), log_t(num(10)))),
    "square": _e(lambda x: tm.power(x, 2)), "sign": _e(sign_t), "floor": _e(floor_t), "ceil": _e(ceil_t),
    "sin": _e(lambda x: tm.app("sin", x)), "cos": _e(lambda x: tm.app("cos", x)), "tan": _e(lambda x: tm.app("tan", x)),
    "arcsin": _e(lambda x: tm.app("asin", x)), "arctan": _e(lambda x: tm.app("atan", x)), "negative": _e(tm.neg),
    "reciprocal": _e(lambda x: tm.power(x, -1)),
    "power": lambda I, a, k: emap2(I, a[0], a[1], tm.pow_),
    "add": lambda I, a, k: emap2(I, a[0], a[1], tm.add),
    "subtract": lambda I, a, k: emap2(I, a[0], a[1], tm.sub),
    "multiply": lambda I, a, k: emap2(I, a[0], a[1], tm.mul),
    "divide": lambda I, a, k: emap2(I, a[0], a[1], tm.div),
    "maximum": lambda I, a, k: emap2(I, a[0], a[1], lambda p, q: tm.max_(p, q)),
    "minimum": lambda I, a, k: emap2(I, a[0], a[1], lambda p, q: tm.min_(p, q)),
    "maximum.reduce": _minmax_reduce(False), "minimum.reduce": _minmax_reduce(True),
    "max": _np_max(False), "min": _np_max(True), "amax": _np_max(False), "amin": _np_max(True),
    "any": lambda I, a, k: L().seq_all(I, a[0], False), "all": lambda I, a, k: L().seq_all(I, a[0], True),
    "arange": lambda I, a, k: arange(I, a), "linspace": linspace,
    "zeros": lambda I, a, k: full(I, a[0], ZERO), "ones": lambda I, a, k: full(I, a[0], ONE),
    "empty": lambda I, a, k: full(I, a[0], ExtV("numpy.uninitialised")),
    "full": lambda I, a, k: full(I, a[0], a[1] if len(a) > 1 else k.get("fill_value")),
    "zeros_like": lambda I, a, k: _empty_like(I, a[0], ZERO), "ones_like": lambda I, a, k: _empty_like(I, a[0], ONE),
    "full_like": lambda I, a, k: _empty_like(I, a[0], a[1]),
    "asarray": _asarray, "asanyarray": _asarray, "array": _array, "ascontiguousarray": _asarray,
    "copy": lambda I, a, k: copyarr(I, toarr(I, a[0])),
    "concatenate": lambda I, a, k: concatenate(I, a[0]), "hstack": lambda I, a, k: concatenate(I, a[0]),
    "append": lambda I, a, k: concatenate(I, (a[0], a[1] if isinstance(I.force(a[1]), (SeqV, tuple)) else SeqV("nd", [a[1]]))),
    "insert": lambda I, a, k: _np_insert(I, a),
    "diff": _diff, "ediff1d": lambda I, a, k: diff(I, a[0]),
    "cumsum": lambda I, a, k: cumsum(I, a[0]), "dot": lambda I, a, k: dot(I, a[0], a[1]), "inner": lambda I, a, k: dot(I, a[0], a[1]),
    "outer": _outer, "quantile": lambda I, a, k: quantile(I, a[0], a[1] if len(a) > 1 else k["q"]),
    "percentile": lambda I, a, k: quantile(I, a[0], emap(I, a[1] if len(a) > 1 else k["q"], lambda x: tm.scale(x, Fraction(1, 100)))),
    "median": _median, "unique": lambda I, a, k: unique(I, a[0]), "polyval": lambda I, a, k: polyval(I, a[0], a[1]),
    "where": lambda I, a, k: where(I, a), "clip": clip, "histogram": histogram, "searchsorted": _searchsorted,
    "isnan": lambda I, a, k: _isnan(I, a[0]), "isinf": lambda I, a, k: emapB(I, a[0], lambda x: tm.boolc(bool(tm.inf_sign(N(I, x))))) if isinstance(I.force(a[0]), SeqV) else bool(tm.inf_sign(N(I, a[0]))),
    "isfinite": lambda I, a, k: emapB(I, a[0], lambda x: TRUE) if isinstance(I.force(a[0]), SeqV) else True,
    "float64": lambda I, a, k: N(I, a[0]), "float32": lambda I, a, k: tm.app("float32", N(I, a[0])),
    "int64": lambda I, a, k: I.builtins["int"].fn(a, k), "int32": lambda I, a, k: I.builtins["int"].fn(a, k),
    "equal": lambda I, a, k: L().elementwise(I, lambda x, y: I.eq(x, y), a[0], a[1]),
    "logical_and": lambda I, a, k: L().elementwise(I, lambda x, y: tm.and_(I.scalar(x), I.scalar(y)), a[0], a[1]),
    "logical_or": lambda I, a, k: L().elementwise(I, lambda x, y: tm.or_(I.scalar(x), I.scalar(y)), a[0], a[1]),
    "logical_not": lambda I, a, k: emapB(I, a[0], lambda x: tm.not_(I.scalar(x))),
    "count_nonzero": lambda I, a, k: L().reduce_seq(I, "sum", L().map_parts(I, a[0], lambda x: tm.ite(I.truth_T(x), ONE, ZERO))),
    "flip": lambda I, a, k: L().slice_get(I, toarr(I, a[0]), SliceV(None, None, num(-1))),
    "size": lambda I, a, k: size_of(I, toarr(I, a[0])),
    "mod": lambda I, a, k: emap2(I, a[0], a[1], lambda x, y: tm.sub(x, tm.mul(y, floor_t(tm.div(x, y))))),
    "isin": lambda I, a, k: emapB(I, a[0], lambda x: L().contains(I, a[1], x)),
    "random.choice": _random_choice,
    "random.normal": _rnd("norm", "loc", "scale", "size"),
    "random.standard_normal": _rnd("norm", "size"),
    "random.uniform": _rnd("uniform", "low", "high", "size"),
    "random.random": _rnd("uniform", "size"),
    "random.random_sample": _rnd("uniform", "size"),
    "random.rand": _rnd("uniform", "size"),
    "random.exponential": _rnd("expon", "scale", "size"),
    "ma.isMaskedArray": lambda I, a, k: False,
    "ndarray": None,
    "isscalar": lambda I, a, k: is_num(I.force(a[0])),
    "allclose": None,
    "atleast_1d": lambda I, a, k: toarr(I, a[0]) if isinstance(I.force(a[0]), (SeqV, tuple)) else SeqV("nd", [a[0]]),
    "ravel": lambda I, a, k: flatten(I, toarr(I, a[0])),
    "squeeze": lambda I, a, k: toarr(I, a[0]),
    "round": lambda I, a, k: emap(I, a[0], lambda x: tm.app("round", x)),
    "frombuffer": lambda I, a, k: _frombuffer(I, a, k),
    "trapezoid": None,
    "errstate": lambda I, a, k: ExtV("numpy.ctx"),
}


def _np_insert(I, a):
    s = toarr(I, a[0])
    p = N(I, a[1])
    if p is ZERO:
        return L().concat(I, [SeqV("nd", [a[2]]), s], "nd")
    raise Unsupported("np.insert")


def _tobytes(I, o):
    from . import sqlmodel

    return sqlmodel.tobytes(I, o)


def _frombuffer(I, a, k):
    from . import sqlmodel

    return sqlmodel.frombuffer(I, a, k)


def _json_dumps(I, a, k):
    v = I.force(a[0])
    I.assumed.add("json.dumps/loads: injective, loads(dumps(x)) = x on lists/dicts of numbers and strings; sort_keys canonicalises")
    from .specsym import norm_arg

    flags = "".join(f";{q}={I.force(x)!r}" for q, x in sorted(k.items()) if q in ("separators", "indent", "default"))
    if isinstance(v, tuple):
        v = SeqV("list", list(v))
    if isinstance(v, SeqV) and I.outer_loop_for(v) is None:
        return tm.oapp("json" + flags, I.reify(v))
    return tm.oapp("json" + flags, norm_arg(I, v))


def _json_loads(I, a, k):
    v = I.force(a[0])
    if isinstance(v, T) and v.op == "oapp" and v.a[0].startswith("json"):
        r = v.a[1]
        if r.kind == "S":
            if r.op == "sapp" and r.a[0] == "vec":
                return SeqV("list", list(r.a[2:-1]))
            return seq_from_term(r, "list")
        if r.kind in ("N", "B"):
            return r
    raise Unsupported("json.loads of an opaque text")


OTHER = {
    "json.dumps": _json_dumps, "json.loads": _json_loads,
    "os.getenv": lambda I, a, k: tm.oapp("getenv", I.scalar(a[0])) if len(a) < 2 else a[1],
    "inspect.isabstract": lambda I, a, k: bool(L().abstract_methods(I, I.force(a[0]))),
    "inspect.isclass": lambda I, a, k: isinstance(I.force(a[0]), ClassV),
    "inspect.getmembers": lambda I, a, k: _getmembers(I, *a),
    "importlib.import_module": lambda I, a, k: I.load_module(I.force(a[0])),
    "copy.deepcopy": lambda I, a, k: deepcopy(I, a[0]),
    "copy.copy": lambda I, a, k: deepcopy(I, a[0]),
    "functools.reduce": lambda I, a, k: _reduce(I, a),
    "itertools.chain": lambda I, a, k: L().concat(I, list(a), "iter"),
    "itertools.accumulate": None,
    "collections.Counter": None,
    "collections.defaultdict": None,
    "dataclasses.replace": lambda I, a, k: _replace(I, a[0], k),
    "typing.cast": lambda I, a, k: a[1],
    "operator.itemgetter": lambda I, a, k: BuiltinV("itemgetter", lambda b, kk: I.getitem(b[0], a[0])),
}


def fnterm(I, f, lo=None, hi=None):
    """a real function as a term: f(x) for a generic real x (of the interval, if one is given)"""
    v = tm.fresh("fn")
    x = tm.app("rv", v)
    asm = ([tm.ge(x, lo)] if lo is not None else []) + ([tm.le(x, hi)] if hi is not None else [])
    val = I.pure(lambda: I.scalar(I.call(f, [x], {})), asm)
    return tm.lam(tm.sym("@reals", True, "pos"), v, val)


def _bound(I, v):
    v = I.force(v)
    t = N(I, v)
    return (None if tm.inf_sign(t) else t), t


def _minimize_scalar(I, a, k):
    b = L().iterate(I, k["bounds"])
    lo, hi = N(I, b[0]), N(I, b[1])
    more = L().iterate(I, k["args"]) if "args" in k else []
    fun = BuiltinV("objective", lambda v, kk: I.call(a[0], [v[0], *more], {})) if more else a[0]
    f = fnterm(I, fun, lo, hi)
    meth = tm.strc(str(I.force(k.get("method", "default"))))
    x = tm.app("argmin1", f, lo, hi, meth)
    I.assume(tm.and_(tm.le(lo, x), tm.le(x, hi)))
    return ExtV("optres", dict(x=x, fun=I.call(fun, [x], {}), success=tm.bapp("minok", f, lo, hi, meth)))


def _root(I, f, lo, hi):
    return tm.app("root1", fnterm(I, f, lo, hi), lo, hi)


def _root_scalar(I, a, k):
    b = L().iterate(I, k["bracket"])
    lo, hi = N(I, b[0]), N(I, b[1])
    x = _root(I, a[0], lo, hi)
    I.assume(tm.and_(tm.le(lo, x), tm.le(x, hi)))
    return ExtV("optres", dict(root=x, converged=True))


def _brentq(I, a, k):
    lo, hi = N(I, a[1]), N(I, a[2])
    x = _root(I, a[0], lo, hi)
    I.assume(tm.and_(tm.le(lo, x), tm.le(x, hi)))
    return x


def _quad(I, a, k):
    if set(k) - {"limit", "epsabs", "epsrel"}:  # accuracy of the quadrature only
        raise Unsupported("quad options")
    lo, lot = _bound(I, a[1])
    hi, hit = _bound(I, a[2])
    f = fnterm(I, a[0], lo, hi)
    return (tm.app("integral1", f, lot, hit), tm.app("integral1_err", f, lot, hit))


def _kde(I, a, k):
    t = I.reify(I.seqmap(seq(I, a[0]), lambda x: N(I, x), "nd"))
    if t.op == "sapp" and t.a[0] in ("sorted", "permuted"):  # a sum over the sample
        t = t.a[2]
    extra = [tm.oapp("kw", tm.strc(q), I.scalar(w)) for q, w in sorted(k.items())]

    def ev(b, kk):
        return emap(I, b[0], lambda x: tm.app("kde", t, *extra, x))

    return BuiltinV("gaussian_kde", ev)


def _legendre(I, a, k):
    n = N(I, a[0])
    if not tm.is_num(n):
        raise Unsupported("Legendre polynomial of symbolic degree")
    n = int(tm.numval(n))
    p0, p1 = [Fraction(1)], [Fraction(0), Fraction(1)]
    for j in range(1, n):
        q = [Fraction(0)] + [c * Fraction(2 * j + 1, j + 1) for c in p1]
        for i, c in enumerate(p0):
            q[i] -= c * Fraction(j, j + 1)
        p0, p1 = p1, q
    c = p0 if n == 0 else p1

    def ev(x):
        return tm.add(*[tm.scale(tm.power(x, i), c[i]) for i in range(len(c)) if c[i]]) if len(c) > 1 else num(c[0])

    return BuiltinV("legendre", lambda b, kk: emap(I, b[0], ev))


SPECIAL["legendre"] = _legendre
SPECIAL["eval_legendre"] = lambda I, a, k: _legendre(I, a, k).fn([a[1]], {})
STATS["gaussian_kde"] = _kde
OTHER["scipy.optimize.minimize_scalar"] = _minimize_scalar
OTHER["scipy.optimize.root_scalar"] = _root_scalar
OTHER["scipy.optimize.brentq"] = _brentq
OTHER["scipy.optimize.bisect"] = _brentq
OTHER["scipy.integrate.quad"] = _quad


def _replace(I, o, k):
    o = I.force(o)
    f = dict(o.attrs)
    f.update(k)
    return I.instantiate(o.cls, [], f)


def deepcopy(I, v):
    v = I.force(v)
    if isinstance(v, SeqV):
        return v.clone()
    if isinstance(v, DictV):
        return DictV(v.items)
    if isinstance(v, ObjV) and not v.cls.is_enum:
        return ObjV(v.cls, {q: deepcopy(I, w) for q, w in v.attrs.items()}, v.tag)
    return v


def _reduce(I, a):
    it = L().iterate(I, a[1])
    if not isinstance(it, list):
        raise Unsupported("functools.reduce over a symbolic sequence")
    it = list(it)
    acc = a[2] if len(a) > 2 else it.pop(0)
    for x in it:
        acc = I.call(a[0], [acc, x], {})
    return acc
