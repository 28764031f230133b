"""Term layer of the verifier: hash-consed first-order terms with canonical polynomial arithmetic.

Numbers are mathematical reals / integers (this is recorded as an assumption in every evidence file).
A numeric term is always in canonical form: a polynomial with rational coefficients whose monomials are
products of atoms with rational exponents.  Binders (sum / product / max over an index range, forall /
exists, lambda sequences) are stored locally-nameless: the bound index is `bvar(level)` where level is one
more than any binder level inside the body, so alpha-equivalent binders are the same object.
"""
from __future__ import annotations

import math
from fractions import Fraction
from itertools import count

F0, F1, FM1 = Fraction(0), Fraction(1), Fraction(-1)
_ids = count(1)
_table: dict = {}


class TooBig(Exception):
    pass


class T:
    __slots__ = ("op", "a", "id", "lvl", "isint", "kind", "fv")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a Python truth value")


WORK = [0]  # terms built and monomials multiplied: a clock that does not depend on the machine's load


def _mk(op, a, kind, isint=False):
    WORK[0] += 1
    key = (op, a)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.a, t.kind, t.isint = op, a, kind, isint
    t.id = next(_ids)
    lvl = 0
    fv = frozenset()
    for c in _children(op, a):
        if c.lvl > lvl:
            lvl = c.lvl
        if c.fv:
            fv = fv | c.fv
    if op in ("red", "all", "any", "lam"):
        lvl = lvl + 1
    if op in ("sym", "bsym", "osym", "ssym") :
        fv = fv | {t}
    t.lvl = lvl
    t.fv = fv
    _table[key] = t
    return t


def _children(op, a):
    if op == "poly":
        for mono, _ in a:
            for at, _e in mono:
                yield at
        return
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y


# ----------------------------------------------------------------------------- constructors: numbers
def num(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        v = Fraction(repr(v))
    v = Fraction(v)
    return _mk("num", (v,), "N", v.denominator == 1)


ZERO, ONE = num(0), num(1)


def sym(name, isint=False, sign=None):
    """sign: None | 'pos' | 'nonneg'"""
    return _mk("sym", (name, isint, sign), "N", isint)


_fresh = count(1)


def fresh(prefix="t", isint=True, sign=None):
    return sym(f"{prefix}!{next(_fresh)}", isint, sign)


def reset_fresh():
    """Re-executions of one function must create the same symbols in the same order."""
    global _fresh
    _fresh = count(1)


def fresh_mark():
    global _fresh
    v = next(_fresh)
    _fresh = count(v)
    return v


def fresh_restore(v):
    global _fresh
    _fresh = count(v)


def bvar(level):
    return _mk("bvar", (level,), "N", True)


def app(fname, *args, isint=False):
    return _app(fname, args, isint)


_simplifiers = {}


def simplifier(name):
    def deco(f):
        _simplifiers[name] = f
        return f

    return deco


def _app(fname, args, isint=False):
    f = _simplifiers.get(fname)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return _mk("app", (fname,) + tuple(args), "N", isint)


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.a[0]


# ---- polynomials -----------------------------------------------------------------------------------
def _as_poly(t):
    """dict mono -> coef"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a)
    return {((t, F1),): F1}


MAXTERMS = 3000


def _from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(items) > MAXTERMS:
        raise TooBig(f"polynomial with {len(items)} terms")
    items.sort(key=lambda mc: tuple((at.id, e) for at, e in mc[0]))
    isint = all(
        c.denominator == 1 and all(at.isint and e.denominator == 1 and e > 0 for at, e in m) for m, c in items
    )
    return _mk("poly", tuple(items), "N", isint)


def add(*ts):
    d = {}
    for t in ts:
        if t.op == "num":
            if t.a[0]:
                d[()] = d.get((), F0) + t.a[0]
        elif t.op == "poly":
            for m, c in t.a:
                d[m] = d.get(m, F0) + c
        else:
            m = ((t, F1),)
            d[m] = d.get(m, F0) + F1
    return _from_poly(d)


def neg(t):
    return scale(t, FM1)


def sub(a, b):
    return add(a, neg(b))


def scale(t, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    if c == 1:
        return t
    return _from_poly({m: k * c for m, k in _as_poly(t).items()})


def _needs_expand(at, e):
    return at.op == "poly" and e.denominator == 1 and 0 < e <= 24


def _mul_mono(m1, m2):
    """returns (mono, extra) where extra is a list of terms to be multiplied in (expanded bases), coefficient"""
    WORK[0] += 1
    d = {}
    for at, e in m1:
        d[at] = d.get(at, F0) + e
    for at, e in m2:
        d[at] = d.get(at, F0) + e
    return _norm_mono(d)


def _norm_mono(d):
    extra = []
    exps = []
    primes = {}
    out = {}
    coef = F1
    for at, e in d.items():
        if e == 0:
            continue
        if at.op == "app" and at.a[0] == "exp":
            exps.append(scale(at.a[1], e))
            continue
        if at.op == "num":
            # rational power of a rational constant: prime bases, exponents in (0, 1)
            r = _ratpow(at.a[0], e)
            if r is not None:
                coef *= r
                continue
            fs = _factors(at.a[0])
            if fs is None:
                out[at] = out.get(at, F0) + e
                ip = e.numerator // e.denominator
                if ip != 0 and at.a[0] != 0:
                    coef *= at.a[0] ** ip
                    out[at] -= ip
                continue
            for q, k in fs:
                b = num(q)
                x = primes.get(b, F0) + e * k
                primes[b] = x
            continue
        if at.op == "app" and at.a[0] == "abs" and e.denominator == 1 and e.numerator % 2 == 0:
            extra.append(power(at.a[1], e))
            continue
        if at.op == "ite" and e != 1:
            extra.append(ite(at.a[0], power(at.a[1], e), power(at.a[2], e)))
            continue
        if _needs_expand(at, e):
            extra.append(power(at, e))
            continue
        if at.op == "poly" and e.denominator != 1 and 1 < e <= 24:
            ip = e.numerator // e.denominator
            extra.append(power(at, Fraction(ip)))
            e = e - ip
        out[at] = out.get(at, F0) + e
    for b, x in primes.items():
        ip = x.numerator // x.denominator
        coef *= b.a[0] ** ip
        if x != ip:
            out[b] = x - ip
    if exps:
        s = add(*exps)
        if s.op == "num" and s.a[0] == 0:
            pass
        else:
            ex = _mk("app", ("exp", s), "N", False)
            out[ex] = F1
    mono = tuple(sorted(((a, e) for a, e in out.items() if e != 0), key=lambda x: x[0].id))
    return mono, coef, extra


_factorcache: dict = {}


def _factors(q):
    """prime factors of a positive rational with their exponents, None when out of reach"""
    if q in _factorcache:
        return _factorcache[q]
    r = None
    if q > 0:
        r = {}
        for k, sg in ((q.numerator, 1), (q.denominator, -1)):
            p = 2
            while p * p <= k and p < 2000:
                while k % p == 0:
                    r[p] = r.get(p, 0) + sg
                    k //= p
                p += 1
            if k > 1:
                if k >= 4000000:
                    r = None
                    break
                r[k] = r.get(k, 0) + sg
        r = None if r is None else sorted(r.items())
    _factorcache[q] = r
    return r


def _ratpow(q, e):
    """exact rational power or None"""
    if q == 0:
        return F0 if e > 0 else None
    if e.denominator == 1:
        return q ** int(e)
    if q < 0:
        return None
    n = e.denominator

    def root(k):
        if k > 1 and k.bit_length() <= n:
            return None
        r = round(k ** (1.0 / n))
        for c in (r - 1, r, r + 1):
            if c >= 0 and c**n == k:
                return c
        return None

    a, b = root(q.numerator), root(q.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** e.numerator


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _mul2(r, t)
    return r


_mulcache: dict = {}


def _mul2(a, b):
    if a.op == "num":
        return scale(b, a.a[0])
    if b.op == "num":
        return scale(a, b.a[0])
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mulcache.get(k)
    if r is not None:
        return r
    pa, pb = _as_poly(a), _as_poly(b)
    if len(pa) * len(pb) > MAXTERMS * 4:
        raise TooBig("product too large")
    d = {}
    extras = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            mono, coef, extra = _mul_mono(m1, m2)
            c = c1 * c2 * coef
            if extra:
                t = _from_poly({mono: c})
                for x in extra:
                    t = _mul2(t, x)
                extras.append(t)
            else:
                d[mono] = d.get(mono, F0) + c
    r = _from_poly(d)
    if extras:
        r = add(r, *extras)
    _mulcache[k] = r
    return r


def _mono_term(mono, coef=F1):
    m, c, extra = _norm_mono(dict(mono))
    t = _from_poly({m: c * coef})
    for x in extra:
        t = _mul2(t, x)
    return t


def power(t, e):
    """t ** e for a rational constant e."""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "num":
        r = _ratpow(t.a[0], e)
        if r is not None:
            return num(r)
        return _from_poly_atom(t, e)
    p = _as_poly(t)
    if len(p) == 1:
        (mono, c), = p.items()
        return _mono_pow(mono, c, e, t)
    if e.denominator == 1 and e > 0:
        n = int(e)
        if n <= 24:
            r = t
            for _ in range(n - 1):
                r = _mul2(r, t)
            return r
    # general base: extract content
    cont, com, prim = content(t, e)
    if cont is None:
        return _from_poly_atom(t, e)
    base = prim
    if base.op == "num":
        return mul(power(num(cont), e), _com_pow(com, e), power(base, e))
    if e < 0 and len(_as_poly(base)) > 1:
        fs = _split(base)
        if fs is not None and (e.denominator == 1 or nonneg(fs[0]) or nonneg(fs[1])):
            r = mul(power(fs[0], e), power(fs[1], e))
            if cont != 1:
                r = mul(power(num(cont), e), r)
            return mul(_com_pow(com, e), r) if com else r
    r = _from_poly_atom(base, e) if len(_as_poly(base)) > 1 else power(base, e)
    if cont != 1:
        r = mul(power(num(cont), e), r)
    if com:
        r = mul(_com_pow(com, e), r)
    return r


_splitcache: dict = {}


def _split(t):
    """two factors of a polynomial, found when it is a product of a polynomial in one atom and one in the others"""
    if t.id in _splitcache:
        return _splitcache[t.id]
    _splitcache[t.id] = r = _split0(t)
    return r


def _split0(t):
    p = _as_poly(t)
    if len(p) > 60:
        return None
    atoms = {a for m in p for a, _ in m}
    for at in sorted(atoms, key=lambda a: a.id):
        groups: dict = {}
        for m, c in p.items():
            x = F0
            rest = []
            for a, e in m:
                if a is at:
                    x = e
                else:
                    rest.append((a, e))
            groups.setdefault(x, {})[tuple(rest)] = c
        if len(groups) < 2:
            continue
        gs = list(groups.items())
        q = gs[0][1]
        if len(q) < 2 or any(len(g) != len(q) for _, g in gs):
            continue
        m0 = next(iter(q))
        ratios = []
        for x, g in gs:
            if m0 not in g:
                break
            k = g[m0] / q[m0]
            if any(g.get(m) != c * k for m, c in q.items()):
                break
            ratios.append((x, k))
        else:
            a = add(*[_mono_term(m, c) for m, c in q.items()])
            b = add(*[_mono_term(((at, x),) if x else (), k) for x, k in ratios])
            return a, b
    return None


def _com_pow(com, e):
    return _mono_term(tuple((a, x * e) for a, x in com)) if com else ONE


def _from_poly_atom(base, e):
    m, c, extra = _norm_mono({base: e})
    t = _from_poly({m: c})
    for x in extra:
        t = _mul2(t, x)
    return t


def _mono_pow(mono, c, e, t):
    if e.denominator == 1:
        if c == 0:
            return ZERO
        r = _mono_term(tuple((a, x * e) for a, x in mono), c ** int(e))
        return r
    # fractional power of a monomial
    known, unknown = [], []
    for a, x in mono:
        if nonneg(a):
            known.append((a, x))
        elif x.denominator == 1 and x.numerator % 2 == 0:
            known.append((app("abs", a), x))
        else:
            unknown.append((a, x))
    r = _mono_term(tuple((a, x * e) for a, x in known)) if known else ONE
    if not unknown:
        if c > 0:
            return mul(r, power(num(c), e))
        return mul(r, _from_poly_atom(num(c), e))
    if len(unknown) == 1 and c > 0 and unknown[0][1].denominator == 1:
        a, x = unknown[0]
        # x odd: the power is only defined where a >= 0
        return mul(r, power(num(c), e), _from_poly_atom(a, x * e))
    rest = _from_poly({tuple(unknown): (F1 if c > 0 else FM1)})
    return mul(r, power(num(abs(c)), e), _mk_powatom(rest, e))


def _mk_powatom(base, e):
    return _from_poly({((base, e),): F1})


def content(t, e=F1):
    """(rational content > 0 or signed, common monomial, primitive part) of a polynomial with >= 2 terms.

    For fractional e only a positive rational and provably non-negative atoms are taken out."""
    p = _as_poly(t)
    frac = e.denominator != 1
    from math import gcd

    cs = list(p.values())
    g = 0
    l = 1
    for c in cs:
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    cont = Fraction(g, l)
    atoms = {}
    for i, m in enumerate(p):
        dm = dict(m)
        if i == 0:
            atoms = dict(dm)
            for a in dm:
                pass
        else:
            for a in set(atoms) | set(dm):
                atoms[a] = min(atoms.get(a, F0), dm.get(a, F0))
    # atoms missing from the first monomial but negative elsewhere are handled by the union above
    com = []
    for a, x in atoms.items():
        if x == 0:
            continue
        if a.op == "app" and a.a[0] == "exp":
            continue
        if frac and not nonneg(a):
            continue
        com.append((a, x))
    com = tuple(sorted(com, key=lambda q: q[0].id))
    prim = scale(t, 1 / cont)
    if com:
        parts = []
        for m, c in p.items():
            dm = dict(m)
            for a, x in com:
                dm[a] = dm.get(a, F0) - x
            parts.append(_mono_term(tuple((a, x) for a, x in dm.items() if x != 0), c / cont))
        prim = add(*parts)
    if not frac:
        lead = _as_poly(prim)
        if positive(prim):
            return cont, com, prim
        if positive(neg(prim)):
            return -cont, com, neg(prim)
        first = min(lead.items(), key=lambda mc: tuple((at.id, ee) for at, ee in mc[0]))
        if first[1] < 0:
            prim = neg(prim)
            cont = -cont
    return cont, com, prim


def div(a, b):
    if b.op == "num":
        if b.a[0] == 0:
            raise ZeroDivisionError
        return scale(a, 1 / b.a[0])
    return mul(a, power(b, -1))


def sqrt(t):
    return power(t, Fraction(1, 2))


def pow_(a, b):
    if b.op == "num" and b.a[0].denominator <= 12 and abs(b.a[0]) <= 64:
        return power(a, b.a[0])
    if a.op == "num" and a.a[0] == 1:
        return ONE
    if positive(a):
        return app("exp", mul(b, app("log", a)))  # one canonical form for positive bases
    return _app("pow", (a, b))


# ---- signs -----------------------------------------------------------------------------------------
NONNEG_F = {"exp", "abs", "gamma_fn", "cdf01", "beta_fn"}
POS_F = {"exp"}
_signcache: dict = {}


def nonneg(t):
    k = (t.id, 0)
    if k in _signcache:
        return _signcache[k]
    _signcache[k] = False
    r = _nonneg(t)
    _signcache[k] = r
    return r


def _nonneg(t):
    op = t.op
    if op == "num":
        return t.a[0] >= 0
    if op == "sym":
        return t.a[2] is not None
    if op == "bvar":
        return True
    if op == "poly":
        l = _lower(t)
        if l is not None and l >= 0:
            return True
        if len(t.a) == 2 and _cauchy_schwarz(t):
            return True
        return all(
            c > 0
            and all(
                nonneg(at) or (e.denominator == 1 and e.numerator % 2 == 0) or e.denominator % 2 == 0
                for at, e in m
            )
            for m, c in t.a
        )
    if op == "app" and t.a[0] in ("floor", "round"):
        l = _lower(t)
        return l is not None and l >= 0
    if op == "app":
        return t.a[0] in NONNEG_F or (t.a[0] in ("normcdf", "floor_nn", "ndtr"))  or (
            t.a[0] == "max" and any(nonneg(x) for x in t.a[1:])
        )
    if op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if op == "red":
        return t.a[0] in ("sum", "prod", "max") and nonneg(t.a[2])
    if op == "sel":
        return _seq_sign(t.a[0]) in ("pos", "nonneg")
    return False


def _cauchy_schwarz(t):
    """n sum(f^2) - (sum f)^2, up to a positive factor"""
    for (m1, c1), (m2, c2) in (t.a, t.a[::-1]):
        if c1 <= 0 or c1 != -c2 or len(m2) != 1 or m2[0][1] != 2 or len(m1) != 2:
            continue
        s1 = m2[0][0]
        if s1.op != "red" or s1.a[0] != "sum" or any(e != 1 for _, e in m1):
            continue
        n = s1.a[1]
        for (a, _), (b, _) in (m1, m1[::-1]):
            if a is n and b.op == "red" and b.a[0] == "sum" and b.a[1] is n and b.lvl == s1.lvl and b.a[2] is power(s1.a[2], 2):
                return True
    return False


def _lower(t):
    """a lower bound read off the signs of the symbols, None when there is none"""
    op = t.op
    if op == "num":
        return t.a[0]
    if op == "sym":
        s = t.a[2]
        return None if s is None else F0 if s == "nonneg" else (F1 if t.isint else F0) if s == "pos" else Fraction(s)
    if op == "bvar":
        return F0
    if op == "app" and t.a[0] in ("floor", "round"):
        l = _lower(t.a[1])
        return None if l is None else Fraction(math.floor(l) if t.a[0] == "floor" else round(l))
    if op == "app" and t.a[0] == "max":
        ls = [l for l in map(_lower, t.a[1:]) if l is not None]
        return max(ls) if ls else None
    if op == "poly":
        out = F0
        for m, c in t.a:
            if c < 0:
                if m:
                    return None
                out += c
                continue
            x = c
            for at, e in m:
                if e.denominator == 1 and e > 0:
                    l = _lower(at)
                    if l is None or l < 0:
                        if e % 2 == 0 or nonneg(at):
                            l = F0
                        else:
                            return None
                    x *= l ** int(e)
                elif nonneg(at) or e.denominator % 2 == 0 or e.numerator % 2 == 0:
                    x = F0
                else:
                    return None
            out += x
        return out
    return F0 if nonneg(t) else None


def positive(t):
    k = (t.id, 1)
    if k in _signcache:
        return _signcache[k]
    _signcache[k] = False
    r = _positive(t)
    _signcache[k] = r
    return r


def _positive(t):
    op = t.op
    if op == "num":
        return t.a[0] > 0
    if op == "sym":
        return t.a[2] not in (None, "nonneg")
    if op == "poly":
        l = _lower(t)
        if l is not None and l > 0:
            return True
        ok = False
        for m, c in t.a:
            if c <= 0:
                return False
            if all(positive(at) or (e < 0 and e.denominator % 2 == 0) for at, e in m):
                ok = True
            elif not all(nonneg(at) or (e.denominator == 1 and e.numerator % 2 == 0) or e.denominator % 2 == 0 for at, e in m):
                return False
        return ok
    if op == "app" and t.a[0] in ("floor", "round"):
        l = _lower(t)
        return l is not None and l > 0
    if op == "app":
        return t.a[0] in POS_F or (t.a[0] == "max" and any(positive(x) for x in t.a[1:]))
    if op == "ite":
        return positive(t.a[1]) and positive(t.a[2])
    if op == "red":
        return t.a[0] in ("sum", "max", "prod") and positive(t.a[2]) and (positive(t.a[1]) or t.a[0] == "prod")
    if op == "sel":
        return _seq_sign(t.a[0]) == "pos"
    return False


def _seq_sign(s):
    if s.op == "ssym":
        return s.a[3]
    if s.op == "sapp" and s.a[0] in ("sorted", "permuted"):
        return _seq_sign(s.a[2])
    if s.op == "lam":
        return "pos" if positive(s.a[1]) else ("nonneg" if nonneg(s.a[1]) else None)
    return None


# ---- simplifying constructors for functions --------------------------------------------------------
def _lead_neg(t):
    p = _as_poly(t)
    if not p:
        return False
    first = min(p.items(), key=lambda mc: tuple((at.id, ee) for at, ee in mc[0]))
    return first[1] < 0


@simplifier("abs")
def _s_abs(t):
    if nonneg(t):
        return t
    if t.op == "num":
        return num(abs(t.a[0]))
    if nonneg(neg(t)):
        return neg(t)
    p = _as_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        pos = [(a, e) for a, e in m if nonneg(a) or (e.denominator == 1 and e.numerator % 2 == 0) or e.denominator % 2 == 0]
        rest = [(a, e) for a, e in m if (a, e) not in pos]
        if pos or c != 1 or len(rest) > 1 or (rest and rest[0][1] != 1):
            r = _mono_term(tuple(pos), abs(c))
            for a, e in rest:
                r = mul(r, power(_mk("app", ("abs", a), "N", a.isint), e))
            return r
        return _mk("app", ("abs", t), "N", t.isint)
    cont, com, prim = content(t)
    posm = tuple((a, e) for a, e in com if nonneg(a))
    if len(posm) < len(com):
        rest = tuple((a, e) for a, e in com if not nonneg(a))
        r = mul(num(abs(cont)), _mono_term(posm))
        for a, e in rest:
            r = mul(r, power(app("abs", a), e))
        return mul(r, app("abs", prim))
    if cont != 1 or com:
        return mul(num(abs(cont)), _mono_term(posm), app("abs", prim))
    return None


@simplifier("exp")
def _s_exp(t):
    if t.op == "num" and t.a[0] == 0:
        return ONE
    if t.op == "app" and t.a[0] == "log":
        return t.a[1]
    p = _as_poly(t)
    # exp(c*log(x) + r) -> x^c exp(r)
    outs = []
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].a[0] == "log":
            outs.append(power(m[0][0].a[1], c))
        else:
            rest[m] = c
    if outs:
        r = _from_poly(rest)
        e = ONE if (r.op == "num" and r.a[0] == 0) else app("exp", r)
        return mul(e, *outs)
    return None


@simplifier("log")
def _s_log(t):
    if t.op == "num" and t.a[0] == 1:
        return ZERO
    if t.op == "app" and t.a[0] == "exp":
        return t.a[1]
    p = _as_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1)):
            unk = [a for a, e in m if not nonneg(a)]
            # log of a product is only defined for a positive product; a single factor of unknown sign
            # must then be positive itself
            if len(unk) <= 1 and all(not (a in unk and e.denominator == 1 and e.numerator % 2 == 0) for a, e in m):
                parts = [scale(app("log", a), e) for a, e in m]
                if c != 1:
                    parts.append(_log_rat(c))
                return add(*parts)
        return None
    cont, com, prim = content(t, Fraction(1, 2))
    if cont is not None and (cont != 1 or com):
        parts = [scale(app("log", a), e) for a, e in com]
        if cont != 1:
            parts.append(_log_rat(cont))
        parts.append(app("log", prim))
        return add(*parts)
    if t.op == "num":
        return _log_rat(t.a[0])
    return None


def _log_rat(q):
    """log of a positive rational, expanded over prime factors when small."""
    def fac(k):
        out = {}
        d = 2
        while d * d <= k and d < 2000:
            while k % d == 0:
                out[d] = out.get(d, 0) + 1
                k //= d
            d += 1
        if k > 1:
            out[k] = out.get(k, 0) + 1
        return out

    if q == 1:
        return ZERO
    if q <= 0:
        return _mk("app", ("log", num(q)), "N", False)
    if q.numerator > 10**9 or q.denominator > 10**9:
        return _mk("app", ("log", num(q)), "N", False)
    parts = []
    for k, s in ((q.numerator, 1), (q.denominator, -1)):
        for pr, e in fac(k).items():
            parts.append(scale(_mk("app", ("log", num(pr)), "N", False), s * e))
    return add(*parts)


def _common_factor(ts):
    """largest positive common monomial factor of several terms (as term), or ONE"""
    polys = [_as_poly(t) for t in ts]
    atoms = None
    for p in polys:
        for m in p:
            dm = dict(m)
            if atoms is None:
                atoms = dict(dm)
            else:
                for a in set(atoms) | set(dm):
                    x, y = atoms.get(a, F0), dm.get(a, F0)
                    # a polynomial denominator that some terms lack is not common (clearing it would expand them)
                    atoms[a] = max(x, y) if a.op == "poly" and min(x, y) < 0 else min(x, y)
    atoms = {a: e for a, e in (atoms or {}).items() if not (a.op == "poly" and e > 0)}
    if not atoms:
        return ()
    return tuple((a, e) for a, e in atoms.items() if e != 0 and positive(a))


def _div_mono(t, com):
    """t divided by a monomial, exponent by exponent"""
    inv = tuple((a, -e) for a, e in com)
    out = []
    for m, c in _as_poly(t).items():
        d = dict(m)
        for a, e in inv:
            d[a] = d.get(a, F0) + e
        out.append(_mono_term(tuple((a, e) for a, e in d.items() if e != 0), c))
    return add(*out)


def _join_max(ts):
    """a value next to either end of a range of values of which the maximum is taken joins the range"""
    for r in ts:
        if r.op != "red" or r.a[0] != "max" or not nonneg(r.a[1]):
            continue
        n, b = r.a[1], r.a[2]
        for t in ts:
            if t is r:
                continue
            rest = [u for u in ts if u is not r and u is not t]
            if open_body(b, r.lvl, neg(ONE)) is t:
                v = fresh("j")
                return rest + [red("max", add(n, ONE), v, open_body(b, r.lvl, sub(v, ONE)))]
            if open_body(b, r.lvl, n) is t:
                v = fresh("j")
                return rest + [red("max", add(n, ONE), v, open_body(b, r.lvl, v))]
    return None


@simplifier("max")
def _s_max(*ts):
    flat = []
    for t in ts:
        if t.op == "app" and t.a[0] == "max":
            flat.extend(t.a[1:])
        else:
            flat.append(t)
    nums = [t.a[0] for t in flat if t.op == "num"]
    rest = {t for t in flat if t.op != "num"}
    if nums:
        if not rest:
            return num(max(nums))
        rest.add(num(max(nums)))
    # drop dominated
    keep = []
    rl = sorted(rest, key=lambda t: t.id)
    live = list(rl)
    for t in rl:
        if any(u is not t and nonneg(sub(u, t)) for u in live):
            live.remove(t)
            continue
        keep.append(t)
    if len(keep) == 1:
        return keep[0]
    j = _join_max(keep)
    if j is not None:
        return app("max", *j)
    if any(k.op == "poly" and any(a.op == "red" and a.a[0] == "max" for m, _ in k.a for a, _ in m) for k in keep):
        ps = [_as_poly(k) for k in keep]
        same = {m: c for m, c in ps[0].items() if all(p.get(m) == c for p in ps[1:])}
        if same:
            d = _from_poly(same)
            return add(d, app("max", *[sub(k, d) for k in keep]))
    f = _common_factor(keep)
    if f:
        return mul(_mono_term(f), app("max", *[_div_mono(k, f) for k in keep]))
    keep.sort(key=lambda t: t.id)
    return _mk("app", ("max",) + tuple(keep), "N", all(k.isint for k in keep))


def max_(*ts):
    return app("max", *ts)


def min_(*ts):
    return neg(app("max", *[neg(t) for t in ts]))


@simplifier("floor")
def _s_floor(t):
    if t.isint:
        return t
    if t.op == "num":
        import math

        return num(math.floor(t.a[0]))
    p = _as_poly(t)
    c = p.get((), F0)
    import math

    ip = math.floor(c)
    if ip != 0:
        return add(num(ip), app("floor", sub(t, num(ip))))
    # integer part that is an integer polynomial
    ints = {m: k for m, k in p.items() if k.denominator == 1 and m and all(a.isint and e.denominator == 1 and e > 0 for a, e in m)}
    if ints:
        it = _from_poly(ints)
        return add(it, app("floor", sub(t, it)))
    return _mk("app", ("floor", t), "N", True)


@simplifier("gamma_fn")
def _s_gamma(t):
    """factorials of shifted integers in terms of one factorial: gamma(p + k) with gamma(p + 1) = p!"""
    if t.op == "num" or not t.isint:
        return None
    k = _as_poly(t).get((), 0)
    p = sub(t, num(k))
    if k == 1 or not -6 <= k <= 8:
        return None
    base = _mk("app", ("gamma_fn", add(p, ONE)), "N", True)
    fs = [add(p, num(j)) for j in (range(1, int(k)) if k > 1 else range(int(k), 1))]
    return mul(base, *fs) if k > 1 else mul(base, *[power(f, -1) for f in fs])


@simplifier("normcdf")
def _s_normcdf(t):
    if t.op == "num" and t.a[0] == 0:
        return num(Fraction(1, 2))
    if _lead_neg(t):
        return sub(ONE, app("normcdf", neg(t)))
    return None


@simplifier("normppf")
def _s_normppf(t):
    if t.op == "num" and t.a[0] == Fraction(1, 2):
        return ZERO
    if t.op == "app" and t.a[0] == "normcdf":
        return t.a[1]
    return None


@simplifier("median")
def _s_median(s):
    """median of c * s[i] + d is c * median(s) + d"""
    if s.op != "lam":
        return None
    v = sym("med!v", True)
    b = open_body(s.a[1], s.lvl, v)
    q, co, rest = None, [], []
    for m, c in _as_poly(b).items():
        dep = [(a, e) for a, e in m if occurs(a, v)]
        if not dep:
            rest.append(_mono_term(m, c))
            continue
        if len(dep) != 1 or dep[0][1] != 1 or dep[0][0].op != "sel" or (q is not None and q is not dep[0][0]):
            return None
        q = dep[0][0]
        co.append(_mono_term(tuple(x for x in m if x[0] is not q), c))
    if q is None or q.a[1] is not v or occurs(q.a[0], v) or seqlen(q.a[0]) is not s.a[0] or (not rest and len(co) == 1 and co[0] is ONE):
        return None
    return add(mul(add(*co), app("median", q.a[0])), *rest)


for _odd in ("tan", "sin", "atan", "erf", "tanh", "sinh", "asinh"):
    def _mkodd(nm):
        def f(t):
            if t.op == "num" and t.a[0] == 0:
                return ZERO
            if nm == "atan" and t is ONE:
                return scale(sym("pi", False, "pos"), Fraction(1, 4))
            if _lead_neg(t):
                return neg(app(nm, neg(t)))
            return None

        return f

    _simplifiers[_odd] = _mkodd(_odd)


def _s_cos(t):
    if t.op == "num" and t.a[0] == 0:
        return ONE
    if _lead_neg(t):
        return app("cos", neg(t))
    return None


_simplifiers["cos"] = _s_cos
_simplifiers["cosh"] = _s_cos


@simplifier("pow")
def _s_pow(a, b):
    if b.op == "num" and b.a[0].denominator <= 12 and abs(b.a[0]) <= 64:
        return power(a, b.a[0])
    if a.op == "num" and a.a[0] == 1:
        return ONE
    if a.op == "app" and a.a[0] == "exp":
        return app("exp", mul(a.a[1], b))
    if positive(a) or a.op == "num" and a.a[0] > 0:
        return app("exp", mul(b, app("log", a)))
    return None


# ----------------------------------------------------------------------------- booleans
TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def boolc(b):
    return TRUE if b else FALSE


def bsym(name):
    return _mk("bsym", (name,), "B")


def fresh_bool(prefix="b"):
    return bsym(f"{prefix}!{next(_fresh)}")


def _cmp_norm(t):
    """divide by positive content"""
    p = _as_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        com = tuple((a, e) for a, e in m if positive(a))
        t = scale(t, 1 / abs(c))
        if com:
            t = mul(t, _mono_term(tuple((a, -e) for a, e in com)))
        return t
    cont, com, prim = content(t, Fraction(1, 2))
    com_pos = tuple((a, e) for a, e in com if positive(a))
    com_rest = tuple((a, e) for a, e in com if not positive(a))
    r = prim
    if com_rest:
        r = mul(r, _mono_term(com_rest))
    return r


INF = sym("@inf", False, "pos")


def inf_sign(t):
    """+1 / -1 if the term is plus / minus infinity (INF times a factor of known sign plus finite terms), else 0"""
    if INF not in t.fv:
        return 0
    if t is INF:
        return 1
    if t.op != "poly":
        return 0
    r = 0
    for mono, c in t.a:
        if any(INF in at.fv for at, _ in mono):
            rest = ONE
            for at, e in mono:
                if at is INF:
                    if e != 1:
                        return 0
                elif INF in at.fv:
                    return 0
                else:
                    rest = mul(rest, power(at, e))
            sg = (1 if positive(rest) else -1 if positive(neg(rest)) else 0) * (1 if c > 0 else -1)
            if sg == 0 or r not in (0, sg):
                return 0
            r = sg
    return r


def ge0(t):
    if t.op == "num":
        return boolc(t.a[0] >= 0)
    if INF in t.fv and inf_sign(t):
        return boolc(inf_sign(t) > 0)
    if nonneg(t):
        return TRUE
    if positive(neg(t)):
        return FALSE
    t = _cmp_norm(t)
    if t.isint:
        pass
    return _mk("ge0", (t,), "B")


def gt0(t):
    if t.op == "num":
        return boolc(t.a[0] > 0)
    if INF in t.fv and inf_sign(t):
        return boolc(inf_sign(t) > 0)
    if positive(t):
        return TRUE
    if nonneg(neg(t)):
        return FALSE
    if t.isint:
        return ge0(sub(t, ONE))
    t = _cmp_norm(t)
    return _mk("gt0", (t,), "B")


def eq0(t):
    if t.op == "num":
        return boolc(t.a[0] == 0)
    if INF in t.fv and inf_sign(t):
        return FALSE
    if positive(t) or positive(neg(t)):
        return FALSE
    t = _cmp_norm(t)
    if _lead_neg(t):
        t = neg(t)
    return _mk("eq0", (t,), "B")


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return gt0(sub(b, a))


def ge(a, b):
    return ge0(sub(a, b))


def gt(a, b):
    return gt0(sub(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.kind == "N" and b.kind == "N":
        return eq0(sub(a, b))
    if a.kind == "B" and b.kind == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        x, y = sorted((a, b), key=lambda t: t.id)
        return _mk("iff", (x, y), "B")
    if a.kind == "O" and b.kind == "O":
        if a.op == "str" and b.op == "str":
            return boolc(a.a == b.a)
        if a.op == "oapp" and b.op == "oapp" and a.a[0] == b.a[0] and a.a[0].startswith("json"):
            x, y = a.a[1], b.a[1]
            if x.kind == "S" and y.kind == "S":
                n = seqlen(x)
                v = fresh("j")
                return and_(eq(n, seqlen(y)), quant("all", n, v, eq(sel(x, v), sel(y, v))))
            return eq(x, y)
        x, y = sorted((a, b), key=lambda t: t.id)
        return _mk("oeq", (x, y), "B")
    if a.kind != b.kind:
        return FALSE
    if a.kind == "S":
        x, y = sorted((a, b), key=lambda t: t.id)
        return _mk("seqeq", (x, y), "B")
    raise TypeError((a.kind, b.kind))


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "ge0":
        return gt0(neg(t.a[0]))
    if t.op == "gt0":
        return ge0(neg(t.a[0]))
    if t.op == "and":
        return or_(*[not_(x) for x in t.a])
    if t.op == "or":
        return and_(*[not_(x) for x in t.a])
    if t.op == "all":
        return _mk("any", (t.a[0], not_(t.a[1])), "B")
    if t.op == "any":
        return _mk("all", (t.a[0], not_(t.a[1])), "B")
    return _mk("not", (t,), "B")


def and_(*ts):
    out = {}
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in t.a if t.op == "and" else (t,):
            if x is FALSE:
                return FALSE
            out[x.id] = x
    if not out:
        return TRUE
    for x in out.values():
        if not_(x).id in out:
            return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("and", tuple(sorted(out.values(), key=lambda t: t.id)), "B")


def or_(*ts):
    out = {}
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in t.a if t.op == "or" else (t,):
            if x is TRUE:
                return TRUE
            out[x.id] = x
    if not out:
        return FALSE
    for x in out.values():
        n = not_(x)
        if n.id in out:
            return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("or", tuple(sorted(out.values(), key=lambda t: t.id)), "B")


def implies(a, b):
    return or_(not_(a), b)


def bapp(name, *args):
    return _mk("bapp", (name,) + tuple(args), "B")


def _canon_pol(c):
    """exactly one of c and not c is canonical; stable under renaming of variables"""
    if c.op == "ge0":
        t = c.a[0]
        if not t.isint:
            return True
        k = _as_poly(t).get((), 0)
        return k >= 0
    return c.op not in ("gt0", "not", "or", "any")


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    # the condition is decided inside the branches
    if occurs(a, c):
        a = subst_term(a, {c: TRUE})
    if occurs(b, c):
        b = subst_term(b, {c: FALSE})
    if a is b:
        return a
    if a.kind == "B" and b.kind == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.kind == "N" and b.kind == "N":
        # recognise max/min
        if c.op in ("ge0", "gt0"):
            d = sub(a, b)
            if not d.op == "num":
                nd = _cmp_norm(d)
                if c.a[0] is nd:
                    return max_(a, b)
                if c.a[0] is _cmp_norm(neg(d)):
                    return min_(a, b)
        if c.op == "not" or (c.op in ("gt0",) and False):
            return ite(c.a[0], b, a)
        # canonical orientation for a comparison and its negation
        if not _canon_pol(c):
            return _ite_num(not_(c), b, a)
        return _ite_num(c, a, b)
    if a.kind == b.kind:
        if not _canon_pol(c):
            c, a, b = not_(c), b, a
        return _mk("ite", (c, a, b), a.kind)
    raise TypeError("ite kinds")


def _content(t):
    """positive rational content of a polynomial"""
    p = _as_poly(t)
    g, h = 0, 1
    for q in p.values():
        q = Fraction(q)
        g = math.gcd(g, abs(q.numerator))
        h = h * q.denominator // math.gcd(h, q.denominator)
    return Fraction(g, h) if g else Fraction(1)


def _num_choice(t):
    """(d, hi, lo) when t = hi if d else lo with numbers hi and lo"""
    if t.op == "ite":
        return (t.a[0], 1, 0) if t.a[1] is ONE and t.a[2] is ZERO else None
    if t.op != "poly" or len(t.a) > 2:
        return None
    k0, r = 0, None
    for m, k in t.a:
        if not m:
            k0 = k
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" and m[0][0].a[1] is ONE and m[0][0].a[2] is ZERO:
            r = (m[0][0].a[0], k)
        else:
            return None
    return None if r is None else (r[0], k0 + r[1], k0)


def _ite_num(c, a, b):
    if a.op == "num" and b.op == "num" and not (a.a[0] == 1 and b.a[0] == 0):
        return add(b, scale(_mk("ite", (c, ONE, ZERO), "N", True), a.a[0] - b.a[0]))
    for x, y, first in ((a, b, True), (b, a, False)):
        # a nested choice between the same numbers
        if x.op == "num":
            q = _num_choice(y)
            if q is not None:
                d, hi, lo = q
                cc = c if first else not_(c)
                if x.a[0] == hi:
                    return ite(or_(cc, d), num(hi), num(lo))
                if x.a[0] == lo:
                    return ite(or_(cc, not_(d)), num(lo), num(hi))
    if a is ZERO or b is ZERO:
        k = _content(b if a is ZERO else a)
        if k != 1:
            return scale(_ite_num(c, scale(a, 1 / k), scale(b, 1 / k)), k)
        com = None  # positive symbols in every term
        for m in _as_poly(b if a is ZERO else a):
            fs = {(x, e) for x, e in m if x.op == "sym" and not x.isint and positive(x)}
            com = fs if com is None else com & fs
        if com:
            f = tuple(sorted(com, key=lambda q: q[0].id))
            inv = _mono_term(tuple((x, -e) for x, e in f))
            return mul(_mono_term(f), _ite_num(c, mul(a, inv), mul(b, inv)))
    return _mk("ite", (c, a, b), "N", a.isint and b.isint)


# ----------------------------------------------------------------------------- opaque values
def osym(name):
    return _mk("osym", (name,), "O")


def strc(s):
    return _mk("str", (s,), "O")


def oapp(name, *args):
    return _mk("oapp", (name,) + tuple(args), "O")


# ----------------------------------------------------------------------------- sequences
def ssym(name, n, elem="N", sign=None):
    return _mk("ssym", (name, n, elem, sign), "S")


def sapp(name, n, *args, elem="N"):
    return _mk("sapp", (name, n) + tuple(args) + (("elem", elem),), "S")


def seqlen(s):
    if s.op == "ssym":
        return s.a[1]
    if s.op == "lam":
        return s.a[0]
    if s.op == "sapp":
        return s.a[1]
    if s.op == "ite":
        return ite(s.a[0], seqlen(s.a[1]), seqlen(s.a[2]))
    raise TypeError(s.op)


def seqelem(s):
    if s.op == "ssym":
        return s.a[2]
    if s.op == "sapp":
        return s.a[-1][1]
    if s.op == "ite":
        return seqelem(s.a[1])
    return s.a[1].kind


def sel(s, i):
    if s.op == "lam":
        return open_body(s.a[1], s.lvl, i)
    if s.op == "ite":
        return ite(s.a[0], sel(s.a[1], i), sel(s.a[2], i))
    if s.op == "sapp" and s.a[0] == "vec" and i.op == "num":
        return s.a[2 + int(i.a[0])]
    if i.op == "sel" and i.a[0].op == "sapp":
        ia = i.a[0]
        if ia.a[0] == "argsort":
            if ia.a[2] is s:
                return sel(sorted_seq(s), i.a[1])
            if s.op == "sapp" and s.a[0] == "rank" and s.a[2] is ia.a[2]:
                return i.a[1]
        if ia.a[0] == "rank" and s.op == "sapp" and s.a[0] == "argsort" and s.a[2] is ia.a[2]:
            return i.a[1]
        if ia.a[0] == "rank" and s.op == "sapp" and s.a[0] == "sorted" and s.a[2] is ia.a[2]:
            return sel(ia.a[2], i.a[1])
    k = seqelem(s)
    return _mk("sel", (s, i), k if k in ("N", "B", "O", "S") else "N", k == "I") if k != "I" else _mk(
        "sel", (s, i), "N", True
    )


def close(body, v):
    """replace temp var v in body by the bound variable of a new enclosing binder"""
    L = body.lvl + 1
    return subst(body, {v: bvar(L)}), L


def open_body(body, lvl, i):
    return subst(body, {bvar(lvl): i})


def lam(n, v, body):
    """sequence of length n whose element at index v is body"""
    # eta: body == sel(s, v) with s not depending on v and same length
    if body.op == "sel" and body.a[1] is v and not occurs(body.a[0], v) and seqlen(body.a[0]) is n:
        return body.a[0]
    b, L = close(body, v)
    return _mk("lam", (n, b), "S")


_occcache: dict = {}


def occurs(t, v):
    if v.op == "sym":
        return v in t.fv
    k = (t.id, v.id)
    r = _occcache.get(k)
    if r is not None:
        return r
    if t is v:
        r = True
    else:
        r = any(occurs(c, v) for c in _children(t.op, t.a))
    _occcache[k] = r
    return r


def red(op, n, v, body):
    """op in sum/prod/max over v in range(n)"""
    if n.op == "num":
        k = int(n.a[0])
        if k <= 0:
            return ZERO if op == "sum" else ONE if op == "prod" else app("emptymax")
        if k <= 4 or (k <= 40 and op == "sum" and False):
            parts = [subst(body, {v: num(i)}) for i in range(k)]
            return add(*parts) if op == "sum" else mul(*parts) if op == "prod" else max_(*parts)
    sp = _thresholds(n, v, body)
    if sp is not None:
        parts = [red(op, k, v, b) for k, b in sp]
        return add(*parts) if op == "sum" else mul(*parts) if op == "prod" else max_(*parts)
    if op == "sum":
        u = unfilter(n, v, [body])
        if u is not None:
            return red("sum", u[0], v, ite(u[1], u[2][0], ZERO))
        p = _as_poly(body)
        outs = []
        for m, c in p.items():
            dep = tuple((a, e) for a, e in m if occurs(a, v))
            ind = tuple((a, e) for a, e in m if not occurs(a, v))
            if not dep:
                outs.append(mul(_mono_term(ind, c), _count(n)))
            else:
                outs.append(mul(_mono_term(ind, c), _red_atom("sum", n, v, _mono_term(dep))))
        return add(*outs)
    if op == "prod":
        p = _as_poly(body)
        if not p:
            return ite(eq(n, ZERO), ONE, ZERO)
        if len(p) == 1:
            (m, c), = p.items()
            outs = []
            if c != 1:
                outs.append(pow_(num(c), n))
            for a, e in m:
                if occurs(a, v):
                    if a.op == "app" and a.a[0] == "exp":
                        outs.append(app("exp", red("sum", n, v, scale(a.a[1], e))))
                    else:
                        outs.append(power(_red_atom("prod", n, v, a), e))
                else:
                    outs.append(pow_(power(a, e), n))
            return mul(*outs) if outs else ONE
        return _red_atom("prod", n, v, body)
    if op == "max":
        if not occurs(body, v):
            return body
        p = _as_poly(body)
        ind = tuple((a, e) for a, e in _common_factor([body]) if not occurs(a, v))
        k = F1
        if len(p) == 1:
            (m, c), = p.items()
            k = abs(c)
        if ind or k != 1:
            return mul(_mono_term(ind, k), red("max", n, v, scale(_div_mono(body, ind), 1 / k)))
        # additive constants
        const = {m: c for m, c in p.items() if not any(occurs(a, v) for a, e in m)}
        if const:
            ct = _from_poly(const)
            return add(ct, red("max", n, v, sub(body, ct)))
        return _red_atom("max", n, v, body)
    raise ValueError(op)


def _unit_linear(d, v):
    """d = k*v + r with k = 1 or -1, r an integer independent of v"""
    if not d.isint:
        return None
    k = F0
    for m, c in _as_poly(d).items():
        if any(a is v for a, e in m):
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                return None
            k = c
    if k == 0:
        return None
    r = sub(d, scale(v, k))
    return None if occurs(r, v) else (k, r)


def _thresholds(n, v, body):
    """pieces [(length, body)] of range(n) on which a comparison of the index with a constant is decided"""
    if body.kind == "N" and not (body.fv and v in body.fv):
        return None
    seen = set()
    cands = []

    def walk(t):
        if t.id in seen or not occurs(t, v):
            return
        seen.add(t.id)
        if t.op in ("ge0", "gt0", "eq0") and t.a[0].kind == "N":
            u = _unit_linear(t.a[0], v)
            if u:
                cands.append((t, t.op, u))
        elif t.op == "app" and t.a[0] == "max" and len(t.a) == 3:
            u = _unit_linear(sub(t.a[1], t.a[2]), v)
            if u:
                cands.append((t, "max", u))
        for c in _children(t.op, t.a):
            walk(c)

    walk(body)
    for t, op, (k, r) in cands:
        if op == "eq0":
            c = scale(r, -k)
            if nonneg(sub(neg(c), ONE)) or nonneg(sub(c, n)):
                return [(n, subst_term(body, {t: FALSE}))]
            if nonneg(c) and nonneg(sub(sub(n, c), ONE)):
                out = [(c, subst_term(body, {t: FALSE})), (ONE, subst(subst_term(body, {t: TRUE}), {v: add(v, c)})),
                       (sub(sub(n, c), ONE), subst(subst_term(body, {t: FALSE}), {v: add(v, c, ONE)}))]
                return [x for x in out if x[0] is not ZERO]
            continue
        # the comparison holds from c on (k = 1) or below c (k = -1)
        if op == "gt0":
            r = sub(r, ONE)
        c = neg(r) if k == 1 else add(r, ONE)
        hi, lo = (t.a[1], t.a[2]) if op == "max" else (TRUE, FALSE)
        first, second = (lo, hi) if k == 1 else (hi, lo)
        if nonneg(neg(c)):
            return [(n, subst_term(body, {t: second}))]
        if nonneg(sub(c, n)):
            return [(n, subst_term(body, {t: first}))]
        if nonneg(c) and nonneg(sub(n, c)):
            return [(c, subst_term(body, {t: first})), (sub(n, c), subst(subst_term(body, {t: second}), {v: add(v, c)}))]
    return None


def _count(n):
    """number of indices in range(n)"""
    if nonneg(n):
        return n
    return max_(n, ZERO)


def _red_atom(op, n, v, body):
    # symmetric functions forget sorting / permutations: body depends on v only through sel(S, v)
    body2 = _unsort(body, v, n)
    if body2 is not None:
        return red(op, n, v, body2)
    if op == "sum" and body is v and nonneg(n):
        return scale(mul(n, sub(n, ONE)), Fraction(1, 2))
    if op == "sum" and body.op == "poly" and len(body.a) == 1 and nonneg(n):
        (m, c), = body.a
        if len(m) == 1 and m[0][0] is v and m[0][1].denominator == 1 and 2 <= m[0][1] <= 12:
            return scale(_power_sum(n, int(m[0][1])), c)
    b, L = close(body, v)
    if op == "sum" and b.op == "poly" and (len(b.a) > 1 or b.a[0][1] != 1):
        # renaming the index may turn the sign of a factor
        return add(*[scale(_mk("red", (op, n, _mono_term(m)), "N", _mono_term(m).isint), c) for m, c in b.a])
    return _mk("red", (op, n, b), "N", b.isint)


_bernoulli = [F1]


def _power_sum(n, k):
    """sum of i^k over range(n) (Faulhaber)"""
    while len(_bernoulli) <= k:
        m = len(_bernoulli)
        _bernoulli.append(-sum(math.comb(m + 1, j) * _bernoulli[j] for j in range(m)) / (m + 1))
    return add(*[scale(power(n, Fraction(k + 1 - j)), Fraction(math.comb(k + 1, j)) * _bernoulli[j] / (k + 1)) for j in range(k + 1) if _bernoulli[j]])


FILTERS: dict = {}  # length term -> filtered sequences of that length


def filter_seq(n, v, cond, val):
    """elements val (at v in range(n)) where cond holds, in order"""
    u = unfilter(n, v, [cond, val])
    if u is not None:
        n, c0, (cond, val) = u
        cond = and_(c0, cond)
    cnt = red("sum", n, v, ite(cond, ONE, ZERO))
    r = sapp("filter", cnt, lam(n, v, ite(cond, ONE, ZERO)), lam(n, v, val), elem=val.kind)
    FILTERS.setdefault(cnt, set()).add(r)
    return r


def _indicated(t):
    """condition of an indicator term"""
    for u, neg_ in ((t, False), (sub(ONE, t), True)):
        if u.op == "ite" and u.a[1] is ONE and u.a[2] is ZERO:
            return not_(u.a[0]) if neg_ else u.a[0]
        if u.op == "ite" and u.a[1] is ZERO and u.a[2] is ONE:
            return u.a[0] if neg_ else not_(u.a[0])
    return eq(t, ONE)


def unfilter(n, v, ts):
    """terms depending on v in range(n) only through elements of a filtered sequence of length n:
    (length, condition at v, terms) over the unfiltered index"""
    fs = FILTERS.get(n)
    if not fs or not any(occurs(t, v) for t in ts):
        return None
    for F in fs:
        x = sel(F, v)
        if x.op != "sel":
            continue
        w = fresh("f")
        rs = [subst_term(t, {x: sel(F.a[3], w)}) if occurs(t, x) else t for t in ts]
        if any(occurs(t, v) for t in rs):
            continue
        rs = [subst(t, {w: v}) for t in rs]
        return seqlen(F.a[2]), _indicated(sel(F.a[2], v)), rs
    return None


def _unsort(body, v, n):
    """If v occurs only inside sel(sorted(s), v) / sel(permuted(s), v) for one s of length n
    (or only inside the same at n - 1 - v), return body with sel(s, v)."""
    found = set()
    back = sub(sub(n, ONE), v)

    def walk(t):
        if not occurs(t, v):
            return True
        if t.op == "sel" and (t.a[1] is v or t.a[1] is back) and not occurs(t.a[0], v):
            s = t.a[0]
            if s.op == "sapp" and s.a[0] in ("sorted", "permuted") and seqlen(s) is n:
                found.add((s, t.a[1]))
                return len(found) == 1
            return False
        if t is v:
            return False
        return all(walk(c) for c in _children(t.op, t.a))

    if not walk(body) or not found:
        return None
    s, i = next(iter(found))
    inner = s.a[2]
    return subst_term(body, {sel(s, i): sel(inner, v)})


def quant(op, n, v, body):
    if body in (TRUE, FALSE):
        if op == "all":
            return TRUE if body is TRUE else le(n, ZERO)
        return FALSE if body is FALSE else gt(n, ZERO)
    if not occurs(body, v):
        return or_(le(n, ZERO), body) if op == "all" else and_(gt(n, ZERO), body)
    if n.op == "num" and n.a[0] <= 6:
        parts = [subst(body, {v: num(i)}) for i in range(int(n.a[0]))]
        return and_(*parts) if op == "all" else or_(*parts)
    sp = _thresholds(n, v, body)
    if sp is not None:
        parts = [quant(op, k, v, b) for k, b in sp]
        return and_(*parts) if op == "all" else or_(*parts)
    b2 = _unsort(body, v, n)
    if b2 is not None:
        return quant(op, n, v, b2)
    u = unfilter(n, v, [body])
    if u is not None:
        return quant(op, u[0], v, implies(u[1], u[2][0]) if op == "all" else and_(u[1], u[2][0]))
    b, L = close(body, v)
    return _mk(op, (n, b), "B")


def _increasing_app(t):
    """the function is increasing in its last argument"""
    return t.a[0] in ("log", "exp", "normcdf", "normppf") or t.a[0].startswith("cdf_") or t.a[0].startswith("ppf_")


def sorted_seq(s):
    """ascending sort of sequence term s"""
    if s.op == "sapp" and s.a[0] == "sorted":
        return s
    if s.op == "sapp" and s.a[0] == "permuted":
        return sorted_seq(s.a[2])
    n = seqlen(s)
    if s.op == "lam":
        b, L = s.a[1], s.lvl
        bv = bvar(L)
        # reflection of an already sorted/any sequence is a permutation
        # monotone affine image: sort(c*x + d) = c*sort(x) + d for c > 0 ; c < 0 reverses
        v = fresh("s")
        body = open_body(b, L, v)
        p = _as_poly(body) if body.kind == "N" else None
        if p:
            sels = set()

            def collect(t):
                if not occurs(t, v):
                    return True
                if t.op == "sel" and t.a[1] is v and not occurs(t.a[0], v):
                    sels.add(t)
                    return True
                return False

            ok = all(collect(a) for m, c in p.items() for a, e in m)
            if ok and len(sels) == 1:
                x = next(iter(sels))
                coef = [mul(_mono_term(tuple((a, e) for a, e in m if a is not x), c)) for m, c in p.items() if any(a is x for a, e in m)]
                if all(sum(e for a, e in m if a is x) in (0, 1) for m in p):
                    cterm = add(*coef)
                    rest = sub(body, mul(cterm, x))
                    inner = x.a[0]
                    if seqlen(inner) is n:
                        if positive(cterm):
                            si = sorted_seq(inner)
                            return lam(n, v, add(mul(cterm, sel(si, v)), rest))
                        if positive(neg(cterm)):
                            si = sorted_seq(inner)
                            return lam(n, v, add(mul(cterm, sel(si, sub(sub(n, ONE), v))), rest))
        # a first element below all the others stays first
        if body.kind == "N" and body.op == "ite" and body.a[0].op == "ge0":
            c, hi, lo = body.a
            first, rest = (lo, hi) if c is ge(v, ONE) else (hi, lo) if c is le(v, ZERO) else (None, None)
            if first is not None and not occurs(first, v):
                inner = subst(rest, {v: add(v, ONE)})
                if nonneg(sub(inner, first)):
                    si = sorted_seq(lam(sub(n, ONE), v, inner))
                    return lam(n, v, ite(ge(v, ONE), sel(si, sub(v, ONE)), first))
        # increasing functions of a sequence: f(sort(y)) = sort(f(y))
        last = body.a[-1] if body.op == "app" else None
        if body.op == "app" and _increasing_app(body) and occurs(last, v) and not any(isinstance(q, T) and occurs(q, v) for q in body.a[1:-1]):
            si = sorted_seq(lam(n, v, last))
            return lam(n, v, app(*body.a[:-1], sel(si, v)))
        # affine images and positive powers of one varying atom
        if p:
            dep = {a for m, c in p.items() for a, e in m if occurs(a, v)}
            if len(dep) == 1:
                x = next(iter(dep))
                es = {e for m, c in p.items() for a, e in m if a is x}
                if len(es) == 1:
                    e = next(iter(es))
                    xe = power(x, e)
                    coef = [mul(_mono_term(tuple((a, e_) for a, e_ in m if a is not x), c)) for m, c in p.items() if any(a is x for a, _ in m)]
                    cterm = add(*coef)
                    rest = add(*[_mono_term(m, c) for m, c in p.items() if not any(a is x for a, _ in m)])
                    up = 1 if e == 1 else (1 if e > 0 else -1) if nonneg(x) else 0
                    plain = x.op == "sel" and x.a[1] is v and e == 1
                    sg = 1 if positive(cterm) else -1 if positive(neg(cterm)) else 0
                    if up * sg and not occurs(rest, v) and not plain and not (e == 1 and cterm is ONE and rest is ZERO):
                        si = sorted_seq(lam(n, v, x))
                        at = v if up * sg > 0 else sub(sub(n, ONE), v)
                        return lam(n, v, add(mul(cterm, power(sel(si, at), e)), rest))
        # forget permutations inside: body depends on v only through sel(perm(s), v)
        b2 = _unsort(body, v, n)
        if b2 is not None:
            return sorted_seq(lam(n, v, b2))
        b2 = _unreflect(body, v, n)
        if b2 is not None:
            return sorted_seq(lam(n, v, b2))
    return sapp("sorted", n, s)


def argsort_seq(s):
    """stable ascending argsort (increasing affine images have the same argsort)"""
    n = seqlen(s)
    if s.op == "lam":
        v = fresh("s")
        body = open_body(s.a[1], s.lvl, v)
        p = _as_poly(body) if body.kind == "N" else {}
        dep = [(m, c) for m, c in p.items() if any(occurs(a, v) for a, e in m)]
        if len(dep) == 1:
            m, c = dep[0]
            xs = [(a, e) for a, e in m if occurs(a, v)]
            rest = _mono_term(tuple((a, e) for a, e in m if not occurs(a, v)), c)
            if len(xs) == 1 and xs[0][1] == 1 and positive(rest):
                return _argsort0(lam(n, v, xs[0][0]))
    return _argsort0(s)


def _argsort0(s):
    if s.op == "sapp" and s.a[0] == "sorted":
        v = fresh("s")
        return lam(seqlen(s), v, v)
    return sapp("argsort", seqlen(s), s, elem="I")


def _unreflect(body, v, n):
    r = sub(sub(n, ONE), v)
    found = []

    def walk(t):
        if not occurs(t, v):
            return True
        if t.op == "sel" and t.a[1] is r and not occurs(t.a[0], v):
            found.append(t)
            return True
        if t is v:
            return False
        return all(walk(c) for c in _children(t.op, t.a))

    if not walk(body) or not found:
        return None
    return subst(body, {v: r})


# ----------------------------------------------------------------------------- substitution / rebuild
def rebuild(t, f):
    """rebuild t applying f to children (binder bodies are passed closed)"""
    op, a = t.op, t.a
    if op in ("num", "sym", "bvar", "bsym", "osym", "str", "true", "false"):
        return t
    if op == "poly":
        parts = []
        for m, c in a:
            q = num(c)
            for at, e in m:
                q = mul(q, power(f(at), e))
            parts.append(q)
        return add(*parts)
    if op == "app":
        args = tuple(f(x) if isinstance(x, T) else x for x in a[1:])
        return _app(a[0], args, t.isint)
    if op == "bapp":
        return bapp(a[0], *[f(x) if isinstance(x, T) else x for x in a[1:]])
    if op == "oapp":
        return oapp(a[0], *[f(x) if isinstance(x, T) else x for x in a[1:]])
    if op == "ite":
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == "sel":
        return sel(f(a[0]), f(a[1]))
    if op == "ssym":
        n = f(a[1])
        return t if n is a[1] else ssym(a[0], n, a[2], a[3])
    if op == "sapp":
        args = [f(x) if isinstance(x, T) else x for x in a[2:-1]]
        if a[0] == "sorted":
            return sorted_seq(args[0])
        if a[0] == "argsort":
            return argsort_seq(args[0])
        return sapp(a[0], f(a[1]), *args, elem=a[-1][1])
    if op == "ge0":
        return ge0(f(a[0]))
    if op == "gt0":
        return gt0(f(a[0]))
    if op == "eq0":
        return eq0(f(a[0]))
    if op in ("oeq", "iff", "seqeq"):
        return eq(f(a[0]), f(a[1]))
    if op == "not":
        return not_(f(a[0]))
    if op == "and":
        return and_(*[f(x) for x in a])
    if op == "or":
        return or_(*[f(x) for x in a])
    if op in ("red", "all", "any", "lam"):
        L = t.lvl
        v = fresh("v")
        if op == "red":
            n, b = f(a[1]), f(subst(a[2], {bvar(L): v}))
            return red(a[0], n, v, b)
        n, b = f(a[0]), f(subst(a[1], {bvar(L): v}))
        if op == "lam":
            return lam(n, v, b)
        return quant(op, n, v, b)
    raise TypeError(op)


def subst(t, m):
    """capture-free substitution of (atomic) terms"""
    memo: dict = {}
    keys = list(m)
    allsym = all(k.op in ("sym", "bsym", "osym", "ssym") for k in keys)
    kset = frozenset(keys)

    def go(x):
        if x in m:
            return m[x]
        if allsym:
            if not (x.fv & kset):
                return x
        elif not any(occurs(x, k) for k in keys):
            return x
        r = memo.get(x.id)
        if r is None:
            r = rebuild_b(x, go, m)
            memo[x.id] = r
        return r

    return go(t)


def subst_term(t, m):
    memo: dict = {}
    keys = list(m)

    def go(x):
        if x in m:
            return m[x]
        if not any(occurs(x, k) for k in keys):
            return x
        r = memo.get(x.id)
        if r is None:
            r = rebuild_b(x, go, m)
            memo[x.id] = r
        return r

    return go(t)


def rebuild_b(t, f, m):
    op, a = t.op, t.a
    if op in ("red", "all", "any", "lam"):
        L = t.lvl
        bv = bvar(L)
        v = fresh("v")
        body = a[2] if op == "red" else a[1]
        n = a[1] if op == "red" else a[0]
        ob = _open_raw(body, bv, v)
        nb = f(ob)
        nn = f(n)
        if op == "red":
            return red(a[0], nn, v, nb)
        if op == "lam":
            return lam(nn, v, nb)
        return quant(op, nn, v, nb)
    return rebuild(t, f)


def _open_raw(body, bv, v):
    return subst(body, {bv: v}) if occurs(body, bv) else body


def atoms_of(t, pred, acc=None, seen=None):
    """collect subterms satisfying pred (including under binders, where bound variables appear as bvar)"""
    if acc is None:
        acc, seen = [], set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if pred(t):
        acc.append(t)
    for c in _children(t.op, t.a):
        atoms_of(c, pred, acc, seen)
    return acc


# ----------------------------------------------------------------------------- equality of rational forms
def is_zero(t, depth=0):
    """decide t == 0 as a rational function over its atoms, assuming all denominators are non-zero"""
    if t.op == "num":
        return t.a[0] == 0
    if t.op != "poly" or depth > 12:
        return False
    dens = {}
    for m, c in t.a:
        for a, e in m:
            if e < 0:
                dens[a] = min(dens.get(a, F0), e)
    # fractional powers of polynomial bases: r^(1/2) stays an atom, integral part is expanded by mul
    pos = [(a, -e) for a, e in dens.items()]
    if not pos:
        return False
    f = ONE
    for a, e in pos:
        ip = -((-e.numerator) // e.denominator)
        f = mul(f, _from_poly({((a, Fraction(ip)),): F1}) if a.op != "poly" else ONE)
    try:
        r = t
        if f is not ONE:
            r = mul(r, f)
        for a, e in pos:
            if a.op == "poly":
                ip = -((-e.numerator) // e.denominator)
                # multiply monomial-wise: a^(-e) * a^ip
                parts = []
                for m, c in _as_poly(r).items():
                    dm = dict(m)
                    x = dm.pop(a, F0)
                    mono = tuple(sorted(dm.items(), key=lambda q: q[0].id))
                    q = mul(_mono_term(mono, c), power(a, x + ip))
                    parts.append(q)
                r = add(*parts)
    except TooBig:
        return False
    if r is t:
        return False
    return is_zero(r, depth + 1)


# ----------------------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14:
        return "..."
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == "num":
        return str(a[0])
    if op in ("sym", "bsym", "osym"):
        return a[0]
    if op == "ssym":
        return a[0]
    if op == "str":
        return repr(a[0])
    if op == "bvar":
        return f"#{a[0]}"
    if op in ("true", "false"):
        return op
    if op == "poly":
        out = []
        for m, c in a:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for at, e in m:
                x = s(at)
                if at.op == "poly":
                    x = f"({x})"
                fs.append(x if e == 1 else f"{x}^{e}" if e.denominator == 1 and e > 0 else f"{x}^({e})")
            out.append("*".join(fs))
        return " + ".join(out)
    if op in ("app", "bapp", "oapp"):
        return f"{a[0]}({', '.join(s(x) if isinstance(x, T) else repr(x) for x in a[1:])})"
    if op == "sapp":
        return f"{a[0]}({', '.join(s(x) if isinstance(x, T) else repr(x) for x in a[2:-1])})"
    if op == "sel":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "red":
        return f"{a[0]}_{{#{t.lvl}<{s(a[1])}}}({s(a[2])})"
    if op in ("all", "any"):
        return f"{op}_{{#{t.lvl}<{s(a[0])}}}({s(a[1])})"
    if op == "lam":
        return f"[{s(a[1])} for #{t.lvl}<{s(a[0])}]"
    if op == "ge0":
        return f"({s(a[0])} >= 0)"
    if op == "gt0":
        return f"({s(a[0])} > 0)"
    if op in ("eq0",):
        return f"({s(a[0])} == 0)"
    if op in ("oeq", "iff", "seqeq"):
        return f"({s(a[0])} == {s(a[1])})"
    if op == "not":
        return f"!{s(a[0])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a) + ")"
    if op == "ite":
        return f"ite({s(a[0])}, {s(a[1])}, {s(a[2])})"
    return op


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(_children(x.op, x.a))


@simplifier("float32")
def _s_float32(x):
    if x.op == "app" and x.a[0] == "float32":
        return x
    if x.op == "num" and x.a[0].denominator == 1 and abs(x.a[0]) < 1 << 24:
        return x
    return None
