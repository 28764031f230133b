"""Discharge of proof obligations: structural rules over canonical terms, then z3 with lemma instantiation."""
from __future__ import annotations

import os
import time
from fractions import Fraction

import z3

z3.set_param("warning", False)

from . import terms as tm
from .terms import T, num, ZERO, ONE, TRUE, FALSE


DEBUG = bool(os.environ.get("PV_DEBUG"))
RL = 3000.0  # z3 resource units per millisecond of budget
_rlast = 0
TRACE = os.environ.get("PV_TRACE")


class EncodeFail(Exception):
    pass


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.structural = 0
        self.z3_discharged = 0
        self.cvc5_checked = 0
        self.cvc5_agree = 0


def _freebv(t):
    """levels of bound variables free in t"""
    memo = _freebv.memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "bvar":
        r = frozenset([t.a[0]])
    else:
        r = frozenset()
        for c in tm._children(t.op, t.a):
            r = r | _freebv(c)
        if t.op in ("red", "all", "any", "lam"):
            n = t.a[1] if t.op == "red" else t.a[0]
            r = (r - {t.lvl}) | _freebv(n)
    memo[t.id] = r
    return r


_freebv.memo = {}


class Encoder:
    def __init__(self, lemmas=True):
        self.memo = {}
        self.side = []
        self.SeqS = z3.DeclareSort("Seq")
        self.ObjS = z3.DeclareSort("Obj")
        self.names = {}
        self.pending = []
        self.seen_lemma = set()
        self.lemmas_on = lemmas
        self.strs = {}
        self.roots = {}
        self.apps = {}

    def fn(self, name, args, rng):
        key = (name, tuple(a.sort().name() for a in args), rng.name())
        f = self.names.get(key)
        if f is None:
            f = z3.Function(f"{name}#{len(self.names)}", *[a.sort() for a in args], rng) if args else z3.Const(f"{name}#{len(self.names)}", rng)
            self.names[key] = f
        return f(*args) if args else f

    def real(self, t):
        e = self.enc(t)
        if z3.is_int(e):
            return z3.ToReal(e)
        return e

    def int(self, t):
        e = self.enc(t)
        if z3.is_int(e):
            return e
        raise EncodeFail("integer expected")

    def enc(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._enc(t)
            self.memo[t.id] = r
        return r

    def bvz(self, lvl):
        return z3.Int(f"bv{lvl}")

    def opaque(self, t, sort):
        """a term with no encoding: an uninterpreted function of its free bound variables"""
        bvs = [self.bvz(l) for l in sorted(_freebv(t))]
        r = self.fn(f"t{t.id}", bvs, sort)
        if not bvs:
            self.pending.append(t)
        return r

    def numsort(self, t):
        return z3.IntSort() if t.isint else z3.RealSort()

    def _enc(self, t):
        op, a = t.op, t.a
        if op == "num":
            v = a[0]
            return z3.IntVal(int(v)) if v.denominator == 1 else z3.RealVal(f"{v.numerator}/{v.denominator}")
        if op == "sym":
            c = z3.Int(a[0]) if a[1] else z3.Real(a[0])
            if a[2] == "pos":
                self.side.append(c > 0)
            elif a[2] == "nonneg":
                self.side.append(c >= 0)
            elif a[2] is not None:
                self.side.append(c >= a[2])
            if a[0] == "pi":
                self.side += [c > z3.RealVal("3.14159265358979"), c < z3.RealVal("3.14159265358980")]
            return c
        if op == "bvar":
            return self.bvz(a[0])
        if op == "poly":
            return self.poly(t)
        if op == "app":
            return self.app(t)
        if op == "ite":
            c = self.enc(a[0])
            if t.kind == "N":
                if t.isint:
                    return z3.If(c, self.enc(a[1]), self.enc(a[2]))
                return z3.If(c, self.real(a[1]), self.real(a[2]))
            return z3.If(c, self.enc(a[1]), self.enc(a[2]))
        if op == "sel":
            s = self.enc(a[0])
            i = self.enc(a[1])
            if not z3.is_int(i):
                i = z3.ToInt(i)
            rng = {"N": z3.IntSort() if t.isint else z3.RealSort(), "B": z3.BoolSort(), "O": self.ObjS, "S": self.SeqS}[t.kind]
            r = self.fn("sel", [s, i], rng)
            sg = tm._seq_sign(a[0])
            if not _freebv(t):
                if sg == "pos":
                    self.side.append(r > 0)
                elif sg == "nonneg":
                    self.side.append(r >= 0)
            elif sg and ("sgn", a[0].id) not in self.seen_lemma and not _freebv(a[0]):
                self.seen_lemma.add(("sgn", a[0].id))
                q = z3.Int("sgnq")
                x = self.fn("sel", [s, q], rng)
                self.side.append(z3.ForAll([q], x > 0 if sg == "pos" else x >= 0, patterns=[x]))
            self.need_seq(a[0])
            return r
        if op == "ssym":
            return z3.Const("seq_" + str(a[0]), self.SeqS)
        if op == "sapp":
            r = self.opaque_seq(t)
            self.need_seq(t)
            return r
        if op == "lam":
            return self.opaque(t, self.SeqS)
        if op == "red":
            r = self.opaque(t, self.numsort(t))
            return r
        if op in ("all", "any"):
            L = t.lvl
            v = self.bvz(L)
            n = self.int(a[0])
            b = self.enc(a[1])
            if op == "all":
                return z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < n), b))
            return z3.Exists([v], z3.And(v >= 0, v < n, b))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "bsym":
            return z3.Bool(a[0])
        if op == "ge0":
            return self.enc(a[0]) >= 0
        if op == "gt0":
            return self.enc(a[0]) > 0
        if op == "eq0":
            return self.enc(a[0]) == 0
        if op == "not":
            return z3.Not(self.enc(a[0]))
        if op == "and":
            return z3.And(*[self.enc(x) for x in a])
        if op == "or":
            return z3.Or(*[self.enc(x) for x in a])
        if op in ("iff", "oeq"):
            return self.enc(a[0]) == self.enc(a[1])
        if op == "seqeq":
            return self.enc(a[0]) == self.enc(a[1])
        if op == "osym":
            return z3.Const("o_" + str(a[0]), self.ObjS)
        if op == "str":
            c = self.strs.get(a[0])
            if c is None:
                c = z3.Const(f"str_{len(self.strs)}", self.ObjS)
                for o in self.strs.values():
                    self.side.append(c != o)
                self.strs[a[0]] = c
            return c
        if op == "oapp":
            return self.fn("o_" + a[0], [self.arg(x) for x in a[1:]], self.ObjS)
        if op == "bapp":
            return self.fn("b_" + a[0], [self.arg(x) for x in a[1:]], z3.BoolSort())
        raise EncodeFail(op)

    def arg(self, x):
        e = self.enc(x)
        if z3.is_int(e):
            return z3.ToReal(e)
        return e

    def opaque_seq(self, t):
        a = t.a
        try:
            args = [self.arg(x) for x in a[2:-1]]
        except EncodeFail:
            return self.opaque(t, self.SeqS)
        return self.fn("sq_" + str(a[0]), [self.arg(a[1])] + args, self.SeqS)

    def poly(self, t):
        parts = []
        allint = t.isint
        for m, c in t.a:
            fs = []
            for at, e in m:
                fs.append(self.powenc(at, e))
            if allint:
                term = z3.IntVal(int(c))
                for f in fs:
                    term = term * f if not (z3.is_int_value(term) and term.as_long() == 1) else f
            else:
                term = z3.RealVal(f"{c.numerator}/{c.denominator}")
                first = c == 1
                for f in fs:
                    f = z3.ToReal(f) if z3.is_int(f) else f
                    term = f if first else term * f
                    first = False
            parts.append(term)
        if len(parts) == 1:
            return parts[0]
        return z3.Sum(*parts)

    def powenc(self, at, e):
        b = self.enc(at)
        if e.denominator == 1 and e > 0:
            r = b
            for _ in range(int(e) - 1):
                r = r * b
            return r
        b = z3.ToReal(b) if z3.is_int(b) else b
        key = (at.id, e.denominator, e < 0)
        w = self.roots.get(key)
        if w is None:
            bvs = [self.bvz(l) for l in sorted(_freebv(at))]
            w = self.fn(f"pw{at.id}_{e.denominator}_{int(e < 0)}", bvs, z3.RealSort())
            d = e.denominator
            p = w
            for _ in range(d - 1):
                p = p * w
            if e < 0:
                ax = z3.Implies(b != 0, p * b == 1) if d == 1 else z3.Implies(b > 0, z3.And(p * b == 1, w > 0))
                if d == 1:
                    ax = z3.And(ax, z3.Implies(b > 0, w > 0), z3.Implies(b < 0, w < 0))
            else:
                ax = z3.Implies(b >= 0, z3.And(p == b, w >= 0))
            if bvs:
                self.side.append(z3.ForAll(bvs, ax, patterns=[w]))
            else:
                self.side.append(ax)
            self.roots[key] = w
        k = abs(e.numerator)
        r = w
        for _ in range(k - 1):
            r = r * w
        return r

    def app(self, t):
        name = t.a[0]
        args = t.a[1:]
        if name == "max":
            es = [self.enc(x) for x in args]
            if not all(z3.is_int(e) for e in es):
                es = [z3.ToReal(e) if z3.is_int(e) else e for e in es]
            r = es[0]
            for e in es[1:]:
                r = z3.If(e > r, e, r)
            return r
        if name == "abs":
            e = self.enc(args[0])
            return z3.If(e >= 0, e, -e)
        if name == "floor":
            return z3.ToInt(self.real(args[0]))
        if name == "round":
            x = self.real(args[0])
            f = z3.ToInt(x)
            d = x - f
            r = z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))
            return r if t.isint else z3.ToReal(r)
        zs = [self.arg(x) for x in args if isinstance(x, T)]
        tag = name + "".join("_" + str(x) for x in args if not isinstance(x, T))
        r = self.fn("f_" + tag, zs, self.numsort(t))
        if not _freebv(t):
            if ("app", t.id) not in self.seen_lemma:
                self.seen_lemma.add(("app", t.id))
                self.apps.setdefault(name, []).append((t, zs, r))
        else:
            ax = self.app_axioms(name, zs, r)
            if ax is not None and ("appq", t.id) not in self.seen_lemma:
                self.seen_lemma.add(("appq", t.id))
                bvs = [self.bvz(l) for l in sorted(_freebv(t))]
                try:
                    self.side.append(z3.ForAll(bvs, ax, patterns=[r]))
                except z3.Z3Exception:
                    self.side.append(z3.ForAll(bvs, ax))
        return r

    def app_axioms(self, name, zs, r):
        if name == "exp":
            return r > 0
        if name == "normcdf":
            return z3.And(r > 0, r < 1)
        if name.startswith("cdf_"):
            return z3.And(r >= 0, r <= 1)
        if name in ("sqrt",):
            return r >= 0
        if name == "pow":
            x, n = zs
            return z3.And(
                z3.Implies(x >= 0, r >= 0), z3.Implies(x > 0, r > 0),
                z3.Implies(z3.And(x >= 0, x <= 1, n >= 0), r <= 1),
                z3.Implies(z3.And(x >= 0, x <= 1, n >= 1), r <= x),
                z3.Implies(n == 0, r == 1), z3.Implies(n == 1, r == x), z3.Implies(x == 1, r == 1),
                z3.Implies(z3.And(x == 0, n > 0), r == 0),
            )
        if name == "log":
            return z3.And(z3.Implies(zs[0] > 1, r > 0), z3.Implies(z3.And(zs[0] > 0, zs[0] < 1), r < 0), z3.Implies(zs[0] == 1, r == 0))
        if name in ("gamma_fn",):
            return z3.Implies(zs[0] > 0, r > 0)
        if name == "comb":
            return z3.Implies(z3.And(zs[1] >= 0, zs[1] <= zs[0]), r >= 1)
        return None

    # ---- lemma instantiation on ground terms
    def need_seq(self, s):
        if ("seq", s.id) in self.seen_lemma or _freebv(s):
            return
        self.seen_lemma.add(("seq", s.id))
        if s.op == "sapp" and s.a[0] in ("sorted", "argsort", "rank"):
            self.sort_lemmas(s)
        if s.op == "sapp" and s.a[0] == "permuted":
            pass

    def seln(self, sterm, i, rng=None):
        return self.fn("sel", [sterm, i], rng if rng is not None else z3.RealSort())

    def selT(self, base, i, lvl_var):
        """z3 element of sequence term base at z3 int i"""
        if base.op == "lam":
            v = tm.sym(f"zz!{lvl_var}", True)
            body = tm.open_body(base.a[1], base.lvl, v)
            e = self.real(body)
            return z3.substitute(e, (z3.Int(f"zz!{lvl_var}"), i))
        return self.seln(self.enc(base), i)

    def sort_lemmas(self, s):
        S = s.a[2]
        if ("srt", S.id) in self.seen_lemma:
            return
        self.seen_lemma.add(("srt", S.id))
        n = self.int(tm.seqlen(s))
        srt = self.enc(tm.sapp("sorted", tm.seqlen(s), S))
        arg = self.enc(tm.sapp("argsort", tm.seqlen(s), S, elem="I"))
        rk = self.enc(tm.sapp("rank", tm.seqlen(s), S, elem="I"))
        i, j = z3.Ints("li lj")
        I_ = z3.IntSort()
        si, sj = self.seln(srt, i), self.seln(srt, j)
        ai, ri = self.seln(arg, i, I_), self.seln(rk, i, I_)
        self.side.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), si <= sj), patterns=[z3.MultiPattern(si, sj)]))
        try:
            Sa = z3.substitute(self.selT(S, i, "p"), (i, ai)) if S.op == "lam" else self.seln(self.enc(S), ai)
            ax = z3.And(ai >= 0, ai < n, self.seln(rk, ai, I_) == i, si == Sa)
            self.side.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ax), patterns=[ai]))
            self.side.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ax), patterns=[si]))
            Si = self.selT(S, i, "p")
            ax2 = z3.And(ri >= 0, ri < n, self.seln(arg, ri, I_) == i, self.seln(srt, ri) == Si)
            self.side.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ax2), patterns=[ri]))
            if S.op != "lam":
                self.side.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ax2), patterns=[self.seln(self.enc(S), i)]))
        except (EncodeFail, z3.Z3Exception):
            pass

    def run_pending(self, prover, pc):
        done = set()
        rounds = 0
        while rounds < 4:
            rounds += 1
            todo = [t for t in self.pending if t.id not in done]
            self.pending = []
            if not todo:
                break
            for t in todo:
                done.add(t.id)
                try:
                    self.red_lemmas(t)
                except (EncodeFail, z3.Z3Exception, tm.TooBig):
                    pass
        self.pair_lemmas()

    def red_lemmas(self, t):
        if t.op != "red":
            return
        op, n, body = t.a
        L = t.lvl
        v = self.bvz(L)
        r = self.enc(t)
        rz = z3.ToReal(r) if z3.is_int(r) else r
        nz = self.int(n)
        rng = z3.And(v >= 0, v < nz)
        if op == "max":
            b = self.real(body)
            self.side.append(z3.ForAll([v], z3.Implies(rng, b <= rz)))
            k = z3.Int(f"mx{t.id}")
            self.side.append(z3.Implies(nz > 0, z3.And(k >= 0, k < nz, rz == z3.substitute(b, (v, k)))))
        elif op == "sum":
            if tm.nonneg(body):
                self.side.append(rz >= 0)
                b = self.real(body)
                b0, b1 = z3.substitute(b, (v, z3.IntVal(0))), z3.substitute(b, (v, nz - 1))
                self.side.append(z3.Implies(nz >= 1, z3.And(rz >= b0, rz >= b1)))
            if body.op == "ite" and {body.a[1], body.a[2]} == {ZERO, ONE}:
                c = body.a[0] if body.a[1] is ONE else tm.not_(body.a[0])
                cz = self.enc(c)
                self.side.append(z3.Implies(nz >= 0, rz <= z3.ToReal(nz)))
                self.side.append(rz >= 0)
                self.side.append((rz > 0) == z3.Exists([v], z3.And(rng, cz)))
                self.side.append(z3.Implies(nz >= 0, (rz == z3.ToReal(nz)) == z3.ForAll([v], z3.Implies(rng, cz))))
            self.side.append(z3.Implies(nz <= 0, rz == 0))
        elif op == "prod":
            self.side.append(z3.Implies(nz <= 0, rz == 1))
            if tm.nonneg(body):
                self.side.append(rz >= 0)

    def pair_lemmas(self):
        for name, lst in list(self.apps.items()):
            for t, zs, r in lst:
                ax = self.app_axioms(name, zs, r)
                if ax is not None:
                    self.side.append(ax)
            if name in ("argmax", "argmin"):
                for t, zs, r in lst:
                    S = t.a[1]
                    try:
                        n = self.int(tm.seqlen(S))
                        q = z3.Int("amq")
                        e = self.selT(S, q, "am")
                        er = z3.substitute(e, (q, r))
                        self.side.append(z3.And(r >= 0, z3.Implies(n > 0, r < n)))
                        c = e <= er if name == "argmax" else e >= er
                        self.side.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), c)))
                    except (EncodeFail, z3.Z3Exception):
                        pass
            if name == "quantile":
                for t, zs, r in lst:
                    S = t.a[1]
                    n = self.int(tm.seqlen(S))
                    try:
                        lo = self.real(tm.sel(S, ZERO))
                        hi = self.real(tm.sel(S, tm.sub(tm.seqlen(S), ONE)))
                        q = zs[1]
                        self.side.append(z3.Implies(z3.And(n > 0, q >= 0, q <= 1), z3.And(r >= lo, r <= hi)))
                    except (EncodeFail, z3.Z3Exception):
                        pass
            if name in ("exp", "log", "normcdf", "quantile", "pow") or name.startswith("cdf_") or name.startswith("ppf_") or name == "normppf":
                if len(lst) > 12:
                    continue
                for x in range(len(lst)):
                    for y in range(len(lst)):
                        if x == y:
                            continue
                        (t1, z1, r1), (t2, z2, r2) = lst[x], lst[y]
                        if name == "pow":
                            self.side.append(z3.Implies(z3.And(z1[0] >= 0, z1[0] <= z2[0], z1[1] == z2[1], z1[1] >= 0), r1 <= r2))
                            continue
                        pre = [p == q for p, q in zip(z1[:-1], z2[:-1])]
                        if name == "log":
                            pre.append(z1[-1] > 0)
                            self.root_logs(t1, t2, r1, r2)
                        if name in ("exp", "log", "normcdf", "normppf"):
                            self.side.append(z3.Implies(z3.And(*pre, z1[-1] < z2[-1]), r1 < r2))
                        else:
                            self.side.append(z3.Implies(z3.And(*pre, z1[-1] <= z2[-1]), r1 <= r2))


    def root_logs(self, t1, t2, r1, r2):
        """logarithms of a and b when the root of a occurs in b: the roots are ordered as their logarithms"""
        a, b = t1.a[1], t2.a[1]
        if b.op != "poly" or not any(x is a and e == Fraction(1, 2) for m, _ in b.a for x, e in m):
            return
        ra, rb = self.real(tm.power(a, Fraction(1, 2))), self.real(b)
        self.side.append(z3.Implies(z3.And(ra > 0, ra < rb), r1 / 2 < r2))
        self.side.append(z3.Implies(z3.And(rb > 0, rb < ra), r2 < r1 / 2))


def _odd_ppf(f, g):
    """g with the normal quantiles of 1 - p written by those of the p in f"""
    here = tm.atoms_of(f, lambda x: x.op == "app" and x.a[0] == "normppf")
    m = {}
    for q in tm.atoms_of(g, lambda x: x.op == "app" and x.a[0] == "normppf"):
        for p in here:
            d = tm.sub(tm.add(p.a[1], q.a[1]), ONE)
            if d is ZERO or tm.is_zero(d):
                m[q] = tm.neg(p)
                break
    return tm.subst_term(g, m) if m else g


def _full_sum(t):
    """nested sum over elements of sequences as a combination of sums whose indices have the full range of the
    sequences, or None"""
    vs, ns = [], []
    body = t
    while body.op == "red" and body.a[0] == "sum":
        v = tm.fresh("fs")
        vs.append(v)
        ns.append(body.a[1])
        body = tm.open_body(body.a[2], body.lvl, v)
    if len(vs) > 5:
        return None
    # every range is written N or N - k - (outer indices): shift the latter to start after the index before
    full = {tm.seqlen(s.a[0]) for s in tm.subterms(body) if s.op == "sel" and any(tm.occurs(s.a[1], v) for v in vs)}
    full = {n for n in full if not any(tm.occurs(n, v) for v in vs)}
    if len(full) != 1:
        return None
    N = next(iter(full))
    ends = []  # (index, number of elements at the end of the range it does not reach)
    chains = []
    for k, v in enumerate(vs):
        gap = tm.sub(N, ns[k])
        deps = [w for w in vs[:k] if tm.occurs(gap, w)]
        if not deps:
            if not (tm.is_num(gap) and 0 <= tm.numval(gap) <= 3):
                return None
            ends.append((v, int(tm.numval(gap))))
            continue
        # v' = v + (gap) runs from gap to N - 1; gap = 1 + (last outer index, itself shifted)
        last = deps[-1]
        low = tm.sub(gap, last)
        if not (tm.is_num(low) and 1 <= tm.numval(low) <= 3):
            return None
        slack = int(tm.numval(low)) - 1
        body = tm.subst(body, {v: tm.sub(v, tm.sub(gap, tm.num(slack)))})
        for j in range(k + 1, len(vs)):
            ns[j] = tm.subst(ns[j], {v: tm.sub(v, tm.sub(gap, tm.num(slack)))})
        ends.append((v, slack))
        chains.append((last, v))
    parts = list(body.a[0].a) if body.op == "ite" and body.a[0].op == "and" else [body.a[0]] if body.op == "ite" else []
    val = None
    if body.op == "ite":
        if body.a[2] is ZERO:
            val = body.a[1]
        else:
            parts, val = [], body
    else:
        val = body
    neq, rest = set(), []
    for c in parts:
        q = _index_relation(c, vs)
        if q is None:
            rest.append(c)
        elif q[0] == "<":
            chains.append(q[1:])
        else:
            neq.add(frozenset(q[1:]))
    # ends: an index that skips the last elements inside a chain a < b reaches them vacuously
    succ = {}
    for a, b in chains:
        succ.setdefault(a, set()).add(b)

    def above(a):
        out, todo = set(), [a]
        while todo:
            for b in succ.get(todo.pop(), ()):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    skip = {v: k for v, k in ends if k > len(above(v))}
    core = tm.ite(tm.and_(*rest), val, ZERO) if rest else val
    if len(vs) == 1:
        v = vs[0]
        if not skip and not chains and not neq:
            return t
        if not tm.nonneg(tm.sub(N, num(skip.get(v, 0)))):
            return None
        r = tm.red("sum", N, v, core)
        for k in range(skip.get(v, 0)):
            r = tm.sub(r, tm.subst(core, {v: tm.sub(N, tm.num(k + 1))}))
        return r
    if skip:
        return None
    if not chains and not neq:
        return t
    factor = Fraction(1)
    if chains:
        C = set()
        for a, b in chains:
            C |= {a, b}
        order = sorted(C, key=lambda a: -len(above(a)))
        if [len(above(a)) for a in order] != list(range(len(order) - 1, -1, -1)):
            return None
        used = [a for a in order if tm.occurs(core, a)]
        if len(used) == 1 and len(order) == 2 and not neq:
            # a < b and only one of them in use: count the other
            a, b = order
            u = used[0]
            w = u if u is b else tm.sub(tm.sub(N, ONE), u)
            others = [v for v in vs if v not in order]
            r = tm.mul(w, core)
            for v in [u] + others[::-1]:
                r = tm.red("sum", N, v, r)
            return r
        # symmetric in the chained indices
        for a, b in zip(order, order[1:]):
            if tm.subst(tm.subst(tm.subst(core, {a: (x := tm.fresh("sw"))}), {b: a}), {x: b}) is not core:
                return None
            if {frozenset(b if v is a else a if v is b else v for v in e) for e in neq} != neq:
                return None
        for k in range(2, len(order) + 1):
            factor /= k
        neq |= {frozenset((a, b)) for i, a in enumerate(order) for b in order[:i]}
    out = []
    edges = sorted(neq, key=lambda e: sorted(v.id for v in e))
    if len(edges) > 6:
        return None
    for mask in range(1 << len(edges)):
        rep = {v: v for v in vs}
        for k, e in enumerate(edges):
            if mask >> k & 1:
                a, b = sorted((rep[v] for v in e), key=lambda v: vs.index(v))
                if a is not b:
                    rep = {v: a if r is b else r for v, r in rep.items()}
        r = tm.subst(core, {v: q for v, q in rep.items() if v is not q}) if any(v is not q for v, q in rep.items()) else core
        for v in reversed([v for v in vs if rep[v] is v]):
            r = tm.red("sum", N, v, r)
        out.append(tm.scale(r, factor * (-1) ** bin(mask).count("1")))
    return tm.add(*out)


def _index_relation(c, vs):
    """("<", a, b) or ("!=", a, b) between two of the indices"""
    neg = c.op == "not"
    y = c.a[0] if neg else c
    if y.op not in ("ge0", "gt0", "eq0"):
        return None
    p = tm._as_poly(y.a[0])
    co = {}
    k = Fraction(0)
    for m, q in p.items():
        if not m:
            k = q
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in vs:
            co[m[0][0]] = q
        else:
            return None
    if len(co) != 2 or set(co.values()) != {1, -1}:
        return None
    b = next(v for v, q in co.items() if q == 1)
    a = next(v for v, q in co.items() if q == -1)
    if y.op == "eq0":
        return ("!=", a, b) if neg and k == 0 else None
    if neg:
        a, b, k = b, a, -k - (1 if y.op == "ge0" else 0)
    # b - a + k >= 0 (> 0)
    if y.op == "gt0" and not neg:
        k -= 1
    return ("<", a, b) if k == -1 else None


class Prover:
    def __init__(self, timeout_ms=6000, use_cvc5=False):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.used = self.z3wall = 0.0
        self.use_cvc5 = use_cvc5
        self.qcache = {}
        self.model = None
        self.deadline = None

    # ---------------------------------------------------------------- quick entailment (path feasibility)
    def quick_entails(self, pc, c, timeout=400):
        if c in pc:
            return True
        if c.op == "and":
            return all(self.quick_entails(pc, x, timeout) for x in c.a)
        if c.op == "or" and any(x in pc for x in c.a):
            return True
        # relevance: only facts sharing symbols with the goal (transitively)
        rel = _relevant(pc, c)
        key = (tuple(sorted(x.id for x in rel)), c.id)
        r = self.qcache.get(key)
        if r is None:
            r = self._check(rel, c, timeout, quick=True)[0]
            self.qcache[key] = r
        return r

    def tick(self, s, wall):
        """advance the deterministic clock by the solver resources just used"""
        global _rlast
        st = s.statistics()
        c = next((st.get_key_value(k) for k in st.keys() if k == "rlimit count"), None)
        if c is None:
            self.used += wall
            return
        self.used += (c - _rlast if c >= _rlast else c) / (RL * 1000)
        self.z3wall += wall
        _rlast = c

    def clock(self):
        """seconds of work done, as solver resources and terms built: does not depend on the machine's load"""
        return self.used + tm.WORK[0] / 30000

    def _check(self, pc, goal, timeout, quick=False):
        t0 = time.time()
        self.stats.z3_calls += 1
        try:
            enc = Encoder()
            fs = [enc.enc(x) for x in pc]
            g = enc.enc(goal)
            for x in self._sum_facts(pc, goal):
                try:
                    fs.append(enc.enc(x))
                except EncodeFail:
                    pass
            enc.run_pending(self, pc)
            s = z3.Solver()
            # a deterministic budget; the wall clock only guards against a stuck solver
            s.set("rlimit", int(timeout * RL))
            s.set("timeout", 5 * timeout + 6000)
            for x in enc.side:
                s.add(x)
            for x in fs:
                s.add(x)
            s.add(z3.Not(g))
            t1 = time.time()
            r = s.check()
            self.tick(s, time.time() - t1)
            ok = r == z3.unsat
            model = s.model() if r == z3.sat else None
            if ok and self.use_cvc5 and not quick:
                self._cross(s)
            return ok, (model, enc) if model is not None else None
        except (EncodeFail, z3.Z3Exception, tm.TooBig):
            return False, None
        finally:
            self.stats.z3_time += time.time() - t0

    def _cross(self, s):
        try:
            import subprocess
            import tempfile

            smt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
                f.write(smt)
                f.flush()
                p = subprocess.run(["cvc5", "--tlimit=8000", f.name], capture_output=True, text=True, timeout=20)
            self.stats.cvc5_checked += 1
            if "unsat" in p.stdout:
                self.stats.cvc5_agree += 1
            elif p.stdout.strip().startswith("sat"):
                self.disagree = getattr(self, "disagree", 0) + 1
        except Exception:
            pass

    def feasible(self, pc, timeout=1200):
        """False only when the assumptions are contradictory (vacuity check)"""
        ok, _ = self._check(pc, FALSE, timeout, quick=True)
        return not ok

    # ---------------------------------------------------------------- obligations
    def prove(self, pc, goal, depth=0, budget=None):
        """True when goal follows from pc"""
        self.model = None
        self.end = self.clock() + (budget or 30)
        try:
            fx = self._fixed_ints(pc)
            if fx is None:
                return True
            if fx:
                pc2 = [tm.subst(x, fx) for x in pc]
                g2 = tm.subst(goal, fx)
                keep = [x for x in pc if x.fv & set(fx)]
                if self._prove([x for x in pc2 if x is not TRUE], g2, 0):
                    return True
                pc = pc2 + keep if False else pc
            pc, goal = self._signed(pc, goal)
            return self._prove(list(pc), goal, 0)
        except tm.TooBig:
            return False

    def _signed(self, pc, goal):
        """sequences whose elements are known to be positive (nonnegative) become sequences of that sign"""
        m = {}
        for x in pc:
            if x.op != "all":
                continue
            bv = tm.bvar(x.lvl)
            for c in x.a[1].a if x.a[1].op == "and" else (x.a[1],):
                if c.op not in ("gt0", "ge0"):
                    continue
                y = c.a[0]
                # elements of integer sequences: x - 1 >= 0
                one = False
                if c.op == "ge0" and y.isint:
                    z = tm.add(y, ONE)
                    if z.op == "sel":
                        y, one = z, True
                if y.op == "sel" and y.a[1] is bv and y.a[0].op == "ssym" and y.a[0].a[1] is x.a[0] and y.a[0].a[2] == "N":
                    sg = "pos" if c.op == "gt0" or one else "nonneg"
                    if y.a[0].a[3] is None and m.get(y.a[0]) != "pos":
                        m[y.a[0]] = sg
        if not m:
            return pc, goal
        sub = {k: tm.ssym(k.a[0] + ("+" if v == "pos" else "*"), k.a[1], k.a[2], v) for k, v in m.items()}
        return [x for x in (tm.subst(y, sub) for y in pc) if x is not TRUE], tm.subst(goal, sub)

    def _sum_facts(self, pc, goal):
        """consequences of facts about all elements for the sums in play"""
        reds, out = [], []
        seen = set()
        for t in list(pc) + [goal]:
            tm.atoms_of(t, lambda x: x.op == "red" and x.a[0] == "sum", reds, seen)
        if not reds or len(reds) > 40:
            return out
        atoms = set(reds)
        qs, seen = [], set()
        for t in list(pc) + [goal]:
            tm.atoms_of(t, lambda x: x.op in ("all", "any"), qs, seen)
        for x in qs:
            if _freebv(x):
                continue
            hyp = TRUE if x in pc else x if x.op == "all" else tm.not_(x)
            n, b = x.a[0], (x.a[1] if x.op == "all" else tm.not_(x.a[1]))
            for c in b.a if b.op == "and" else (b,):
                if c.op not in ("ge0", "gt0", "eq0") or c.a[0].op == "num":
                    continue
                v = tm.fresh("sf")
                try:
                    body = tm.open_body(c.a[0], x.lvl, v)
                    tot = tm.red("sum", n, v, body)
                except tm.TooBig:
                    continue
                if not (set(tm.atoms_of(tot, lambda y: y.op == "red")) & atoms):
                    continue
                if c.op == "eq0":
                    out.append(tm.implies(hyp, tm.eq(tot, ZERO)))
                    continue
                out.append(tm.implies(hyp, tm.ge(tot, ZERO)))
                if c.op == "gt0":
                    out.append(tm.implies(tm.and_(hyp, tm.ge(n, ONE)), tm.gt(tot, ZERO)))
                out.append(tm.implies(tm.and_(hyp, tm.eq(tot, ZERO)), tm.quant("all", n, v, tm.eq(body, ZERO))))
        # squares: n * sum f^2 >= (sum f)^2, with equality for constant f only
        for q in reds:
            n, body = q.a[1], q.a[2]
            if q.lvl != 1 or body.op not in ("poly", "sel", "app"):
                continue
            if tm.nonneg(body):
                v = tm.fresh("sf")
                ob = tm.open_body(body, q.lvl, v)
                out.append(tm.implies(tm.eq(q, ZERO), tm.quant("all", n, v, tm.eq(ob, ZERO))))
            p = tm._as_poly(body)
            if len(p) == 1:
                (mono, c), = p.items()
                if c == 1 and len(mono) == 1 and mono[0][1] == 2:
                    v = tm.fresh("sf")
                    f = tm.open_body(mono[0][0], q.lvl, v)
                    s1 = tm.red("sum", n, v, f)
                    d = tm.sub(tm.mul(n, q), tm.power(s1, 2))
                    out.append(tm.ge(d, ZERO))
                    out.append(tm.implies(tm.eq(d, ZERO), tm.quant("all", n, v, tm.eq(tm.mul(n, f), s1))))
        return [x for x in out if x is not TRUE]

    def _fixed_ints(self, pc):
        """integer symbols whose bounds coincide"""
        lo, hi, ne = {}, {}, {}
        for x in pc:
            neg = x.op == "not"
            y = x.a[0] if neg else x
            if y.op not in ("ge0", "gt0", "eq0"):
                continue
            p = tm._as_poly(y.a[0])
            sy, k, c = None, None, Fraction(0)
            bad = False
            for mono, co in p.items():
                if not mono:
                    c = co
                elif len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "sym" and mono[0][0].isint and sy is None:
                    sy, k = mono[0][0], co
                else:
                    bad = True
            if bad or sy is None:
                continue
            if y.op == "eq0":
                if neg:
                    ne.setdefault(sy, set()).add(-c / k)
                continue
            if neg:
                continue
            import math
            if k > 0:
                b = -c / k
                b = math.ceil(b) if y.op == "ge0" else math.floor(b) + 1
                lo[sy] = max(lo.get(sy, b), b)
            else:
                b = c / -k
                b = math.floor(b) if y.op == "ge0" else math.ceil(b) - 1
                hi[sy] = min(hi.get(sy, b), b)
        out = {}
        for sy, h in hi.items():
            l = lo.get(sy)
            if sy.a[2] == "pos":
                l = max(l, 1) if l is not None else 1
            elif sy.a[2] == "nonneg":
                l = max(l, 0) if l is not None else 0
            elif sy.a[2] is not None:
                l = max(l, sy.a[2]) if l is not None else sy.a[2]
            if l is None:
                continue
            while l <= h and l in ne.get(sy, ()):
                l += 1
            while l <= h and h in ne.get(sy, ()):
                h -= 1
            if l == h:
                out[sy] = num(l)
            elif l > h:
                return None
        return out

    def _split_neg_max(self, pc, goal, d):
        """goal  rest - k*max(..) >= 0, k > 0: one goal per argument of the maximum"""
        p = tm._as_poly(goal.a[0])
        for m, c in p.items():
            mx = None
            for at, e in m:
                if e == 1 and ((at.op == "app" and at.a[0] == "max") or (at.op == "red" and at.a[0] == "max")):
                    mx = at
            if mx is None or _freebv(mx):
                continue
            if any(mx is at for m2 in p if m2 is not m for at, _ in m2):
                continue
            rest = tuple((x, e) for x, e in m if x is not mx)
            k = tm._mono_term(rest, c)
            if not tm.positive(tm.neg(k)):
                if not (rest and tm.nonneg(tm.neg(k))):
                    continue
            other = tm.sub(goal.a[0], tm._mono_term(m, c))
            cmp = tm.ge0 if goal.op == "ge0" else tm.gt0
            if mx.op == "app":
                return [(pc, cmp(tm.add(other, tm.mul(k, x)))) for x in mx.a[1:]]
            v = tm.fresh("sk")
            b = tm.open_body(mx.a[2], mx.lvl, v)
            return [(pc, tm.gt(mx.a[1], ZERO)),
                    (pc + [tm.ge(v, ZERO), tm.lt(v, mx.a[1])], cmp(tm.add(other, tm.mul(k, b))))]
        return None

    def _pick_pos_max(self, pc, goal, d):
        """goal  k*max(..) + rest >= 0, k > 0: one argument of the maximum suffices"""
        p = tm._as_poly(goal.a[0])
        for m, c in p.items():
            mx = None
            for at, e in m:
                if e == 1 and ((at.op == "app" and at.a[0] == "max") or (at.op == "red" and at.a[0] == "max")):
                    mx = at
            if mx is None or _freebv(mx):
                continue
            if any(mx is at for m2 in p if m2 is not m for at, _ in m2):
                continue
            rest = tuple((x, e) for x, e in m if x is not mx)
            k = tm._mono_term(rest, c)
            if not tm.positive(k) and not (rest and tm.nonneg(k)):
                continue
            other = tm.sub(goal.a[0], tm._mono_term(m, c))
            cmp = tm.ge0 if goal.op == "ge0" else tm.gt0
            if mx.op == "app":
                gs = [cmp(tm.add(other, tm.mul(k, x))) for x in mx.a[1:]]
                if any(g is TRUE or g in pc for g in gs):
                    return True
                # an argument that is itself a maximum over a range: instantiate it, splitting on the range
                for x in mx.a[1:]:
                    px = tm._as_poly(x)
                    if len(px) != 1:
                        continue
                    (mm, cc), = px.items()
                    rm = [at for at, e in mm if e == 1 and at.op == "red" and at.a[0] == "max"]
                    if len(rm) != 1 or _freebv(rm[0]):
                        continue
                    kk = tm.mul(k, tm._mono_term(tuple((at, e) for at, e in mm if at is not rm[0]), cc))
                    if not tm.nonneg(kk):
                        continue
                    for cand, inst in self._max_instances(rm[0], other)[:2]:
                        parts = [tm.ge(cand, ZERO), tm.lt(cand, rm[0].a[1])]
                        if FALSE in parts:
                            continue
                        if not self._prove(pc + parts, cmp(tm.add(other, tm.mul(kk, inst))), d + 4):
                            continue
                        left = [y for y in mx.a[1:] if y is not x]
                        g2 = cmp(tm.add(other, tm.mul(k, tm.max_(*left)))) if left else FALSE
                        ok = True
                        for q in parts:
                            nq = tm.not_(q)
                            if q is TRUE or self.quick_entails(pc, q, 500):
                                continue
                            if not self._prove(pc + [nq], g2, d + 4):
                                ok = False
                                break
                        if ok:
                            return True
                gs.sort(key=lambda g: (not _has_red(g), tm.is_num(tm.neg(g.a[0])) if g.a else True))
                return any(self._prove(pc, g, d + 4) for g in gs)
            for cand, inst in self._max_instances(mx, other)[:5]:
                rng = tm.and_(tm.ge(cand, ZERO), tm.lt(cand, mx.a[1]))
                if rng is not TRUE and not self.quick_entails(pc, rng, 500):
                    continue
                if self._prove(pc, cmp(tm.add(other, tm.mul(k, inst))), d + 4):
                    return True
            return False
        return False

    def _max_instances(self, mx, other):
        """instances of a maximum over a range suggested by the element accesses of another term"""
        v = tm.fresh("sk")
        b = tm.open_body(mx.a[2], mx.lvl, v)
        mine = {}
        for s in tm.subterms(b):
            if s.op == "sel" and not _freebv(s) and tm.occurs(s.a[1], v) and not tm.occurs(s.a[0], v):
                mine.setdefault(s.a[0], []).append(s.a[1])
        cands = []
        for s in tm.subterms(other):
            if s.op == "sel" and not _freebv(s) and s.a[0] in mine:
                for ix in mine[s.a[0]]:
                    co = tm.sub(tm.subst(ix, {v: tm.add(v, ONE)}), ix)
                    if tm.is_num(co) and tm.numval(co) in (1, -1):
                        cand = tm.scale(tm.sub(s.a[1], tm.subst(ix, {v: ZERO})), 1 / tm.numval(co))
                        if cand not in cands:
                            cands.append(cand)
        cands.sort(key=lambda c: c.id)
        return [(c, tm.subst(b, {v: c})) for c in cands]

    def _prove(self, pc, goal, d):
        if TRACE: print("PROVE", d, tm.show(goal)[:600])
        if goal is TRUE or FALSE in pc:
            self.stats.structural += 1
            return True
        if goal in pc or (goal.op == "ge0" and tm.gt0(goal.a[0]) in pc):
            self.stats.structural += 1
            return True
        if goal.op in ("eq0", "ge0", "gt0"):
            g = _known_max(pc, goal)
            if g is not goal:
                return self._prove(pc, g, d + 1)
        if self.clock() > self.end:
            return False
        if d > 40:
            return self._smt(pc, goal)
        if goal is FALSE and d < 6:
            for x in pc:
                if x.op == "or" and len(x.a) <= 6 and any(y.op == "any" for y in x.a):
                    rest = [y for y in pc if y is not x]
                    return all(self._prove(self._skolem(rest + self._flat(y)), goal, d + 1) for y in x.a)
        if goal.op == "and":
            return all(self._prove(pc, x, d + 1) for x in goal.a)
        if goal.op == "all":
            v = tm.fresh("sk")
            b = tm.open_body(goal.a[1], goal.lvl, v)
            return self._prove(pc + [tm.ge(v, ZERO), tm.lt(v, goal.a[0])], b, d + 1)
        if goal.op == "or":
            # assume the negation of all but one disjunct; the quantified / equational one last
            ds = sorted(goal.a, key=lambda x: (x.op in ("all", "iff", "eq0", "and", "or"), x.op == "all", _has_red(x), x.id))
            last = ds[-1]
            neg = []
            for x in ds[:-1]:
                nx = tm.not_(x)
                neg.extend(nx.a if nx.op == "and" else [nx])
            if any(tm.not_(x) in pc for x in neg):
                return True
            if last.op in ("ge0", "gt0") and _has_red(last):
                return self._prove(self._skolem(pc + neg), last, d + 1)
            if last.op in ("all", "eq0", "and", "iff", "or"):
                if self._prove(self._skolem(pc + neg), last, d + 1):
                    return True
                if last.op != "all":
                    return False
            return self._smt(pc, goal)
        if goal.op == "iff":
            a, b = goal.a
            return self._prove(pc + self._flat(a), b, d + 1) and self._prove(pc + self._flat(b), a, d + 1)
        if goal.op == "seqeq":
            a, b = goal.a
            na, nb = tm.seqlen(a), tm.seqlen(b)
            if not self._prove(pc, tm.eq(na, nb), d + 1):
                return False
            v = tm.fresh("sk")
            return self._prove(pc + [tm.ge(v, ZERO), tm.lt(v, na)], tm.eq(tm.sel(a, v), tm.sel(b, v)), d + 1)
        if goal.op in ("eq0", "ge0", "gt0", "oeq"):
            c = self._find_ite(goal)
            if c is not None:
                ok = True
                for val in (True, False):
                    cc = c if val else tm.not_(c)
                    if self.quick_entails(pc, tm.not_(cc), 300):
                        continue
                    g = tm_assume(goal, c, val)
                    if not self._prove(pc + self._flat(cc), g, d + 1):
                        ok = False
                        break
                return ok
        if goal.op == "eq0":
            if tm.is_zero(goal.a[0]):
                self.stats.structural += 1
                return True
            sub = self._eq_subst(pc)
            if sub:
                t2 = tm.subst(goal.a[0], sub)
                if t2 is not goal.a[0]:
                    if tm.eq0(t2) is TRUE or tm.is_zero(t2):
                        self.stats.structural += 1
                        return True
                    pc2 = [tm.subst(x, sub) for x in pc]
                    g2 = tm.eq0(t2)
                    if g2 is FALSE:
                        return FALSE in pc2 or self._smt(pc, goal)
                    return self._prove([x for x in pc2 if x is not TRUE], g2, d + 1)
            for rule in (self._antisymmetric, _triangle, _norm_ranges, self._tuple_sums, _medians):
                try:
                    g = rule(goal)
                except tm.TooBig:
                    continue
                if rule is _triangle:
                    # only when it settles the goal: other rules know the sums in their original form
                    if g is not goal and (g is TRUE or tm.is_zero(g.a[0]) or _norm_ranges(g) is TRUE):
                        self.stats.structural += 1
                        return True
                elif g is not goal:
                    return self._prove(pc, g, d + 1)
            if self._congruence(pc, goal, d):
                return True
            n = self._num_denom(goal.a[0])
            if n is not None and n is not goal.a[0]:
                if self._smt(pc, tm.eq0(n)):
                    return True
            if any((a.op == "app" and a.a[0] == "max") or (a.op == "red" and a.a[0] == "max") for m in tm._as_poly(goal.a[0]) for a, _ in m):
                if self._prove(pc, tm.ge0(goal.a[0]), d + 1) and self._prove(pc, tm.ge0(tm.neg(goal.a[0])), d + 1):
                    return True
        if goal.op in ("ge0", "gt0"):
            g = self._telescope(pc, goal)
            if g is not goal:
                return self._prove(pc, g, d + 1)
            if self._common_factor(pc, goal, d):
                return True
            sp = self._split_neg_max(pc, goal, d)
            if sp is not None:
                return all(self._prove(q, g, d + 1) for q, g in sp)
            if self._monotone(pc, goal, d):
                return True
            sv = self.timeout_ms
            self.timeout_ms = min(sv, 1000)
            try:
                if self._pick_pos_max(pc, goal, d):
                    return True
            finally:
                self.timeout_ms = sv
            if goal.op == "ge0" and len(tm._as_poly(goal.a[0])) == 2:
                sv = self.timeout_ms
                self.timeout_ms = min(sv, 1500)
                try:
                    if self._smt(pc, goal) or self._dominate(pc, goal, d):
                        return True
                finally:
                    self.timeout_ms = sv
        return self._smt(pc, goal)

    def _flat(self, c):
        return list(c.a) if c.op == "and" else [c]

    def _skolem(self, pc):
        out = []
        for x in pc:
            if x.op == "any":
                v = tm.fresh("ek")
                out += [tm.ge(v, ZERO), tm.lt(v, x.a[0])]
                out += self._flat(tm.open_body(x.a[1], x.lvl, v))
            else:
                out.append(x)
        return out

    def _num_denom(self, t):
        return None

    def _eq_subst(self, pc):
        """equalities sym == expr among the assumptions"""
        m = {}
        for x in pc:
            if x.op == "eq0":
                p = tm._as_poly(x.a[0])
                for mono, c in p.items():
                    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "sym":
                        s = mono[0][0]
                        rest = tm.sub(x.a[0], tm.scale(s, c))
                        if tm.occurs(rest, s) or s in m:
                            continue
                        if s.isint:
                            val = tm.scale(rest, Fraction(-1) / c)
                            if not val.isint:
                                continue
                        else:
                            val = tm.scale(rest, Fraction(-1) / c)
                        if s.a[2] is not None and not (tm.is_num(val) or (tm.positive(val) and s.a[2] in ("pos", "nonneg")) or (s.a[2] == "nonneg" and tm.nonneg(val)) or (s.a[2] not in ("nonneg", "pos") and tm.nonneg(tm.sub(val, num(s.a[2]))))):
                            continue
                        if any(tm.occurs(val, k) for k in m):
                            continue
                        if any(tm.occurs(w, s) for w in m.values()):
                            continue
                        m[s] = val
                        break
        return m

    def _find_ite(self, goal):
        """an ite condition without bound variables (max over terms is left to the solver)"""
        best = None
        for t in tm.atoms_of(goal, lambda x: x.op == "ite"):
            if not _freebv(t.a[0]):
                if best is None or t.a[0].id < best.id:
                    best = t.a[0]
        return best

    def _tuple_sums(self, goal):
        """sums over pairs, triples, ... of elements written over the full ranges of the indices, so that symmetric
        ones forget the order of the elements"""
        if not tm.atoms_of(goal, lambda x: x.op == "sapp" and x.a[0] == "permuted"):
            return goal
        m = {}
        for t in tm.atoms_of(goal.a[0], lambda x: x.op == "red" and x.a[0] == "sum"):
            if not _freebv(t) and tm.atoms_of(t, lambda x: x.op == "sel"):
                try:
                    r = _full_sum(t)
                except tm.TooBig:
                    r = None
                if r is not None and r is not t:
                    m[t] = r
        return tm.subst_term(goal, m) if m else goal

    def _antisymmetric(self, goal):
        """sums over normal quantiles read in reverse order"""
        ground = [x for x in tm.atoms_of(goal.a[0], lambda x: x.op == "app" and x.a[0] == "normppf") if not _freebv(x)]
        if len(ground) <= 40:
            m = {}
            for i, q in enumerate(ground):
                for p in ground[:i]:
                    d = tm.sub(tm.add(p.a[1], q.a[1]), ONE)
                    if p not in m and (d is ZERO or tm.is_zero(d)):
                        m[q] = tm.neg(p)
                        break
            if m:
                return tm.subst_term(goal, m)
        groups = {}
        for t in tm.atoms_of(goal.a[0], lambda x: x.op == "red" and x.a[0] == "sum"):
            if not _freebv(t) and tm.atoms_of(t, lambda x: x.op == "app" and x.a[0] == "normppf"):
                groups.setdefault(t.a[1], []).append(t)
        m = {}
        for n, ts in groups.items():
            v = tm.fresh("as")
            bodies = [tm.open_body(t.a[2], t.lvl, v) for t in ts]
            for i, f in enumerate(bodies):
                try:
                    g = tm.subst(f, {v: tm.sub(tm.sub(n, ONE), v)})
                    if tm.is_zero(tm.add(f, _odd_ppf(f, g))):
                        m[ts[i]] = ZERO
                        continue
                    for j in range(i):
                        h = _odd_ppf(bodies[j], g)
                        if tm.is_zero(tm.sub(h, bodies[j])):
                            m[ts[i]] = ts[j]
                        elif tm.is_zero(tm.add(h, bodies[j])):
                            m[ts[i]] = tm.neg(ts[j])
                        else:
                            continue
                        break
                except tm.TooBig:
                    pass
        return tm.subst_term(goal, m) if m else goal

    def _telescope(self, pc, goal):
        """sums of one body over ranges whose lengths differ by a small constant"""
        groups = {}
        for t in tm.atoms_of(goal.a[0], lambda x: x.op == "red" and x.a[0] == "sum"):
            if not _freebv(t):
                groups.setdefault((t.a[2], t.lvl), []).append(t)
        m = {}
        for (body, lvl), ts in groups.items():
            for a in ts:
                best = None
                for b in ts:
                    k = tm.sub(a.a[1], b.a[1])
                    if tm.is_num(k) and 0 < tm.numval(k) <= 3 and (best is None or tm.numval(k) > best[0]):
                        best = (int(tm.numval(k)), b)
                if best is None:
                    continue
                k, b = best
                if not tm.nonneg(b.a[1]) and not self.quick_entails(pc, tm.ge(b.a[1], ZERO), 500):
                    continue
                v = tm.fresh("tl")
                f = tm.open_body(body, lvl, v)
                m[a] = tm.add(b, *[tm.subst(f, {v: tm.add(b.a[1], num(j))}) for j in range(k)])
        return tm.subst_term(goal, m) if m else goal

    def _common_factor(self, pc, goal, d):
        """f * rest >= 0 for a factor f of all the terms, of a provable sign"""
        p = tm._as_poly(goal.a[0])
        if len(p) < 2:
            return False
        common = None
        for m in p:
            common = set(m) if common is None else common & set(m)
        common = [(at, e) for at, e in common or () if not tm.positive(at)]
        if not common or len(common) > 3:
            return False
        cmp = tm.ge0 if goal.op == "ge0" else tm.gt0
        rest, end = goal.a[0], self.end
        for at, e in sorted(common, key=lambda x: x[0].id):
            if not _has_red(at):
                return False
            self.end = min(end, self.clock() + 4)
            try:
                if self._prove(pc, tm.gt0(at), d + 5):
                    pass
                elif e.denominator == 1 and self._prove(pc, tm.gt0(tm.neg(at)), d + 5):
                    if e % 2:
                        rest = tm.neg(rest)
                else:
                    return False
            finally:
                self.end = end
            rest = tm.mul(rest, tm.power(at, -e))
        return self._prove(pc, cmp(rest), d + 1)

    def _congruence(self, pc, goal, d):
        """match reductions with equal bodies on their range"""
        reds = [t for t in tm.atoms_of(goal.a[0], lambda x: x.op == "red" or (x.op == "sapp" and x.a[0] == "sorted")) if not _freebv(t)]
        reds = [t for t in reds if t.op == "red"]
        if len(reds) < 2 or len(reds) > 10:
            return False
        m = {}
        for i in range(len(reds)):
            for j in range(i):
                a, b = reds[i], reds[j]
                if a in m or b in m or a.a[0] != b.a[0]:
                    continue
                if tm.occurs(a, b) or tm.occurs(b, a):
                    continue
                if a.a[1] is not b.a[1]:
                    if not self.quick_entails(pc, tm.eq(a.a[1], b.a[1]), 500):
                        continue
                v = tm.fresh("sk")
                ba, bb = tm.open_body(a.a[2], a.lvl, v), tm.open_body(b.a[2], b.lvl, v)
                if tm.atoms_of(ba, lambda x: x.op == "sel") == [] and tm.atoms_of(bb, lambda x: x.op == "sel") != []:
                    continue
                sv, self_end = self.stats.structural, self.end
                self.end = min(self.end, self.clock() + 4)
                try:
                    ok = self._prove(pc + [tm.ge(v, ZERO), tm.lt(v, a.a[1])], tm.eq(ba, bb), d + 5)
                finally:
                    self.end = self_end
                if ok:
                    m[a] = b
        if not m:
            return False
        g = tm.subst_term(goal, m)
        return self._prove(pc, g, d + 1)

    def _monotone(self, pc, goal, d):
        """sum_i a_i - sum_i b_i >= 0 when a_i >= b_i pointwise (same range); also a single sum of
        non-negative terms"""
        p = tm._as_poly(goal.a[0])
        reds = []
        for m, c in p.items():
            for at, e in m:
                if at.op == "red" and at.a[0] == "sum":
                    reds.append((m, c, at))
        if not reds or len(reds) != len(p) or goal.op == "gt0":
            return False
        n = reds[0][2].a[1]
        if any(r[2].a[1] is not n for r in reds):
            return False
        v = tm.fresh("sk")
        body = ZERO
        com = None
        for m, c, at in reds:
            rest = tuple((x, e) for x, e in m if x is not at)
            if any(not tm.positive(x) and not (e.denominator == 1 and e.numerator % 2 == 0) for x, e in rest):
                return False
            body = tm.add(body, tm.mul(tm._mono_term(rest, c), tm.open_body(at.a[2], at.lvl, v)))
        return self._prove(pc + [tm.ge(v, ZERO), tm.lt(v, n)], tm.ge0(body), d + 3)

    def _dominate(self, pc, goal, d):
        """c*f1*..*fk - x >= 0 (x >= 0): one factor dominates x, the product of the others is at least 1"""
        if goal.op != "ge0" or d > 30:
            return False
        p = tm._as_poly(goal.a[0])
        if len(p) != 2:
            return False
        (mp, cp), (mn, cn) = sorted(p.items(), key=lambda kv: -kv[1])
        if not (cp > 0 > cn) or len(mp) < 2:
            return False
        if any(e.denominator != 1 for _, e in mp):
            return False
        x = tm._mono_term(mn, -cn)
        up = [a for a, e in mp if e > 0 for _ in range(int(e))]
        dn = [a for a, e in mp if e < 0 for _ in range(int(-e))]
        sv = self.end
        self.end = min(sv, self.clock() + 12)
        try:
            q = lambda g: self._smt(pc, g) if g.op in ("ge0", "gt0") else self._prove(pc, g, d + 2)
            if not all(q(tm.ge0(a)) for a in up) or not all(q(tm.gt0(a)) for a in dn):
                return False
            free = list(up)
            for b in dn:
                for a in free:
                    if q(tm.ge(a, b)):
                        free.remove(a)
                        break
                else:
                    return False
            if is_one(x):
                return cp >= 1 and all(q(tm.ge(a, ONE)) for a in free)
            for a in free:
                if q(tm.ge(tm.scale(a, cp), x)):
                    return all(q(tm.ge(b, ONE)) for b in free if b is not a)
            return False
        finally:
            self.end = sv

    def _smt(self, pc, goal):
        if TRACE: print("SMT", tm.show(goal)[:400], "  PC", [tm.show(x)[:300] for x in pc][:8])
        left = self.end - self.clock()
        if left <= 0.2:
            return False
        to = int(min(self.timeout_ms, left * 1000))
        ok, model = self._check(self._skolem(pc), goal, to)
        if not ok and len(pc) > 4:
            rel = _relevant(pc, goal)
            if len(rel) < len(pc):
                ok, m2 = self._check(self._skolem(rel), goal, to)
        if ok:
            self.stats.z3_discharged += 1
        elif model is not None:
            self.model = model
        if not ok and DEBUG:
            print("   SMT-FAIL", "sat" if model else "unknown", tm.show(goal)[:700], "\n      PC:", " ;; ".join(tm.show(x)[:200] for x in pc))
        return ok


def _known_max(pc, goal):
    """drop the arguments of maxima that an assumption states to be smaller"""
    facts = None
    for t in tm.atoms_of(goal, lambda x: x.op == "app" and x.a[0] == "max"):
        if _freebv(t):
            continue
        if facts is None:
            facts = {x.a[0] for x in pc if x.op in ("ge0", "gt0")}
            if not facts:
                return goal
        args = t.a[1:]
        keep = list(args)
        for a in args:
            for b in keep:
                if a is not b and a in keep:
                    c = tm.ge(b, a)
                    if c is TRUE or (c.op == "ge0" and c.a[0] in facts) or tm.gt(b, a) in pc:
                        keep.remove(a)
                        break
        if len(keep) < len(args):
            return tm.subst_term(goal, {t: tm.max_(*keep)})
    return goal


def _triangle(goal):
    """sums over pairs of indices in one form: the larger index outside, the smaller one below its successor"""
    m = {}
    for t in tm.atoms_of(goal, lambda x: x.op == "red" and x.a[0] == "sum" and x.lvl == 2):
        n = t.a[1]
        v, w = tm.fresh("tj"), tm.fresh("ti")
        p = tm._as_poly(tm.open_body(t.a[2], t.lvl, v))
        if len(p) != 1:
            continue
        (mono, c), = p.items()
        rs = [(a, e) for a, e in mono if a.op == "red" and a.a[0] == "sum" and e == 1 and tm.occurs(a.a[1], v)]
        if len(rs) != 1:
            continue
        r = rs[0][0]
        rest = tm._mono_term(tuple((a, e) for a, e in mono if a is not r), c)
        body = tm.open_body(r.a[2], r.lvl, w)
        up, down = tm.sub(r.a[1], v), tm.add(r.a[1], v)
        if not tm.occurs(down, v) and (down is n or tm.sub(n, down) is tm.ONE):
            # i < n, d < b - i  ->  j = i + d < b, i < j + 1
            f = tm.mul(tm.subst(rest, {v: w}), tm.subst(body, {w: tm.sub(v, w), v: w}))
            m[t] = tm.red("sum", down, v, tm.red("sum", tm.add(v, tm.ONE), w, f))
        elif up in (tm.ZERO, tm.ONE):
            if not tm.occurs(body, v) and not tm.occurs(rest, v):
                m[t] = tm.mul(rest, tm.red("sum", n, w, tm.mul(body, tm.sub(n if up is tm.ONE else tm.sub(n, tm.ONE), w))))
            elif up is tm.ZERO:
                f = tm.mul(rest, tm.red("sum", v, w, body))
                m[t] = tm.red("sum", tm.sub(n, tm.ONE), v, tm.subst(f, {v: tm.add(v, tm.ONE)}))
    return tm.subst_term(goal, m) if m else goal


def _medians(goal):
    """np.median written out by the order statistics, where the goal has both"""
    m = {}
    for t in tm.atoms_of(goal.a[0], lambda x: x.op == "app" and x.a[0] == "median"):
        if _freebv(t):
            continue
        s = tm.sorted_seq(t.a[1])
        n = tm.seqlen(s)
        h = tm.app("floor", tm.scale(n, Fraction(1, 2)))
        y = [tm.sel(s, tm.sub(h, tm.ONE)), tm.sel(s, h)]
        m[t] = tm.ite(tm.eq0(tm.sub(n, tm.scale(h, 2))), tm.scale(tm.add(*y), Fraction(1, 2)), y[1])
    if not m:
        return goal
    g = tm.subst_term(goal, m)
    # of use only when the order statistics occur on their own as well
    for t in m:
        s = tm.sorted_seq(t.a[1])
        marked = tm.subst_term(goal, {t: tm.sym("med!w", False)})
        if tm.atoms_of(marked.a[0], lambda x: x.op == "sel" and x.a[0] is s):
            return g
    return goal


def _norm_ranges(goal):
    """sums over shifted ranges start at 0, sums whose lengths differ by a constant get the same length"""
    reds = [t for t in tm.atoms_of(goal.a[0], lambda x: x.op == "red" and x.a[0] == "sum") if not _freebv(t)]
    if len(reds) < 2:
        return goal
    m = {}
    for t in reds:
        v = tm.fresh("nr")
        b = tm.open_body(t.a[2], t.lvl, v)
        ks = []
        for s in tm.subterms(b):
            if s.op == "sel" and tm.occurs(s.a[1], v) and not tm.occurs(s.a[0], v):
                k = tm.sub(s.a[1], v)
                ks.append(int(tm.numval(k)) if tm.is_num(k) else None)
        if ks and None not in ks and 0 < min(ks) <= 4:
            k = min(ks)
            f = tm.subst(b, {v: tm.sub(v, num(k))})
            r = tm.red("sum", tm.add(t.a[1], num(k)), v, f)
            m[t] = tm.sub(r, tm.add(*[tm.subst(f, {v: num(j)}) for j in range(k)]))
    if m:
        g = tm.subst_term(goal, m)
        if g is not goal:
            return g
    groups = {}
    for t in reds:
        n = t.a[1]
        c = tm._as_poly(n).get((), 0) if n.op != "num" else None
        if c is not None:
            groups.setdefault(tm.sub(n, num(c)), []).append((c, t))
    for base, ts in groups.items():
        lo = min(c for c, _ in ts)
        low = tm.add(base, num(lo))
        if not tm.nonneg(low):
            continue
        for c, t in ts:
            if 0 < c - lo <= 4 and t not in m:
                v = tm.fresh("nr")
                b = tm.open_body(t.a[2], t.lvl, v)
                m[t] = tm.add(tm.red("sum", low, v, b), *[tm.subst(b, {v: tm.add(low, num(j))}) for j in range(int(c - lo))])
    return tm.subst_term(goal, m) if m else goal


def is_one(t):
    return tm.is_num(t) and tm.numval(t) == 1


def _has_red(t):
    return bool(tm.atoms_of(t, lambda x: x.op in ("red", "ite")))


def tm_assume(goal, c, val):
    """simplify goal knowing that c has the given truth value"""
    m = {c: TRUE if val else FALSE}
    n = tm.not_(c)
    m[n] = FALSE if val else TRUE
    return _assume_go(goal, m)


def _assume_go(t, m):
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x.id)
        if r is not None:
            return r
        if not tm._children(x.op, x.a) or x.op in ("num", "sym", "bvar"):
            r = x
        elif not any(tm.occurs(x, k) for k in m):
            r = x
        else:
            r = tm.rebuild_b(x, go, m)
        memo[x.id] = r
        return r

    return go(t)


def _relevant(pc, c):
    syms = set(c.fv)
    rel = []
    rest = list(pc)
    changed = True
    while changed:
        changed = False
        nxt = []
        for x in rest:
            if not x.fv or (x.fv & syms):
                rel.append(x)
                if not x.fv <= syms:
                    syms |= x.fv
                    changed = True
            else:
                nxt.append(x)
        rest = nxt
    return rel
