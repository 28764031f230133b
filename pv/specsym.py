"""Symbolic semantics of the specification library (see pv/native/speclib.py for the native one)."""
from __future__ import annotations

from . import terms as tm
from .terms import num, ZERO, ONE, TRUE, FALSE
from .values import *
from .interp import _nb


def _f(I, v):
    """thunk or value"""
    v = I.force(v)
    if isinstance(v, (FuncV, BoundV, BuiltinV)):
        return I.call(v, [], {})
    return v


def _range(I, n):
    n = I.force(n)
    if isinstance(n, (SeqV, tuple)):
        s = I.lib.as_seqv(I, n) if not isinstance(n, SeqV) else n
        if s.items is not None:
            return None, list(s.items), None
        return s.length(), None, lambda v: I.seq_get(s, v)
    if isinstance(n, SetV):
        return None, list(n.items), None
    if tm.is_num(n) and tm.numval(n) <= 64:
        return None, [num(k) for k in range(int(tm.numval(n)))], None
    return n, None, lambda v: v


def _quant(I, a, isall):
    n, items, at = _range(I, a[0])
    f = a[1]
    if items is not None:
        ts = [to_bool_T(I.pure(lambda: I.truth_T(I.call(f, [x], {})))) for x in items]
        return _nb(tm.and_(*ts) if isall else tm.or_(*ts))
    v = tm.fresh("q")
    rng = [tm.ge(v, ZERO), tm.lt(v, n)]
    try:
        body = I.pure(lambda: I.truth_T(I.call(f, [at(v)], {})), rng)
    except Infeasible:
        return isall
    return _nb(tm.quant("all" if isall else "any", n, v, to_bool_T(body)))


def _red(I, op, a, cond=False):
    n, items, at = _range(I, a[0])
    f = a[1]

    def one(x):
        r = I.force(I.call(f, [x], {}))
        if cond:
            return tm.ite(I.truth_T(r), ONE, ZERO)
        if is_boolish(r):
            return tm.ite(to_bool_T(r), ONE, ZERO)
        return I.scalar(r)

    if items is not None:
        vals = [I.pure(lambda: one(x)) for x in items]
        if op == "sum":
            return tm.add(*vals) if vals else ZERO
        if op == "prod":
            return tm.mul(*vals) if vals else ONE
        if op == "max":
            return tm.max_(*vals)
        return tm.min_(*vals)
    v = tm.fresh("q")
    rng = [tm.ge(v, ZERO), tm.lt(v, n)]
    body = I.pure(lambda: one(at(v)), rng)
    if op == "min":
        return tm.neg(tm.red("max", n, v, tm.neg(body)))
    return tm.red(op, n, v, body)


def value_eq(I, a, b):
    """equality of arbitrary values as a boolean term (never raises on type mismatch)"""
    a, b = I.force(a), I.force(b)
    if isinstance(a, bool) and is_num(b):
        a = num(int(a))
    if isinstance(b, bool) and is_num(a):
        b = num(int(b))
    if isinstance(a, tuple):
        a = SeqV("tuple", list(a))
    if isinstance(b, tuple):
        b = SeqV("tuple", list(b))
    if isinstance(a, DictV) and isinstance(b, DictV):
        if set(a.items) != set(b.items):
            return FALSE
        return tm.and_(*[to_bool_T(value_eq(I, a.items[k], b.items[k])) for k in a.items])
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        na, nb = a.length(), b.length()
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return FALSE
            return tm.and_(*[to_bool_T(value_eq(I, x, y)) for x, y in zip(a.items, b.items)])
        ne = tm.eq(na, nb)
        if ne is FALSE:
            return FALSE
        v = tm.fresh("q")

        def el(s):
            if s.poison:
                raise Unsupported(s.poison)
            return I._get_any(s, v)

        try:
            body = I.pure(lambda: to_bool_T(value_eq(I, el(a), el(b))), [tm.ge(v, ZERO), tm.lt(v, na), ne])
        except Infeasible:
            return ne
        return tm.and_(ne, tm.quant("all", na, v, to_bool_T(body)))
    if isinstance(a, UnionV) or isinstance(b, UnionV):
        raise Unsupported("union in equality")
    if isinstance(a, (ObjV, AbsV, ClassV, FuncV, ExtV)) or isinstance(b, (ObjV, AbsV, ClassV, FuncV, ExtV)):
        if type(a) is not type(b):
            return FALSE
        return to_bool_T(I.eq(a, b)) if isinstance(a, ObjV) else tm.boolc(a is b or (isinstance(a, ExtV) and a.path == b.path))
    if a is None or b is None:
        return tm.boolc(a is b)
    ka = "N" if is_num(a) else "B" if is_boolish(a) else "O"
    kb = "N" if is_num(b) else "B" if is_boolish(b) else "O"
    if ka != kb:
        return FALSE
    return to_bool_T(I.eq(a, b))


def norm_arg(I, v):
    """scalar / sequence term standing for a value passed to an uninterpreted function"""
    v = I.force(v)
    if v is None:
        return tm.strc("<None>")
    if isinstance(v, bool):
        return tm.boolc(v)
    if isinstance(v, (T, str)):
        return I.scalar(v)
    if isinstance(v, (SeqV, tuple)):
        return I.reify(v if isinstance(v, SeqV) else SeqV("tuple", list(v)))
    if isinstance(v, DictV):
        parts = []
        for k in sorted(v.items, key=str):
            parts.append(tm.strc(str(k)))
            parts.append(norm_arg(I, v.items[k]))
        return tm.oapp("dict", *parts)
    if isinstance(v, AbsV):
        return tm.osym("@" + v.name)
    if isinstance(v, ObjV):
        parts = [tm.strc(v.cls.name if v.cls else "?")]
        for k in sorted(v.attrs):
            if k.startswith("@"):
                continue
            parts.append(norm_arg(I, v.attrs[k]))
        return tm.oapp("obj", *parts)
    raise Unsupported(f"argument {type(v).__name__} of an uninterpreted function")


def uf(I, name, args, rng="real"):
    ts = [norm_arg(I, x) for x in args]
    if rng == "bool":
        return tm.bapp("uf_" + name, *ts)
    if rng == "str":
        return tm.oapp("uf_" + name, *ts)
    t = tm.app("uf_" + name, *ts, isint=(rng == "int"))
    if rng == "unit":
        I.assume(tm.ge(t, ZERO))
        I.assume(tm.lt(t, ONE))
    return t


def class_name(I, v):
    v = I.force(v)
    if isinstance(v, ObjV):
        return v.cls.name if v.cls else "object"
    if isinstance(v, AbsV):
        return v.cls.name if v.cls else v.name
    if isinstance(v, bool) or (isinstance(v, T) and v.kind == "B"):
        return "bool"
    if isinstance(v, str) or (isinstance(v, T) and v.kind == "O"):
        return "str"
    if isinstance(v, T):
        return "int" if v.isint else "float"
    if v is None:
        return "NoneType"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, SeqV):
        return {"nd": "ndarray", "list": "list", "tuple": "tuple", "iter": "iter"}.get(v.kind, v.kind)
    if isinstance(v, DictV):
        return "dict"
    if isinstance(v, ClassV):
        return "type"
    return type(v).__name__


def make(I):
    B = {}

    def reg(name):
        def deco(fn):
            B[name] = BuiltinV(name, fn)
            return fn

        return deco

    @reg("R")
    def _R(a, k):
        qual = a[0]
        modname, rest = qual.split(":")
        mod = I.prog.modules.get(modname)
        if mod is None:
            raise PyExc("ModuleNotFoundError", (modname,))
        I.load_module(modname)
        parts = rest.split(".")
        try:
            v = I.module_get(mod, parts[0])
        except KeyError:
            raise PyExc("AttributeError", (rest,))
        for p in parts[1:]:
            v = I.getattr(v, p)
        return v

    @reg("forall")
    def _forall(a, k):
        return _quant(I, a, True)

    @reg("exists")
    def _exists(a, k):
        return _quant(I, a, False)

    @reg("count")
    def _count(a, k):
        return _red(I, "sum", a, cond=True)

    @reg("Sum")
    def _Sum(a, k):
        return _red(I, "sum", a)

    @reg("Prod")
    def _Prod(a, k):
        return _red(I, "prod", a)

    @reg("Max")
    def _Max(a, k):
        return _red(I, "max", a)

    @reg("Min")
    def _Min(a, k):
        return _red(I, "min", a)

    @reg("implies")
    def _implies(a, k):
        c = I.truth_T(a[0])
        if c is FALSE:
            return True
        r = I.spec_guarded(lambda: I.truth_T(_f(I, a[1])), c)
        return _nb(tm.implies(c, r))

    @reg("iff")
    def _iff(a, k):
        return _nb(tm.eq(I.truth_T(a[0]), I.truth_T(a[1])))

    @reg("ite")
    def _ite(a, k):
        c = I.truth_T(a[0])
        if c is TRUE:
            return _f(I, a[1])
        if c is FALSE:
            return _f(I, a[2])

        def side(x, g):
            outs = I.explore(lambda: _f(I, x), [g])
            alts = []
            for o in outs:
                if o.kind != "ok":
                    raise o.value if o.kind == "exc" else Unsupported("spec")
                alts.append((tm.and_(g, o.cond), o.value))
            return alts

        return I.merge(side(a[1], c) + side(a[2], tm.not_(c)))

    def _eq(a, k):
        return _nb(value_eq(I, a[0], a[1]))

    for nm in ("eq", "same", "mapping_eq"):
        B[nm] = BuiltinV(nm, _eq)

    @reg("leq")
    def _leq(a, k):
        return _nb(tm.le(I.lib.N(I, a[0]), I.lib.N(I, a[1])))

    @reg("less")
    def _less(a, k):
        return _nb(tm.lt(I.lib.N(I, a[0]), I.lib.N(I, a[1])))

    @reg("isnone")
    def _isnone(a, k):
        return I.force(a[0]) is None

    @reg("isnum")
    def _isnum(a, k):
        return is_num(I.force(a[0]))

    @reg("seqof")
    def _seqof(a, k):
        n = I.force(a[0])
        f = a[1]
        if tm.is_num(n) and tm.numval(n) <= 64:
            return SeqV("list", [I.call(f, [num(i)], {}) for i in range(int(tm.numval(n)))])
        v = tm.fresh("q")
        body = I.pure(lambda: I.call(f, [v], {}), [tm.ge(v, ZERO), tm.lt(v, n)])
        return I.seq_from_body("list", n, v, body)

    @reg("typename")
    def _typename(a, k):
        return class_name(I, a[0])

    @reg("clsname")
    def _clsname(a, k):
        return class_name(I, a[0])

    @reg("skip")
    def _skip(a, k):
        raise Infeasible()

    @reg("delicate")
    def _delicate(a, k):
        return True

    @reg("instance")
    def _instance(a, k):
        from .values import to_bool_T
        f, xs = a[0], [I.lib.N(I, x) for x in a[1:]]
        vs = [tm.sym(f"real!{i}") for i in range(len(xs))]
        g = to_bool_T(I.pure(lambda: I.truth_T(I.call(f, vs, {}))))
        if not I.prover.prove([], g):
            return I.call(f, xs, {})
        I.lemma_facts.append(tm.subst(g, dict(zip(vs, xs))))
        return True

    @reg("calls")
    def _calls(a, k):
        m, meth = I.force(a[0]), a[1]
        if (m.name, meth) in I.loop_calls:
            raise Unsupported("collaborator called inside a symbolic loop")
        return SeqV("list", [(tuple(x[2]), DictV(x[3])) for x in I.trace if x[0] is m and x[1] == meth])

    @reg("ncalls")
    def _ncalls(a, k):
        s = I.force(a[0])
        return I.counters.get(s.stream_name, ZERO)

    @reg("single")
    def _single(a, k):
        v = I.force(a[0])
        if isinstance(v, SeqV):
            return I.seqmap(v, lambda x: tm.app("float32", I.lib.N(I, x)), "list")
        return tm.app("float32", I.lib.N(I, v))

    @reg("draw")
    def _draw(a, k):
        """the i-th standardised draw of a law: draw(name, shape..., i)"""
        return tm.app("draw_" + a[0], *[I.lib.N(I, x) for x in a[1:]])

    @reg("UF")
    def _UF(a, k):
        return uf(I, a[0], a[1:], k.get("rng", "real"))

    B["Contract"] = ExtV("speclib.Contract")
    return B


_cache = {}


def spec_builtin(I, name):
    t = getattr(I, "_specB", None)
    if t is None:
        t = I._specB = make(I)
    if name in t:
        return t[name]
    if name == "np":
        return ExtV("numpy")
    if name == "math":
        return ExtV("math")
    return None


# ------------------------------------------------------------------------------------ symbolic builder
class SymBuilder:
    def __init__(self, I):
        self.I = I
        self.reg = {}

    def as_abs(self):
        ms = {}
        for nm in ("real", "int", "len", "bool", "strv", "strs", "objs", "arr", "permuted", "storage", "column", "obj", "stream", "collab", "assume", "choice", "stub", "rng", "ghost"):
            ms[nm] = lambda I, a, k, f=getattr(self, nm): f(*a, **k)
        return AbsV("S", ms, {"concrete": False})

    def _num(self, x):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return num(x)
        return self.I.lib.N(self.I, x)

    def _bounds(self, t, lo, hi, pos=False, nonneg=False):
        I = self.I
        if lo is not None:
            I.assume(tm.ge(t, self._num(lo)))
        if hi is not None:
            I.assume(tm.le(t, self._num(hi)))

    def assume(self, c):
        I = self.I
        I.spec_mode += 1
        try:
            c = I.truth_T(c)
        finally:
            I.spec_mode -= 1
        I.assume(c)

    def _sign(self, lo, pos, nonneg):
        if pos:
            return "pos"
        if nonneg:
            return "nonneg"
        if lo is not None:
            l = self._num(lo)
            if tm.is_num(l):
                return "pos" if tm.numval(l) > 0 else "nonneg" if tm.numval(l) == 0 else None
        return None

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        t = tm.sym("$" + name, False, self._sign(lo, pos, nonneg))
        self.reg[name] = ("real", t)
        self._bounds(t, lo, hi)
        return t

    def int(self, name, lo=None, hi=None, chi=None):
        sg = self._sign(lo, False, False)
        if sg == "pos" and tm.numval(self._num(lo)) >= 2:
            sg = int(tm.numval(self._num(lo)))
        t = tm.sym("$" + name, True, sg)
        self.reg[name] = ("int", t)
        self._bounds(t, lo, hi)
        return t

    def len(self, name, lo=0, hi=None, chi=None, rare=None):
        return self.int(name, num(0) if lo is None else lo, hi)

    def bool(self, name):
        t = tm.bsym("$" + name)
        self.reg[name] = ("bool", t)
        return t

    def strv(self, name):
        return tm.osym("$" + name)

    def choice(self, name, options):
        I = self.I
        opts = options.items if isinstance(options, SeqV) else list(options)
        for k, o in enumerate(opts[:-1]):
            if I.branch(tm.bsym(f"${name}?{k}")):
                return o
        return opts[-1]

    def arr(self, name, n, kind="nd", lo=None, hi=None, pos=False, nonneg=False, distinct=False, sorted=False, integer=False):
        I = self.I
        n = self._num(n)
        if tm.is_num(n):
            sg = self._sign(lo, pos, nonneg)
            items = [tm.sym(f"${name}[{k}]", integer, sg) for k in range(int(tm.numval(n)))]
            for x in items:
                self._bounds(x, lo, hi)
            if sorted:
                for x, y in zip(items, items[1:]):
                    I.assume(tm.le(x, y))
            if distinct:
                for i in range(len(items)):
                    for j in range(i):
                        I.assume(tm.not_(tm.eq(items[i], items[j])))
            s = SeqV(kind, items)
            s.owner = name
            return s
        t = tm.ssym("$" + name, n, "I" if integer else "N", self._sign(lo, pos, nonneg))
        self.reg[name] = ("arr", t)
        s = seq_from_term(t, kind)
        s.owner = name
        u, w = tm.fresh("u"), tm.fresh("w")
        cs = []
        if lo is not None:
            cs.append(tm.ge(tm.sel(t, u), self._num(lo)))
        if hi is not None:
            cs.append(tm.le(tm.sel(t, u), self._num(hi)))
        for c in cs:
            I.assume(tm.quant("all", n, u, c))
        if distinct:
            I.assume(tm.quant("all", n, u, tm.quant("all", u, w, tm.not_(tm.eq(tm.sel(t, u), tm.sel(t, w))))))
        if sorted:
            I.ascending.add(t)
            I.assume(tm.quant("all", n, u, tm.quant("all", u, w, tm.le(tm.sel(t, w), tm.sel(t, u)))))
        return s

    def permuted(self, name, x):
        """the elements of an array in any order"""
        I = self.I
        t = I.reify(x)
        if t.op != "ssym":
            return x
        tag = tm.lam(tm.ONE, tm.fresh("t"), tm.sym("$" + name))
        r = seq_from_term(tm.sapp("permuted", tm.seqlen(t), t, tag), x.kind)
        r.owner = name
        return r

    def strs(self, name, n):
        """list of arbitrary strings"""
        n = self._num(n)
        t = tm.ssym("$" + name, n, "O")
        self.reg[name] = ("strs", t)
        s = seq_from_term(t, "list")
        s.owner = name
        return s

    def objs(self, qual, n, name, **fields):
        """list of n objects of a class: fields "str" / "int" / "real" are arbitrary, others are the given value"""
        I = self.I
        I.load_module(qual.split(":")[0])
        c = I.find_class(qual)
        n = self._num(n)

        def getf(i):
            at = {}
            for k, v in fields.items():
                if v == "str":
                    at[k] = tm.sel(tm.ssym(f"${name}.{k}", n, "O"), i)
                elif v in ("int", "real"):
                    at[k] = tm.sel(tm.ssym(f"${name}.{k}", n, "I" if v == "int" else "N"), i)
                elif v in ("reals", "singles"):
                    ln = tm.sel(tm.ssym(f"${name}.{k}.len", n, "I", "nonneg"), i)
                    at[k] = seq_from_term(tm.sapp(f"${name}.{k}", ln, i), "list")
                else:
                    at[k] = v
            return ObjV(c, at)

        s = SeqV("list", None, n, getf) if not tm.is_num(n) else SeqV("list", [getf(num(k)) for k in range(int(tm.numval(n)))])
        s.owner = name
        return s

    def storage(self, rows=None, distinct=True):
        """a limit-distribution storage whose table holds exactly the given models (a list of any length)"""
        from . import sqlmodel

        I = self.I
        c = I.find_class("pysatl_criterion.persistence.sqlalchemy.datastorage:AlchemyLimitDistributionStorage")
        orm = I.find_class("pysatl_criterion.persistence.sqlalchemy.models.limit_distribution_orm:LimitDistributionORM")
        rows = SeqV("list", []) if rows is None else I.force(rows)
        cols = sqlmodel.columns(I, orm)

        def at(i):
            m = I.force(I._get_any(rows, i))
            a = dict(m.attrs)
            a["criterion_parameters"] = tm.oapp("json", I.reify(a["criterion_parameters"]))
            if set(cols) - set(a):
                raise Unsupported("table with other columns than the model")
            return ObjV(orm, {k: a[k] for k in cols}, "stored")

        n = rows.length()
        pk = [q for q in ("experiment_id", "criterion_code", "criterion_parameters", "sample_size", "monte_carlo_count")]
        if set(orm._sqlpk) - set(pk):
            raise Unsupported("table with another primary key")
        u, w = tm.fresh("u"), tm.fresh("w")
        if not tm.is_num(n):
            same = I.pure(lambda: tm.and_(*[sqlmodel.veq(I, at(u).attrs[q], at(w).attrs[q]) for q in orm._sqlpk]), [tm.ge(w, ZERO), tm.lt(w, u), tm.lt(u, n)])
            I.assume(tm.quant("all", n, u, tm.quant("all", u, w, tm.not_(same))))
        table = sqlmodel.new_table(I, (n, at))
        return ObjV(c, {"Session": ExtV("sql.sessionmaker", {"table": table}), "engine": ExtV("sql.engine", {}), "connection_string": tm.strc("sqlite://")})

    def rng(self):
        """a deterministic source of randomness: the streams of standardised draws start at their first value"""
        from .npmodel import SHAPES

        for d in SHAPES:
            self.I.counters["rng_" + d] = ZERO
        return None

    def column(self, single):
        """a compressed column type"""
        I = self.I
        c = I.find_class("pysatl_criterion.persistence.sqlalchemy.alchemy_decorator:CompressedFloatArray")
        return I.instantiate(c, [], {"use_float32": single})

    def obj(self, qual, **attrs):
        I = self.I
        I.load_module(qual.split(":")[0])
        c = I.find_class(qual)
        return ObjV(c, dict(attrs))

    def stream(self, name, fn):
        I = self.I
        I.counters["st_" + name] = ZERO

        def call(a, k):
            kk = I.counters["st_" + name]
            I.counters["st_" + name] = tm.add(kk, ONE)
            return I.call(fn, [kk] + list(a), k)

        b = BuiltinV("stream." + name, call)
        b.stream_name = "st_" + name
        return b

    def ghost(self, name, n, fn, integer=False):
        """a ghost sequence: arbitrary for the proof (constrained by pre), fn() in concrete executions"""
        return self.arr(name, n, integer=integer)

    def stub(self, qual, fn):
        """callee contract: calls of the function are answered by fn (and recorded under "call")"""
        I = self.I
        f = I.find_function(qual)
        o = AbsV("stub:" + qual, {}, {}, None)

        def answer(I_, f_, a, k):
            if not I_.loops:
                I_.trace.append((o, "call", tuple(a), dict(k)))
            else:
                I_.loop_calls.add((o.name, "call"))
            return I_.call(fn, list(a), k)

        if isinstance(f, BoundV):
            f = f.func
        if not isinstance(f, FuncV):
            raise Unsupported(f"stub of {qual}")
        I.summaries[f.qualname] = answer
        return o

    def collab(self, name, cls=None, methods=None, attrs=None):
        I = self.I
        c = I.find_class(cls) if cls else None
        o = AbsV(name, {}, {}, c)
        for k, v in (attrs.items if isinstance(attrs, DictV) else {}).items():
            o.attrs[k] = v
        for mn, fn in (methods.items if isinstance(methods, DictV) else {}).items():

            def rec(I_, a, k, mn=mn, fn=fn):
                if not I.loops:
                    I.trace.append((o, mn, tuple(a), dict(k)))
                else:
                    I.loop_calls.add((name, mn))
                return I.call(fn, list(a), k)

            o.methods[mn] = rec
        return o
