"""Model of the SQLAlchemy subset used by the repository: a table is an arbitrary collection of rows (any number of
them) followed by the ordered writes of the committed transactions.  Session writes become visible to other sessions
on commit only; `select` sees the session's own pending writes (autoflush)."""
import ast

from . import terms as tm
from .terms import num, ZERO, ONE, TRUE, FALSE
from .values import *


# ------------------------------------------------------------------------------------------- ORM classes
def is_orm(c):
    return isinstance(c, ClassV) and any(p.split(".")[-1] in ("Base", "declarative_base", "DeclarativeBase", "@declarative_base") for k in c.mro for p in k.ext_bases)


def columns(I, c):
    """{column name: column type object or None}"""
    r = getattr(c, "_sqlcols", None)
    if r is None:
        r = {}
        from .interp import Env

        log, I.log = I.log, None
        try:
            return _columns(I, c, r, Env)
        finally:
            I.log = log
    return r


def _columns(I, c, r, Env):
    if True:

        for st in c.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ty = None
                if isinstance(st.value, ast.Call):
                    for a in st.value.args + [k.value for k in st.value.keywords if k.arg == "type_"]:
                        try:
                            v = I.eval(a, Env(c.module))
                        except PyExc:
                            continue
                        if isinstance(v, ObjV):
                            ty = v
                    if any(k.arg == "primary_key" for k in st.value.keywords):
                        r.setdefault("@pk", []).append(st.target.id)
                r[st.target.id] = ty
            elif isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func).split(".")[-1] in ("mapped_column", "Column"):
                raise Unsupported("column declaration style")
        pk = r.pop("@pk", [])
        for st in c.node.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__table_args__" for t in st.targets):
                for n in ast.walk(st.value):
                    if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "PrimaryKeyConstraint":
                        pk = pk + [a.value for a in n.args if isinstance(a, ast.Constant)]
        if not pk:
            raise Unsupported("table without a primary key")
        c._sqlpk = pk
        c._sqlcols = r
    return r


def construct_ext_subclass(I, o, c, args, kwargs):
    if is_orm(c):
        cols = columns(I, c)
        for k, v in kwargs.items():
            if k not in cols:
                raise PyExc("TypeError", (f"{k} is an invalid keyword argument",))
            I.setattr_raw(o, k, v)
        for k in cols:
            if k not in kwargs:
                I.setattr_raw(o, k, None)
    return None


def obj_attr(I, o, name):
    return NotImplemented


def class_attr(I, c, name):
    if is_orm(c) and name in columns(I, c):
        return ExtV("sql.col", {"col": name, "cls": c})
    if is_orm(c) and name in ("metadata", "__table__", "__tablename__"):
        return ExtV("sql.metadata")
    return NotImplemented


def ext_subclass_attr(I, o, c, name):
    if is_orm(c):
        raise PyExc("AttributeError", (name,))
    raise PyExc("AttributeError", (name,))


# ------------------------------------------------------------------------------------------- expressions
def field(I, row, name):
    v = I.getattr(row, name)
    if isinstance(v, (bool, str, T)):
        return v
    v = I.force(v)
    return v


def _expr(I, x):
    """row -> value"""
    if isinstance(x, ExtV) and x.path == "sql.col":
        return lambda row: field(I, row, x.data["col"])
    if isinstance(x, ExtV) and x.path == "sql.expr":
        return x.data["expr"]
    return lambda row: x


def _cond(I, f):
    return ExtV("sql.cond", {"cond": f})


def _condf(I, x):
    x = I.force(x)
    if isinstance(x, ExtV) and x.path == "sql.cond":
        return x.data["cond"]
    if isinstance(x, bool):
        return lambda row: tm.boolc(x)
    raise Unsupported("sql condition")


def veq(I, a, b):
    from .specsym import value_eq

    if (a is None) or (b is None):
        return FALSE  # SQL: comparison with NULL is not true
    return to_bool_T(value_eq(I, a, b))


def compare(I, op, a, b):
    ea, eb = _expr(I, I.force(a)), _expr(I, I.force(b))
    if isinstance(op, ast.Eq):
        return _cond(I, lambda row: veq(I, ea(row), eb(row)))
    if isinstance(op, ast.NotEq):
        return _cond(I, lambda row: tm.not_(veq(I, ea(row), eb(row))))
    f = {ast.Lt: tm.lt, ast.LtE: tm.le, ast.Gt: tm.gt, ast.GtE: tm.ge}.get(type(op))
    if f is None:
        raise Unsupported("sql comparison")
    return _cond(I, lambda row: f(I.lib.N(I, ea(row)), I.lib.N(I, eb(row))))


def binop(I, op, a, b):
    if isinstance(a, ExtV) and a.path in ("sql.col", "sql.expr") or isinstance(b, ExtV) and b.path in ("sql.col", "sql.expr"):
        ea, eb = _expr(I, I.force(a)), _expr(I, I.force(b))
        return ExtV("sql.expr", {"expr": lambda row: I.arith(op, I.lib.N(I, ea(row)), I.lib.N(I, eb(row))), "col": None})
    f, g = _condf(I, a), _condf(I, b)
    if isinstance(op, ast.BitAnd):
        return _cond(I, lambda row: tm.and_(f(row), g(row)))
    if isinstance(op, ast.BitOr):
        return _cond(I, lambda row: tm.or_(f(row), g(row)))
    raise Unsupported("sql expression")


def invert(I, a):
    f = _condf(I, a)
    return _cond(I, lambda row: tm.not_(f(row)))


# ------------------------------------------------------------------------------------------- statements
def stmt(kind, cls, conds=(), order=(), limit=None, cols=None):
    return ExtV("sql.stmt", {"kind": kind, "cls": cls, "conds": tuple(conds), "order": tuple(order), "limit": limit, "cols": cols})


def _new(s, **kw):
    d = dict(s.data)
    d.update(kw)
    return ExtV("sql.stmt", d)


def _order(I, x):
    x = I.force(x)
    if isinstance(x, ExtV) and x.path == "sql.order":
        return x.data["order"]
    return (False, _expr(I, x))


def col_attr(I, o, name):
    e = _expr(I, o)
    N = lambda v: I.lib.N(I, v)
    if name == "between":
        def between(a, k):
            lo, hi = I.force(a[0]), I.force(a[1])
            return _cond(I, lambda row: tm.and_(tm.le(N(lo), N(e(row))), tm.le(N(e(row)), N(hi))))

        return BuiltinV("between", between)
    if name in ("in_", "not_in", "notin_"):
        def in_(a, k):
            xs = I.force(a[0])

            def f(row):
                r = to_bool_T(I.lib.contains(I, xs, e(row)))
                return r if name == "in_" else tm.not_(r)

            return _cond(I, f)

        return BuiltinV("in_", in_)
    if name in ("desc", "asc"):
        return BuiltinV(name, lambda a, k: ExtV("sql.order", {"order": (name == "desc", e)}))
    if name in ("is_", "is_not"):
        return BuiltinV(name, lambda a, k: _cond(I, lambda row: tm.boolc((I.force(e(row)) is None) == (name == "is_"))))
    raise Unsupported(f"column method {name}")


def ext_attr(I, o, name):
    p = o.path
    if p in ("sql.col", "sql.expr"):
        return col_attr(I, o, name)
    if p == "sql.stmt":
        d = o.data
        if name in ("where", "filter"):
            return BuiltinV(name, lambda a, k: _new(o, conds=d["conds"] + tuple(_condf(I, x) for x in a)))
        if name == "filter_by":
            return BuiltinV(name, lambda a, k: _new(o, conds=d["conds"] + tuple(
                (lambda row, q=q, v=v: veq(I, field(I, row, q), v)) for q, v in k.items())))
        if name == "order_by":
            return BuiltinV(name, lambda a, k: _new(o, order=d["order"] + tuple(_order(I, x) for x in a)))
        if name == "limit":
            return BuiltinV(name, lambda a, k: _new(o, limit=I.lib.toint(I, a[0])))
        raise Unsupported(f"statement method {name}")
    if p == "sql.session":
        return session_attr(I, o, name)
    if p == "sql.result":
        return result_attr(I, o, name)
    if p == "sql.engine" and name == "connect":
        return BuiltinV("connect", lambda a, k: ExtV("sql.connection"))
    if p == "sql.metadata":
        return BuiltinV(name, lambda a, k: None)
    return NotImplemented


def ext_call(I, f, args, kwargs):
    p = f.path
    nm = p.split(".")[-1]
    if p.startswith("sqlalchemy"):
        if nm == "select":
            if len(args) == 1 and isinstance(I.force(args[0]), ClassV):
                return stmt("select", I.force(args[0]))
            raise Unsupported("select of columns")
        if nm == "delete":
            return stmt("delete", I.force(args[0]))
        if nm in ("desc", "asc"):
            return ExtV("sql.order", {"order": (nm == "desc", _expr(I, I.force(args[0])))})
        if nm in ("and_", "or_"):
            fs = [_condf(I, x) for x in args]
            g = tm.and_ if nm == "and_" else tm.or_
            return _cond(I, lambda row: g(*[q(row) for q in fs]))
        if nm == "not_":
            return invert(I, I.force(args[0]))
        if nm == "create_engine":
            return ExtV("sql.engine", {"url": args[0]})
        if nm == "sessionmaker":
            return ExtV("sql.sessionmaker", {"table": new_table(I)})
        if nm in ("declarative_base",):
            return ExtV("sqlalchemy.orm.Base")
        if nm in ("mapped_column", "Column", "PrimaryKeyConstraint", "Text", "UniqueConstraint"):
            return ExtV("sql.decl." + nm)
        raise Unsupported(f"library function {p}")
    if p == "sql.sessionmaker":
        I.assumed.add("SQLAlchemy/SQLite: select/merge/delete/commit behave as their documented relational meaning over one table")
        s = ObjV(None, {"pending": SeqV("list", []), "segs": f.data["table"].attrs["segs"]}, "sqlsession")
        return ExtV("sql.session", {"session": s, "table": f.data["table"]})
    if p == "zstandard.ZstdCompressor" or p == "zstandard.ZstdDecompressor":
        return ExtV("zstd.ctx")
    if p == "zstd.ctx.compress":
        I.assumed.add("zstandard: decompress(compress(b)) = b")
        b = I.force(args[0])
        return ExtV("bytes", {"parts": (("zstd", b),)})
    if p == "zstd.ctx.decompress":
        b = I.force(args[0])
        ps = parts(I, b)
        if len(ps) == 1 and ps[0][0] == "zstd":
            return ps[0][1]
        raise PyExc("ZstdError", ("unknown frame descriptor",))
    if p == "struct.pack":
        return _pack(I, args)
    if p == "struct.unpack":
        return _unpack(I, args)
    if p == "struct.calcsize":
        import struct

        return num(struct.calcsize(args[0]))
    return NotImplemented


# ------------------------------------------------------------------------------------------- sessions
def new_table(I, base=None):
    """base = None or (n, row function)"""
    return ObjV(None, {"segs": (("base",) + base,) if base else ()}, "sqltable")


def _flush(I, s):
    p = s.attrs["pending"]
    if p.items is not None and not p.items:
        return
    I.setattr_raw(s, "segs", s.attrs["segs"] + (("merge", p),))
    I.setattr_raw(s, "pending", SeqV("list", []))


def session_attr(I, o, name):
    s, table = o.data["session"], o.data["table"]

    def noloop():
        if I.loops:
            raise Unsupported(f"session.{name} inside a symbolic loop")

    def merge(a, k):
        obj = I.force(a[0])
        if not isinstance(obj, ObjV) or not is_orm(obj.cls):
            raise Unsupported("merge of a non-ORM object")
        cols = columns(I, obj.cls)
        row = ObjV(obj.cls, {c: bind(I, ty, I.force(obj.attrs.get(c))) for c, ty in cols.items()})
        for c in obj.cls._sqlpk:
            if row.attrs[c] is None:
                raise PyExc("IntegrityError", (c,))
        I.seq_append(s.attrs["pending"], row)
        return obj

    def add(a, k):
        noloop()
        obj = I.force(a[0])
        _flush(I, s)
        cols = columns(I, obj.cls)
        row = ObjV(obj.cls, {c: bind(I, ty, I.force(obj.attrs.get(c))) for c, ty in cols.items()})
        rs = rows(I, s.attrs["segs"])
        for n, at, present, _ in rs:
            if I.branch(_any(I, n, lambda i: tm.and_(present(i), pkeq(I, at(i), row)))):
                raise PyExc("IntegrityError", ("UNIQUE constraint failed",))
        return merge(a, k)

    def commit(a, k):
        noloop()
        _flush(I, s)
        I.setattr_raw(table, "segs", s.attrs["segs"])

    def rollback(a, k):
        noloop()
        I.setattr_raw(s, "pending", SeqV("list", []))
        I.setattr_raw(s, "segs", table.attrs["segs"])

    def flush(a, k):
        noloop()
        _flush(I, s)

    def execute(a, k):
        noloop()
        q = I.force(a[0])
        if not (isinstance(q, ExtV) and q.path == "sql.stmt"):
            raise Unsupported("statement")
        _flush(I, s)
        if q.data["kind"] == "delete":
            if q.data["limit"] is not None or q.data["order"]:
                raise Unsupported("delete with order")
            c = q.data["conds"]
            I.setattr_raw(s, "segs", s.attrs["segs"] + (("delete", lambda row: tm.and_(*[x(row) for x in c])),))
            return ExtV("sql.result", {"q": None})
        return ExtV("sql.result", {"q": q.data, "segs": s.attrs["segs"], "scalars": False})

    def delete(a, k):
        noloop()
        obj = I.force(a[0])
        if not isinstance(obj, ObjV):
            raise PyExc("UnmappedInstanceError", ())
        _flush(I, s)
        I.setattr_raw(s, "segs", s.attrs["segs"] + (("delete", lambda row: pkeq(I, row, obj)),))

    def add_all(a, k):
        for x in I.lib.iterate(I, a[0]):
            add([x], {})

    def query(a, k):
        raise Unsupported("session.query")

    fns = dict(merge=merge, add=add, add_all=add_all, commit=commit, rollback=rollback, flush=flush, execute=execute, delete=delete,
               query=query, close=lambda a, k: None,
               scalars=lambda a, k: ExtV("sql.result", {**execute(a, k).data, "scalars": True}),
               scalar=lambda a, k: result_attr(I, execute(a, k), "scalar").fn([], {}))
    if name in fns:
        return BuiltinV("session." + name, fns[name])
    raise Unsupported(f"session.{name}")


def bind(I, ty, v):
    """value as stored by the column type (its own code runs)"""
    if ty is not None and I.class_lookup(ty.cls, "process_bind_param"):
        return I.call(I.getattr(ty, "process_bind_param"), [v, None], {})
    return v


def load(I, ty, v):
    if ty is not None and I.class_lookup(ty.cls, "process_result_value"):
        return I.call(I.getattr(ty, "process_result_value"), [v, None], {})
    return v


def pkeq(I, a, b):
    return tm.and_(*[veq(I, field(I, a, c), field(I, b, c)) for c in (a.cls if a.cls is not None else b.cls)._sqlpk])


def _any(I, n, f):
    return _quant(I, "any", n, f)


def _quant(I, op, n, f, assume=()):
    if tm.is_num(n):
        fs = [I.pure(lambda: f(num(i))) for i in range(int(tm.numval(n)))]
        return tm.or_(*fs) if op == "any" else tm.and_(*fs)
    v = tm.fresh("w")
    return tm.quant(op, n, v, to_bool_T(I.pure(lambda: f(v), [tm.ge(v, ZERO), tm.lt(v, n)] + list(assume))))


def rows(I, segs):
    """[(n, row at index, present condition at index, written condition or None)]: `written` ignores that a later write of
    the same group may replace the row"""
    out = []
    for seg in segs:
        if seg[0] == "base":
            out.append((seg[1], seg[2], lambda i: TRUE, None))
            continue
        if seg[0] == "delete":
            c = seg[1]

            def keep(at, p, c=c):
                return None if p is None else lambda i: tm.and_(p(i), tm.not_(c(at(i))))

            out = [(n, at, keep(at, p), keep(at, w)) for n, at, p, w in out]
            continue
        sq = seg[1]
        m = sq.length()
        get = lambda i, sq=sq: I.force(I._get_any(sq, i))
        upd = []
        def survives(at, p, m=m, get=get):
            return None if p is None else lambda i: tm.and_(p(i), tm.not_(_any(I, m, lambda j: pkeq(I, get(j), at(i)))))

        for n, at, p, w in out:
            upd.append((n, at, survives(at, p), survives(at, w)))
        if tm.is_num(m) and int(tm.numval(m)) == 1:
            upd.append((m, get, lambda i: TRUE, None))
        else:
            # the last write of a key wins; by induction every key written has a last write
            upd.append((m, get, lambda i, m=m, get=get: tm.not_(_any(I, m, lambda j: tm.and_(tm.gt(j, i), pkeq(I, get(j), get(i))))), lambda i: TRUE))
        out = upd
    return out


# ------------------------------------------------------------------------------------------- results
def before(I, order, a, b):
    """row a is strictly before row b in the requested order"""
    r = FALSE
    eqs = TRUE
    for d, e in order:
        x, y = I.lib.N(I, e(a)), I.lib.N(I, e(b))
        r = tm.or_(r, tm.and_(eqs, tm.gt(x, y) if d else tm.lt(x, y)))
        eqs = tm.and_(eqs, tm.eq(x, y))
    return r


def _entity(I, row):
    cols = columns(I, row.cls)
    return ObjV(row.cls, {c: load(I, ty, row.attrs[c]) if not row.tag else row.attrs[c] for c, ty in cols.items()})


def result_attr(I, o, name):
    d = o.data

    def matcher():
        conds = d["q"]["conds"]
        out = []
        for n, at, p, w in rows(I, d["segs"]):
            def match(i, at=at, p=p):
                return tm.and_(p(i), *[c(at(i)) for c in conds])

            hit = match
            if w is not None and not tm.is_num(n):
                def keyrow(i, at=at):
                    r = at(i)
                    return ObjV(r.cls, {k: v if k in r.cls._sqlpk else Poison("column outside the key") for k, v in r.attrs.items()}, r.tag)

                def hit(i, w=w, keyrow=keyrow, at=at):
                    return tm.and_(w(i), *[c(keyrow(i)) for c in conds])

                try:
                    I.pure(lambda: hit(tm.fresh("w")))
                except Unsupported:
                    hit = match
            out.append((n, at, match, hit))
        return out

    def pick(distinct, error=None):
        """one matching row in the requested order, or None; several rows without a limit are an error if distinct"""
        q = d["q"]
        order, limit = q["order"], q["limit"]
        if limit is not None and limit < 1:
            return None
        single = distinct and (limit is None or limit > 1)
        cand = []
        for n, at, match, hit in matcher():
            if tm.is_num(n):
                for i in range(int(tm.numval(n))):
                    if I.branch(I.pure(lambda: match(num(i)))):
                        cand.append(at(num(i)))
            elif I.branch(_any(I, n, hit)):
                r = tm.fresh("row", True, "nonneg")
                I.assume(tm.ge(r, ZERO))
                I.assume(tm.lt(r, n))
                I.assume(I.pure(lambda: match(r)))
                if single:
                    two = _any(I, n, lambda i: tm.and_(match(i), tm.not_(tm.eq(i, r))))
                    if I.branch(two):
                        raise PyExc("MultipleResultsFound", ())
                if order:
                    I.assume(_quant(I, "all", n, lambda i: tm.implies(match(i), tm.not_(before(I, order, at(i), at(r))))))
                cand.append(at(r))
        if single and len(cand) > 1:
            raise PyExc("MultipleResultsFound", ())
        if not cand:
            return None
        cur = cand[0]
        for c in cand[1:]:
            if order and I.branch(I.pure(lambda: before(I, order, c, cur))):
                cur = c
            elif order and I.branch(I.pure(lambda: before(I, order, cur, c))):
                pass
            elif I.branch(tm.fresh_bool("tie")):
                cur = c
        return _entity(I, cur)

    def everything(a, k):
        out = []
        q = d["q"]
        if q["limit"] == 1:
            x = pick(False)
            return SeqV("list", [] if x is None else [x])
        if q["limit"] is not None:
            raise Unsupported("limit")
        for n, at, match, hit in matcher():
            if tm.is_num(n):
                for i in range(int(tm.numval(n))):
                    if I.branch(I.pure(lambda: match(num(i)))):
                        out.append(SeqV("list", [_entity(I, at(num(i)))]))
            else:
                v = tm.fresh("w")
                rng = [tm.ge(v, ZERO), tm.lt(v, n)]
                c = I.pure(lambda: match(v), rng)
                out.append(I.lib.make_filter(I, n, v, c, _entity(I, at(v)), "list"))
        if q["order"]:
            raise Unsupported("ordered result list")
        if len(out) == 1:
            return out[0]
        return I.lib.concat(I, out, "list")

    if d["q"] is None:
        raise Unsupported("result of a delete")

    def one(a, k):
        r = pick(True)
        if r is None:
            raise PyExc("NoResultFound", ())
        return r

    if name in ("scalar_one_or_none", "one_or_none"):
        return BuiltinV(name, lambda a, k: pick(True))
    if name in ("scalar_one", "one"):
        return BuiltinV(name, one)
    if name in ("scalar", "first"):
        if name == "first" and not d["scalars"]:
            raise Unsupported("result.first of rows")
        return BuiltinV(name, lambda a, k: pick(False))
    if name == "scalars":
        return BuiltinV(name, lambda a, k: ExtV("sql.result", {**d, "scalars": True}))
    if name in ("all", "fetchall"):
        if not d["scalars"]:
            raise Unsupported("rows of a result")
        return BuiltinV(name, everything)
    raise Unsupported(f"result.{name}")


# ------------------------------------------------------------------------------------------- bytes
def parts(I, b):
    if isinstance(b, ExtV) and b.path == "bytes":
        return b.data["parts"]
    raise Unsupported(f"bytes of unknown content ({b!r})"[:200])


def psize(I, p):
    if p[0] == "struct":
        return num(p[2])
    if p[0] == "zstd":
        n = tm.sym("zlen", True, "nonneg") if not isinstance(p[1], ExtV) else tm.app("zstd_size", num(id(p[1]) % 997), isint=True)
        return _zsize(I, p)
    if p[0] == "raw":
        return tm.mul(p[1].length(), num(p[2]))
    raise Unsupported("bytes")


_zs = {}


def _zsize(I, p):
    k = id(p[1])
    if k not in _zs:
        _zs[k] = (p[1], tm.fresh("zlen", True, "pos"))
    return _zs[k][1]


def bytes_len(I, b):
    return tm.add(*[psize(I, p) for p in parts(I, b)])


def bytes_concat(I, a, b):
    return ExtV("bytes", {"parts": parts(I, a) + parts(I, b)})


def bytes_slice(I, b, idx):
    if idx.step is not None:
        raise Unsupported("bytes slice")
    lo = 0 if idx.lo is None else I.lib.toint(I, idx.lo)
    hi = None if idx.hi is None else I.lib.toint(I, idx.hi)
    out, off = [], 0
    for p in parts(I, b):
        n = psize(I, p)
        if not tm.is_num(n):
            if off is None or (hi is not None and hi > off):
                raise Unsupported("bytes slice through a part of unknown size")
            if hi is None and lo <= off:
                out.append(p)
                off = None
                continue
            if hi is not None and hi <= off:
                break
            raise Unsupported("bytes slice through a part of unknown size")
        n = int(tm.numval(n))
        if lo <= off and (hi is None or off + n <= hi):
            out.append(p)
        elif lo >= off + n or (hi is not None and hi <= off):
            pass
        else:
            out.append(("torn", p))
        off += n
    return ExtV("bytes", {"parts": tuple(out)})


def _pack(I, args):
    import struct

    fmt = args[0]
    body = [c for c in fmt if c.isalpha()]
    vals = [I.lib.N(I, x) for x in args[1:]]
    if len(body) != len(vals):
        raise PyExc("error", ("pack expected other arguments",))
    lim = {"B": (0, 255), "H": (0, 65535), "I": (0, 2**32 - 1), "L": (0, 2**32 - 1), "Q": (0, 2**64 - 1), "b": (-128, 127),
           "h": (-32768, 32767), "i": (-2**31, 2**31 - 1), "l": (-2**31, 2**31 - 1), "q": (-2**63, 2**63 - 1)}
    for c, v in zip(body, vals):
        if c not in lim:
            raise Unsupported("struct format")
        ok = tm.and_(tm.ge(v, num(lim[c][0])), tm.le(v, num(lim[c][1])))
        if not I.branch(ok):
            raise PyExc("error", ("argument out of range",))
    I.assumed.add("struct: unpack(fmt, pack(fmt, v)) = v")
    return ExtV("bytes", {"parts": (("struct", (fmt, tuple(vals)), struct.calcsize(fmt)),)})


def _unpack(I, args):
    import struct

    ps = parts(I, I.force(args[1]))
    n = tm.add(*[psize(I, p) for p in ps]) if ps else ZERO
    if not (tm.is_num(n) and int(tm.numval(n)) == struct.calcsize(args[0])):
        if tm.is_num(n):
            raise PyExc("error", ("unpack requires a buffer of other size",))
        raise Unsupported("unpack of unknown bytes")
    if len(ps) == 1 and ps[0][0] == "struct":
        fmt, vals = ps[0][1]
        if fmt == args[0]:
            return tuple(vals)
    raise Unsupported("unpack of other bytes")


WIDTH = {"float32": 4, "float64": 8, "int32": 4, "int64": 8, "float": 8}


def tobytes(I, o):
    dt = getattr(o, "dtype", None) or "float64"
    return ExtV("bytes", {"parts": (("raw", o, WIDTH[dt], dt),)})


def frombuffer(I, a, k):
    ps = parts(I, I.force(a[0]))
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    from .npmodel import _dtname

    nm = "float64" if dt is None else _dtname(I, dt)
    cnt = k.get("count", a[2] if len(a) > 2 else None)
    if len(ps) != 1 or ps[0][0] != "raw":
        raise Unsupported("frombuffer of other bytes")
    _, s, w, sdt = ps[0]
    W = WIDTH.get(nm)
    if W is None:
        raise Unsupported("frombuffer dtype")
    size = tm.mul(s.length(), num(w))
    if cnt is None or tm.is_num(I.force(cnt)) and tm.numval(I.force(cnt)) < 0:
        if W != w:
            raise Unsupported("reinterpreted buffer")
        n = s.length()
    else:
        n = I.lib.N(I, cnt)
        if not I.branch(tm.le(tm.mul(n, num(W)), size)):
            raise PyExc("ValueError", ("buffer is smaller than requested size",))
    if nm == sdt or (nm == "float" and sdt == "float64"):
        r = I.lib.slice_get(I, I.lib._view(s, "nd"), SliceV(None, n, None)) if n is not s.length() else I.lib._view(s, "nd")
        return r
    v = tm.fresh("b")
    x = I.reify(s)
    return seq_from_term(tm.sapp("reinterpret_" + sdt + "_" + nm, n, x), "nd")
