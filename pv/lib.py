"""Models of Python built-ins and container operations used by the symbolic executor.

Everything here is part of the trusted base: each model states the documented behaviour of the built-in on
mathematical numbers.  Models of numpy / scipy / SQLAlchemy live in npmodel.py and sqlmodel.py."""
from __future__ import annotations

import ast

from . import terms as tm
from .terms import T, num, ZERO, ONE, TRUE, FALSE
from .values import *
from . import npmodel

EXC_NAMES = {
    "Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError",
    "NotImplementedError", "AttributeError", "ZeroDivisionError", "StopIteration", "AssertionError",
    "ImportError", "ModuleNotFoundError", "OverflowError", "LookupError", "ArithmeticError", "OSError",
    "NameError", "FloatingPointError", "RuntimeWarning", "UserWarning", "Warning", "DeprecationWarning",
}


# ----------------------------------------------------------------------------------- small helpers
def N(I, v):
    """number term of a value"""
    v = I.force(v)
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, T):
        if v.kind == "N":
            return v
        if v.kind == "B":
            return tm.ite(v, ONE, ZERO)
        if v.kind == "O":
            raise PyExc("TypeError", ("number expected",))
    if isinstance(v, SeqV) and v.kind == "nd" and v.items is not None and len(v.items) == 1:
        return N(I, v.items[0])
    if v is None or isinstance(v, (str, DictV, tuple)):
        raise PyExc("TypeError", ("number expected",))
    raise Unsupported(f"number expected, got {type(v).__name__}")


def toint(I, v):
    v = N(I, v)
    if not tm.is_num(v) or not v.isint:
        raise Unsupported("concrete integer expected")
    return int(tm.numval(v))


def as_list(I, v):
    """iterable value -> Python list (concrete) or SeqV (symbolic)"""
    return iterate(I, v)


def as_seqv(I, v, kind=None):
    v = I.force(v)
    if isinstance(v, SeqV):
        return v if kind is None or v.kind == kind else _view(v, kind)
    it = iterate(I, v)
    if isinstance(it, list):
        return SeqV(kind or "list", it)
    return it if kind is None or it.kind == kind else _view(it, kind)


def _view(s, kind):
    r = s.clone(kind)
    if getattr(s, "filt", None) is not None:
        r.filt = s.filt
    if getattr(s, "parts", None) is not None:
        r.parts = s.parts
    return r


def seqn(I, n, getf, kind="list"):
    if tm.is_num(n) and tm.numval(n) <= 64:
        return SeqV(kind, [getf(num(k)) for k in range(int(tm.numval(n)))])
    return SeqV(kind, None, n, getf)


def nn_len(I, n):
    """max(n, 0) for a length, forking when the sign is unknown"""
    if tm.is_num(n):
        return n if tm.numval(n) > 0 else ZERO
    if tm.nonneg(n) or I.entails(tm.ge(n, ZERO)):
        return n
    if I.branch(tm.gt(n, ZERO)):
        return n
    return ZERO


def iterate(I, v):
    v = I.force(v)
    if isinstance(v, list):
        return v
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, SeqV):
        if v.poison:
            raise Unsupported(v.poison)
        if v.items is not None:
            return list(v.items)
        if v.kind == "iter" and getattr(v, "consumed", False):
            raise Unsupported("second iteration over an iterator")
        if getattr(v, "filt", None) is not None:
            return v
        if tm.is_num(v.n) and tm.numval(v.n) <= 64:
            return [v.getf(num(k)) for k in range(int(tm.numval(v.n)))]
        return v
    if isinstance(v, DictV):
        return [undict_key(k) for k in v.items]
    if isinstance(v, SetV) and v.items is not None:
        return list(v.items)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, ClassV) and v.is_enum:
        return list(v.members.values())
    if isinstance(v, FlatV):
        raise Unsupported("iteration over a flattened generator")
    if isinstance(v, T) or v is None or isinstance(v, (bool,)):
        if isinstance(v, T) and v.kind in ("O", "S"):
            raise Unsupported("iteration over an opaque value")
        raise PyExc("TypeError", ("not iterable",))
    if isinstance(v, ObjV):
        m = I.class_lookup(v.cls, "__iter__")
        if m:
            return iterate(I, I.call_func(m[0], [v], {}))
    raise Unsupported(f"iteration over {type(v).__name__}")


def filter_parts(s):
    return getattr(s, "filt", None)


def make_filter(I, n, v, cond, val, kind="list"):
    cond = to_bool_T(cond)
    if cond is TRUE:
        return I.seq_from_body(kind, n, v, val)
    if isinstance(val, T):
        u = tm.unfilter(n, v, [cond, val])
        if u is not None:
            n, c0, (cond, val) = u
            cond = tm.and_(c0, cond)
    cnt = tm.red("sum", n, v, tm.ite(cond, ONE, ZERO))
    r = SeqV(kind, None, cnt, None)
    r.filt = (n, v, cond, val)

    def getf(i):
        raise Unsupported("element of a filtered sequence")

    # a scalar filter has a canonical sequence term, usable by opaque functions of the sequence
    if isinstance(val, T):
        r.term = tm.filter_seq(n, v, cond, val)
        r.getf = lambda i: tm.sel(r.term, i)
    else:
        r.getf = getf
    return r


def concat(I, parts, kind):
    parts = [as_seqv(I, p) for p in parts]
    if all(p.items is not None for p in parts):
        return SeqV(kind, [x for p in parts for x in p.items])
    parts = [p for p in parts if not (p.items is not None and not p.items)]
    if len(parts) == 1:
        return _view(parts[0], kind)
    n = tm.add(*[p.length() for p in parts])
    offs = [ZERO]
    for p in parts:
        offs.append(tm.add(offs[-1], p.length()))

    def getp(p, i):
        if p.items is not None:
            if tm.is_num(i):
                return p.items[int(tm.numval(i))]
            if len(p.items) == 1:
                return p.items[0]
            return I._ite_items(p.items, i)
        return p.getf(i)

    def getf(i):
        alts = []
        rest = TRUE
        for k, p in enumerate(parts):
            c = tm.lt(i, offs[k + 1])
            if c is TRUE or k == len(parts) - 1:
                g = rest
                if g is FALSE:
                    continue
                alts.append((g, getp(p, tm.sub(i, offs[k]))))
                break
            if c is FALSE:
                continue
            if tm.is_num(tm.sub(i, offs[k])) and p.items is not None and not (
                0 <= tm.numval(tm.sub(i, offs[k])) < len(p.items)
            ):
                rest = tm.and_(rest, tm.not_(c))
                continue
            alts.append((tm.and_(rest, c), getp(p, tm.sub(i, offs[k]))))
            rest = tm.and_(rest, tm.not_(c))
        if len(alts) == 1:
            return alts[0][1]
        return I.merge(alts)

    r = SeqV(kind, None, n, getf)
    r.parts = parts
    return r


def list_extend(I, s, v):
    it = as_seqv(I, v)
    lr = I.outer_loop_for(s)
    if lr is not None:
        if it.items is not None:
            for x in it.items:
                I.seq_append(s, x)
            return
        raise Unsupported("extend of an outer list in a symbolic loop")
    r = concat(I, [s.clone(), it], "list")
    I.seq_touch(s, "extend")
    I.seq_assign(s, r.items, r.n, r.getf, r.term)


# ----------------------------------------------------------------------------------- dict
def dict_key(I, k):
    k = I.force(k)
    if isinstance(k, (str, bool)) or k is None:
        return k
    if isinstance(k, T) and k.op == "num":
        return ("num", k.a[0])
    if isinstance(k, T) and k.op == "str":
        return k.a[0]
    if isinstance(k, tuple):
        return ("tuple", tuple(dict_key(I, x) for x in k))
    if isinstance(k, (ClassV, ObjV, AbsV)):
        return k
    if isinstance(k, T):
        return k
    raise Unsupported("dictionary key")


def undict_key(k):
    if isinstance(k, tuple) and k and k[0] == "num":
        return num(k[1])
    if isinstance(k, tuple) and k and k[0] == "tuple":
        return tuple(undict_key(x) for x in k[1])
    return k


def _symkey(k):
    if isinstance(k, T):
        return True
    return isinstance(k, tuple) and k and k[0] == "tuple" and any(_symkey(x) for x in k[1])


def dict_find(I, d, k):
    """key in d.items equal to k (forking on symbolic keys) or None"""
    if k in d.items:
        return k
    if not _symkey(k) and not any(_symkey(x) for x in d.items):
        return None
    for kk in list(d.items):
        if I.branch(I.eq(undict_key(kk), undict_key(k))):
            return kk
    return None


def dict_get(I, d, idx):
    k = dict_key(I, idx)
    f = dict_find(I, d, k)
    if f is None:
        raise PyExc("KeyError", (idx,))
    return d.items[f]


def dict_set(I, d, idx, v):
    k = dict_key(I, idx)
    f = dict_find(I, d, k)
    if I.loops and d.serial < I.loops[-1].serial:
        raise Unsupported("dictionary update in a symbolic loop")
    if d.owner is not None:
        I.note_mutation(d.owner)
    if I.log is not None:
        old = dict(d.items)

        def undo(d=d, old=old):
            d.items = old

        I.log.append(undo)
    d.items = dict(d.items)
    d.items[k if f is None else f] = v


# ----------------------------------------------------------------------------------- indexing
def slice_bounds(I, s, idx):
    n = s.length()
    step = ONE if idx.step is None else N(I, idx.step)
    if not tm.is_num(step):
        raise Unsupported("symbolic slice step")
    st = int(tm.numval(step))

    def clamp(v, dflt):
        if v is None:
            return dflt
        v = N(I, v)
        if tm.is_num(v) and tm.numval(v) < 0 or (not tm.nonneg(v) and tm.positive(tm.neg(v))):
            v = tm.add(n, v)
            if not tm.nonneg(v):
                if not I.branch(tm.ge(v, ZERO)):
                    return ZERO
            return v
        if not tm.nonneg(v) and not tm.is_num(v):
            if not I.branch(tm.ge(v, ZERO)):
                v = tm.add(n, v)
                if not I.branch(tm.ge(v, ZERO)):
                    return ZERO
                return v
        # upper clamp
        d = tm.sub(n, v)
        if tm.nonneg(d):
            return v
        if I.branch(tm.le(v, n)):
            return v
        return n

    return n, st, clamp


def slice_get(I, s, idx):
    if s.poison:
        raise Unsupported(s.poison)
    if I.outer_loop_for(s) is not None:
        I.loops[-1].reads.append((s, None))
    if s.items is not None and all(x is None or tm.is_num(N(I, x)) for x in (idx.lo, idx.hi, idx.step)):
        b = [None if x is None else toint(I, x) for x in (idx.lo, idx.hi, idx.step)]
        r = SeqV(s.kind, s.items[slice(*b)])
        if s.kind == "nd":
            r.base = s
        return r
    n, st, clamp = slice_bounds(I, s, idx)
    get = (lambda i: I._get_any(s, i))
    if st > 0:
        lo, hi = clamp(idx.lo, ZERO), clamp(idx.hi, n)
        cnt = tm.sub(hi, lo)
        if st != 1:
            cnt = tm.neg(tm.app("floor", tm.scale(tm.neg(cnt), tm.F1 / st)))
        if cnt is n and lo is ZERO and st == 1:
            r = s.clone()
            if s.kind == "nd":
                r.base = s
            return r
        cnt = nn_len(I, cnt)
        if st == 1 and getattr(s, "parts", None):
            r = _slice_parts(I, s, lo, hi)
            if r is not None:
                if s.kind == "nd":
                    r.base = s
                return r
        r = seqn(I, cnt, lambda i: get(tm.add(lo, tm.scale(i, st))), s.kind)
        if s.items is not None and st == 1:
            r = _slice_concrete(I, s, lo, cnt) or r
    elif idx.lo is None and idx.hi is None and st == -1:
        r = seqn(I, n, lambda i: get(tm.sub(tm.sub(n, ONE), i)), s.kind)
    else:
        raise Unsupported("slice with negative step")
    if s.kind == "nd":
        r.base = s
    return r


def _slice_concrete(I, s, lo, cnt):
    return None


def _slice_parts(I, s, lo, hi):
    """x[lo:hi] of a concatenation when the cut falls on piece borders (or inside concrete pieces)"""
    offs = [ZERO]
    for p in s.parts:
        offs.append(tm.add(offs[-1], p.length()))
    flat = []
    for k, p in enumerate(s.parts):
        if p.items is not None:
            for j, x in enumerate(p.items):
                flat.append((tm.add(offs[k], num(j)), SeqV("nd", [x])))
        else:
            flat.append((offs[k], p))
    starts = [o for o, _ in flat] + [offs[-1]]
    try:
        a, b = starts.index(lo), starts.index(hi)
    except ValueError:
        return None
    if a > b:
        return None
    return concat(I, [p for _, p in flat[a:b]], s.kind) if b > a else SeqV(s.kind, [])


def slice_assign(I, s, idx, v):
    if s.kind == "tuple":
        raise PyExc("TypeError", ("tuple assignment",))
    if I.outer_loop_for(s) is not None:
        raise Unsupported("slice assignment to an outer container in a symbolic loop")
    n, st, clamp = slice_bounds(I, s, idx)
    v = I.force(v)
    if st != 1:
        raise Unsupported("slice assignment with a step")
    lo, hi = clamp(idx.lo, ZERO), clamp(idx.hi, n)
    cnt = nn_len(I, tm.sub(hi, lo))
    if isinstance(v, SeqV) and v.kind == "nd" and v.items is not None and len(v.items) == 1 and not tm.is_num(cnt):
        v = v.items[0]
    if isinstance(v, (SeqV, tuple)):
        w = as_seqv(I, v)
        if s.kind == "list":
            r = concat(I, [slice_get(I, s, SliceV(None, lo, None)), w, slice_get(I, s, SliceV(hi, None, None))], "list")
            I.seq_touch(s, "slice")
            I.seq_assign(s, r.items, r.n, r.getf, r.term)
            return
        if not I.branch(tm.eq(w.length(), cnt)):
            raise PyExc("ValueError", ("shape mismatch",))
        getv = lambda i: I._get_any(w, i)
    else:
        if s.kind == "list":
            raise PyExc("TypeError", ("can only assign an iterable",))
        getv = lambda i: v
    I.seq_touch(s, "slice")
    old = s.clone()
    pre = slice_get(I, old, SliceV(None, lo, None))
    post = slice_get(I, old, SliceV(hi, None, None))
    mid = seqn(I, cnt, getv, s.kind)
    r = concat(I, [pre, mid, post], s.kind)
    I.seq_assign(s, r.items, r.n, r.getf, r.term)
    s.parts = getattr(r, "parts", None)


def nd_index(I, o, idx):
    idx = tuple(idx)
    idx = tuple(i for i in idx)
    if idx == (None,):
        return SeqV("nd", [o])
    if len(idx) == 2:
        a, b = idx
        if a is None and isinstance(b, SliceV) and (b.lo, b.hi, b.step) == (None, None, None):
            return SeqV("nd", [o])
        if b is None and isinstance(a, SliceV) and (a.lo, a.hi, a.step) == (None, None, None):
            return I.seqmap(o, lambda x: SeqV("nd", [x]), "nd")
        if isinstance(a, SliceV):
            rows = slice_get(I, o, a)
            return I.seqmap(rows, lambda r: I.getitem(r, b), "nd")
        return I.getitem(I.getitem(o, a), b)
    raise Unsupported("multi-dimensional index")


def fancy_index(I, o, idx):
    if getattr(idx, "filt", None) is None:
        probe = _probe(I, idx)
        if is_boolish(probe):
            if o.items is not None and idx.items is not None and all(isinstance(to_bool_T(I.force(x)), T) and to_bool_T(I.force(x)) in (TRUE, FALSE) for x in idx.items):
                return SeqV(o.kind, [x for x, m in zip(o.items, idx.items) if to_bool_T(I.force(m)) is TRUE])
            n = o.length()
            if not I.branch(tm.eq(n, idx.length())):
                raise PyExc("IndexError", ("boolean index",))
            v = tm.fresh("f")
            rng = [tm.ge(v, ZERO), tm.lt(v, n)]
            c = I.pure(lambda: I.scalar(I._get_any(idx, v)), rng)
            val = I.pure(lambda: I._get_any(o, v), rng + [c])
            return make_filter(I, n, v, c, val, "nd")
    return I.seqmap(idx, lambda k: I.seq_get(o, I.norm_index(o, N(I, k))), "nd")


def _probe(I, s):
    if s.items is not None:
        return I.force(s.items[0]) if s.items else None
    outs = I.explore(lambda: s.getf(tm.fresh("p")))
    for o in outs:
        if o.kind == "ok":
            return I.force(o.value) if not isinstance(o.value, UnionV) else o.value.alts[0][1]
    return None


def mask_assign(I, o, idx, v):
    probe = _probe(I, idx)
    if not is_boolish(probe):
        raise Unsupported("fancy assignment")
    if I.outer_loop_for(o) is not None:
        raise Unsupported("masked assignment in a symbolic loop")
    v = I.force(v)
    if isinstance(v, SeqV) and not (v.items is not None and len(v.items) == 1):
        raise Unsupported("masked assignment of an array")
    if isinstance(v, SeqV):
        v = v.items[0]
    I.seq_touch(o, "mask")
    old = o.clone()

    def getf(i):
        c = I.scalar(I._get_any(idx, i))
        return I.merge([(c, v), (tm.not_(c), I._get_any(old, i))])

    if o.items is not None:
        I.seq_assign(o, [getf(num(k)) for k in range(len(o.items))])
    else:
        I.seq_assign(o, None, old.n, getf)
    o.parts = None


def sel_rank(rk, k):
    return tm.sel(rk, k)


# ----------------------------------------------------------------------------------- arithmetic on containers
def ndim(I, v):
    if not isinstance(v, SeqV):
        return 0
    p = _probe(I, v)
    return 1 + ndim(I, p) if isinstance(p, SeqV) else 1


def elementwise(I, f, a, b):
    a, b = I.force(a), I.force(b)
    if isinstance(a, tuple):
        a = SeqV("nd", list(a))
    if isinstance(b, tuple):
        b = SeqV("nd", list(b))
    da, db = ndim(I, a), ndim(I, b)
    if da == 0 and db == 0:
        return f(a, b)
    if da < db:
        return I.seqmap(b, lambda y: elementwise(I, f, a, y), "nd")
    if db < da:
        return I.seqmap(a, lambda x: elementwise(I, f, x, b), "nd")
    if a.items is not None and b.items is not None:
        la, lb = len(a.items), len(b.items)
        if la == lb:
            return SeqV("nd", [elementwise(I, f, x, y) for x, y in zip(a.items, b.items)])
        if la == 1:
            return SeqV("nd", [elementwise(I, f, a.items[0], y) for y in b.items])
        if lb == 1:
            return SeqV("nd", [elementwise(I, f, x, b.items[0]) for x in a.items])
        raise PyExc("ValueError", ("shape mismatch",))
    if a.items is not None and len(a.items) == 1:
        return I.seqmap(b, lambda y: elementwise(I, f, a.items[0], y), "nd")
    if b.items is not None and len(b.items) == 1:
        return I.seqmap(a, lambda x: elementwise(I, f, x, b.items[0]), "nd")
    fa, fb = getattr(a, "filt", None), getattr(b, "filt", None)
    if fa is not None and fb is not None:
        n, v, c, val = fa
        n2, v2, c2, val2 = fb
        if n is n2 and tm.subst(c2, {v2: v}) is c:
            r = I.pure(lambda: elementwise(I, f, val, subst_value(val2, {v2: v})), [tm.ge(v, ZERO), tm.lt(v, n), c])
            return make_filter(I, n, v, c, r, "nd")
    na, nb = a.length(), b.length()
    e = tm.eq(na, nb)
    if e is not TRUE and not I.branch(e):
        if I.branch(tm.eq(na, ONE)):
            x = I._get_any(a, ZERO)
            return I.seqmap(b, lambda y: elementwise(I, f, x, y), "nd")
        if I.branch(tm.eq(nb, ONE)):
            y = I._get_any(b, ZERO)
            return I.seqmap(a, lambda x: elementwise(I, f, x, y), "nd")
        raise PyExc("ValueError", ("shape mismatch",))
    pa, pb = getattr(a, "parts", None), getattr(b, "parts", None)
    if pa and pb and len(pa) == len(pb) and all(x.length() is y.length() for x, y in zip(pa, pb)):
        return concat(I, [elementwise(I, f, _view(x, "nd"), _view(y, "nd")) for x, y in zip(pa, pb)], "nd")
    n = na if a.items is None else nb
    n = num(len(a.items)) if a.items is not None else num(len(b.items)) if b.items is not None else n
    if tm.is_num(n) and (tm.numval(n) <= 64 or a.items is not None or b.items is not None):
        return SeqV("nd", [elementwise(I, f, I._get_any(a, num(k)), I._get_any(b, num(k))) for k in range(int(tm.numval(n)))])
    v = tm.fresh("z")
    body = I.pure(lambda: elementwise(I, f, I._get_any(a, v), I._get_any(b, v)), [tm.ge(v, ZERO), tm.lt(v, n)])
    return I.seq_from_body("nd", n, v, body)


def map_parts(I, s, f, kind="nd"):
    """unary element-wise map"""
    s = I.force(s)
    if isinstance(s, tuple):
        s = SeqV("nd", list(s))
    if isinstance(s, SeqV):
        if getattr(s, "filt", None) is not None:
            n, v, c, val = s.filt
            r = I.pure(lambda: map_parts(I, val, f), [tm.ge(v, ZERO), tm.lt(v, n), c])
            return make_filter(I, n, v, c, r, kind)
        if getattr(s, "parts", None):
            return concat(I, [map_parts(I, _view(p, "nd"), f) for p in s.parts], kind)
        return I.seqmap(s, lambda x: map_parts(I, x, f), kind)
    return f(s)


def binop(I, op, a, b):
    if isinstance(a, str) and isinstance(op, ast.Add) and (isinstance(b, str) or isinstance(b, T) and b.kind == "O"):
        return str_concat([a, b])
    if isinstance(b, str) and isinstance(op, ast.Add) and isinstance(a, T) and a.kind == "O":
        return str_concat([a, b])
    if isinstance(a, str) and isinstance(op, ast.Mod):
        return ExtV("str")
    if isinstance(a, DictV) and isinstance(b, DictV) and isinstance(op, ast.BitOr):
        return DictV({**a.items, **b.items})
    if isinstance(a, SetV) and isinstance(b, SetV) and a.items is not None and b.items is not None:
        if isinstance(op, ast.BitOr):
            return make_set(I, SeqV("list", a.items + b.items))
        if isinstance(op, ast.Sub):
            return SetV([x for x in a.items if not any(I.branch(I.eq(x, y)) for y in b.items)])
        if isinstance(op, ast.BitAnd):
            return SetV([x for x in a.items if any(I.branch(I.eq(x, y)) for y in b.items)])
    if is_boolish(a) and is_boolish(b):
        a, b = to_bool_T(a), to_bool_T(b)
        if isinstance(op, ast.BitAnd):
            return tm.and_(a, b)
        if isinstance(op, ast.BitOr):
            return tm.or_(a, b)
        if isinstance(op, ast.BitXor):
            return tm.not_(tm.eq(a, b))
    if isinstance(a, ExtV) and isinstance(b, ExtV) and a.path == "bytes" and b.path == "bytes" and isinstance(op, ast.Add):
        from . import sqlmodel

        return sqlmodel.bytes_concat(I, a, b)
    if isinstance(a, ExtV) and isinstance(a.data, dict) and ("cond" in a.data or "col" in a.data) or isinstance(b, ExtV) and isinstance(b.data, dict) and "col" in b.data or isinstance(b, ExtV) and isinstance(b.data, dict) and "cond" in b.data:
        from . import sqlmodel

        return sqlmodel.binop(I, op, a, b)
    sa, sb = isinstance(a, SeqV), isinstance(b, SeqV)
    anynd = sa and a.kind == "nd" or sb and b.kind == "nd"
    if (sa or isinstance(a, tuple)) and (sb or isinstance(b, tuple)) and not anynd:
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) != isinstance(b, tuple):
                raise PyExc("TypeError", ("concatenation of list and tuple",))
            if isinstance(a, tuple):
                return a + b
            return concat(I, [a, b], a.kind)
        raise PyExc("TypeError", ("unsupported operand",))
    if not anynd and isinstance(op, ast.Mult) and (sa or sb or isinstance(a, tuple) or isinstance(b, tuple)):
        s, k = (a, b) if sa or isinstance(a, tuple) else (b, a)
        k = N(I, k)
        if isinstance(s, tuple):
            return s * toint(I, k)
        if not k.isint:
            raise PyExc("TypeError", ("sequence times non-integer",))
        if tm.is_num(k) and s.items is not None:
            return SeqV(s.kind, s.items * max(0, int(tm.numval(k))))
        if s.items is not None and len(s.items) == 1:
            x = s.items[0]
            return SeqV(s.kind, None, nn_len(I, k), lambda i: x)
        raise Unsupported("sequence repetition")
    if anynd:
        if isinstance(op, ast.MatMult):
            return npmodel.dot(I, a, b)
        if isinstance(a, (str, DictV)) or a is None or isinstance(b, (str, DictV)) or b is None:
            raise PyExc("TypeError", ("unsupported operand",))

        def f(x, y):
            x, y = I.force(x), I.force(y)
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return binop(I, op, x, y)
            return I.arith(op, N(I, x), N(I, y))

        return elementwise(I, f, a, b)
    if isinstance(a, T) and isinstance(b, T):
        return I.arith(op, N(I, a), N(I, b))
    for x in (a, b):
        if isinstance(x, (str, DictV)) or x is None or isinstance(x, (tuple, SeqV)):
            raise PyExc("TypeError", ("unsupported operand",))
    raise Unsupported(f"operator on {type(a).__name__}, {type(b).__name__}")


def compare_special(I, op, a, b):
    for x in (a, b):
        if isinstance(x, ExtV) and isinstance(x.data, dict) and ("col" in x.data or "cond" in x.data):
            from . import sqlmodel

            return sqlmodel.compare(I, op, a, b)
    if isinstance(a, SetV) and isinstance(b, SetV) and a.items is not None and b.items is not None:
        sub = lambda p, q: tm.and_(*[contains(I, q, x) for x in p.items])
        if isinstance(op, ast.LtE):
            return sub(a, b)
        if isinstance(op, ast.GtE):
            return sub(b, a)
        if isinstance(op, ast.Eq):
            return tm.and_(sub(a, b), sub(b, a))
        if isinstance(op, ast.NotEq):
            return tm.not_(tm.and_(sub(a, b), sub(b, a)))
    return NotImplemented


def tuple_compare(I, op, a, b):
    def lt(a, b):
        if not a or not b:
            return tm.boolc(len(a) < len(b))
        x, y = I.force(a[0]), I.force(b[0])
        if isinstance(x, str) and isinstance(y, str):
            return tm.boolc(x < y) if x != y else lt(a[1:], b[1:])
        x, y = N(I, x), N(I, y)
        return tm.or_(tm.lt(x, y), tm.and_(tm.eq(x, y), lt(a[1:], b[1:])))

    if isinstance(op, ast.Lt):
        return lt(a, b)
    if isinstance(op, ast.Gt):
        return lt(b, a)
    if isinstance(op, ast.LtE):
        return tm.not_(lt(b, a))
    return tm.not_(lt(a, b))


def contains(I, c, x):
    c, x = I.force(c), I.force(x)
    if isinstance(c, DictV):
        k = dict_key(I, x)
        if not _symkey(k) and not any(_symkey(q) for q in c.items):
            return tm.boolc(k in c.items)
        return tm.or_(*[I.eq(undict_key(q), undict_key(k)) for q in c.items])
    if isinstance(c, SetV):
        if c.items is not None:
            return tm.or_(*[I.eq(x, y) for y in c.items])
        return c.pred(x)
    if isinstance(c, str):
        if isinstance(x, str):
            return tm.boolc(x in c)
        raise Unsupported("substring test")
    if isinstance(c, tuple):
        return tm.or_(*[I.eq(x, y) for y in c])
    if isinstance(c, SeqV):
        if c.items is not None:
            return tm.or_(*[I.eq(x, y) for y in c.items])
        n, v, cond, val = seq_parts(I, c)
        body = I.pure(lambda: tm.and_(cond, I.eq(x, val)), [tm.ge(v, ZERO), tm.lt(v, n)])
        return tm.quant("any", n, v, to_bool_T(body))
    if isinstance(c, ClassV) and c.is_enum:
        return tm.or_(*[I.eq(x, y) for y in c.members.values()])
    raise Unsupported(f"in on {type(c).__name__}")


def seq_parts(I, s):
    """(n, v, cond, value at v) of a symbolic sequence (cond for filters)"""
    f = getattr(s, "filt", None)
    if f is not None:
        return f
    v = tm.fresh("q")
    n = s.length()
    val = I.pure(lambda: I._get_any(s, v), [tm.ge(v, ZERO), tm.lt(v, n)])
    return n, v, TRUE, val


def make_set(I, s):
    s = I.force(s)
    it = iterate(I, s)
    if isinstance(it, list):
        out = []
        for x in it:
            if not any(I.branch(I.eq(x, y)) for y in out):
                out.append(x)
        return SetV(out)
    n, v, c, val = seq_parts(I, it)

    def pred(x):
        body = I.pure(lambda: tm.and_(c, I.eq(x, val)), [tm.ge(v, ZERO), tm.lt(v, n)])
        return tm.quant("any", n, v, to_bool_T(body))

    r = SetV(None, pred)
    r.seq = it
    return r


# ----------------------------------------------------------------------------------- reductions
def reduce_seq(I, op, s, f=None):
    """sum / prod of all scalar elements (nested containers are flattened)"""
    s = I.force(s)
    f = f or (lambda x: x)
    unit = ZERO if op == "sum" else ONE
    comb = tm.add if op == "sum" else tm.mul
    if isinstance(s, tuple):
        s = SeqV("list", list(s))
    if isinstance(s, FlatV):
        rng = [tm.ge(s.v, ZERO), tm.lt(s.v, s.n)]
        inner = I.pure(lambda: reduce_seq(I, op, s.inner, f), rng + ([s.cond] if s.cond is not None else []))
        if s.cond is not None:
            inner = tm.ite(s.cond, inner, unit)
        return tm.red(op, s.n, s.v, inner)
    if not isinstance(s, SeqV):
        return f(N(I, s))
    if s.poison:
        raise Unsupported(s.poison)
    if s.items is not None:
        r = unit
        for x in s.items:
            r = comb(r, reduce_seq(I, op, x, f))
        return r
    parts = getattr(s, "parts", None)
    if parts:
        r = unit
        for p in parts:
            r = comb(r, reduce_seq(I, op, p, f))
        return r
    n, v, c, val = seq_parts(I, s)
    body = I.pure(lambda: reduce_seq(I, op, val, f), [tm.ge(v, ZERO), tm.lt(v, n)] + ([c] if c is not TRUE else []))
    if c is not TRUE:
        body = tm.ite(c, body, unit)
    return tm.red(op, n, v, body)


def seq_all(I, s, isall=True, f=None):
    s = I.force(s)
    f = f or (lambda x: I.truth_T(x))
    if isinstance(s, tuple):
        s = SeqV("list", list(s))
    if isinstance(s, FlatV):
        rng = [tm.ge(s.v, ZERO), tm.lt(s.v, s.n)]
        c = s.cond if s.cond is not None else TRUE
        inner = to_bool_T(I.pure(lambda: seq_all(I, s.inner, isall, f), rng + [c]))
        body = tm.implies(c, inner) if isall else tm.and_(c, inner)
        return tm.quant("all" if isall else "any", s.n, s.v, body)
    if not isinstance(s, SeqV):
        if isinstance(s, (DictV, SetV)):
            s = SeqV("list", iterate(I, s))
        else:
            return f(s)
    if s.items is not None:
        parts = [seq_all(I, x, isall, f) if isinstance(x, SeqV) and x.kind == "nd" else f(x) for x in s.items]
        return tm.and_(*parts) if isall else tm.or_(*parts)
    n, v, c, val = seq_parts(I, s)
    body = I.pure(
        lambda: to_bool_T(seq_all(I, val, isall, f) if isinstance(val, SeqV) and val.kind == "nd" else f(val)),
        [tm.ge(v, ZERO), tm.lt(v, n)] + ([c] if c is not TRUE else []),
    )
    body = to_bool_T(body)
    body = tm.implies(c, body) if isall else tm.and_(c, body)
    return tm.quant("all" if isall else "any", n, v, body)


def seq_max(I, s, neg=False):
    s = I.force(s)
    if isinstance(s, tuple):
        s = SeqV("list", list(s))
    if isinstance(s, FlatV):
        raise Unsupported("max of a flattened generator")
    if not isinstance(s, SeqV):
        return N(I, s)
    sg = tm.neg if neg else (lambda x: x)
    if s.items is not None:
        if not s.items:
            raise PyExc("ValueError", ("max of an empty sequence",))
        xs = [sg(seq_max(I, x, neg) if isinstance(x, SeqV) else N(I, x)) for x in s.items]
        return sg(tm.max_(*xs)) if len(xs) > 1 else sg(xs[0])
    parts = getattr(s, "parts", None)
    if parts:
        xs = [sg(seq_max(I, p, neg)) for p in parts]
        return sg(tm.max_(*xs))
    n, v, c, val = seq_parts(I, s)
    if c is not TRUE:
        if not I.branch(tm.quant("any", n, v, c)):
            raise PyExc("ValueError", ("max of an empty sequence",))
        body = I.pure(lambda: sg(N(I, val)), [tm.ge(v, ZERO), tm.lt(v, n), c])
        ct = tm.lam(n, v, tm.ite(c, ONE, ZERO))
        return sg(tm.app("maxwhere", ct, tm.lam(n, v, body)))
    if not tm.positive(n):
        if not I.branch(tm.gt(n, ZERO)):
            raise PyExc("ValueError", ("max of an empty sequence",))
    body = I.pure(lambda: sg(seq_max(I, val, neg) if isinstance(val, SeqV) else N(I, val)), [tm.ge(v, ZERO), tm.lt(v, n)])
    return sg(tm.red("max", n, v, body))


def seq_min(I, s):
    return seq_max(I, s, True)


# ----------------------------------------------------------------------------------- strings
def to_str(I, x):
    if isinstance(x, str):
        return x
    if isinstance(x, T):
        if x.op == "num" and x.isint:
            return str(int(tm.numval(x)))
        if x.op == "str":
            return x.a[0]
        if x.kind == "O":
            return x
        return tm.oapp("str", x)
    if isinstance(x, bool):
        return str(x)
    if x is None:
        return "None"
    if isinstance(x, ObjV) and x.cls is not None:
        m = I.class_lookup(x.cls, "__str__")
        if m:
            return I.call_func(m[0], [x], {})
        if x.cls.is_enum:
            if any(p.split(".")[-1] == "StrEnum" or p == "str" or p.endswith(".str") for k in x.cls.mro for p in k.ext_bases):
                return to_str(I, x.attrs["value"])
            return x.tag
    return tm.osym("str!unknown")


def str_concat(parts):
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == "str":
            p = p.a[0]
        if isinstance(p, T) and p.op == "oapp" and p.a[0] == "cat":
            out.extend(x.a[0] if x.op == "str" else x for x in p.a[1:])
            continue
        out.append(p)
    merged = []
    for p in out:
        if isinstance(p, str) and merged and isinstance(merged[-1], str):
            merged[-1] += p
        elif not (isinstance(p, str) and not p):
            merged.append(p)
    if not merged:
        return ""
    if len(merged) == 1:
        return merged[0]
    return tm.oapp("cat", *[tm.strc(p) if isinstance(p, str) else p for p in merged])


STR_METHODS = {
    "upper", "lower", "strip", "startswith", "endswith", "replace", "split", "title", "capitalize", "find",
    "isdigit", "lstrip", "rstrip", "count", "removeprefix", "removesuffix", "isidentifier", "isupper", "casefold",
}


# ----------------------------------------------------------------------------------- attributes of values
def value_attr(I, o, name):
    if isinstance(o, (SeqV, FlatV)):
        return seq_attr(I, o, name)
    if isinstance(o, str):
        if name in STR_METHODS:
            def call(a, k):
                args = [I.force(x) for x in a]
                args = [x.a[0] if isinstance(x, T) and x.op == "str" else int(tm.numval(x)) if is_num(x) and tm.is_num(x) else x for x in args]
                if any(isinstance(x, T) for x in args):
                    raise Unsupported("string method with a symbolic argument")
                r = getattr(o, name)(*args)
                if isinstance(r, list):
                    return SeqV("list", r)
                if isinstance(r, int) and not isinstance(r, bool):
                    return num(r)
                return r

            return BuiltinV("str." + name, call)
        if name == "join":
            def join(a, k):
                it = iterate(I, a[0])
                if not isinstance(it, list):
                    raise Unsupported("join of a symbolic sequence")
                out = []
                for q, x in enumerate(it):
                    x = I.force(x)
                    if not (isinstance(x, str) or isinstance(x, T) and x.kind == "O"):
                        raise PyExc("TypeError", ("join of non-strings",))
                    if q:
                        out.append(o)
                    out.append(x)
                return str_concat(out)

            return BuiltinV("str.join", join)
        if name == "format":
            return BuiltinV("str.format", lambda a, k: tm.osym("str!format"))
        if name == "encode":
            return BuiltinV("str.encode", lambda a, k: tm.oapp("encode", tm.strc(o)))
        raise PyExc("AttributeError", (name,))
    if isinstance(o, T):
        if o.kind == "N":
            if name in ("copy", "item", "__float__", "conjugate"):
                return BuiltinV(name, lambda a, k: o)
            if name in ("sum", "mean", "max", "min"):
                return BuiltinV(name, lambda a, k: o)
            if name == "is_integer":
                return BuiltinV(name, lambda a, k: True if o.isint else tm.eq(tm.app("floor", o), o))
            if name == "shape":
                return ()
            if name == "size":
                return ONE
            if name == "ndim":
                return ZERO
            if name == "real":
                return o
            raise PyExc("AttributeError", (name,))
        if o.kind == "B" and name in ("item", "all", "any"):
            return BuiltinV(name, lambda a, k: o)
        if o.kind == "O":
            r = npmodel.opaque_attr(I, o, name)
            if r is not NotImplemented:
                return r
            raise Unsupported(f"attribute {name} of an opaque value")
        raise PyExc("AttributeError", (name,))
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return seq_attr(I, SeqV("tuple", list(o)), name)
        raise PyExc("AttributeError", (name,))
    if isinstance(o, DictV):
        return dict_attr(I, o, name)
    if isinstance(o, SetV):
        return set_attr(I, o, name)
    if isinstance(o, FuncV) and name in ("__doc__", "__module__"):
        return None
    if isinstance(o, BoundV):
        if name == "__func__":
            return o.func
        if name == "__self__":
            return o.self_
        if name == "__name__":
            return o.func.name
    if o is None or isinstance(o, bool):
        raise PyExc("AttributeError", (name,))
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def dict_attr(I, o, name):
    def get(a, k):
        key = dict_key(I, a[0])
        f = dict_find(I, o, key)
        if f is None:
            return a[1] if len(a) > 1 else k.get("default")
        return o.items[f]

    def setdefault(a, k):
        key = dict_key(I, a[0])
        f = dict_find(I, o, key)
        if f is None:
            dict_set(I, o, a[0], a[1] if len(a) > 1 else None)
            return o.items[key]
        return o.items[f]

    def pop(a, k):
        key = dict_key(I, a[0])
        f = dict_find(I, o, key)
        if f is None:
            if len(a) > 1:
                return a[1]
            raise PyExc("KeyError", (a[0],))
        v = o.items[f]
        old = o.items
        if o.owner is not None:
            I.note_mutation(o.owner)
        if I.log is not None:
            I.log.append(lambda: setattr(o, "items", old))
        o.items = {q: w for q, w in old.items() if q is not f and q != f}
        return v

    def update(a, k):
        src = I.force(a[0]) if a else DictV({})
        if not isinstance(src, DictV):
            raise Unsupported("dict.update of a non-dict")
        for q, w in list(src.items.items()) + list(k.items()):
            dict_set(I, o, undict_key(q), w)

    fns = {
        "get": get, "setdefault": setdefault, "pop": pop, "update": update,
        "keys": lambda a, k: SeqV("list", [undict_key(q) for q in o.items]),
        "values": lambda a, k: SeqV("list", list(o.items.values())),
        "items": lambda a, k: SeqV("list", [(undict_key(q), w) for q, w in o.items.items()]),
        "copy": lambda a, k: DictV(o.items),
    }
    if name in fns:
        return BuiltinV("dict." + name, fns[name])
    raise PyExc("AttributeError", (name,))


def set_attr(I, o, name):
    def assign(items):
        if I.loops and o.serial < I.loops[-1].serial:
            raise Unsupported("set update in a symbolic loop")
        old = o.items
        if I.log is not None:
            I.log.append(lambda: setattr(o, "items", old))
        o.items = items

    def add(a, k):
        if o.items is None:
            raise Unsupported("set.add")
        if not any(I.branch(I.eq(a[0], y)) for y in o.items):
            assign(o.items + [a[0]])

    def update(a, k):
        if o.items is None:
            raise Unsupported("set.update")
        for src in a:
            it = iterate(I, src)
            if not isinstance(it, list):
                raise Unsupported("set.update of a symbolic sequence")
            for x in it:
                add([x], {})

    fns = {"add": add, "update": update}

    def other(op):
        return lambda a, k: binop(I, op, o, make_set(I, a[0]) if not isinstance(I.force(a[0]), SetV) else I.force(a[0]))

    fns["union"] = other(ast.BitOr())
    fns["difference"] = other(ast.Sub())
    fns["intersection"] = other(ast.BitAnd())
    fns["issubset"] = lambda a, k: compare_special(I, ast.LtE(), o, make_set(I, a[0]) if not isinstance(I.force(a[0]), SetV) else I.force(a[0]))
    fns["copy"] = lambda a, k: SetV(o.items, o.pred)
    if name in fns:
        return BuiltinV("set." + name, fns[name])
    raise Unsupported(f"set.{name}")


def seq_attr(I, o, name):
    if isinstance(o, FlatV):
        raise Unsupported("attribute of a generator")
    nd = o.kind == "nd"
    if not nd:
        def append(a, k):
            I.seq_append(o, a[0])

        def extend(a, k):
            list_extend(I, o, a[0])

        def sort(a, k):
            if k.get("key") is not None or k.get("reverse") not in (None, False):
                r = sorted_(I, o, k)
            else:
                r = npmodel.np_sort(I, o)
            if I.outer_loop_for(o) is not None:
                raise Unsupported("sort of an outer list in a symbolic loop")
            I.seq_touch(o, "sort")
            I.seq_assign(o, r.items, r.n, r.getf, r.term)

        def pop(a, k):
            if o.items is None or (a and not tm.is_num(N(I, a[0]))):
                if o.items is None and (not a or N(I, a[0]) is num(-1)):
                    raise Unsupported("pop from a symbolic list")
                raise Unsupported("pop from a symbolic list")
            if not o.items:
                raise PyExc("IndexError", ("pop from empty list",))
            if I.outer_loop_for(o) is not None:
                raise Unsupported("pop of an outer list in a symbolic loop")
            items = list(o.items)
            v = items.pop(toint(I, a[0]) if a else -1)
            I.seq_touch(o, "pop")
            I.seq_assign(o, items)
            return v

        def insert(a, k):
            if I.outer_loop_for(o) is not None:
                raise Unsupported("insert in a symbolic loop")
            p = N(I, a[0])
            if p is ZERO:
                r = concat(I, [SeqV("list", [a[1]]), o.clone()], "list")
            elif o.items is not None and tm.is_num(p):
                items = list(o.items)
                items.insert(int(tm.numval(p)), a[1])
                r = SeqV("list", items)
            else:
                raise Unsupported("list.insert")
            I.seq_touch(o, "insert")
            I.seq_assign(o, r.items, r.n, r.getf, r.term)

        def reverse(a, k):
            r = slice_get(I, o.clone(), SliceV(None, None, num(-1)))
            I.seq_touch(o, "reverse")
            I.seq_assign(o, r.items, r.n, r.getf, r.term)

        def clear(a, k):
            I.seq_touch(o, "clear")
            I.seq_assign(o, [])

        fns = {
            "append": append, "extend": extend, "sort": sort, "pop": pop, "insert": insert, "reverse": reverse,
            "clear": clear,
            "copy": lambda a, k: o.clone(),
            "count": lambda a, k: reduce_seq(I, "sum", map_parts(I, o, lambda x: tm.ite(I.eq(x, a[0]), ONE, ZERO))),
            "index": lambda a, k: _index(I, o, a[0]),
        }
        if o.kind == "tuple" and name not in ("count", "index"):
            raise PyExc("AttributeError", (name,))
        if name in fns:
            return BuiltinV("list." + name, fns[name])
        raise PyExc("AttributeError", (name,))
    return npmodel.nd_attr(I, o, name)


def _index(I, o, x):
    if o.items is None:
        raise Unsupported("index in a symbolic list")
    for k, y in enumerate(o.items):
        if I.branch(I.eq(x, y)):
            return num(k)
    raise PyExc("ValueError", ("not in list",))


def obj_attr(I, o, name):
    if o.cls is not None and o.cls.is_enum:
        if name == "_value_":
            return o.attrs["value"]
    if o.tag == "exception":
        if name == "args":
            return o.attrs.get("args", ())
        if name == "__cause__":
            return None
    from . import sqlmodel

    return sqlmodel.obj_attr(I, o, name)


def class_attr(I, c, name):
    from . import sqlmodel

    r = sqlmodel.class_attr(I, c, name)
    if r is not NotImplemented:
        return r
    if name == "__doc__":
        return None
    if name == "__abstractmethods__":
        return SetV(abstract_methods(I, c))
    raise PyExc("AttributeError", (name,))


def abstract_methods(I, c):
    out = []
    seen = set()
    for k in c.mro:
        for nm, v in k.attrs.items():
            if nm in seen:
                continue
            seen.add(nm)
            if isinstance(v, FuncV) and is_abstract_def(v.node):
                out.append(nm)
    return out


def is_abstract_def(node):
    for d in getattr(node, "decorator_list", []):
        nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
        if nm == "abstractmethod":
            return True
    return False


def abs_attr(I, o, name):
    if name in o.attrs:
        return o.attrs[name]
    if name in o.methods:
        m = o.methods[name]
        return BuiltinV(f"{o.name}.{name}", lambda a, k: m(I, a, k))
    if name == "__class__" and o.cls is not None:
        return o.cls
    if o.cls is not None:
        hit = I.class_lookup(o.cls, name)
        if hit is not None:
            v = hit[0]
            if isinstance(v, FuncV) and not is_abstract_def(v.node):
                return I._bind_attr(v, o, o.cls)
            if not isinstance(v, FuncV):
                return v
    if o.methods.get("*") is not None:
        return o.methods["*"](I, name)
    raise Unsupported(f"{o.name}.{name} is not specified by the interface contract")


def abs_getitem(I, o, idx):
    if "__getitem__" in o.methods:
        return o.methods["__getitem__"](I, [idx], {})
    raise Unsupported("subscript of an abstract object")


def ext_isinstance(I, v, c):
    if not isinstance(c, ExtV):
        if isinstance(c, UnionV):
            return ext_isinstance(I, v, I.force(c))
        if isinstance(c, BuiltinV):
            nm = c.name
        else:
            raise Unsupported("isinstance")
    else:
        nm = c.path.split(".")[-1]
    v = I.force(v)
    if nm == "float":
        return is_num(v) and not v.isint
    if nm == "int":
        return isinstance(v, bool) or is_num(v) and v.isint
    if nm in ("bool", "bool_"):
        return is_boolish(v)
    if nm in ("Number", "Real", "number", "floating", "Integral", "integer"):
        if nm in ("Integral", "integer"):
            return is_num(v) and v.isint
        return is_num(v)
    if nm == "str":
        return isinstance(v, str) or isinstance(v, T) and v.kind == "O" and v.op in ("str", "osym", "oapp") or (
            isinstance(v, ObjV) and any(p.split(".")[-1] in ("str", "StrEnum") for k in v.cls.mro for p in k.ext_bases))
    if nm == "list":
        return isinstance(v, SeqV) and v.kind == "list"
    if nm == "ndarray":
        return isinstance(v, SeqV) and v.kind == "nd"
    if nm == "tuple":
        return isinstance(v, tuple) or isinstance(v, SeqV) and v.kind == "tuple"
    if nm in ("dict", "Mapping"):
        return isinstance(v, DictV)
    if nm == "set":
        return isinstance(v, SetV)
    if nm in ("Sequence", "Iterable"):
        return isinstance(v, (tuple, str)) or isinstance(v, SeqV) and (v.kind in ("list", "tuple") or nm == "Iterable")
    if nm in ("bytes", "bytearray", "memoryview"):
        return isinstance(v, ExtV) and v.path == "bytes"
    if nm == "type":
        return isinstance(v, ClassV)
    if nm == "object":
        return True
    if isinstance(v, ObjV) and v.cls is not None:
        return any(p.split(".")[-1] == nm for k in v.cls.mro for p in k.ext_bases)
    if nm == "NoneType":
        return v is None
    if isinstance(v, (SeqV, T, str, bool, tuple, DictV)) or v is None:
        if nm in ("Exception", "ABC", "masked_array", "MaskedArray", "DataFrame", "Series", "bytes"):
            return False
    raise Unsupported(f"isinstance with {nm}")


def enter_context(I, cm):
    if isinstance(cm, ObjV):
        m = I.class_lookup(cm.cls, "__enter__")
        if m:
            return I.call_func(m[0], [cm], {})
    if isinstance(cm, AbsV):
        if "__enter__" in cm.methods:
            return cm.methods["__enter__"](I, [], {})
        return cm
    if isinstance(cm, ExtV):
        return cm
    raise Unsupported("context manager")


def exit_context(I, cm):
    if isinstance(cm, ObjV):
        m = I.class_lookup(cm.cls, "__exit__")
        if m:
            I.call_func(m[0], [cm, None, None, None], {})
    if isinstance(cm, AbsV) and "__exit__" in cm.methods:
        cm.methods["__exit__"](I, [], {})


# ----------------------------------------------------------------------------------- built-in functions
def argsort_seq(I, K):
    return tm.argsort_seq(K)


def sorted_(I, seq, k):
    key = I.force(k.get("key")) if k.get("key") is not None else None
    rev = I.force(k.get("reverse", False))
    if not isinstance(rev, bool):
        raise Unsupported("symbolic reverse flag")
    s = as_seqv(I, seq)
    if isinstance(I.force(seq), SetV) and getattr(I.force(seq), "seq", None) is not None:
        raise Unsupported("sorted of a symbolic set")
    if s.items is not None and len(s.items) <= 1:
        return SeqV("list", list(s.items))
    if s.items is not None and all(isinstance(x, str) for x in s.items) and key is None:
        return SeqV("list", sorted(s.items, reverse=rev))
    if key is None and not rev:
        p = _probe(I, s)
        if is_num(p):
            return npmodel.np_sort(I, s, "list")
    if key is None and getattr(s, "filt", None) is None and is_num(_probe(I, s)):
        s = npmodel.np_sort(I, s, "list")
        if s.items is not None:
            return SeqV("list", s.items[::-1])
        n = s.length()
        return seqn(I, n, lambda i: I._get_any(s, tm.sub(tm.sub(n, ONE), i)), "list")
    if getattr(s, "filt", None) is not None:
        raise Unsupported("sorted of a filtered sequence")
    kf = (lambda x: I.call(key, [x], {})) if key is not None else (lambda x: x)
    keys = I.seqmap(s, lambda x: kf(x), "list")
    p = _probe(I, keys)
    if isinstance(p, tuple):
        # lexicographic keys: supported when the first component decides together with the original index
        raise Unsupported("sort by tuple keys")
    keys = I.seqmap(keys, lambda x: N(I, x), "list")
    if rev:
        keys = I.seqmap(keys, lambda x: tm.neg(x), "list")
    if s.items is not None and all(tm.is_num(x) for x in keys.items):
        o = sorted(range(len(s.items)), key=lambda j: tm.numval(keys.items[j]))
        return SeqV("list", [s.items[j] for j in o])
    K = I.reify(keys)
    A = tm.argsort_seq(K)
    n = s.length()
    return seqn(I, n, lambda i: I._get_any(s, tm.sel(A, i)), "list")


def make_builtins(I):
    B = {}

    def reg(name):
        def deco(f):
            B[name] = BuiltinV(name, f)
            return f

        return deco

    @reg("len")
    def _len(a, k):
        v = I.force(a[0])
        if isinstance(v, SeqV):
            if v.kind == "iter":
                raise PyExc("TypeError", ("len of iterator",))
            if I.outer_loop_for(v) is not None:
                I.loops[-1].reads.append((v, None))
            return v.length()
        if isinstance(v, (tuple, str)):
            return num(len(v))
        if isinstance(v, DictV):
            return num(len(v.items))
        if isinstance(v, ExtV) and v.path == "bytes":
            from . import sqlmodel

            return sqlmodel.bytes_len(I, v)
        if isinstance(v, SetV) and v.items is not None:
            return num(len(v.items))
        if isinstance(v, SetV) and getattr(v, "seq", None) is not None:
            return tm.app("nunique", I.reify(v.seq), isint=True)
        if isinstance(v, ClassV) and v.is_enum:
            return num(len(v.members))
        if isinstance(v, T) and v.kind == "O":
            raise Unsupported("len of an opaque value")
        if isinstance(v, (T, bool)) or v is None:
            raise PyExc("TypeError", ("no len()",))
        if isinstance(v, ObjV):
            m = I.class_lookup(v.cls, "__len__")
            if m:
                return I.call_func(m[0], [v], {})
        if isinstance(v, AbsV) and "__len__" in v.methods:
            return v.methods["__len__"](I, [], {})
        raise Unsupported(f"len of {type(v).__name__}")

    @reg("range")
    def _range(a, k):
        a = [N(I, x) for x in a]
        for x in a:
            if not x.isint:
                if tm.is_num(x) or True:
                    raise PyExc("TypeError", ("range of a non-integer",))
        lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a)
        if all(tm.is_num(x) for x in (lo, hi, st)):
            r = range(*[int(tm.numval(x)) for x in (lo, hi, st)])
            if len(r) <= 64:
                return SeqV("list", [num(x) for x in r])
        if not tm.is_num(st):
            raise Unsupported("symbolic range step")
        s = int(tm.numval(st))
        d = tm.sub(hi, lo) if s > 0 else tm.sub(lo, hi)
        if abs(s) != 1:
            d = tm.neg(tm.app("floor", tm.scale(tm.neg(d), tm.F1 / abs(s))))
        n = nn_len(I, d)
        if n is ZERO:
            return SeqV("list", [])
        return SeqV("list", None, n, lambda i: tm.add(lo, tm.scale(i, s)))

    @reg("enumerate")
    def _enumerate(a, k):
        s = as_seqv(I, a[0])
        st = N(I, a[1] if len(a) > 1 else k.get("start", ZERO))
        if getattr(s, "filt", None) is not None:
            raise Unsupported("enumerate of a filtered sequence")
        if s.items is not None:
            return SeqV("list", [(tm.add(st, num(j)), x) for j, x in enumerate(s.items)])
        return SeqV("list", None, s.n, lambda i: (tm.add(st, i), I.seq_get(s, i)))

    @reg("zip")
    def _zip(a, k):
        ss = [as_seqv(I, x) for x in a]
        if any(getattr(s, "filt", None) is not None for s in ss):
            raise Unsupported("zip of a filtered sequence")
        if all(s.items is not None for s in ss):
            if k.get("strict") is True and len({len(s.items) for s in ss}) > 1:
                raise PyExc("ValueError", ("zip",))
            return SeqV("list", list(zip(*[s.items for s in ss])))
        n = ss[0].length()
        for s in ss[1:]:
            m = s.length()
            if m is n:
                continue
            if k.get("strict") is True:
                if not I.branch(tm.eq(m, n)):
                    raise PyExc("ValueError", ("zip",))
                continue
            if not I.branch(tm.le(n, m)):
                n = m
        return seqn(I, n, lambda i: tuple(I._get_any(s, i) for s in ss), "list")

    @reg("reversed")
    def _reversed(a, k):
        s = as_seqv(I, a[0])
        return slice_get(I, s.clone("list"), SliceV(None, None, num(-1)))

    @reg("sum")
    def _sum(a, k):
        st = a[1] if len(a) > 1 else k.get("start", ZERO)
        s = I.force(a[0])
        if isinstance(s, SeqV) and s.items is not None and any(isinstance(I.force(x), SeqV) for x in s.items):
            r = st
            for x in s.items:
                r = I.binop(ast.Add(), r, x)
            return r
        if not isinstance(s, (SeqV, FlatV, tuple, DictV, SetV)):
            iterate(I, s)
        if isinstance(s, (DictV, SetV)):
            s = SeqV("list", iterate(I, s))
        return tm.add(N(I, st), reduce_seq(I, "sum", s))

    @reg("all")
    def _all(a, k):
        r = seq_all(I, a[0], True)
        return True if r is TRUE else False if r is FALSE else r

    @reg("any")
    def _any(a, k):
        r = seq_all(I, a[0], False)
        return True if r is TRUE else False if r is FALSE else r

    def _mm(neg):
        def f(a, k):
            key = k.get("key")
            if len(a) == 1:
                v = I.force(a[0])
                if "default" in k:
                    s = as_seqv(I, v)
                    if not I.branch(tm.gt(s.length(), ZERO)):
                        return k["default"]
                if key is not None:
                    s = as_seqv(I, v)
                    if s.items is not None:
                        if not s.items:
                            raise PyExc("ValueError", ())
                        best = s.items[0]
                        bk = N(I, I.call(key, [best], {}))
                        for x in s.items[1:]:
                            xk = N(I, I.call(key, [x], {}))
                            c = tm.lt(xk, bk) if neg else tm.gt(xk, bk)
                            if I.branch(c):
                                best, bk = x, xk
                        return best
                    keys = I.seqmap(s, lambda x: I.call(key, [x], {}), "list")
                    idx = npmodel.argext(I, keys, not neg)
                    return I.getitem(s, idx)
                return seq_max(I, as_seqv(I, v), neg)
            vals = [I.force(x) for x in a]
            if all(isinstance(x, str) for x in vals):
                return (min if neg else max)(vals)
            vals = [N(I, x) for x in vals]
            return tm.min_(*vals) if neg else tm.max_(*vals)

        return f

    B["max"] = BuiltinV("max", _mm(False))
    B["min"] = BuiltinV("min", _mm(True))

    @reg("abs")
    def _abs(a, k):
        return map_parts(I, a[0], lambda x: tm.app("abs", N(I, x)))

    @reg("sorted")
    def _sorted(a, k):
        return sorted_(I, a[0], k)

    @reg("round")
    def _round(a, k):
        v = N(I, a[0])
        if len(a) > 1:
            return tm.app("round_nd", v, N(I, a[1]))
        if v.isint:
            return v
        return tm.app("round", v, isint=True)

    @reg("int")
    def _int(a, k):
        v = I.force(a[0]) if a else ZERO
        if isinstance(v, str):
            try:
                return num(int(v))
            except ValueError:
                raise PyExc("ValueError", ())
        v = N(I, v)
        if v.isint:
            return v
        if tm.nonneg(v):
            return tm.app("floor", v)
        if tm.is_num(v):
            return num(int(tm.numval(v)))
        if I.branch(tm.ge(v, ZERO)):
            return tm.app("floor", v)
        return tm.neg(tm.app("floor", tm.neg(v)))

    @reg("float")
    def _float(a, k):
        v = I.force(a[0]) if a else ZERO
        if isinstance(v, str):
            if v in ("inf", "-inf", "nan", "Infinity", "-Infinity"):
                return ExtV("float.nan") if v == "nan" else tm.neg(tm.INF) if v[0] == "-" else tm.INF
            try:
                return num(float(v))
            except ValueError:
                raise PyExc("ValueError", ())
        if isinstance(v, ExtV):
            return v
        if isinstance(v, SeqV):
            if v.kind != "nd":
                raise PyExc("TypeError", ())
            if I.branch(tm.eq(v.length(), ONE)):
                return N(I, I.seq_get(v, ZERO))
            raise PyExc("TypeError", ("only length-1 arrays",))
        return N(I, v)

    @reg("bool")
    def _bool(a, k):
        t = I.truth_T(a[0]) if a else FALSE
        return True if t is TRUE else False if t is FALSE else t

    @reg("str")
    def _str(a, k):
        return to_str(I, I.force(a[0])) if a else ""

    @reg("repr")
    def _repr(a, k):
        return tm.osym("str!repr")

    @reg("list")
    def _list(a, k):
        if not a:
            return SeqV("list", [])
        s = as_seqv(I, a[0])
        return _view(s, "list")

    @reg("tuple")
    def _tuple(a, k):
        if not a:
            return ()
        s = as_seqv(I, a[0])
        if s.items is not None:
            return tuple(s.items)
        return _view(s, "tuple")

    @reg("dict")
    def _dict(a, k):
        d = DictV()
        if a:
            src = I.force(a[0])
            if isinstance(src, DictV):
                d.items.update(src.items)
            else:
                it = iterate(I, src)
                if not isinstance(it, list):
                    raise Unsupported("dict of a symbolic sequence")
                for x in it:
                    q, w = I.unpack(x, 2)
                    d.items[dict_key(I, q)] = w
        d.items.update(k)
        return d

    @reg("set")
    def _set(a, k):
        return make_set(I, a[0]) if a else SetV([])

    B["frozenset"] = B["set"]

    @reg("map")
    def _map(a, k):
        ss = [as_seqv(I, x) for x in a[1:]]
        if len(ss) == 1:
            return map_seq_fn(I, ss[0], lambda x: I.call(a[0], [x], {}))
        z = B["zip"].fn(a[1:], {})
        return I.seqmap(z, lambda t: I.call(a[0], list(t), {}), "list")

    @reg("filter")
    def _filter(a, k):
        s = as_seqv(I, a[1])
        if s.items is not None:
            return SeqV("list", [x for x in s.items if I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)])
        n, v, c, val = seq_parts(I, s)
        c2 = I.pure(lambda: I.truth_T(I.call(a[0], [val], {})), [tm.ge(v, ZERO), tm.lt(v, n)])
        return make_filter(I, n, v, tm.and_(c, to_bool_T(c2)), val, "iter")

    @reg("isinstance")
    def _isinstance(a, k):
        return I.isinstance_of(I.force(a[0]), I.force(a[1]))

    @reg("issubclass")
    def _issubclass(a, k):
        c, d = I.force(a[0]), I.force(a[1])
        ds = d if isinstance(d, tuple) else (d,)
        if not isinstance(c, ClassV):
            raise PyExc("TypeError", ())
        return any((x in c.mro) if isinstance(x, ClassV) else any(p.split(".")[-1] == x.path.split(".")[-1] for q in c.mro for p in q.ext_bases) for x in ds)

    @reg("type")
    def _type(a, k):
        v = I.force(a[0])
        if isinstance(v, ObjV):
            return v.cls
        if isinstance(v, AbsV) and v.cls is not None:
            return v.cls
        raise Unsupported("type()")

    @reg("hasattr")
    def _hasattr(a, k):
        try:
            I.getattr(a[0], a[1])
            return True
        except PyExc as e:
            if e.name == "AttributeError":
                return False
            raise

    @reg("getattr")
    def _getattr(a, k):
        nm = I.force(a[1])
        if not isinstance(nm, str):
            raise Unsupported("getattr with a symbolic name")
        try:
            return I.getattr(a[0], nm)
        except PyExc as e:
            if e.name == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    @reg("setattr")
    def _setattr(a, k):
        I.setattr(a[0], I.force(a[1]), a[2])

    @reg("callable")
    def _callable(a, k):
        return isinstance(I.force(a[0]), (FuncV, BoundV, BuiltinV, ClassV))

    @reg("print")
    def _print(a, k):
        I.note_mutation("@stdout")
        return None

    @reg("id")
    def _id(a, k):
        return num(id(a[0]))

    @reg("next")
    def _next(a, k):
        s = I.force(a[0])
        if isinstance(s, SeqV):
            if s.items is not None:
                if s.items:
                    v = s.items[0]
                    if s.kind == "iter":
                        I.seq_assign(s, s.items[1:])
                    return v
                if len(a) > 1:
                    return a[1]
                raise PyExc("StopIteration", ())
            n, v, c, val = seq_parts(I, s)
            q = tm.quant("any", n, v, c)
            if not I.branch(q):
                if len(a) > 1:
                    return a[1]
                raise PyExc("StopIteration", ())
            kk = tm.fresh("k")
            I.assume(tm.ge(kk, ZERO))
            I.assume(tm.lt(kk, n))
            I.assume(tm.subst(c, {v: kk}))
            u = tm.fresh("u")
            I.assume(tm.quant("all", kk, u, tm.not_(tm.subst(c, {v: u}))))
            return subst_value(val, {v: kk})
        raise Unsupported("next")

    @reg("iter")
    def _iter(a, k):
        return _view(as_seqv(I, a[0]), "iter")

    @reg("pow")
    def _pow(a, k):
        return I.arith(ast.Pow(), N(I, a[0]), N(I, a[1]))

    @reg("divmod")
    def _divmod(a, k):
        return (I.arith(ast.FloorDiv(), N(I, a[0]), N(I, a[1])), I.arith(ast.Mod(), N(I, a[0]), N(I, a[1])))

    @reg("object")
    def _object(a, k):
        return ObjV(None)

    @reg("property")
    def _property(a, k):
        raise Unsupported("property()")

    B["NotImplemented"] = ExtV("builtins.NotImplemented")
    B["Ellipsis"] = None
    B["__name__"] = "module"
    return B


def map_seq_fn(I, s, f, kind="iter"):
    if getattr(s, "filt", None) is not None:
        n, v, c, val = s.filt
        r = I.pure(lambda: f(val), [tm.ge(v, ZERO), tm.lt(v, n), c])
        return make_filter(I, n, v, c, r, kind)
    return I.seqmap(s, f, kind)


# ----------------------------------------------------------------------------------- delegation
def spec_builtin(I, name):
    from . import specsym

    return specsym.spec_builtin(I, name)


def ext_call(I, f, args, kwargs):
    return npmodel.ext_call(I, f, args, kwargs)


def ext_attr(I, o, name):
    return npmodel.ext_attr(I, o, name)


def ext_getitem(I, o, idx):
    if o.path.split(".")[0] in ("typing", "collections", "abc", "numpy") or o.path in ("tuple", "list", "dict"):
        if o.data is None:
            return o
    return npmodel.ext_getitem(I, o, idx)


def ext_subclass_attr(I, o, c, name):
    from . import sqlmodel

    return sqlmodel.ext_subclass_attr(I, o, c, name)


def construct_ext_subclass(I, o, c, args, kwargs):
    from . import sqlmodel

    return sqlmodel.construct_ext_subclass(I, o, c, args, kwargs)


def np_constant(I, path):
    return npmodel.constant(I, path)


CHECKED = ("nd", "str", "list", "set", "sum", "min", "max", "abs", "len", "sorted", "reversed", "round", "int", "float", "bool",
           "range", "enumerate", "zip", "map", "filter", "any", "all", "tuple", "pow", "divmod")


def call_checked(I, f, args, kwargs):
    """a method or builtin whose model never looked at an argument would ignore it silently"""
    if f.name.split(".")[0] not in CHECKED:
        return f.fn(args, kwargs)
    from . import npmodel

    a, k = npmodel._Args(args), npmodel._Kwargs(kwargs)
    r = f.fn(a, k)
    npmodel.ignored(f.name, a, k)
    return r
