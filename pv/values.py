"""Runtime values of the symbolic interpreter."""
from __future__ import annotations

from itertools import count

from . import terms as tm
from .terms import T

_serial = count(1)


class Unsupported(Exception):
    """construct outside the verified subset: no obligation is generated, the function is reported as
    outside reach (bounded stand-in), never as proved"""


class Infeasible(Exception):
    pass


class ReturnS(Exception):
    def __init__(self, v):
        self.v = v


class BreakS(Exception):
    pass


class ContinueS(Exception):
    pass


class PyExc(Exception):
    """a Python exception of the verified program"""

    def __init__(self, etype, args=(), obj=None):
        self.etype, self.eargs, self.obj = etype, args, obj

    @property
    def name(self):
        e = self.etype
        return e if isinstance(e, str) else e.name

    def __str__(self):
        return f"{self.name}{self.eargs}"


class FuncV:
    def __init__(self, node, module, cls=None, closure=None, name=None, kind="function"):
        self.node, self.module, self.cls, self.closure, self.kind = node, module, cls, closure, kind
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = None

    @property
    def qualname(self):
        return f"{self.module.name}:{self.cls.name + '.' if self.cls else ''}{self.name}"


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BuiltinV:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ClassV:
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name
        self.attrs = {}
        self.bases = []
        self.ext_bases = []
        self.mro = []
        self.is_enum = False
        self.is_dataclass = False
        self.members = {}

    @property
    def qualname(self):
        return f"{self.module.name}:{self.name}"


class ObjV:
    def __init__(self, cls, attrs=None, tag=None):
        self.cls, self.attrs, self.tag = cls, attrs if attrs is not None else {}, tag
        self.serial = next(_serial)
        self.owner = None


class ExtV:
    """an external (library) object identified by its dotted path; `data` carries model state"""

    def __init__(self, path, data=None):
        self.path, self.data = path, data

    def __repr__(self):
        return f"ExtV({self.path})"


class AbsV:
    """an abstract collaborator: known only through the contract of its interface"""

    def __init__(self, name, methods=None, attrs=None, cls=None):
        self.name, self.methods, self.attrs, self.cls = name, methods or {}, attrs or {}, cls


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class UnionV:
    """guarded union: list of (condition, value)"""

    def __init__(self, alts):
        self.alts = alts


class Poison:
    def __init__(self, why):
        self.why = why


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class DictV:
    def __init__(self, items=None):
        self.items = dict(items or {})
        self.serial = next(_serial)
        self.owner = None


class SetV:
    """finite set given by concrete element values or by a membership predicate"""

    def __init__(self, items=None, pred=None):
        self.items = list(items) if items is not None else None
        self.pred = pred
        self.serial = next(_serial)


class SeqV:
    """list / ndarray / iterator content.  Either concrete-length (items) or symbolic (n, getf)."""

    dtype = None

    def __init__(self, kind, items=None, n=None, getf=None, term=None):
        self.kind = kind
        self.items = items
        self.n = n if items is None else None
        self.getf = getf
        self.term = term
        self.serial = next(_serial)
        self.owner = None
        self.base = None
        self.poison = None

    @property
    def concrete(self):
        return self.items is not None

    def length(self):
        return tm.num(len(self.items)) if self.items is not None else self.n

    def clone(self, kind=None):
        r = SeqV(kind or self.kind, list(self.items) if self.items is not None else None, self.n, self.getf, self.term)
        if self.dtype is not None:
            r.dtype = self.dtype
        return r


class FlatV:
    """flattened nested generator: only reductions are supported. gen = (n, v, inner) with inner SeqV/FlatV"""

    def __init__(self, n, v, inner, cond=None):
        self.n, self.v, self.inner, self.cond = n, v, inner, cond


def seq_from_term(t, kind="nd"):
    return SeqV(kind, None, tm.seqlen(t), lambda i: tm.sel(t, i), t)


def const_seq(vals, kind="nd"):
    return SeqV(kind, [tm.num(v) if not isinstance(v, T) else v for v in vals])


def is_num(v):
    return isinstance(v, T) and v.kind == "N"


def is_boolish(v):
    return isinstance(v, bool) or (isinstance(v, T) and v.kind == "B")


def to_bool_T(v):
    if isinstance(v, bool):
        return tm.boolc(v)
    return v


def subst_value(v, m):
    """substitute symbols inside an arbitrary value"""
    if isinstance(v, T):
        return tm.subst(v, m)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, SeqV):
        if v.items is not None:
            r = SeqV(v.kind, [subst_value(x, m) for x in v.items])
        else:
            g = v.getf

            def getf(i, g=g, m=m):
                w = tm.fresh("w")
                return subst_value(subst_value(g(w), m), {w: i})

            r = SeqV(v.kind, None, tm.subst(v.n, m), getf)
            if v.term is not None:
                r.term = tm.subst(v.term, m)
                t = r.term
                r.getf = lambda i, t=t: tm.sel(t, i)
        r.owner = v.owner
        return r
    if isinstance(v, ObjV):
        if v.cls is not None and v.cls.is_enum:
            return v
        return ObjV(v.cls, {k: subst_value(x, m) for k, x in v.attrs.items()}, v.tag)
    if isinstance(v, UnionV):
        return UnionV([(tm.subst(c, m), subst_value(x, m)) for c, x in v.alts])
    if isinstance(v, DictV):
        return DictV({k: subst_value(x, m) for k, x in v.items.items()})
    if isinstance(v, FlatV):
        return FlatV(tm.subst(v.n, m), v.v, subst_value(v.inner, m), None if v.cond is None else tm.subst(v.cond, m))
    return v
