"""Specification library, native (concrete) semantics.

A contract class is executed twice: symbolically by the verifier (pv/interp.py + pv/specsym.py), for all
inputs, and natively by this module against the real imported code (replay of counterexamples, search for a
failing input, bounded stand-ins)."""
from __future__ import annotations

import copy
import hashlib
import importlib
import math
import random

import numpy as np

__all__ = [
    "Contract", "R", "np", "math", "forall", "exists", "count", "Sum", "Prod", "Max", "Min", "implies", "iff", "ite", "eq",
    "same", "leq", "less", "calls", "ncalls", "typename", "seqof", "skip", "delicate", "isnone", "isnum", "mapping_eq", "UF", "clsname", "single", "draw", "instance",
]

ALL = []


class Skip(Exception):
    pass


class Contract:
    property = None
    properties = None
    target = None
    targets = ()
    cases = None
    unchanged = ()
    bounded = None  # reason: outside the verifier's reach, decided by concrete execution only
    bound = None  # stated bound: obligations are decided for all values within it (never counted as proved)
    witness = None  # concrete demonstration of a listed finding: neither verified nor explored
    conc = 1.0
    stubs = None

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        if not cls.__dict__.get("abstract", False):
            ALL.append(cls)


def R(qual):
    mod, name = qual.split(":")
    o = importlib.import_module(mod)
    for p in name.split("."):
        o = getattr(o, p)
    return o


def _rng(n):
    if isinstance(n, (list, tuple, np.ndarray)):
        return n
    return range(int(n))


def forall(n, f):
    """concrete executions look at 400 of the positions of a long range (both ends and an even spread)"""
    r = _rng(n)
    if len(r) > 3000:
        step = len(r) // 200
        r = list(r[:100]) + list(r[100:-100:step]) + list(r[-100:])
    return all(bool(f(i)) for i in r)


def exists(n, f):
    return any(bool(f(i)) for i in _rng(n))


def count(n, f):
    return sum(1 for i in _rng(n) if bool(f(i)))


def Sum(n, f):
    return math.fsum(float(f(i)) for i in _rng(n))


def Prod(n, f):
    r = 1.0
    for i in _rng(n):
        r *= f(i)
    return r


def Max(n, f):
    return max(f(i) for i in _rng(n))


def Min(n, f):
    return min(f(i) for i in _rng(n))


def _v(x):
    return x() if callable(x) and not isinstance(x, type) else x


def implies(a, b):
    return (not bool(a)) or bool(_v(b))


def iff(a, b):
    return bool(a) == bool(b)


def ite(c, a, b):
    return _v(a) if bool(c) else _v(b)


def isnone(x):
    return x is None


def isnum(x):
    return isinstance(x, (int, float, np.number)) and not isinstance(x, (bool, np.bool_))


def _scalar(x):
    return isinstance(x, (int, float, np.number, bool, np.bool_))


def eq(a, b, tol=1e-9):
    """equality of values; numbers up to rounding (exact in the verified real arithmetic)"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    if _scalar(a) and _scalar(b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k], tol) for k in a)
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, str) or a is None:
        return a == b
    return bool(a == b)


mapping_eq = eq


def same(a, b):
    return eq(a, b, 0.0)


def leq(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return a <= b + tol * max(1.0, abs(a), abs(b))


def less(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return a < b + tol * max(1.0, abs(a), abs(b))


def seqof(n, f):
    return [f(i) for i in range(int(n))]


def typename(x):
    return type(x).__name__


def clsname(x):
    return getattr(x, "_pv_cls", None) or type(x).__name__


def skip():
    raise Skip()


def delicate(f):
    """concrete executions only: inputs on which floating-point rounding decides are passed over (the proof is about
    real numbers and ignores this); always true"""
    if f():
        raise Skip()
    return True


def instance(f, *xs):
    """an instance of a fact about all real numbers: the prover decides f for unknown reals, the instance follows"""
    return f(*xs)


def calls(mock, method):
    return list(mock.__dict__.get("_pv_calls", {}).get(method, []))


def ncalls(stream):
    return stream.k


def _norm(x):
    if isinstance(x, (bool, np.bool_)):
        return ("b", bool(x))
    if isinstance(x, (int, float, np.number)):
        return ("n", float(x))
    if isinstance(x, (list, tuple, np.ndarray)):
        return ("s",) + tuple(_norm(v) for v in x)
    if isinstance(x, dict):
        return ("d",) + tuple((str(k), _norm(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, str) or x is None:
        return x
    if hasattr(x, "_pv_name"):
        return ("c", x._pv_name)
    if hasattr(x, "__dict__"):
        return (type(x).__name__, tuple((k, _norm(v)) for k, v in sorted(vars(x).items())))
    return repr(x)


def single(x):
    """value in single precision"""
    if isinstance(x, (list, tuple, np.ndarray)):
        return [float(np.float32(v)) for v in x]
    return float(np.float32(x))


def UF(name, *args, rng="real"):
    """uninterpreted function (deterministic pseudo-random value concretely)"""
    h = hashlib.sha256((name + repr(tuple(_norm(a) for a in args))).encode()).digest()
    u = int.from_bytes(h[:6], "big") / float(1 << 48)
    if rng == "bool":
        return u < 0.5
    if rng == "unit":
        return u
    if rng == "int":
        return int(u * 7) - 1
    if rng == "str":
        return "u" + h.hex()[:6]
    k = int.from_bytes(h[6:8], "big") % 4
    v = (u - 0.5) * 8
    return float(round(v)) if k == 0 else v


def draw(name, *a):
    """the i-th standardised draw of a law: draw(name, shape..., i)"""
    return UF("draw_" + name, *a, rng="unit" if name == "uniform" else "real")


class Stream:
    def __init__(self, name, fn):
        self.name, self.fn, self.k = name, fn, 0

    def __call__(self, *a, **kw):
        k = self.k
        self.k += 1
        return self.fn(k, *a, **kw)


def within(vs, lo, hi, pos, nonneg):
    """values of a solver's model, rounded to floats, still meet the bounds"""
    return all((lo is None or v >= lo) and (hi is None or v <= hi) and (not pos or v > 0) and (not nonneg or v >= 0) for v in vs)


ECHOED = {"code", "par", "npar", "size", "mc", "id"}  # fields of the keys of stored rows


class Builder:
    """concrete argument builder: random and edge values, or recorded values (replay)"""

    concrete = True

    def __init__(self, seed=0, values=None, hints=None, scale=1):
        self.r = random.Random(seed)
        self.override = values or {}
        self.hints = hints or {}
        self.values = {}
        self.pool = []
        self.patches = []
        self.scale = scale
        self.echo = None
        self.fields = {}

    def _rec(self, name, gen):
        if name in self.override:
            v = self.override[name]
        elif name in self.hints:
            v = self.hints[name]
        else:
            v = gen()
            if name.rsplit("_", 1)[-1] in ECHOED and "_" in name:  # often the value an earlier row or argument has for the field
                if self.echo is None:
                    self.echo = self.r.choice([0.0, 0.5, 0.8, 0.95])
                seen = self.fields.get(name.rsplit("_", 1)[1])
                w = self.r.choice(seen) if seen else None
                if w is not None and type(w) is type(v) and self.r.random() < self.echo:
                    v = list(w) if isinstance(w, list) else w
        self.values[name] = v
        if "_" in name:
            self.fields.setdefault(name.rsplit("_", 1)[1], []).append(v)
        return v

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def _real(self, lo, hi, pos, nonneg):
        r = self.r
        if pos and lo is None:
            lo = 0
        if nonneg and lo is None:
            lo = 0
        for _ in range(100):
            if lo is not None and hi is not None:
                k = r.random()
                if k < 0.08:
                    v = float(lo)
                elif k < 0.16:
                    v = float(hi)
                elif k < 0.4:
                    v = lo + (hi - lo) * r.randint(0, 8) / 8
                else:
                    v = r.uniform(lo, hi)
            elif lo is not None or hi is not None:
                k = r.random()
                d = float(r.randint(0, 4)) if k < 0.3 else r.expovariate(1.0) if k < 0.8 else r.expovariate(0.1)
                if k < 0.04:
                    d = 0.0
                v = lo + d if lo is not None else hi - d
            else:
                k = r.random()
                v = float(r.randint(-4, 4)) if k < 0.3 else r.gauss(0, 1) if k < 0.7 else r.gauss(0.5, 4) if k < 0.95 else r.gauss(0, 300)
            if pos and not v > 0:
                continue
            return v
        return 1.0

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        def gen():
            if self.pool and self.r.random() < 0.25:
                v = self.r.choice(self.pool)
                if (lo is None or v >= lo) and (hi is None or v <= hi) and (not pos or v > 0) and (not nonneg or v >= 0):
                    return v
            v = self._real(lo, hi, pos, nonneg)
            self.pool.append(v)
            return v

        v = self._rec(name, gen)
        if name in self.hints and not within([v], lo, hi, pos, nonneg):
            raise Skip()
        return v

    def int(self, name, lo=None, hi=None, chi=None):
        def gen():
            a = lo if lo is not None else -5
            b = hi if hi is not None else max(a + 8 * self.scale, 6)
            if chi is not None:
                b = min(b, chi)
            return self.r.randint(int(a), int(b)) if self.r.random() < 0.9 else int(a)

        return self._rec(name, gen)

    def len(self, name, lo=0, hi=None, chi=None, rare=None):
        def gen():
            b = lo + 9 * self.scale
            if hi is not None:
                b = min(b, hi)
            if chi is not None:
                b = min(b, chi)
            if rare and self.r.random() < 0.04:
                return self.r.choice(rare)
            if hi is None and chi is None and self.r.random() < 0.03:
                b = lo + 120
            return self.r.randint(int(lo), max(int(lo), int(b)))

        return self._rec(name, gen)

    def bool(self, name):
        return self._rec(name, lambda: self.r.random() < 0.5)

    def strv(self, name):
        return self._rec(name, lambda: self.r.choice(["a", "b", "alpha", "KS_X", "CODE_1", ""]))

    def choice(self, name, options):
        return options[self._rec(name, lambda: self.r.randrange(len(options)))]

    def arr(self, name, n, kind="nd", lo=None, hi=None, pos=False, nonneg=False, distinct=False, sorted=False, integer=False):
        n = int(n)

        def gen():
            style = self.r.random()
            out = []
            seen = set()
            tries = 0
            while len(out) < n:
                tries += 1
                if integer:
                    a = lo if lo is not None else -4
                    b = hi if hi is not None else a + 8
                    v = self.r.randint(int(a), int(b) + (tries // 50))
                elif style < 0.25 and not (lo is not None and hi is not None):
                    base = lo if lo is not None else (hi - 6 if hi is not None else -3)
                    v = float(base + self.r.randint(1 if pos else 0, 6))
                    if distinct and v in seen:
                        v += self.r.random()
                elif style < 0.35 and out and not distinct and self.r.random() < 0.5:
                    v = self.r.choice(out)
                else:
                    v = self._real(lo, hi, pos, nonneg)
                if hi is not None and v > hi:
                    v = hi
                if pos and not v > 0:
                    continue
                if distinct and v in seen and tries < 2000:
                    continue
                seen.add(v)
                out.append(v)
            if sorted:
                out.sort()
            return out

        v = self._rec(name, gen)
        self.pool.extend(float(x) for x in list(v)[:20])
        if len(v) != n:
            v = (list(v) + [v[-1] if v else 0.5] * n)[:n]
            self.values[name] = v
        if distinct and len(set(v)) != len(v) or name in self.hints and not within(v, lo, hi, pos, nonneg):
            raise Skip()
        if sorted and any(a > b for a, b in zip(v, v[1:])):
            raise Skip()
        if kind == "list":
            return list(v)
        return np.array(v, dtype=int if integer else float)

    def permuted(self, name, x):
        """the elements of an array in any order"""
        def gen():
            o = [float(t) for t in x]
            self.r.shuffle(o)
            return o

        v = self._rec(name, gen)
        if sorted(v) != sorted(float(t) for t in x):
            raise Skip()
        return np.array(v) if isinstance(x, np.ndarray) else list(v)

    def strs(self, name, n):
        v = self._rec(name, lambda: [self.r.choice(["a", "b", "c", "KS_X", "CODE_1", "d", "e"]) for _ in range(int(n))])
        if len(v) != int(n):
            v = (list(v) + ["z"] * int(n))[: int(n)]
            self.values[name] = v
        return list(v)

    def objs(self, qual, n, name, **fields):
        out = []
        cols = {}
        for k, f in fields.items():
            if f == "str":
                cols[k] = self.strs(f"{name}.{k}", n)
            elif f == "int":
                cols[k] = [int(x) for x in self.arr(f"{name}.{k}", n, lo=0, hi=6, integer=True)]
            elif f in ("reals", "singles"):
                cols[k] = []
                for i in range(int(n)):
                    ln = self._rec(f"{name}.{k}.len.{i}", lambda: self.r.randint(0, 3))
                    if f == "reals" and self.r.random() < 0.8:  # repeated keys
                        cols[k].append(self._rec(f"{name}.{k}.{i}", lambda: [float(self.r.randint(0, 1)) for _ in range(min(ln, 1))]))
                    else:
                        v = [float(x) for x in self.arr(f"{name}.{k}.{i}", ln)]
                        cols[k].append([float(np.float32(x)) for x in v] if f == "singles" else v)
            elif f == "real":
                cols[k] = [float(x) for x in self.arr(f"{name}.{k}", n)]
            else:
                cols[k] = [f] * int(n)
        for i in range(int(n)):
            out.append(self.obj(qual, **{k: c[i] for k, c in cols.items()}))
        if out:
            i = self.r.randrange(len(out))
            for k, f in (("criterion_code", "code"), ("criterion_parameters", "par"), ("sample_size", "size"), ("monte_carlo_count", "mc"), ("experiment_id", "id")):
                if k in cols:
                    self.fields.setdefault(f, []).append(cols[k][i])
            if "criterion_parameters" in cols:
                self.fields.setdefault("npar", []).append(len(cols["criterion_parameters"][i]))
        return out

    def storage(self, rows=None):
        """a real storage over an in-memory SQLite database holding exactly the given models"""
        import json

        st = R("pysatl_criterion.persistence.sqlalchemy.datastorage:AlchemyLimitDistributionStorage")("sqlite:///:memory:")
        st.init()
        ORM = R("pysatl_criterion.persistence.sqlalchemy.models.limit_distribution_orm:LimitDistributionORM")
        seen = set()
        with st.Session() as s:
            for m in rows or []:
                key = (m.experiment_id, m.criterion_code, json.dumps(m.criterion_parameters), m.sample_size, m.monte_carlo_count)
                if key in seen:
                    raise Skip()
                seen.add(key)
                s.add(ORM(experiment_id=key[0], criterion_code=key[1], criterion_parameters=key[2], sample_size=key[3], monte_carlo_count=key[4],
                          results_statistics=m.results_statistics))
            s.commit()
        return st

    def rng(self):
        """a deterministic source of randomness: the streams of standardised draws start at their first value"""
        from scipy.stats._distn_infrastructure import rv_generic

        pos = {}

        def vals(name, shapes, loc, scale, size):
            shapes = [float(x) for x in shapes]
            if size is None or size == ():
                k = pos.get(name, 0)
                pos[name] = k + 1
                return loc + scale * draw(name, *shapes, k)
            n = int(np.prod(size))
            if n < 0:
                raise ValueError("negative dimensions are not allowed")
            k = pos.get(name, 0)
            pos[name] = k + n
            return (loc + scale * np.array([draw(name, *shapes, k + i) for i in range(n)], dtype=float)).reshape(size)

        def rvs(self, *args, **kwds):
            kwds.pop("random_state", None)
            args, loc, scale, size = self._parse_args_rvs(*args, **kwds)
            if not np.all(self._argcheck(*args)) or not np.all(np.asarray(scale) >= 0):
                raise ValueError("Domain error in arguments.")
            return vals(self.name, args, loc, scale, size)

        def choice(a, size=None, replace=True, p=None):
            if size is not None or p is None:
                raise Skip()
            p = [float(x) for x in p]
            if min(p) < 0 or abs(sum(p) - 1) > 1e-8:
                raise ValueError("probabilities")
            u = vals("uniform", [], 0.0, 1.0, None)
            t = 0.0
            for x, q in zip(a, p):
                t += q
                if u < t:
                    return x
            return list(a)[-1]

        self.patches.append((rv_generic, "rvs", rv_generic.rvs))
        rv_generic.rvs = rvs
        new = dict(choice=choice, normal=lambda loc=0.0, scale=1.0, size=None: vals("norm", [], loc, scale, size),
                   standard_normal=lambda size=None: vals("norm", [], 0.0, 1.0, size),
                   uniform=lambda low=0.0, high=1.0, size=None: vals("uniform", [], low, high - low, size),
                   random=lambda size=None: vals("uniform", [], 0.0, 1.0, size), random_sample=lambda size=None: vals("uniform", [], 0.0, 1.0, size),
                   rand=lambda *size: vals("uniform", [], 0.0, 1.0, size or None), exponential=lambda scale=1.0, size=None: vals("expon", [], 0.0, scale, size))
        for k, f in new.items():
            self.patches.append((np.random, k, getattr(np.random, k)))
            setattr(np.random, k, f)

    def column(self, single):
        return R("pysatl_criterion.persistence.sqlalchemy.alchemy_decorator:CompressedFloatArray")(use_float32=single)

    def obj(self, qual, **attrs):
        c = R(qual)
        o = object.__new__(_concrete_class(c))
        for k, v in attrs.items():
            o.__dict__[k] = v
        return o

    def stream(self, name, fn):
        return Stream(name, fn)

    def ghost(self, name, n, fn, integer=False):
        """a ghost sequence: arbitrary for the proof (constrained by pre), fn() in concrete executions"""
        return fn()

    def stub(self, qual, fn):
        """callee contract: calls of the function are answered by fn (and recorded under "call")"""
        import sys

        mod, name = qual.split(":")
        parts = name.split(".")
        owner = importlib.import_module(mod)
        for p in parts[:-1]:
            owner = getattr(owner, p)
        o = type("Stub", (), {})()
        log = o.__dict__["_pv_calls"] = {}
        o.__dict__["_pv_name"] = "stub:" + qual

        def rec(*a, **k):
            log.setdefault("call", []).append((a, k))
            return fn(*a, **k)

        orig = owner.__dict__[parts[-1]]
        if isinstance(owner, type):
            new = staticmethod(rec) if isinstance(orig, staticmethod) else classmethod(lambda cls, *a, **k: rec(*a, **k)) if isinstance(orig, classmethod) else rec
            self.patches.append((owner, parts[-1], orig))
            setattr(owner, parts[-1], new)
        else:
            for m in list(sys.modules.values()):
                d = getattr(m, "__dict__", None)
                if not d or not getattr(m, "__name__", "").startswith("pysatl"):
                    continue
                for k, v in list(d.items()):
                    if v is orig:
                        self.patches.append((m, k, orig))
                        setattr(m, k, rec)
        return o

    def undo(self):
        for o, k, v in reversed(self.patches):
            setattr(o, k, v)
        self.patches = []

    def collab(self, name, cls=None, methods=None, attrs=None):
        base = R(cls) if cls else object
        ns = {}
        for m in getattr(base, "__abstractmethods__", ()):
            ns[m] = None
        for k, v in (attrs or {}).items():
            ns[k] = v
        C = type("Collab_" + name, (base,), ns)
        C.__abstractmethods__ = frozenset()
        o = object.__new__(C)
        log = {}
        d = o.__dict__
        d["_pv_calls"] = log
        d["_pv_name"] = name
        d["_pv_cls"] = base.__name__

        def mk(mname, fn):
            def rec(*a, **k):
                log.setdefault(mname, []).append((a, k))
                return fn(*a, **k)

            return rec

        for mname, fn in (methods or {}).items():
            if mname.startswith("__"):
                setattr(C, mname, (lambda g: lambda self, *a, **k: g(*a, **k))(mk(mname, fn)))
            else:
                d[mname] = mk(mname, fn)
        return o


_cc = {}


def _concrete_class(c):
    if not getattr(c, "__abstractmethods__", None):
        return c
    if c not in _cc:
        k = type(c.__name__, (c,), {m: (lambda self, *a, **kw: None) for m in c.__abstractmethods__})
        _cc[c] = k
    return _cc[c]
