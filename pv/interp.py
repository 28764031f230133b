"""Symbolic executor for Python source (weakest-precondition style, path by path, no unrolling bound).

Loops over a symbolic number of iterations are summarised by *inferred inductive invariants*: the loop body
is executed once on an arbitrary iteration from an arbitrary state, the recurrence of every loop-carried
variable is solved (sum / product / max / min / or / and / last-value / append / indexed write), and the
closed form is the invariant (base case and step hold by construction of the recurrence).  When no closed
form is found the function is outside the verified subset (`Unsupported`)."""
from __future__ import annotations

import ast
from fractions import Fraction

from . import terms as tm
from .terms import T, num, ZERO, ONE, TRUE, FALSE
from .values import *
from .values import _serial

MAXPATHS = 400
MAXDEPTH = 60


class Env:
    __slots__ = ("vars", "parent", "module", "func", "cls", "self_", "globals_")

    def __init__(self, module, parent=None, func=None, cls=None, self_=None):
        self.vars, self.parent, self.module, self.func, self.cls, self.self_ = {}, parent, module, func, cls, self_
        self.globals_ = set()


class LoopRec:
    def __init__(self, serial):
        self.serial = serial
        self.events = []
        self.reads = []
        self.read_model = None


class Outcome:
    def __init__(self, cond, kind, value, facts):
        self.cond, self.kind, self.value, self.facts = cond, kind, value, facts


def _join(conds):
    """disjunction of path conditions, resolved on complementary literals"""
    sets = [dict((x.id, x) for x in (c.a if c.op == "and" else (c,))) for c in conds]
    again = True
    while again:
        again = False
        for i in range(len(sets)):
            for j in range(i + 1, len(sets)):
                a, b = sets[i], sets[j]
                da = [x for k, x in a.items() if k not in b]
                db = [x for k, x in b.items() if k not in a]
                if len(da) == len(db) == 1 and tm.not_(da[0]) is db[0]:
                    sets[i] = {k: x for k, x in a.items() if k in b}
                    del sets[j]
                    again = True
                    break
            if again:
                break
    return tm.or_(*[tm.and_(*d.values()) for d in sets])


def _group(alts):
    """join the paths that agree on the value"""
    groups: dict = {}
    for c, v in alts:
        groups.setdefault(v.id, (v, []))[1].append(c)
    if len(groups) == len(alts):
        return alts
    out = [(_join(cs), v) for v, cs in groups.values()]
    return sorted(out, key=lambda cv: cv[0].op == "or")


KNOWN_DECORATORS = {"override", "staticmethod", "classmethod", "property", "abstractmethod", "overload", "setter",
                    "cached_property", "lru_cache", "cache"}


def decorations(node):
    r = set()
    for d in getattr(node, "decorator_list", ()):
        d = d.func if isinstance(d, ast.Call) else d
        r.add(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?")
    return r


def own(v, name):
    """v and what it holds belong to name (a frame)"""
    todo, seen = [v], set()
    while todo:
        o = todo.pop()
        if id(o) in seen or getattr(o, "owner", None) is not None:
            continue
        seen.add(id(o))
        if isinstance(o, (SeqV, DictV)):
            o.owner = name
            todo.extend((o.items or []) if isinstance(o, SeqV) else o.items.values())
        elif isinstance(o, ObjV) and not o.cls.is_enum:
            o.owner = name
            todo.extend(o.attrs.values())
        elif isinstance(o, (tuple, list)):
            todo.extend(o)
        elif isinstance(o, dict):
            todo.extend(o.values())
    return v


class Interp:
    def __init__(self, prog, prover):
        self.prog = prog
        self.prover = prover
        self.pc = []  # list of (T, is_branch)
        self.dec, self.pos, self.pend = [], 0, []
        self.log = None
        self.loops = []
        self.mutated = {}
        self.counters = {}
        self.trace = []
        self.classes = {}
        self.depth = 0
        self.summaries = {}  # qualname -> fn(interp, func, args, kwargs) (callee contracts)
        self.used_summaries = set()
        self.used_functions = set()
        self.assumed = set()
        self.safety = []  # (description, goal) to be proved on the current path
        self.check_safety = False
        self.loop_specs, self.contract_env, self.invariants_proved, self.havocked = {}, {}, [], False
        self.nexplore = 0
        self.spec_mode = 0
        self.loop_calls = set()
        self.loaded = set()  # repository modules imported so far
        from . import lib

        self.lib = lib
        self.builtins = lib.make_builtins(self)
        self.ascending = set()  # sequences assumed to be ascending

    # ------------------------------------------------------------------ paths
    def pc_terms(self):
        return [t for t, _ in self.pc]

    def assume(self, t, branch=False):
        if t is TRUE:
            return
        if t is FALSE:
            raise Infeasible()
        self.pc.append((t, branch))

    def entails(self, c, timeout=400):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return self.prover.quick_entails(self.pc_terms(), c, timeout)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.pos < len(self.dec):
            d, forced = self.dec[self.pos]
            self.pos += 1
        else:
            nc = tm.not_(c)
            if self.entails(c):
                d, forced = True, True
            elif self.entails(nc):
                d, forced = False, True
            else:
                d, forced = True, False
                self.pend.append(self.dec[: self.pos] + [(False, False)])
            self.dec.append((d, forced))
            self.pos += 1
        if not forced:
            self.pc.append((c if d else tm.not_(c), True))
        return d

    def _undo(self):
        for u in reversed(self.log):
            u()

    def explore(self, thunk, assume=(), maxpaths=MAXPATHS):
        outs = []
        stack = [[]]
        saved = (self.dec, self.pos, self.pend, self.log, self.mutated, self.counters, self.trace)
        base = len(self.pc)
        n = 0
        nloops = len(self.loops)
        depth = self.depth
        self.nexplore += 1
        try:
            while stack:
                pre = stack.pop()
                n += 1
                if n > maxpaths:
                    raise Unsupported("too many paths")
                self.dec, self.pos, self.pend = list(pre), 0, stack
                self.log = []
                self.counters = dict(saved[5])
                self.trace = list(saved[6])
                m0 = None
                try:
                    for a in assume:
                        self.assume(a)
                    m0 = len(self.pc)
                    try:
                        v = thunk()
                        kind = "ok"
                    except PyExc as e:
                        kind, v = "exc", e
                        if not self.prover.feasible(self.pc_terms(), 1500):
                            raise Infeasible() from None
                    except ReturnS as e:
                        kind, v = "return", e.v
                    except BreakS:
                        kind, v = "break", getattr(self, "_snap", None)
                    except ContinueS:
                        kind, v = "continue", None
                    ents = self.pc[m0:]
                    cond = tm.and_(*[t for t, b in ents if b])
                    facts = [t for t, b in ents if not b]
                    outs.append(Outcome(cond, kind, v, facts))
                except Infeasible:
                    pass
                finally:
                    self._undo()
                    del self.pc[base:]
                    del self.loops[nloops:]
                    self.depth = depth
        finally:
            self.nexplore -= 1
            self.dec, self.pos, self.pend, self.log, mu, self.counters, self.trace = saved
        return outs

    def force(self, v):
        while isinstance(v, UnionV):
            for c, x in v.alts[:-1]:
                if self.branch(c):
                    v = x
                    break
            else:
                self.assume(v.alts[-1][0]) if False else None
                v = v.alts[-1][1]
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def merge(self, alts):
        """alts: list of (cond, value), conditions exhaustive and exclusive"""
        vals = [v for _, v in alts]
        if len(alts) == 1:
            return vals[0]
        if all(self.same(v, vals[0]) for v in vals[1:]):
            return vals[0]
        if all(is_num(v) for v in vals):
            alts = _group(alts)
            r = alts[-1][1]
            for c, v in reversed(alts[:-1]):
                r = tm.ite(c, v, r)
            return r
        if all(is_boolish(v) for v in vals):
            return tm.or_(*[tm.and_(c, to_bool_T(v)) for c, v in alts])
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self.merge([(c, v[k]) for c, v in alts]) for k in range(len(vals[0])))
        flat = []
        for c, v in alts:
            if isinstance(v, UnionV):
                flat.extend((tm.and_(c, c2), v2) for c2, v2 in v.alts)
            else:
                flat.append((c, v))
        return UnionV(flat)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (str, bool, int, type(None))) and type(a) is type(b):
            return a == b
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a is b
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return a.cls is b.cls and not a.attrs and not b.attrs and not a.cls.is_enum
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return False

    def pure(self, thunk, assume=()):
        """evaluate thunk on all paths and merge into one value; exceptions propagate by forking"""
        outs = self.explore(thunk, assume)
        if not outs:
            raise Infeasible()
        oks = [(o.cond, o.value) for o in outs if o.kind == "ok"]
        bad = [o for o in outs if o.kind != "ok"]
        for o in bad:
            if self.branch(o.cond):
                if o.kind == "exc":
                    raise o.value
                raise Unsupported("control flow out of expression")
        if not oks:
            raise Infeasible()
        for o in outs:
            if o.kind == "ok":
                for f in o.facts:
                    self.assume(tm.implies(o.cond, f))
        return self.merge(oks)

    # ------------------------------------------------------------------ program entities
    def module_get(self, mod, name):
        if name in mod.cache:
            return mod.cache[name]
        b = mod.bindings.get(name)
        if b is None:
            if "*" in mod.bindings:
                for base in mod.bindings["*"][1]:
                    if base in self.prog.modules:
                        try:
                            return self.module_get(self.prog.modules[base], name)
                        except KeyError:
                            pass
                    elif base == "speclib":
                        pass
            if self.run_dynamic(mod) and name in mod.cache:
                return mod.cache[name]
            raise KeyError(name)
        v = self._bind(mod, name, b)
        mod.cache[name] = v
        if b[0] == "assign":
            own(v, "@globals")
        return v

    def run_dynamic(self, mod):
        """executes the loops at the top level of a module, once"""
        if not mod.dynamic:
            return False
        todo, mod.dynamic = mod.dynamic, []
        saved = (self.log, self.loops, self.spec_mode, self.dec, self.pos, self.pend)
        self.log, self.loops, self.spec_mode, self.dec, self.pos, self.pend = None, [], 0, [], 0, []
        self.in_dynamic = getattr(self, "in_dynamic", 0) + 1
        try:
            for st in todo:
                self.exec(st, Env(mod))
        except BaseException:
            mod.dynamic = todo
            raise
        finally:
            self.in_dynamic -= 1
            self.log, self.loops, self.spec_mode, self.dec, self.pos, self.pend = saved
        return True

    def load_module(self, name):
        new = self.prog.import_closure(name) - self.loaded
        if new:
            self.loaded |= new
            if self.log is not None:
                self.log.append(lambda: self.loaded.difference_update(new))

    def _bind(self, mod, name, b):
        k = b[0]
        if k == "def":
            return FuncV(b[1], mod)
        if k == "class":
            return self.make_class(b[1], mod)
        if k == "mod":
            return self.resolve_module(b[1])
        if k == "from":
            base, attr = b[1], b[2]
            if base in self.prog.modules:
                try:
                    return self.module_get(self.prog.modules[base], attr)
                except KeyError:
                    if f"{base}.{attr}" in self.prog.modules:
                        return self.resolve_module(f"{base}.{attr}")
                    raise Unsupported(f"cannot resolve {base}.{attr}")
            if self.prog.is_package_prefix(f"{base}.{attr}"):
                return self.resolve_module(f"{base}.{attr}")
            c = self.lib.np_constant(self, f"{base}.{attr}")
            return ExtV(f"{base}.{attr}") if c is None else c
        if k == "assign":
            return self.eval(b[1], Env(mod))
        if k == "assign_item":
            return self.force(self.eval(b[1], Env(mod)))[b[2]]
        raise KeyError(name)

    def resolve_module(self, name):
        if self.prog.is_package_prefix(name):
            return ExtV("@" + name)
        return ExtV(name)

    def find_class(self, qual):
        modname, cname = qual.split(":")
        return self.module_get(self.prog.modules[modname], cname)

    def find_function(self, qual):
        modname, rest = qual.split(":")
        mod = self.prog.modules.get(modname)
        if mod is None:
            raise Unsupported(f"module {modname} not found")
        parts = rest.split(".")
        try:
            v = self.module_get(mod, parts[0])
        except KeyError:
            raise Unsupported(f"{qual} not found")
        for p in parts[1:]:
            v = self.class_lookup(v, p)
            if v is None:
                raise Unsupported(f"{qual} not found")
            v = v[0]
        return v

    def make_class(self, node, mod, outer=None):
        c = ClassV(node, mod)
        env = outer
        if outer is None:
            mod.cache[node.name] = c
            env = Env(mod)
        c.closure = outer
        for b in node.bases:
            bb = b
            if isinstance(b, ast.Subscript):
                bb = b.value
            try:
                v = self.eval(bb, env)
            except PyExc:
                v = ExtV("?")
            if isinstance(v, ClassV):
                c.bases.append(v)
                c.is_enum |= v.is_enum
                c.is_dataclass |= v.is_dataclass
            elif isinstance(v, ExtV):
                c.ext_bases.append(v.path)
                if v.path.split(".")[-1] in ("Enum", "StrEnum", "IntEnum"):
                    c.is_enum = True
        for d in node.decorator_list:
            dd = d.func if isinstance(d, ast.Call) else d
            nm = dd.id if isinstance(dd, ast.Name) else dd.attr if isinstance(dd, ast.Attribute) else ""
            if nm == "dataclass":
                c.is_dataclass = True
        c.mro = self._c3(c)
        cenv = Env(mod, outer)
        for st in node.body:
            self._class_stmt(c, st, cenv)
        # descriptors: __set_name__
        for k, v in list(c.attrs.items()):
            if isinstance(v, ObjV) and not c.is_enum and v.cls is not None:
                sn = self.class_lookup(v.cls, "__set_name__")
                if sn is not None:
                    self.call(BoundV(sn[0], v), [c, k], {})
        for v in c.attrs.values():
            if not c.is_enum:
                own(v, "@globals")
        return c

    def _class_stmt(self, c, st, cenv):
        mod = c.module
        if isinstance(st, ast.FunctionDef):
            kind = "function"
            for d in st.decorator_list:
                nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
                if nm in ("staticmethod", "classmethod", "property"):
                    kind = nm
                elif nm == "overload":
                    kind = "overload"
                elif nm == "setter":
                    kind = "setter"
                elif nm in ("cached_property",):
                    kind = "property"
            if kind == "overload":
                return
            f = FuncV(st, mod, c, c.closure, st.name, kind)
            if kind == "setter":
                c.attrs["@set:" + st.name] = f
            else:
                c.attrs[self.mangle(c, st.name)] = f
                cenv.vars[st.name] = f
        elif isinstance(st, ast.Assign):
            v = None
            for t in st.targets:
                if isinstance(t, ast.Name):
                    if c.is_enum and not t.id.startswith("_"):
                        try:
                            val = self.eval(st.value, cenv)
                        except (Unsupported, PyExc):
                            val = Poison("enum value")
                        m = ObjV(c, {"name": t.id, "value": val}, f"{c.name}.{t.id}")
                        c.members[t.id] = m
                        c.attrs[t.id] = m
                    else:
                        if v is None:
                            try:
                                v = self.eval(st.value, cenv)
                            except (Unsupported, PyExc) as e:
                                v = Poison(f"class attribute {t.id}: {e}")
                        c.attrs[self.mangle(c, t.id)] = v
                        cenv.vars[t.id] = v
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            if st.value is not None:
                try:
                    v = self.eval(st.value, cenv)
                except (Unsupported, PyExc) as e:
                    v = Poison(f"class attribute {st.target.id}: {e}")
                if isinstance(v, ExtV) and v.path == "sql.decl.mapped_column":
                    return
                c.attrs[self.mangle(c, st.target.id)] = v
                cenv.vars[st.target.id] = v
        elif isinstance(st, ast.ClassDef):
            c.attrs[st.name] = self.make_class(st, mod)

    def _c3(self, c):
        seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in s2[1:] for s2 in seqs):
                    break
            else:
                raise Unsupported("inconsistent MRO")
            out.append(h)
            for s in seqs:
                if s[0] is h:
                    s.pop(0)

    def class_lookup(self, c, name, after=None):
        mro = c.mro
        if after is not None:
            mro = mro[mro.index(after) + 1 :]
        for k in mro:
            if name in k.attrs:
                return k.attrs[name], k
        return None

    def mangle(self, cls, name):
        if name.startswith("__") and not name.endswith("__") and cls is not None:
            return f"_{cls.name.lstrip('_')}{name}"
        return name

    def isinstance_of(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance_of(v, x) for x in c)
        if isinstance(c, ClassV):
            if isinstance(v, ObjV):
                return c in v.cls.mro
            if isinstance(v, AbsV) and v.cls is not None:
                return c in v.cls.mro
            return False
        return self.lib.ext_isinstance(self, v, c)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.force(f)
        if isinstance(f, BuiltinV):
            return f.fn(args, kwargs) if self.spec_mode else self.lib.call_checked(self, f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtV):
            return self.lib.ext_call(self, f, args, kwargs)
        if isinstance(f, ObjV):
            m = self.class_lookup(f.cls, "__call__")
            if m:
                return self.call(BoundV(m[0], f), args, kwargs)
        raise Unsupported(f"call of {type(f).__name__}")

    def instantiate(self, c, args, kwargs):
        if c.is_enum:
            for m in c.members.values():
                if self.truth(self.eq(m.attrs["value"], args[0])):
                    return m
            raise PyExc("ValueError", ())
        if any(p.split(".")[-1] in ("Exception", "ValueError", "TypeError") for k in c.mro for p in k.ext_bases):
            return ObjV(c, {"args": tuple(args)}, "exception")
        o = ObjV(c)
        if self.owner_new is not None:
            o.owner = self.owner_new
        init = self.class_lookup(c, "__init__")
        if init is not None:
            self.call_func(init[0], [o] + list(args), kwargs)
        elif c.is_dataclass:
            self._dataclass_init(o, c, args, kwargs)
        elif c.ext_bases_all() if hasattr(c, "ext_bases_all") else self._ext_constructed(c):
            self.lib.construct_ext_subclass(self, o, c, args, kwargs)
        elif args or kwargs:
            raise PyExc("TypeError", ("constructor takes no arguments",))
        for k in c.mro:
            if k.is_dataclass:
                pi = self.class_lookup(c, "__post_init__")
                if pi is not None:
                    self.call_func(pi[0], [o], {})
                break
        return o

    owner_new = None

    def _ext_constructed(self, c):
        for k in c.mro:
            for p in k.ext_bases:
                if p.split(".")[-1] not in ("ABC", "Generic", "object", "Protocol", "?"):
                    return True
        return False

    def dataclass_fields(self, c):
        fields = {}
        for k in reversed(c.mro):
            if not k.is_dataclass:
                continue
            for st in k.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    ann = ast.unparse(st.annotation)
                    if "ClassVar" in ann:
                        continue
                    fields[st.target.id] = (st.value, k)
        return fields

    def _dataclass_init(self, o, c, args, kwargs):
        fields = self.dataclass_fields(c)
        names = list(fields)
        if len(args) > len(names):
            raise PyExc("TypeError", ("too many arguments",))
        given = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in fields or k in given:
                raise PyExc("TypeError", (f"unexpected argument {k}",))
            given[k] = v
        for k, (dflt, kc) in fields.items():
            if k in given:
                v = given[k]
            elif dflt is None:
                raise PyExc("TypeError", (f"missing argument {k}",))
            else:
                if isinstance(dflt, ast.Call) and isinstance(dflt.func, ast.Name) and dflt.func.id == "field":
                    kw = {q.arg: q.value for q in dflt.keywords}
                    if "default_factory" in kw:
                        v = self.call(self.eval(kw["default_factory"], Env(kc.module)), [], {})
                    elif "default" in kw:
                        v = self.eval(kw["default"], Env(kc.module))
                    else:
                        raise PyExc("TypeError", (f"missing argument {k}",))
                else:
                    v = self.eval(dflt, Env(kc.module))
            self.setattr_raw(o, k, v)

    def call_func(self, f, args, kwargs):
        if isinstance(f, (BuiltinV, ExtV, BoundV)):
            return self.call(f, args, kwargs)
        q = f.qualname
        s = self.summaries.get(q)
        if s is not None and not self.spec_mode:
            self.used_summaries.add(q)
            r = s(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if not self.spec_mode:
            self.used_functions.add(q)
        if self.depth > MAXDEPTH:
            raise Unsupported(f"recursion depth in {q}")
        node = f.node
        if decorations(node) - KNOWN_DECORATORS:
            raise Unsupported(f"decorator {sorted(decorations(node) - KNOWN_DECORATORS)}")
        env = Env(f.module, f.closure, f, f.cls, args[0] if args and f.cls is not None else None)
        self.bind_args(f, env, args, kwargs)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if _is_generator(node):
                return self._run_generator(node, env)
            self.exec_block(node.body, env)
            return None
        except ReturnS as r:
            return own(r.v, "@globals") if decorations(node) & {"lru_cache", "cache"} else r.v
        finally:
            self.depth -= 1

    def _run_generator(self, node, env):
        """eager: the values a side-effect free generator yields, in order"""
        ys = env.vars["@yields"] = [len(self.loops)]
        try:
            self.exec_block(node.body, env)
        except ReturnS:
            pass
        return SeqV("iter", ys[1:])

    def _yields(self, env):
        while "@yields" not in env.vars:
            env = env.parent
        ys = env.vars["@yields"]
        if len(self.loops) != ys[0]:
            raise Unsupported("yield in a symbolic loop")
        return ys

    def e_Yield(self, e, env):
        self._yields(env).append(None if e.value is None else self.eval(e.value, env))
        return None

    def e_YieldFrom(self, e, env):
        it = self.lib.iterate(self, self.eval(e.value, env))
        if not isinstance(it, list):
            raise Unsupported("yield from a sequence of symbolic length")
        self._yields(env).extend(it)
        return None

    def bind_args(self, f, env, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        vars_ = env.vars
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyExc("TypeError", (f"{f.name}: too many positional arguments",))
            vars_[a.vararg.arg] = tuple(args[len(pos) :])
            args = args[: len(pos)]
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vars_[n] = v
        extra = {}
        for k, v in kwargs.items():
            if k in vars_ and k in pos:
                raise PyExc("TypeError", (f"{f.name}: multiple values for {k}",))
            if k in pos or k in kwonly:
                vars_[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = DictV(extra)
        elif extra:
            raise PyExc("TypeError", (f"{f.name}: unexpected keyword {sorted(extra)}",))
        denv = f.closure if f.closure is not None else Env(f.module)
        if f.cls is not None:
            denv = Env(f.module, f.closure)
            denv.vars.update({k: v for k, v in f.cls.attrs.items()})
        nd = len(a.defaults)
        for k, d in zip(pos[len(pos) - nd :], a.defaults):
            if k not in vars_:
                vars_[k] = own(self.eval(d, denv), "@globals")
        for k, d in zip(kwonly, a.kw_defaults):
            if k not in vars_ and d is not None:
                vars_[k] = own(self.eval(d, denv), "@globals")
        for k in pos + kwonly:
            if k not in vars_:
                raise PyExc("TypeError", (f"{f.name}: missing argument {k}",))

    # ------------------------------------------------------------------ environment
    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                return v
            e = e.parent
        if name == "__name__":
            return env.module.name
        try:
            return self.module_get(env.module, name)
        except KeyError:
            pass
        if name in self.builtins:
            return self.builtins[name]
        if env.module.name.startswith("specs."):
            b = self.lib.spec_builtin(self, name)
            if b is not None:
                return b
        if name in self.lib.EXC_NAMES:
            return ExtV("builtins." + name)
        if name in ("__class__",):
            return env.cls
        raise PyExc("NameError", (name,))

    def setvar(self, env, name, v):
        e = env
        if name in env.globals_:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported("global assignment")
        if self.log is not None:
            old = e.vars.get(name, _MISSING)

            def undo(e=e, name=name, old=old):
                if old is _MISSING:
                    e.vars.pop(name, None)
                else:
                    e.vars[name] = old

            self.log.append(undo)
        e.vars[name] = v

    # ------------------------------------------------------------------ attribute access
    def getattr(self, o, name, cls_ctx=None):
        o = self.force(o)
        name = self.mangle(cls_ctx, name)
        if isinstance(o, ObjV):
            c = o.cls
            hit = self.class_lookup(c, name) if c is not None else None
            if hit is not None and isinstance(hit[0], ObjV) and not c.is_enum:
                g = self.class_lookup(hit[0].cls, "__get__")
                if g is not None:
                    return self.call(BoundV(g[0], hit[0]), [o, c], {})
            if hit is not None and isinstance(hit[0], FuncV) and hit[0].kind == "property":
                return self.call_func(hit[0], [o], {})
            if name in o.attrs:
                return self.force_soft(o.attrs[name])
            if hit is not None:
                return self._bind_attr(hit[0], o, c)
            if name == "__class__":
                return c
            if name == "__dict__":
                return DictV(o.attrs)
            r = self.lib.obj_attr(self, o, name)
            if r is not NotImplemented:
                return r
            ga = self.class_lookup(c, "__getattr__") if c else None
            if ga:
                return self.call_func(ga[0], [o, name], {})
            if c is not None and self._ext_constructed(c):
                return self.lib.ext_subclass_attr(self, o, c, name)
            raise PyExc("AttributeError", (name,))
        if isinstance(o, ClassV):
            if o.is_enum and name == "__members__":
                return DictV(o.members)
            hit = self.class_lookup(o, name)
            if hit is not None:
                v = hit[0]
                if isinstance(v, FuncV):
                    if v.kind == "classmethod":
                        return BoundV(v, o)
                    return v
                if isinstance(v, ObjV) and not o.is_enum:
                    g = self.class_lookup(v.cls, "__get__")
                    if g is not None:
                        return self.call(BoundV(g[0], v), [None, o], {})
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__subclasses__":
                return BuiltinV("__subclasses__", lambda a, k: self.subclasses(o))
            if name == "__module__":
                return o.module.name
            if name == "__init__":
                return BuiltinV("object.__init__", lambda a, k: None)
            return self.lib.class_attr(self, o, name)
        if isinstance(o, SuperV):
            if o.obj is None:
                return BuiltinV("super-unbound." + name, lambda a, k: None)
            c = o.obj.cls if isinstance(o.obj, ObjV) else o.obj if isinstance(o.obj, ClassV) else None
            if c is None and isinstance(o.obj, AbsV):
                c = o.obj.cls
            if c is None:
                raise Unsupported("super() of unknown object")
            hit = self.class_lookup(c, name, after=o.cls)
            if hit is None:
                if name == "__init__":
                    if self._ext_constructed(c):
                        return BuiltinV("ext.__init__", lambda a, k: self.lib.construct_ext_subclass(self, o.obj, c, a, k))
                    return BuiltinV("object.__init__", lambda a, k: None)
                raise PyExc("AttributeError", (name,))
            return self._bind_attr(hit[0], o.obj, c)
        if isinstance(o, AbsV):
            return self.lib.abs_attr(self, o, name)
        if isinstance(o, ExtV):
            return self.lib.ext_attr(self, o, name)
        if isinstance(o, FuncV):
            if name == "__name__":
                return o.name
        return self.lib.value_attr(self, o, name)

    def force_soft(self, v):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def _bind_attr(self, v, o, c):
        if isinstance(v, FuncV):
            if v.kind == "staticmethod":
                return v
            if v.kind == "classmethod":
                return BoundV(v, c)
            if v.kind == "property":
                return self.call_func(v, [o], {})
            if isinstance(o, ClassV):
                return v
            return BoundV(v, o)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def subclasses(self, c):
        """direct subclasses among the modules of the repository, in module/definition order"""
        out = []
        for mn, m in self.prog.modules.items():
            if mn.startswith("specs."):
                continue
            if mn not in self.loaded:
                continue
            self.run_dynamic(m)
            for nm, b in list(m.bindings.items()):
                if b[0] in ("class", "dynamic"):
                    try:
                        k = self.module_get(m, nm)
                    except (Unsupported, PyExc):
                        continue
                    if isinstance(k, ClassV) and c in k.bases:
                        out.append(k)
        return SeqV("list", out)

    def setattr_raw(self, o, name, v):
        if self.log is not None:
            old = o.attrs.get(name, _MISSING)

            def undo(o=o, name=name, old=old):
                if old is _MISSING:
                    o.attrs.pop(name, None)
                else:
                    o.attrs[name] = old

            self.log.append(undo)
        if o.owner is not None:
            self.note_mutation(o.owner + "." + name)
        o.attrs[name] = v

    def setattr(self, o, name, v, cls_ctx=None):
        o = self.force(o)
        name = self.mangle(cls_ctx, name)
        if isinstance(o, ObjV):
            if o.cls is not None:
                hit = self.class_lookup(o.cls, name)
                if hit is not None and isinstance(hit[0], ObjV) and not o.cls.is_enum:
                    s = self.class_lookup(hit[0].cls, "__set__")
                    if s is not None:
                        self.call(BoundV(s[0], hit[0]), [o, v], {})
                        return
                st = self.class_lookup(o.cls, "@set:" + name)
                if st is not None:
                    self.call_func(st[0], [o, v], {})
                    return
            if self.loops and o.serial < self.loops[-1].serial:
                raise Unsupported("attribute write on an outer object inside a symbolic loop")
            self.setattr_raw(o, name, v)
            return
        if isinstance(o, AbsV):
            raise Unsupported("attribute write on abstract object")
        if isinstance(o, ClassV) and name in ("__name__", "__qualname__") and getattr(self, "in_dynamic", 0):
            o.name = self.force(v)
            return
        if isinstance(o, ExtV) and o.path.startswith("@") and getattr(self, "in_dynamic", 0):
            m = self.prog.modules[o.path[1:]]
            m.cache[name] = self.force(v)
            m.bindings[name] = ("dynamic",)
            return
        raise Unsupported(f"attribute write on {type(o).__name__}")

    def note_mutation(self, what):
        if what.startswith("@globals") and not getattr(self, "in_dynamic", 0) and not self.spec_mode:
            raise Unsupported("state shared between calls (module, class or default-argument container) is modified")
        self.mutated.setdefault(what, []).append(tm.and_(*[t for t, b in self.pc if b]))

    # ------------------------------------------------------------------ sequences: mutation and access
    def seq_touch(self, s, what):
        """called before mutating s"""
        if s.owner is not None:
            self.note_mutation(s.owner)
        b = s.base
        while b is not None:
            if b.owner is not None:
                self.note_mutation(b.owner)
            if self.log is not None:
                old = b.poison
                self.log.append(lambda b=b, old=old: setattr(b, "poison", old))
            b.poison = "content changed through a numpy view"
            b = b.base

    def seq_assign(self, s, items=None, n=None, getf=None, term=None):
        """replace the content of s"""
        if self.log is not None:
            old = (s.items, s.n, s.getf, s.term)

            def undo(s=s, old=old):
                s.items, s.n, s.getf, s.term = old

            self.log.append(undo)
        s.items, s.n, s.getf, s.term = items, n, getf, term

    def outer_loop_for(self, s):
        if self.loops and s.serial < self.loops[-1].serial:
            return self.loops[-1]
        return None

    def seq_get(self, s, idx):
        """element at (already normalised, in range) index term"""
        if s.poison:
            raise Unsupported(s.poison)
        lr = self.outer_loop_for(s)
        if lr is not None:
            r = lr.read(self, s, idx) if hasattr(lr, "read") else None
            if r is not None:
                return r
            lr.reads.append((s, idx))
        if s.items is not None:
            if tm.is_num(idx):
                return s.items[int(tm.numval(idx))]
            if not s.items:
                raise PyExc("IndexError", ())
            return self._ite_items(s.items, idx)
        return s.getf(idx)

    def _ite_items(self, items, idx):
        if len(items) > 64:
            raise Unsupported("symbolic index into a long concrete list")
        alts = []
        for k, v in enumerate(items):
            alts.append((tm.eq(idx, num(k)), v))
        if all(is_num(v) for v in items):
            r = items[-1]
            for c, v in reversed(alts[:-1]):
                r = tm.ite(c, v, r)
            return r
        return UnionV(alts)

    def norm_index(self, s, idx):
        n = s.length()
        if isinstance(idx, bool):
            idx = num(int(idx))
        if not is_num(idx):
            raise Unsupported(f"index {idx}")
        if tm.is_num(idx) and not idx.isint:
            raise PyExc("TypeError", ("non-integer index",))
        # sign of the index
        if tm.nonneg(idx):
            isneg = False
        elif tm.positive(tm.neg(idx)):
            isneg = True
        elif tm.is_num(idx):
            isneg = tm.numval(idx) < 0
        elif idx.op == "app" and idx.a[0] in ("argmax", "argmin"):
            return idx
        elif idx.op == "sel" and idx.a[0].op == "sapp" and idx.a[0].a[0] in ("argsort", "rank"):
            return idx
        else:
            isneg = not self.branch(tm.ge(idx, ZERO))
        if isneg:
            idx = tm.add(n, idx)
            if not self.branch(tm.ge(idx, ZERO)):
                raise PyExc("IndexError", ())
            return idx
        if not self.branch(tm.lt(idx, n)):
            raise PyExc("IndexError", ())
        return idx

    def seq_set(self, s, idx, v):
        if s.kind == "tuple":
            raise PyExc("TypeError", ("tuple assignment",))
        self.seq_touch(s, "set")
        lr = self.outer_loop_for(s)
        if lr is not None:
            lr.events.append(("set", s, idx, v))
            return
        if s.items is not None and tm.is_num(idx):
            items = list(s.items)
            items[int(tm.numval(idx))] = v
            self.seq_assign(s, items)
            return
        n, old = s.length(), s.getf
        if s.items is not None:
            items = list(s.items)
            old = lambda i: self._ite_items(items, i)

        def getf(i, old=old, idx=idx, v=v):
            c = tm.eq(i, idx)
            if c is TRUE:
                return v
            if c is FALSE:
                return old(i)
            return self.merge([(c, v), (tm.not_(c), old(i))])

        self.seq_assign(s, None, n, getf)

    def seq_append(self, s, v):
        if s.kind == "nd":
            raise PyExc("AttributeError", ("append",))
        self.seq_touch(s, "append")
        lr = self.outer_loop_for(s)
        if lr is not None:
            lr.events.append(("append", s, None, v))
            return
        if s.items is not None:
            self.seq_assign(s, s.items + [v])
            return
        n, old = s.n, s.getf

        def getf(i, old=old, n=n, v=v):
            c = tm.eq(i, n)
            if c is TRUE:
                return v
            if c is FALSE or tm.positive(tm.sub(n, i)):
                return old(i)
            return self.merge([(c, v), (tm.not_(c), old(i))])

        self.seq_assign(s, None, tm.add(n, ONE), getf)

    def reify(self, s):
        """sequence term of a SeqV with scalar elements"""
        if s.poison:
            raise Unsupported(s.poison)
        if s.term is not None:
            return s.term
        if s.items is not None:
            n = num(len(s.items))
            v = tm.fresh("r")
            if not s.items:
                return tm.ssym("empty", ZERO)
            vals = [x for x in s.items]
            if all(is_num(x) for x in vals):
                return tm.sapp("vec", n, *vals)
            if all(is_boolish(x) for x in vals):
                return tm.sapp("vec", n, *[to_bool_T(x) for x in vals], elem="B")
            if all(isinstance(x, str) or (isinstance(x, T) and x.kind == "O") for x in vals):
                return tm.sapp("vec", n, *[tm.strc(x) if isinstance(x, str) else x for x in vals], elem="O")
            raise Unsupported("reify of a mixed list")
        v = tm.fresh("r")
        val = self.pure(lambda: self.scalar(s.getf(v)), [tm.ge(v, ZERO), tm.lt(v, s.n)])
        t = tm.lam(s.n, v, val)
        s.term = t
        return t

    def scalar(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return tm.boolc(v)
        if isinstance(v, T):
            return v
        if isinstance(v, str):
            return tm.strc(v)
        if isinstance(v, SeqV):
            if v.items is not None and len(v.items) == 1 and v.kind == "nd":
                return self.scalar(v.items[0])
            return self.reify(v)
        if isinstance(v, tuple):
            return self.reify(SeqV("tuple", list(v)))
        raise Unsupported(f"scalar expected, got {type(v).__name__}")

    def seqmap(self, s, f, kind=None):
        if s.poison:
            raise Unsupported(s.poison)
        kind = kind or s.kind
        if s.items is not None:
            return SeqV(kind, [f(x) for x in s.items])
        v = tm.fresh("m")
        body = self.pure(lambda: f(s.getf(v)), [tm.ge(v, ZERO), tm.lt(v, s.n)])
        return self.seq_from_body(kind, s.n, v, body)

    def seq_from_body(self, kind, n, v, body):
        if isinstance(body, bool):
            body = tm.boolc(body)
        if isinstance(body, T):
            t = tm.lam(n, v, body)
            return SeqV(kind, None, n, lambda i: tm.sel(t, i), t)
        return SeqV(kind, None, n, lambda i: subst_value(body, {v: i}))

    # ------------------------------------------------------------------ truth, comparison
    def truth(self, v):
        v = self.force(v)
        return self.branch(self.truth_T(v))

    def truth_T(self, v):
        v = self.force(v)
        if v is None:
            return FALSE
        if isinstance(v, bool):
            return tm.boolc(v)
        if isinstance(v, T):
            if v.kind == "B":
                return v
            if v.kind == "N":
                return tm.not_(tm.eq0(v))
            if v.op == "str":
                return tm.boolc(bool(v.a[0]))
            return tm.bapp("nonempty", v)
        if isinstance(v, str):
            return tm.boolc(bool(v))
        if isinstance(v, tuple):
            return tm.boolc(bool(v))
        if isinstance(v, SeqV):
            if v.kind == "nd":
                n = v.length()
                if self.branch(tm.eq(n, ONE)):
                    return self.truth_T(self.seq_get(v, ZERO))
                raise PyExc("ValueError", ("truth value of an array is ambiguous",))
            return tm.gt(v.length(), ZERO)
        if isinstance(v, DictV):
            return tm.boolc(bool(v.items))
        if isinstance(v, SetV) and v.items is not None:
            return tm.boolc(bool(v.items))
        if isinstance(v, (ObjV, AbsV, ClassV, FuncV, BoundV, ExtV, BuiltinV)):
            if isinstance(v, ObjV):
                m = self.class_lookup(v.cls, "__bool__") or self.class_lookup(v.cls, "__len__")
                if m:
                    return self.truth_T(self.call_func(m[0], [v], {}))
            return TRUE
        raise Unsupported(f"truth of {type(v).__name__}")

    def eq(self, a, b):
        """== as a bool term"""
        a, b = self.force(a), self.force(b)
        if isinstance(a, bool) and is_num(b):
            a = num(int(a))
        if isinstance(b, bool) and is_num(a):
            b = num(int(b))
        if is_boolish(a) and is_boolish(b):
            return tm.eq(to_bool_T(a), to_bool_T(b))
        if isinstance(a, T) and isinstance(b, T):
            if a.kind != b.kind:
                return FALSE
            return tm.eq(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return tm.boolc(a == b)
        if isinstance(a, str) and isinstance(b, T) and b.kind == "O":
            return tm.eq(tm.strc(a), b)
        if isinstance(b, str) and isinstance(a, T) and a.kind == "O":
            return tm.eq(a, tm.strc(b))
        if a is None or b is None:
            return tm.boolc(a is b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return tm.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return self.seq_eq(a, b)
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            if a is b:
                return TRUE
            if a.cls is b.cls and a.cls.is_dataclass and not a.cls.is_enum:
                return tm.and_(*[self.eq(a.attrs[k], b.attrs[k]) for k in self.dataclass_fields(a.cls)])
            if not a.cls.is_enum:
                m = self.class_lookup(a.cls, "__eq__")
                if m:
                    return self.truth_T(self.call_func(m[0], [a, b], {}))
                if a.attrs.get("@id") is not None and b.attrs.get("@id") is not None:
                    return self.eq(a.attrs["@id"], b.attrs["@id"])
            return FALSE
        if isinstance(a, (ClassV, AbsV, ExtV, FuncV)) or isinstance(b, (ClassV, AbsV, ExtV, FuncV)):
            if isinstance(a, ExtV) and isinstance(b, ExtV):
                return tm.boolc(a is b or (a.path == b.path and a.data is None and b.data is None))
            return tm.boolc(a is b)
        if isinstance(a, DictV) and isinstance(b, DictV):
            if set(a.items) != set(b.items):
                return FALSE
            return tm.and_(*[self.eq(a.items[k], b.items[k]) for k in a.items])
        if type(a) is not type(b):
            return FALSE
        raise Unsupported(f"== on {type(a).__name__}, {type(b).__name__}")

    def seq_eq(self, a, b):
        na, nb = a.length(), b.length()
        ne = tm.eq(na, nb)
        if ne is FALSE:
            return FALSE
        if a.items is not None and b.items is not None:
            return tm.and_(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
        v = tm.fresh("q")
        body = self.pure(
            lambda: self.eq(self._get_any(a, v), self._get_any(b, v)),
            [tm.ge(v, ZERO), tm.lt(v, na), ne],
        )
        return tm.and_(ne, tm.quant("all", na, v, to_bool_T(body)))

    def _get_any(self, s, i):
        if s.items is not None:
            return self._ite_items(s.items, i) if s.items else ZERO
        return s.getf(i)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        try:
            m(st, env)
        except tm.TooBig as e:
            raise Unsupported(str(e))

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Global(self, st, env):
        env.globals_.update(st.names)

    x_Nonlocal = x_Global

    def x_Import(self, st, env):
        for al in st.names:
            self.setvar(env, al.asname or al.name.split(".")[0], self.resolve_module(al.name if al.asname else al.name.split(".")[0]))

    def x_ImportFrom(self, st, env):
        base = env.module._resolve_from(st)
        for al in st.names:
            self.setvar(env, al.asname or al.name, self._bind(env.module, al.name, ("from", base, al.name)))

    def x_Return(self, st, env):
        raise ReturnS(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise BreakS()

    def x_Continue(self, st, env):
        raise ContinueS()

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyExc("AssertionError")

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                continue
            raise Unsupported("del")

    def x_FunctionDef(self, st, env):
        self.setvar(env, st.name, FuncV(st, env.module, None, env, st.name))

    def x_ClassDef(self, st, env):
        self.setvar(env, st.name, self.make_class(st, env.module, env))

    def x_If(self, st, env):
        # a side-effect-free two-armed assignment of scalars is kept on one path only when needed;
        # paths are merged again at the end of enclosing loop bodies
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "_cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        e = self.force(self.eval(st.exc, env))
        if isinstance(e, ExtV):
            if e.path == "builtins.@exc":
                raise PyExc(e.data[0], e.data[1])
            raise PyExc(e.path.split(".")[-1])
        if isinstance(e, ObjV):
            raise PyExc(e.cls, e.attrs.get("args", ()), e)
        if isinstance(e, ClassV):
            raise PyExc(e)
        raise Unsupported("raise of unknown value")

    def exc_matches(self, pe, h, env):
        if h.type is None:
            return True
        t = self.force(self.eval(h.type, env))
        return self._exc_is(pe, t)

    def _exc_is(self, pe, t):
        if isinstance(t, tuple):
            return any(self._exc_is(pe, x) for x in t)
        if isinstance(t, ExtV):
            nm = t.path.split(".")[-1]
            if nm in ("Exception", "BaseException"):
                return True
            names = [pe.name]
            if isinstance(pe.etype, ClassV):
                names = [k.name for k in pe.etype.mro] + [p.split(".")[-1] for k in pe.etype.mro for p in k.ext_bases]
            parents = {
                "IndexError": ["LookupError"],
                "KeyError": ["LookupError"],
                "ZeroDivisionError": ["ArithmeticError"],
                "OperationalError": ["SQLAlchemyError", "DBAPIError"],
                "MultipleResultsFound": ["SQLAlchemyError"],
            }
            for n in names:
                if n == nm or nm in parents.get(n, []):
                    return True
            if pe.name == "AnyError":
                # an unspecified failure of an external call: may or may not be of the handled type
                return self.branch(tm.bapp("exc_is_" + nm, tm.osym("exc")))
            return False
        if isinstance(t, ClassV):
            return isinstance(pe.etype, ClassV) and t in pe.etype.mro
        raise Unsupported("except type")

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as pe:
                for h in st.handlers:
                    if self.exc_matches(pe, h, env):
                        if h.name:
                            self.setvar(env, h.name, pe.obj if pe.obj is not None else ExtV("builtins.@exc", (pe.name, pe.eargs)))
                        prev = getattr(self, "_cur_exc", None)
                        self._cur_exc = pe
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self._cur_exc = prev
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (ReturnS, BreakS, ContinueS, PyExc):
            self.exec_block(st.finalbody, env)
            raise
        else:
            self.exec_block(st.finalbody, env)

    def x_With(self, st, env):
        exits = []
        for it in st.items:
            cm = self.force(self.eval(it.context_expr, env))
            v = self.lib.enter_context(self, cm)
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.exec_block(st.body, env)
        except (PyExc, ReturnS, BreakS, ContinueS):
            for cm in reversed(exits):
                self.lib.exit_context(self, cm)
            raise
        for cm in reversed(exits):
            self.lib.exit_context(self, cm)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.force_soft(self.lookup(env, t.id))
            v = self.eval(st.value, env)
            self.setvar(env, t.id, self.aug(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, env))
            idx = self.eval_index(t.slice, env)
            cur = self.getitem(o, idx)
            v = self.eval(st.value, env)
            self.setitem(o, idx, self.aug(st.op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, env))
            cur = self.getattr(o, t.attr, env_cls(env))
            v = self.eval(st.value, env)
            self.setattr(o, t.attr, self.aug(st.op, cur, v), env_cls(env))
        else:
            raise Unsupported("augmented assignment target")

    def aug(self, op, cur, v):
        cur = self.force(cur)
        v = self.force(v)
        if isinstance(cur, SeqV) and cur.kind == "nd":
            r = self.binop(op, cur, v)
            self.seq_touch(cur, "aug")
            if self.outer_loop_for(cur) is not None:
                return r
            self.seq_assign(cur, r.items, r.n, r.getf, r.term)
            return cur
        if isinstance(cur, SeqV) and cur.kind == "list" and isinstance(op, ast.Add):
            self.lib.list_extend(self, cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t.elts)
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, x, env)
                else:
                    self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, env))
            idx = self.eval_index(t.slice, env)
            self.setitem(o, idx, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, v, env_cls(env))
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, elts=()):
        v = self.force(v)
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            if isinstance(v, SeqV) and v.items is not None:
                v = tuple(v.items)
            if not isinstance(v, tuple):
                raise Unsupported("starred unpack")
            k = star[0]
            tail = n - k - 1
            mid = SeqV("list", list(v[k : len(v) - tail]))
            return list(v[:k]) + [mid] + list(v[len(v) - tail :])
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc("ValueError", ("unpack",))
            return list(v)
        if isinstance(v, SeqV):
            if v.items is not None:
                if len(v.items) != n:
                    raise PyExc("ValueError", ("unpack",))
                return list(v.items)
            if self.branch(tm.eq(v.n, num(n))):
                return [v.getf(num(k)) for k in range(n)]
            raise PyExc("ValueError", ("unpack",))
        raise Unsupported(f"unpack {type(v).__name__}")

    def setitem(self, o, idx, v):
        if isinstance(o, DictV):
            self.lib.dict_set(self, o, idx, v)
            return
        if isinstance(o, SeqV):
            if isinstance(idx, SliceV):
                self.lib.slice_assign(self, o, idx, v)
                return
            if isinstance(idx, tuple):
                if len(idx) == 2:
                    row = self.getitem(o, idx[0])
                    self.setitem(row, idx[1], v)
                    return
                raise Unsupported("multi-dimensional assignment")
            idx = self.force(idx)
            if isinstance(idx, SeqV):
                self.lib.mask_assign(self, o, idx, v)
                return
            self.seq_set(o, self.norm_index(o, idx), v)
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def getitem(self, o, idx):
        o = self.force(o)
        idx = self.force(idx) if not isinstance(idx, (SliceV, tuple)) else idx
        if isinstance(o, ClassV) and o.is_enum and isinstance(idx, str):
            if idx in o.members:
                return o.members[idx]
            raise PyExc("KeyError", ())
        if isinstance(o, tuple):
            if isinstance(idx, SliceV):
                lo, hi, st = [None if x is None else int(tm.numval(x)) for x in (idx.lo, idx.hi, idx.step)]
                return o[slice(lo, hi, st)]
            if is_num(idx) and tm.is_num(idx):
                k = int(tm.numval(idx))
                if not -len(o) <= k < len(o):
                    raise PyExc("IndexError", ())
                return o[k]
            return self.getitem(SeqV("tuple", list(o)), idx)
        if isinstance(o, SeqV):
            if isinstance(idx, SliceV):
                return self.lib.slice_get(self, o, idx)
            if isinstance(idx, tuple):
                return self.lib.nd_index(self, o, idx)
            if isinstance(idx, SeqV):
                return self.lib.fancy_index(self, o, idx)
            if idx is None:
                return self.lib.nd_index(self, o, (None,))
            # selecting the arg-extremum of the same sequence
            if isinstance(idx, T) and idx.op == "app" and idx.a[0] in ("argmax", "argmin"):
                t = self.reify(o)
                if t is idx.a[1]:
                    return self.lib.seq_max(self, o) if idx.a[0] == "argmax" else self.lib.seq_min(self, o)
            i = self.norm_index(o, idx)
            return self.seq_get(o, i)
        if isinstance(o, DictV):
            return self.lib.dict_get(self, o, idx)
        if isinstance(o, str):
            if isinstance(idx, SliceV):
                lo, hi, st = [None if x is None else int(tm.numval(x)) for x in (idx.lo, idx.hi, idx.step)]
                return o[slice(lo, hi, st)]
            return o[int(tm.numval(idx))]
        if isinstance(o, ClassV) or isinstance(o, BuiltinV) and o.name in ("type", "list", "dict", "tuple", "set", "frozenset"):
            return o  # Generic[...]
        if isinstance(o, ExtV):
            return self.lib.ext_getitem(self, o, idx)
        if isinstance(o, AbsV):
            return self.lib.abs_getitem(self, o, idx)
        if isinstance(o, ObjV):
            m = self.class_lookup(o.cls, "__getitem__")
            if m:
                return self.call_func(m[0], [o, idx], {})
        raise Unsupported(f"subscript of {type(o).__name__}")

    # ------------------------------------------------------------------ loops
    def loop_invariant(self, st, env):
        """the invariant annotated for this loop in the contract under verification, if any"""
        if not self.loop_specs or self.spec_mode:
            return None
        e = env
        while e is not None and e.func is None:
            e = e.parent
        if e is None:
            return None
        q = e.func.qualname
        for key, fns in self.loop_specs.items():
            if q.endswith(":" + key):
                loops = _loops_of(e.func.node)
                if len(loops) != len(fns):
                    raise Unsupported(f"{key}: {len(loops)} loops, invariants are annotated for {len(fns)}")
                return fns[[x is st for x in loops].index(True)] if any(x is st for x in loops) else None
        return None

    def invariant_terms(self, f, env, k):
        """the clauses of an annotated invariant in the current state"""
        args = []
        for a in f.node.args.args:
            if a.arg == "done":
                if k is None:
                    raise Unsupported("`done` counts the iterations of a for loop")
                args.append(k)
                continue
            try:
                v = self.force(self.lookup_local(env, a.arg))
            except KeyError:
                if a.arg not in self.contract_env:
                    raise Unsupported(f"loop invariant over an unknown variable {a.arg}") from None
                v = self.contract_env[a.arg]
            args.append(v)
        self.spec_mode += 1
        try:
            return to_bool_T(self.pure(lambda: self.truth_T(self.call_func(f, args, {}))))
        finally:
            self.spec_mode -= 1

    def establish(self, f, env, k, what):
        goal = self.invariant_terms(f, env, k)
        pc = self.pc_terms()
        ok = self.prover.prove(pc, goal, budget=60)
        name = f"{f.name} {what}"
        self.invariants_proved.append(name)
        if not ok:
            raise Unsupported(f"loop invariant not established: {name}: {tm.show(goal)[:400]}")

    def annotated_loop(self, st, env, f, seq):
        """Hoare rule: established on entry, kept by an arbitrary iteration, used after the loop (partial correctness)"""
        if self.nexplore != 1 or any(not getattr(r, "annotated", False) for r in self.loops):
            raise Unsupported("annotated loop inside a summarised expression or loop")
        n, getf = (seq.length(), seq.getf) if seq is not None else (None, None)
        self.establish(f, env, ZERO if seq is not None else None, "holds on entry")
        targets = set(_target_names(st.target)) if seq is not None else set()
        names = sorted(_assigned(st.body) | targets)
        counters, ntrace = dict(self.counters), len(self.trace)
        lr = LoopRec(next(_serial))
        lr.read = lambda it, s, idx: None
        lr.annotated = True
        after = not self.branch(tm.fresh_bool("iterate"))
        for nm in names:
            try:
                v = self.lookup_local(env, nm)
            except KeyError:
                continue
            v = self._unu(v)
            if nm in targets and nm not in _assigned(st.body):
                v = None
            if is_num(v):
                self.setvar(env, nm, tm.fresh("h_" + nm, v.isint))
            elif is_boolish(v):
                self.setvar(env, nm, tm.fresh_bool("h_" + nm))
            else:
                self.setvar(env, nm, Poison(f"{nm} is not a number: no invariant"))
        kinds = {nm: v.isint for nm, v in ((nm, env.vars.get(nm)) for nm in names) if is_num(v)}
        self.havocked = True
        k = None
        if seq is not None:
            k = n if after else tm.fresh("k")
            if not after:
                self.assume(tm.ge(k, ZERO))
                self.assume(tm.lt(k, n))
        self.assume(self.invariant_terms(f, env, k))
        if after:
            if seq is None:
                c = self.truth_T(self.eval(st.test, env))
                self.assume(tm.not_(c))
            elif self.branch(tm.gt(n, ZERO)):
                self.assign(st.target, getf(tm.sub(n, ONE)), env)
            self.exec_block(st.orelse, env)
            return
        if seq is not None:
            self.assign(st.target, getf(k), env)
        else:
            self.assume(self.truth_T(self.eval(st.test, env)))
        self.loops.append(lr)
        broke = False
        try:
            self.exec_block(st.body, env)
        except ContinueS:
            pass
        except BreakS:
            broke = True
        if self.loops and self.loops[-1] is lr:
            self.loops.pop()
        if lr.events or self.counters != counters or len(self.trace) != ntrace:
            raise Unsupported("annotated loop with effects other than on numbers")
        if broke:
            return
        for nm, isint in kinds.items():
            v = self._unu(env.vars.get(nm))
            if is_num(v) and isint and not v.isint:
                raise Unsupported(f"integer {nm} becomes real in an annotated loop")
        self.establish(f, env, tm.add(k, ONE) if seq is not None else None, "is kept by every iteration")
        raise Infeasible()  # the rest of the function is verified from the invariant

    def x_While(self, st, env):
        f = self.loop_invariant(st, env)
        if f is not None:
            self.annotated_loop(st, env, f, None)
            return
        # concrete (or provably decided) conditions: execute; otherwise outside the subset
        for _ in range(2000):
            c = self.truth_T(self.eval(st.test, env))
            if c is TRUE or (c is not FALSE and self.entails(c)):
                try:
                    self.exec_block(st.body, env)
                except BreakS:
                    return
                except ContinueS:
                    pass
                continue
            if c is FALSE or self.entails(tm.not_(c)):
                self.exec_block(st.orelse, env)
                return
            raise Unsupported("while loop with a symbolic condition")
        raise Unsupported("while loop: no bound")

    def x_For(self, st, env):
        it = self.lib.iterate(self, self.eval(st.iter, env))
        if isinstance(it, list):
            for x in it:
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except BreakS:
                    return
                except ContinueS:
                    continue
            self.exec_block(st.orelse, env)
            return
        self.sym_loop(st, it, env)

    def sym_loop(self, st, seq, env):
        f = self.loop_invariant(st, env)
        if f is not None:
            self.annotated_loop(st, env, f, seq)
            return
        n, getf = seq.length(), seq.getf
        if not tm.nonneg(n):
            if not self.branch(tm.gt(n, ZERO)):
                self.exec_block(st.orelse, env)
                return
        names = sorted(_assigned(st.body) | _target_names(st.target))
        pre = {}
        for nm in names:
            try:
                pre[nm] = self.lookup_local(env, nm)
            except KeyError:
                pass
        sol = self.solve_loop(n, getf, names, pre, st, env)
        self.apply_solution(sol, st, env, n)

    def lookup_local(self, env, nm):
        e = env
        if nm in env.globals_:
            e = env.parent
        while e is not None:
            if nm in e.vars:
                return e.vars[nm]
            e = e.parent
        raise KeyError(nm)

    def solve_loop(self, n, getf, names, pre, st, env):
        t = tm.fresh("i")
        rng = [tm.ge(t, ZERO), tm.lt(t, n)]
        gcount = dict(self.counters)
        for attempt in range(4):
            realnames = getattr(self, "_realnames", set())
            carry = {}
            for nm, v in pre.items():
                v = v if not isinstance(v, UnionV) else self.force(v)
                if is_num(v):
                    isint = v.isint and nm not in realnames
                    carry[nm] = tm.fresh("c_" + nm, isint)
                elif is_boolish(v):
                    carry[nm] = tm.fresh_bool("c_" + nm)
            gcarry = {k: tm.fresh("g_" + k, True, "nonneg") for k in gcount}
            mutated_model = self._mut_model if hasattr(self, "_mut_model") else None
            rec = LoopRec(next(_serial))

            def body():
                lr = LoopRec(rec.serial)
                lr.read = lambda it, s, idx: read_model(it, lr, s, idx)
                self.loops.append(lr)
                for k in gcarry:
                    self.counters[k] = gcarry[k]
                tr0 = len(self.trace)
                for nm in names:
                    if nm in carry:
                        self.setvar(env, nm, carry[nm])
                    elif nm in pre and not isinstance(pre[nm], Poison):
                        self.setvar(env, nm, LoopCarriedPoison(nm, pre[nm]))
                    else:
                        self.setvar(env, nm, Poison(f"{nm} may be read before assignment in a loop"))
                self.assign(st.target, getf(t), env)
                kind, val = "normal", None
                try:
                    self.exec_block(st.body, env)
                except ContinueS:
                    pass
                except BreakS:
                    kind = "break"
                except ReturnS as r:
                    kind, val = "return", r.v
                except PyExc as e:
                    kind, val = "exc", e
                snap = {}
                for nm in names:
                    try:
                        snap[nm] = self.lookup_local(env, nm)
                    except KeyError:
                        pass
                self.loops.pop()
                return (kind, val, snap, lr.events, lr.reads, dict(self.counters), self.trace[tr0:])

            model = {"sets": None, "carry": {}, "t": t}

            def read_model(it, lr, s, idx):
                if model["sets"] is None or s.serial not in model["sets"]:
                    return None
                w, seqv = model["sets"][s.serial]
                for ev in reversed(lr.events):
                    if ev[0] == "set" and ev[1] is s:
                        if ev[2] is idx:
                            return ev[3]
                        d = tm.sub(ev[2], idx)
                        if not (tm.is_num(d) and tm.numval(d) != 0):
                            raise Unsupported("read of a cell written in the same iteration")
                if idx is w:
                    return self._get_any(s, idx)
                for step in (-1,):
                    wp = tm.subst(w, {t: tm.add(t, num(step))})
                    if idx is wp:
                        return model["carry"][s.serial]
                # cells never written by the loop
                raise Unsupported("read of a container written by the same loop")

            outs = self.explore(body, rng)
            if not outs:
                # the loop body is unreachable for every index: zero iterations
                return None
            paths = [(o.cond, *o.value, o.facts) for o in outs if o.kind == "ok"]
            if len(paths) != len(outs):
                raise Unsupported("loop body outcome")
            mutated = {}
            for p in paths:
                for ev in p[4]:
                    mutated[ev[1].serial] = ev[1]
            if any(p[7] for p in paths):
                raise Unsupported("ghost trace event in a symbolic loop")
            reads = {s.serial for p in paths for s, _ in p[5]}
            if mutated and (reads & set(mutated)):
                # second pass with a read model
                sets = {}
                for ser, s in mutated.items():
                    if ser not in reads:
                        continue
                    ws = {ev[2] for p in paths for ev in p[4] if ev[1] is s and ev[0] == "set"}
                    if any(ev[0] == "append" for p in paths for ev in p[4] if ev[1] is s) or len(ws) != 1:
                        raise Unsupported("container read and written in one loop")
                    w = next(iter(ws))
                    if self.injective(w, t) is None:
                        raise Unsupported("container written at a non-injective index")
                    sets[ser] = (w, s)
                model["sets"] = sets
                model["carry"] = {ser: tm.fresh("prev", False) for ser in sets}
                outs = self.explore(body, rng)
                paths = [(o.cond, *o.value, o.facts) for o in outs if o.kind == "ok"]
                if len(paths) != len(outs):
                    raise Unsupported("loop body outcome")
                ws2 = {(ev[1].serial, ev[2].id) for p in paths for ev in p[4] if ev[0] == "set" and ev[1].serial in sets}
                for ser, wid in ws2:
                    if wid != sets[ser][0].id:
                        raise Unsupported("inconsistent write index")
            # integer carries that become real
            bad = set()
            normal = [p for p in paths if p[1] == "normal"]
            for nm, c in carry.items():
                if c.kind == "N" and c.isint:
                    for p in normal:
                        v = p[3].get(nm)
                        if is_num(v) and not v.isint:
                            bad.add(nm)
            if bad - getattr(self, "_realnames", set()):
                self._realnames = getattr(self, "_realnames", set()) | bad
                continue
            break
        return self._solve(n, t, carry, gcarry, gcount, pre, names, paths, normal, model, mutated)

    def injective(self, w, t):
        """w(t) injective in t: returns ('affine', s, c) or ('perm', S, s, c)"""
        if not tm.occurs(w, t):
            return None
        d = tm.sub(tm.subst(w, {t: tm.add(t, ONE)}), w)
        if tm.is_num(d) and tm.numval(d) in (1, -1):
            s = tm.numval(d)
            c = tm.subst(w, {t: ZERO})
            return ("affine", s, c)
        if w.op == "sel" and w.a[0].op == "sapp" and w.a[0].a[0] == "argsort" and not tm.occurs(w.a[0], t):
            inner = self.injective(w.a[1], t)
            if inner and inner[0] == "affine":
                return ("perm", w.a[0], inner[1], inner[2])
        return None

    def _solve(self, n, t, carry, gcarry, gcount, pre, names, paths, normal, model, mutated):
        E = {}
        csyms = dict(carry)
        for k in gcarry:
            csyms["@" + k] = gcarry[k]
        init = {nm: pre[nm] for nm in carry}
        init.update({"@" + k: gcount[k] for k in gcount})
        for nm, c in carry.items():
            alts = [(p[0], p[3].get(nm)) for p in normal]
            if not alts:
                E[nm] = None
                continue
            ok = all(is_num(self._unu(v)) or is_boolish(self._unu(v)) for _, v in alts)
            if not ok:
                E[nm] = Poison(f"loop-carried {nm} changes type")
                continue
            alts = [(cnd, self._unu(v)) for cnd, v in alts]
            E[nm] = self.merge(alts)
            if isinstance(E[nm], bool):
                E[nm] = tm.boolc(E[nm])
        for k in gcarry:
            alts = [(p[0], p[6].get(k, ZERO)) for p in normal]
            E["@" + k] = self.merge(alts) if alts else None
        if model["sets"]:
            for ser, (w, s) in model["sets"].items():
                key = f"#{ser}"
                csyms[key] = model["carry"][ser]
                w0 = tm.subst(w, {t: num(-1)})
                init[key] = self._get_any(s, w0)
                alts = []
                for p in normal:
                    v = None
                    for ev in p[4]:
                        if ev[0] == "set" and ev[1] is s:
                            v = ev[3]
                    if v is None:
                        v = self.pure(lambda: self._get_any(s, w), [tm.ge(t, ZERO), tm.lt(t, n)])
                    alts.append((p[0], v))
                E[key] = self.merge(alts)
        symset = {c: nm for nm, c in csyms.items()}
        P = {}  # name -> prefix closed form at start of iteration t
        F = {}  # name -> value after n iterations
        pending = dict(E)
        progress = True
        while pending and progress:
            progress = False
            for nm in list(pending):
                e = pending[nm]
                c = csyms[nm]
                if e is None:
                    P[nm] = init[nm]
                    F[nm] = init[nm]
                    del pending[nm]
                    progress = True
                    continue
                if isinstance(e, Poison):
                    P[nm] = F[nm] = e
                    del pending[nm]
                    progress = True
                    continue
                deps = {symset[s] for s in csyms.values() if tm.occurs(e, s)}
                if deps - {nm} - set(P):
                    continue
                m = {csyms[d]: to_bool_T(P[d]) for d in deps - {nm} if not isinstance(P[d], Poison)}
                if any(isinstance(P[d], Poison) for d in deps - {nm}):
                    P[nm] = F[nm] = Poison("depends on unsolved loop variable")
                    del pending[nm]
                    progress = True
                    continue
                e2 = tm.subst(e, m)
                r = self._closed_form(e2, c, to_bool_T(init[nm]), t, n)
                if r is None:
                    P[nm] = F[nm] = Poison(f"no closed form for loop variable {nm}: {tm.show(e2)[:200]}")
                else:
                    P[nm], F[nm] = r
                del pending[nm]
                progress = True
        # mutually dependent
        for nm in pending:
            P[nm] = F[nm] = Poison(f"mutually recursive loop variable {nm}")
        pm = {csyms[nm]: to_bool_T(P[nm]) for nm in csyms if not isinstance(P[nm], Poison)}
        unsolved = {csyms[nm]: P[nm] for nm in csyms if isinstance(P[nm], Poison)}
        return dict(n=n, t=t, names=names, P=P, F=F, pm=pm, unsolved=unsolved, paths=paths, carry=carry,
                    gcarry=gcarry, pre=pre, mutated=mutated, model=model)

    def _unu(self, v):
        if isinstance(v, UnionV):
            if all(is_num(x) for _, x in v.alts) or all(is_boolish(x) for _, x in v.alts):
                return self.merge(v.alts)
            return Poison("union")
        if isinstance(v, LoopCarriedPoison):
            return v
        return v

    def _closed_form(self, e, c, c0, t, n):
        """solve x' = e(x, t), x(0) = c0.  Returns (x at start of iteration t, x after n iterations)."""
        if e is c:
            return c0, c0
        u = tm.fresh("u")
        if not tm.occurs(e, c):
            # last value
            prev = tm.subst(e, {t: tm.sub(t, ONE)})
            last = tm.subst(e, {t: tm.sub(n, ONE)})
            if prev is c0:
                P = c0
            else:
                P = tm.ite(tm.gt(t, ZERO), prev, c0)
            F = last if self.entails(tm.gt(n, ZERO)) else tm.ite(tm.gt(n, ZERO), last, c0)
            return P, F
        if c.kind == "B":
            # or / and accumulation
            pos = tm.subst(e, {c: TRUE})
            negv = tm.subst(e, {c: FALSE})
            if tm.occurs(pos, c) or tm.occurs(negv, c):
                return None
            if pos is TRUE:
                b = tm.subst(negv, {t: u})
                return tm.or_(c0, tm.quant("any", t, u, b)), tm.or_(c0, tm.quant("any", n, u, b))
            if negv is FALSE:
                b = tm.subst(pos, {t: u})
                return tm.and_(c0, tm.quant("all", t, u, b)), tm.and_(c0, tm.quant("all", n, u, b))
            return None
        d = self._delta(e, c)
        if d is not None:
            b = tm.subst(d, {t: u})
            return tm.add(c0, tm.red("sum", t, u, b)), tm.add(c0, tm.red("sum", n, u, b))
        q = self._ratio(e, c)
        if q is not None:
            b = tm.subst(q, {t: u})
            return tm.mul(c0, tm.red("prod", t, u, b)), tm.mul(c0, tm.red("prod", n, u, b))
        for sg in (1, -1):
            ee = e if sg == 1 else tm.neg(e)
            cc = c if sg == 1 else tm.neg(c)
            g = self._maxform(ee, cc, c)
            if g is not None:
                b = tm.subst(g, {t: u})
                ini = c0 if sg == 1 else tm.neg(c0)

                def form(m):
                    r = tm.red("max", m, u, b) if not (tm.is_num(m) and tm.numval(m) <= 0) else None
                    if r is None:
                        return ini
                    full = tm.max_(ini, r)
                    if tm.positive(m) or (not tm.occurs(m, t) and self.entails(tm.gt(m, ZERO))):
                        return full
                    return tm.ite(tm.gt(m, ZERO), full, ini)

                p, f = form(t), form(n)
                if sg == -1:
                    p, f = tm.neg(p), tm.neg(f)
                return p, f
        return None

    def _delta(self, e, c):
        """e == c + d with d free of c"""
        if e.op == "ite":
            if tm.occurs(e.a[0], c):
                return None
            a, b = self._delta(e.a[1], c), self._delta(e.a[2], c)
            if a is None or b is None:
                return None
            return tm.ite(e.a[0], a, b)
        d = tm.sub(e, c)
        if not tm.occurs(d, c):
            return d
        # ite nested in the polynomial: distribute one level
        if e.op == "poly":
            for m, k in e.a:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" and tm.occurs(m[0][0], c):
                    it = m[0][0]
                    if tm.occurs(it.a[0], c):
                        return None
                    rest = tm.sub(e, tm.scale(it, k))
                    x = self._delta(tm.add(rest, tm.scale(it.a[1], k)), c)
                    y = self._delta(tm.add(rest, tm.scale(it.a[2], k)), c)
                    if x is None or y is None:
                        return None
                    return tm.ite(it.a[0], x, y)
        return None

    def _ratio(self, e, c):
        if e.op == "ite":
            if tm.occurs(e.a[0], c):
                return None
            a, b = self._ratio(e.a[1], c), self._ratio(e.a[2], c)
            if a is None or b is None:
                return None
            return tm.ite(e.a[0], a, b)
        p = tm._as_poly(e)
        for m, k in p.items():
            if dict(m).get(c) != 1:
                return None
        q = tm.mul(e, tm.power(c, -1))
        return None if tm.occurs(q, c) else q

    def _maxform(self, e, cc, c):
        """e == max(cc, g) with g free of c; returns g"""
        if e.op == "app" and e.a[0] == "max" and cc in e.a[1:]:
            rest = [x for x in e.a[1:] if x is not cc]
            if any(tm.occurs(x, c) for x in rest):
                return None
            return tm.max_(*rest)
        if e.op == "ite" and not tm.occurs(e.a[0], c):
            # conditional max: ite(cond, max(c, g), c) -> max over guarded values is partial; not handled
            return None
        return None

    def _fix(self, sol, v, m):
        """apply prefix closed forms + index substitution to a value; unsolved carries poison"""
        if sol["unsolved"] and _mentions(v, sol["unsolved"]):
            return Poison(next(iter(sol["unsolved"].values())).why)
        return subst_value(subst_value(v, sol["pm"]), m) if m else subst_value(v, sol["pm"])

    def _fixT(self, sol, c, m=None):
        r = self._fix(sol, c, m)
        if isinstance(r, Poison):
            raise Unsupported(r.why)
        return r

    def apply_solution(self, sol, st, env, n):
        if sol is None:
            self.exec_block(st.orelse, env)
            return
        t = sol["t"]
        exits = [p for p in sol["paths"] if p[1] != "normal"]
        if exits:
            anyexit = self._fixT(sol, tm.or_(*[p[0] for p in exits]))
            ex = tm.quant("any", n, t, anyexit)
            if self.branch(ex):
                k = tm.fresh("k")
                self.assume(tm.ge(k, ZERO))
                self.assume(tm.lt(k, n))
                self.assume(tm.subst(anyexit, {t: k}))
                u = tm.fresh("u")
                self.assume(tm.quant("all", k, u, tm.not_(tm.subst(anyexit, {t: u}))))
                chosen = None
                for p in exits[:-1]:
                    c = self._fixT(sol, p[0], {t: k})
                    if self.branch(c):
                        chosen = p
                        break
                else:
                    chosen = exits[-1]
                m = {t: k}
                for f in chosen[8]:
                    self.assume(self._fixT(sol, f, m))
                # state at the exit
                self._apply_events(sol, k)
                for nm in sol["names"]:
                    if nm in chosen[3]:
                        v = chosen[3][nm]
                        if isinstance(v, LoopCarriedPoison):
                            v = v.pre
                        else:
                            v = self._fix(sol, v, m)
                        self.setvar(env, nm, v)
                for kk in sol["gcarry"]:
                    self.counters[kk] = self._fixT(sol, chosen[6][kk], m)
                for ev in chosen[4]:
                    val = self._fix(sol, ev[3], m)
                    if ev[0] == "append":
                        self.seq_append(ev[1], val)
                    else:
                        self.seq_set(ev[1], self._fixT(sol, ev[2], m), val)
                if chosen[1] == "break":
                    return
                if chosen[1] == "return":
                    raise ReturnS(self._fix(sol, chosen[2], m))
                raise chosen[2]
            self.assume(tm.quant("all", n, t, tm.not_(anyexit)))
        for p in sol["paths"]:
            if p[1] == "normal":
                for f in p[8]:
                    if sol["unsolved"] and _mentions(f, sol["unsolved"]):
                        continue
                    self.assume(tm.quant("all", n, t, tm.implies(self._fixT(sol, p[0]), self._fixT(sol, f))))
        self._apply_events(sol, n)
        normal = [p for p in sol["paths"] if p[1] == "normal"]
        for nm in sol["names"]:
            if nm in sol["carry"]:
                self.setvar(env, nm, sol["F"][nm])
            else:
                vals = [p[3].get(nm, _MISSING) for p in normal]
                if vals and all(isinstance(v, LoopCarriedPoison) for v in vals):
                    self.setvar(env, nm, vals[0].pre)
                elif vals and all(is_num(v) or is_boolish(v) for v in vals):
                    try:
                        e = self._fixT(sol, to_bool_T(self.merge([(p[0], p[3][nm]) for p in normal])), {t: tm.sub(n, ONE)})
                    except Unsupported as u:
                        self.setvar(env, nm, Poison(str(u)))
                        continue
                    self.setvar(env, nm, e if tm.positive(n) or self.entails(tm.gt(n, ZERO)) else Poison(f"{nm} unbound if the loop runs zero times"))
                else:
                    self.setvar(env, nm, Poison(f"{nm} after loop"))
        for k in sol["gcarry"]:
            f = sol["F"]["@" + k]
            if isinstance(f, Poison):
                raise Unsupported(f.why)
            self.counters[k] = f
        self.exec_block(st.orelse, env)

    def _apply_events(self, sol, upto):
        t = sol["t"]
        normal = [p for p in sol["paths"] if p[1] == "normal"]
        for ser, s in sol["mutated"].items():
            evs = [[e for e in p[4] if e[1] is s] for p in normal]
            if not any(evs):
                continue
            kinds = {e[0] for l in evs for e in l}
            if kinds == {"append"}:
                self._apply_appends(sol, s, normal, evs, upto)
            elif kinds == {"set"}:
                self._apply_sets(sol, s, normal, evs, upto)
            else:
                raise Unsupported("mixed container updates in a loop")

    def _apply_appends(self, sol, s, normal, evs, upto):
        t = sol["t"]
        counts = [len(l) for l in evs]
        old = s.clone()
        if all(c == 1 for c in counts):
            body = self.merge([(p[0], l[0][3]) for p, l in zip(normal, evs)])
            body = self._fix(sol, body, None)
            if isinstance(body, Poison):
                raise Unsupported(body.why)
            new = self.seq_from_body("list", upto, t, body)
        elif all(c <= 1 for c in counts):
            cond = tm.or_(*[p[0] for p, l in zip(normal, evs) if l])
            val = self.merge([(p[0], l[0][3]) for p, l in zip(normal, evs) if l])
            new = self.lib.make_filter(self, upto, t, self._fixT(sol, cond), self._fix(sol, val, None))
        else:
            raise Unsupported("several appends per iteration")
        r = self.lib.concat(self, [old, new], "list")
        lr = self.outer_loop_for(s)
        if lr is not None:
            raise Unsupported("append to an outer list from a nested symbolic loop")
        self.seq_touch(s, "append")
        self.seq_assign(s, r.items, r.n, r.getf, r.term)

    def _apply_sets(self, sol, s, normal, evs, upto):
        t = sol["t"]
        ws = {e[2] for l in evs for e in l}
        if len(ws) != 1:
            raise Unsupported("writes at several indices in one iteration")
        w = next(iter(ws))
        w = self._fixT(sol, w)
        inj = self.injective(w, t)
        lr = self.outer_loop_for(s)
        if lr is not None:
            raise Unsupported("indexed write to an outer container from a nested symbolic loop")
        n, old = s.length(), s.getf
        if s.items is not None:
            items = list(s.items)
            old = lambda i: self._ite_items(items, i)
        alts = []
        for p, l in zip(normal, evs):
            v = l[-1][3] if l else self.pure(lambda: old(w), [tm.ge(t, ZERO), tm.lt(t, upto)])
            alts.append((p[0], v))
        V = self._fix(sol, self.merge(alts), None)
        if isinstance(V, Poison):
            raise Unsupported(V.why)
        if inj is None:
            if not tm.occurs(w, t):
                # last write wins
                last = subst_value(V, {t: tm.sub(upto, ONE)})
                if self.branch(tm.gt(upto, ZERO)):
                    self.seq_set(s, w, last)
                return
            raise Unsupported("writes at a non-injective index")
        if inj[0] == "affine":
            _, sg, c = inj
            inv = lambda k: tm.scale(tm.sub(k, c), 1 / sg)
        else:
            _, ps, sg, c = inj
            rk = tm.sapp("rank", tm.seqlen(ps), ps.a[2], elem="I")
            inv = lambda k: tm.scale(tm.sub(self.lib.sel_rank(rk, k), c), 1 / sg)

        def getf(i, old=old):
            ti = inv(i)
            cnd = tm.and_(tm.ge(ti, ZERO), tm.lt(ti, upto))
            if cnd is not TRUE and self.entails(cnd):
                cnd = TRUE
            x = subst_value(V, {t: ti})
            if cnd is TRUE:
                return x
            return self.merge([(cnd, x), (tm.not_(cnd), old(i))])

        self.seq_touch(s, "set")
        self.seq_assign(s, None, n, getf)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                raise Unsupported("non-finite constant")
            return num(v)
        if isinstance(v, bytes):
            return ExtV("bytes", v)
        if v is Ellipsis:
            return None
        raise Unsupported("constant")

    def e_Name(self, e, env):
        v = self.lookup(env, e.id)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def e_Tuple(self, e, env):
        return tuple(self._elts(e, env))

    def e_List(self, e, env):
        return SeqV("list", self._elts(e, env))

    def e_Set(self, e, env):
        return SetV(self._elts(e, env))

    def _elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.lib.iterate(self, self.eval(x.value, env))
                if not isinstance(it, list):
                    raise Unsupported("starred symbolic sequence")
                out.extend(it)
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.force(self.eval(v, env))
                if not isinstance(o, DictV):
                    raise Unsupported("dict unpack")
                d.items.update(o.items)
                continue
            d.items[self.lib.dict_key(self, self.eval(k, env))] = self.eval(v, env)
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.force(self.eval(v.value, env))
                parts.append(self.lib.to_str(self, x))
        return self.lib.str_concat(parts)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr, env_cls(env))

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else self.force(self.eval(x, env)) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.force(self.eval(s, env))

    def e_Slice(self, e, env):
        return self.eval_index(e, env)

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_Lambda(self, e, env):
        return FuncV(e, env.module, None, env, "<lambda>")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.setvar(env, e.target.id, v)
        return v

    def e_IfExp(self, e, env):
        c = self.truth_T(self.eval(e.test, env))
        if c is TRUE:
            return self.eval(e.body, env)
        if c is FALSE:
            return self.eval(e.orelse, env)
        if self.branch(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        if self.spec_mode:
            # specifications are logical formulas: no forking
            parts = []
            v = self.eval(e.values[0], env)
            c = self.truth_T(v)
            if c is (FALSE if isand else TRUE):
                return v
            parts.append(c)
            for x in e.values[1:]:
                guard = tm.and_(*parts) if isand else tm.and_(*[tm.not_(p) for p in parts])
                r = self.spec_guarded(lambda: self.truth_T(self.eval(x, env)), guard)
                parts.append(r)
                if r is (FALSE if isand else TRUE):
                    break
            return tm.and_(*parts) if isand else tm.or_(*parts)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def spec_guarded(self, thunk, guard):
        if guard is TRUE:
            return thunk()
        if guard is FALSE:
            return TRUE
        outs = self.explore(thunk, [guard])
        if not outs:
            return TRUE
        alts = []
        for o in outs:
            if o.kind != "ok":
                raise o.value if o.kind == "exc" else Unsupported("spec")
            alts.append((o.cond, o.value))
        return to_bool_T(self.merge(alts))

    def e_UnaryOp(self, e, env):
        v = self.force(self.eval(e.operand, env))
        if isinstance(e.op, ast.Not):
            return _nb(tm.not_(self.truth_T(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, bool):
                v = num(int(v))
            if isinstance(v, T) and v.kind == "N":
                return tm.neg(v)
            if isinstance(v, SeqV) and v.kind == "nd":
                return self.seqmap(v, lambda x: self.unary_neg(x))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_boolish(v):
                return tm.not_(to_bool_T(v))
            if isinstance(v, SeqV):
                return self.seqmap(v, lambda x: tm.not_(to_bool_T(self.force(x))))
        raise Unsupported("unary operator")

    def unary_neg(self, x):
        x = self.force(x)
        if isinstance(x, SeqV):
            return self.seqmap(x, self.unary_neg)
        return tm.neg(x)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, bool):
            a = num(int(a))
        if isinstance(b, bool):
            b = num(int(b))
        if isinstance(a, T) and isinstance(b, T) and a.kind == "N" and b.kind == "N":
            return self.arith(op, a, b)
        return self.lib.binop(self, op, a, b)

    def arith(self, op, a, b):
        try:
            if isinstance(op, ast.Add):
                return tm.add(a, b)
            if isinstance(op, ast.Sub):
                return tm.sub(a, b)
            if isinstance(op, ast.Mult):
                return tm.mul(a, b)
            if isinstance(op, ast.Div):
                if tm.is_num(b) and tm.numval(b) == 0:
                    raise PyExc("ZeroDivisionError")
                self.need_nonzero(b)
                return tm.div(a, b)
            if isinstance(op, ast.Pow):
                return tm.pow_(a, b)
            if isinstance(op, ast.FloorDiv):
                if tm.is_num(b) and tm.numval(b) == 0:
                    raise PyExc("ZeroDivisionError")
                self.need_nonzero(b)
                return tm.app("floor", tm.div(a, b))
            if isinstance(op, ast.Mod):
                if tm.is_num(b) and tm.numval(b) == 0:
                    raise PyExc("ZeroDivisionError")
                self.need_nonzero(b)
                return tm.sub(a, tm.mul(b, tm.app("floor", tm.div(a, b))))
        except ZeroDivisionError:
            raise PyExc("ZeroDivisionError")
        raise Unsupported(f"operator {type(op).__name__}")

    def need_nonzero(self, b):
        if self.check_safety and not self.spec_mode and not tm.positive(b):
            self.safety.append(("denominator non-zero", tm.not_(tm.eq0(b)), list(self.pc_terms())))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            c = self.truth_T(c)
            parts.append(c)
            if not self.spec_mode and len(parts) < len(e.ops):
                # operands are pure in the subset: no short-circuit needed
                pass
            left = right
        return _nb(tm.and_(*parts))

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identity(a, b)
            return _nb(r if isinstance(op, ast.Is) else tm.not_(r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.lib.contains(self, b, a)
            return _nb(r if isinstance(op, ast.In) else tm.not_(r))
        if isinstance(a, SeqV) and a.kind == "nd" or isinstance(b, SeqV) and b.kind == "nd":
            return self.lib.elementwise(self, lambda x, y: self.scalar(self.compare(op, x, y)), a, b)
        r = self.lib.compare_special(self, op, a, b)
        if r is not NotImplemented:
            return r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            return _nb(r if isinstance(op, ast.Eq) else tm.not_(r))
        if isinstance(a, bool):
            a = num(int(a))
        if isinstance(b, bool):
            b = num(int(b))
        if is_num(a) and is_num(b):
            f = {ast.Lt: tm.lt, ast.LtE: tm.le, ast.Gt: tm.gt, ast.GtE: tm.ge}[type(op)]
            return _nb(f(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lib.tuple_compare(self, op, a, b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyExc("TypeError", ("ordering of incompatible types",))
        raise Unsupported(f"comparison {type(a).__name__} {type(b).__name__}")

    def identity(self, a, b):
        if a is None or b is None:
            return tm.boolc(a is None and b is None)
        if isinstance(a, bool) and isinstance(b, bool):
            return tm.boolc(a == b)
        if is_boolish(a) and is_boolish(b):
            return tm.eq(to_bool_T(a), to_bool_T(b))
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return tm.boolc(a is b or a.path == b.path)
        if isinstance(a, str) or isinstance(b, str):
            return self.eq(a, b)
        if isinstance(a, ObjV) and isinstance(b, ObjV) and a.attrs.get("@id") is not None and b.attrs.get("@id") is not None:
            return self.eq(a.attrs["@id"], b.attrs["@id"])
        return tm.boolc(a is b)

    def e_Call(self, e, env):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            a = [self.force(self.eval(x, env)) for x in e.args]
            if not a:
                ce = env
                while ce is not None and ce.cls is None:
                    ce = ce.parent
                if ce is None:
                    raise Unsupported("super() outside a method")
                return SuperV(ce.cls, ce.self_)
            if len(a) == 1:
                return SuperV(a[0], None)
            return SuperV(a[0], a[1])
        f = self.eval(e.func, env)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                it = self.lib.iterate(self, self.eval(x.value, env))
                if not isinstance(it, list):
                    raise Unsupported("*args of symbolic length")
                args.extend(it)
            else:
                args.append(self.eval(x, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, env))
                if d is None:
                    raise PyExc("TypeError", ("argument after ** must be a mapping",))
                if not isinstance(d, DictV):
                    raise Unsupported("** of a symbolic mapping")
                for kk, vv in d.items.items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs)

    # ---- comprehensions
    def e_ListComp(self, e, env):
        return self.comp(e.elt, e.generators, env, "list")

    def e_GeneratorExp(self, e, env):
        return self.comp(e.elt, e.generators, env, "iter")

    def e_SetComp(self, e, env):
        r = self.comp(e.elt, e.generators, env, "iter")
        return self.lib.make_set(self, r)

    def e_DictComp(self, e, env):
        pair = ast.Tuple([e.key, e.value], ast.Load())
        r = self.comp(pair, e.generators, env, "list")
        if isinstance(r, SeqV) and r.items is not None:
            d = DictV()
            for k, v in r.items:
                d.items[self.lib.dict_key(self, k)] = v
            return d
        raise Unsupported("symbolic dict comprehension")

    def comp(self, elt, gens, env, kind):
        cenv = Env(env.module, env, env.func, env.cls, env.self_)
        return self._comp(elt, gens, cenv, kind)

    def _comp(self, elt, gens, env, kind):
        g = gens[0]
        it = self.lib.iterate(self, self.eval(g.iter, env))
        rest = gens[1:]
        if isinstance(it, list):
            out = []
            parts = []
            for x in it:
                self.assign(g.target, x, env)
                if not all(self.truth(self.eval(c, env)) for c in g.ifs):
                    continue
                if rest:
                    parts.append(self._comp(elt, rest, env, kind))
                else:
                    out.append(self.eval(elt, env))
            if rest:
                return self.lib.concat(self, parts, kind)
            return SeqV(kind, out)
        n = it.length()
        if not tm.nonneg(n):
            if not self.branch(tm.ge(n, ZERO)):
                return SeqV(kind, [])
        v = tm.fresh("e")
        rng = [tm.ge(v, ZERO), tm.lt(v, n)]

        def cond():
            self.assign(g.target, it.getf(v), env)
            r = TRUE
            for c in g.ifs:
                r = tm.and_(r, self.truth_T(self.eval(c, env)))
            return r

        c = TRUE
        if g.ifs:
            c = to_bool_T(self.pure(cond, rng))

        lr = LoopRec(next(_serial))

        def body():
            self.loops.append(lr)
            self.assign(g.target, it.getf(v), env)
            r = self._comp(elt, rest, env, "iter") if rest else self.eval(elt, env)
            self.loops.pop()
            if lr.events:
                raise Unsupported("side effect in a comprehension")
            return r

        gbase = dict(self.counters)
        gsym = {k: tm.fresh("g_" + k, True, "nonneg") for k in gbase}

        def run():
            self.counters.update(gsym)
            return (body(), dict(self.counters))

        outs = self.explore(run, rng + ([c] if c is not TRUE else []))
        val = self._comp_merge(outs, n, v, c, gbase, gsym)
        if val is None:
            return SeqV(kind, [])
        if rest:
            return FlatV(n, v, val, None if c is TRUE else c)
        if c is TRUE:
            return self.seq_from_body(kind, n, v, val)
        return self.lib.make_filter(self, n, v, c, val, kind)

    def _comp_merge(self, outs, n, v, c, gbase, gsym):
        bad = [o for o in outs if o.kind != "ok"]
        oks = [o for o in outs if o.kind == "ok"]
        m = {}
        for k in gsym:
            deltas = {tm.sub(o.value[1].get(k, ZERO), gsym[k]) for o in oks}
            if not deltas or deltas == {ZERO}:
                m[gsym[k]] = gbase[k]
                continue
            d = next(iter(deltas))
            if len(deltas) > 1 or bad or c is not TRUE or not tm.is_num(d):
                raise Unsupported("conditional effects in a comprehension")
            m[gsym[k]] = tm.add(gbase[k], tm.mul(d, v))
            self.counters[k] = tm.add(gbase[k], tm.mul(d, n))
        for o in bad:
            q = tm.quant("any", n, v, tm.and_(c, o.cond))
            if self.branch(q):
                if o.kind == "exc":
                    raise o.value
                raise Unsupported("comprehension outcome")
            self.assume(tm.not_(q))
        if not oks:
            return None
        for o in oks:
            for f in o.facts:
                f = tm.subst(f, m) if m else f
                self.assume(tm.quant("all", n, v, tm.implies(tm.and_(c, o.cond), f)))
        r = self.merge([(o.cond, o.value[0]) for o in oks])
        return subst_value(r, m) if m else r


class LoopCarriedPoison(Poison):
    def __init__(self, nm, pre):
        self.why = f"loop-carried variable {nm} of a non-numeric type"
        self.pre = pre


class _Missing:
    pass


_MISSING = _Missing()


def _nb(t):
    """bool term -> native bool when constant"""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return t


def env_cls(env):
    e = env
    while e is not None:
        if e.cls is not None:
            return e.cls
        e = e.parent
    return None


def _mentions(v, syms):
    if isinstance(v, T):
        return any(tm.occurs(v, s) for s in syms)
    if isinstance(v, tuple):
        return any(_mentions(x, syms) for x in v)
    if isinstance(v, SeqV):
        if v.items is not None:
            return any(_mentions(x, syms) for x in v.items)
        if v.term is not None:
            return _mentions(v.term, syms)
        return _mentions(v.getf(tm.fresh("p")), syms)
    if isinstance(v, ObjV):
        return any(_mentions(x, syms) for x in v.attrs.values())
    if isinstance(v, UnionV):
        return any(_mentions(c, syms) or _mentions(x, syms) for c, x in v.alts)
    return False


def _assigned(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    for s in body:
        V().visit(s)
    return out


def _target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _is_generator(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            V.found = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass

    V.found = False
    v = V()
    for s in node.body:
        v.visit(s)
    return V.found


def _loops_of(node):
    """the loops of a function in source order (nested functions excluded)"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            go(c)

    go(node)
    return out
