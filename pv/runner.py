"""Verification of one contract (one case): generates the obligations from the current source and discharges
them.  Result is a plain dictionary (JSON-able)."""
from __future__ import annotations

import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(HERE, "native"))
sys.path.insert(0, os.path.join(ROOT, "specs"))
sys.path.insert(0, ROOT)

import speclib  # noqa: E402

from . import terms as tm  # noqa: E402
from .interp import Interp, own  # noqa: E402
from .prog import SPEC_DIR, Program  # noqa: E402
from .prover import Prover  # noqa: E402
from .specsym import SymBuilder  # noqa: E402
from .values import *  # noqa: E402,F403

_loaded = {}


def load_specs(names=None):
    """native import of the specification modules (metadata only on this side)"""
    out = []
    for f in sorted(os.listdir(SPEC_DIR)):
        if f.endswith(".py") and not f.startswith("_"):
            nm = f[:-3]
            if names and nm not in names:
                continue
            if nm not in _loaded:
                _loaded[nm] = importlib.import_module(nm)
    for c in speclib.ALL:
        out.append(c)
    return out


def props_of(c):
    return list(c.properties or ([c.property] if c.property else []))


def cases_of(c):
    cs = c.__dict__.get("cases", None) or getattr(c, "cases", None)
    return list(cs) if cs else [None]


def cid(c, case):
    return c.__name__ + (f"[{case}]" if case is not None else "")


def posts_of(c, prefix="post_"):
    seen = []
    for k in reversed(c.__mro__):
        for n in k.__dict__:
            if n.startswith(prefix) and n not in seen:
                seen.append(n)
    return seen


def params(fn):
    return fn.__code__.co_varnames[: fn.__code__.co_argcount]


class Budget(Exception):
    pass


def verify(c, case, prog, timeout_ms=6000, use_cvc5=False, budget=150.0, verbose=False):
    t0 = time.time()
    tm.reset_fresh() if False else None
    prover = Prover(timeout_ms=timeout_ms, use_cvc5=use_cvc5)
    I = Interp(prog, prover)
    I.deadline = prover.clock() + budget
    res = dict(contract=c.__name__, case=case, properties=props_of(c), obligations=[], unsupported=None,
               functions=[], assumed=[], paths=0)
    sm = prog.modules["specs." + c.__module__]
    CV = I.module_get(sm, c.__name__)
    posts = posts_of(c)
    lemmas = posts_of(c, "lemma_")
    handles_exc = any("exc" in params(getattr(c, p)) for p in posts)
    SB = SymBuilder(I)
    proved = {}
    npaths = [0]
    used_args = {}

    def fn(name):
        h = I.class_lookup(CV, name)
        return None if h is None else h[0]

    def bind(f, env):
        names = [a.arg for a in f.node.args.args]
        return [env[n] for n in names]

    def record(name, ok, goal, pc, model=None):
        d = dict(name=name, ok=bool(ok))
        if not ok and I.havocked:
            raise Unsupported(f"{name} does not follow from the loop invariants annotated in the contract: {tm.show(goal)[:300]}")
        if not ok:
            d["goal"] = tm.show(goal)[:int(os.environ.get("PV_SHOW", "1500"))]
            d["pc"] = [tm.show(p)[:300] for p in pc][:20]
            d["hints"] = hints(model, SB)
        res["obligations"].append(d)
        if verbose:
            print(("ok   " if ok else "FAIL "), name, "" if ok else "\n   goal: " + d["goal"] + "\n   pc: " + " ;; ".join(d["pc"]))

    def thunk():
        if prover.clock() > I.deadline:
            raise Budget()
        I.mutated.clear()
        env = {"S": SB.as_abs(), "case": case if case is None or isinstance(case, (str, bool)) else tm.num(case)}
        st = c.__dict__.get("stubs") or getattr(c, "stubs", None)
        I.summaries = {}
        if st:
            for q, sname in st.items():
                sf = fn(sname)
                I.summaries[q] = lambda I_, f, a, k, sf=sf: I_.call_func(sf, a, k)
        argsf = fn("args")
        av = I.call_func(argsf, bind(argsf, env), {})
        env.update(av.items)
        used_args.update(av.items)
        for a in c.unchanged:
            own(env[a], a)
        pf = fn("pre")
        if pf is not None:
            I.spec_mode += 1
            try:
                g = I.truth_T(I.call_func(pf, bind(pf, env), {}))
            finally:
                I.spec_mode -= 1
            I.assume(g)
        for p in lemmas:
            # proved from the precondition, then at hand for the rest of the path
            f = fn(p)
            I.spec_mode += 1
            I.lemma_facts = []
            try:
                g = to_bool_T(I.pure(lambda: I.truth_T(I.call_func(f, bind(f, env), {}))))
            finally:
                I.spec_mode -= 1
            for x in I.lemma_facts:
                I.assume(x)
            pc = I.pc_terms()
            key = (p, g.id, tuple(x.id for x in pc))
            if key not in proved:
                near = [x for x in pc if x.fv <= g.fv]
                proved[key] = prover.prove(near, g, budget=20) or len(near) < len(pc) and prover.prove(pc, g, budget=60)
                record(f"{cid(c, case)}/{p}", proved[key], g, pc, prover.model)
            if proved[key]:
                I.assume(g)
        exc = None
        result = None
        I.trace.clear()
        I.havocked = False
        I.contract_env = env
        I.loop_specs = {q: [fn(x) for x in xs] for q, xs in (getattr(c, "loops", None) or {}).items()}
        try:
            rf = fn("run")
            result = I.call_func(rf, bind(rf, env), {})
        except PyExc as e:
            exc = e
        finally:
            I.loop_specs = {}
            for x in I.invariants_proved:
                record(f"{cid(c, case)}/{x}", True, tm.TRUE, [])
            I.invariants_proved = []
        npaths[0] += 1
        k = npaths[0]
        label = cid(c, case)
        env["result"] = result
        env["exc"] = exc.name if exc is not None else None
        pc0 = I.pc_terms()
        if exc is not None and not handles_exc:
            if not prover.feasible(pc0):
                return
            ok = prover.prove(pc0, tm.FALSE)
            record(f"{label}/no_exception@{k}", ok, tm.FALSE, pc0 + [], prover.model)
            if not ok:
                res["obligations"][-1]["goal"] = f"unreachable: raises {exc}"
            return
        for p in posts:
            f = fn(p)
            pn = [a.arg for a in f.node.args.args]
            if exc is not None and "exc" not in pn:
                continue
            I.spec_mode += 1
            try:
                try:
                    goal = to_bool_T(I.pure(lambda: I.truth_T(I.call_func(f, bind(f, env), {}))))
                except PyExc as e:
                    goal = tm.FALSE
                    record(f"{label}/{p}@{k}", prover.prove(I.pc_terms(), goal), tm.strc(f"spec raised {e}"), I.pc_terms())
                    continue
            finally:
                I.spec_mode -= 1
            pc = I.pc_terms()
            key = (p, goal.id, tuple(x.id for x in pc))
            if key not in proved:
                proved[key] = prover.prove(pc, goal, budget=60)
                if not proved[key] and prover.model is None and res.setdefault("retries", 0) < 2 and prover.clock() < I.deadline:
                    res["retries"] += 1  # undecided: once more with a larger budget
                    sv = prover.timeout_ms
                    prover.timeout_ms = 3 * sv
                    proved[key] = prover.prove(pc, goal, budget=90)
                    prover.timeout_ms = sv
            if not proved[key] and prover.model is None and prover.clock() > I.deadline:
                raise Budget()
            record(f"{label}/{p}@{k}", proved[key], goal, pc, prover.model)
        for a in c.unchanged:
            conds = [cc for key, cs in I.mutated.items() if key == a or key.startswith(a + ".") for cc in cs]
            pc = I.pc_terms()
            ok = all(prover.prove(pc, tm.not_(cc)) for cc in conds)
            record(f"{label}/frame:{a} unchanged@{k}", ok, tm.FALSE if conds else tm.TRUE, pc, prover.model)
        if res.get("vacuous") is None or res["vacuous"]:
            res["vacuous"] = not prover.feasible(I.pc_terms())

    try:
        I.explore(thunk)
        if npaths[0] == 0:
            res["unsupported"] = "no feasible path (vacuous contract)"
            res["vacuous"] = True
    except Unsupported as e:
        res["unsupported"] = str(e)[:300]
    except (Budget, RecursionError) as e:
        res["unsupported"] = f"verification budget exhausted ({type(e).__name__})"
    except tm.TooBig as e:
        res["unsupported"] = f"term too big: {e}"
    except PyExc as e:
        res["unsupported"] = f"exception outside run(): {e}"
    except Infeasible:
        res["unsupported"] = "infeasible precondition"
    except Exception as e:  # engine failure: never a verdict about the code
        res["unsupported"] = f"engine: {type(e).__name__}: {e}"[:300]
        res["engine_error"] = traceback.format_exc()[-1500:]
    res["paths"] = npaths[0]
    res["functions"] = sorted(q for q in I.used_functions if not q.startswith("specs."))
    res["assumed"] = sorted(I.assumed)
    res["summaries"] = sorted(I.used_summaries)
    s = prover.stats
    res["stats"] = dict(z3_calls=s.z3_calls, z3_time=round(s.z3_time, 3), structural=s.structural, z3=s.z3_discharged,
                        cvc5=s.cvc5_checked, cvc5_agree=s.cvc5_agree)
    res["wall"] = round(time.time() - t0, 3)
    return res


def hints(model, SB):
    """concrete argument values suggested by the solver's counterexample"""
    if model is None:
        return {}
    import z3

    m, enc = model
    out = {}

    def val(e):
        v = m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(12).as_fraction())
        return None

    try:
        for name, (kind, t) in SB.reg.items():
            if kind in ("real", "int"):
                v = val(enc.enc(t))
                if v is not None:
                    out[name] = v
            elif kind == "bool":
                out[name] = z3.is_true(m.eval(enc.enc(t), model_completion=True))
        for name, (kind, t) in SB.reg.items():
            if kind == "arr":
                n = val(enc.enc(tm.seqlen(t)))
                if n is None or n < 0 or n > 60:
                    continue
                vs = [val(enc.enc(tm.sel(t, tm.num(i)))) for i in range(n)]
                if all(v is not None for v in vs):
                    out[name] = vs
    except Exception:
        pass
    return out


def main(argv):
    prog = Program()
    cs = load_specs()
    pat = argv[0] if argv else ""
    for c in cs:
        for case in cases_of(c):
            if pat in cid(c, case) or pat in props_of(c):
                r = verify(c, case, prog, verbose="-v" in argv)
                bad = [o["name"] for o in r["obligations"] if not o["ok"]]
                print(cid(c, case), f"obl={len(r['obligations'])} bad={len(bad)} paths={r['paths']} {r['wall']}s z3={r['stats']['z3_calls']}",
                      "UNSUPPORTED " + r["unsupported"] if r["unsupported"] else "", "VACUOUS" if r.get("vacuous") else "")
                if r.get("engine_error") and "-t" in argv:
                    print(r["engine_error"])
                if bad and "-v" not in argv:
                    for o in r["obligations"]:
                        if not o["ok"]:
                            print("   FAIL", o["name"], o["goal"][:int(os.environ.get("PV_SHOW", "600"))], "| pc:", o["pc"][:8], o.get("hints"))


if __name__ == "__main__":
    main(sys.argv[1:])
