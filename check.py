#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current source
   check.py --replay FILE                      re-run a recorded violation on the real code"""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if not os.environ.get("PV_INNER") and sys.prefix != "/opt/veriftools/pyvenv" and os.path.exists(VT):
    os.environ["PV_INNER"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
REPO_PY = "/opt/venv/bin/python"
CORES = int(os.environ.get("PV_CORES", "8"))


def conc(items, specs, timeout):
    """run concrete items on the real code (in parallel subprocesses)"""
    if not items:
        return []
    k = min(CORES, max(1, len(items)))
    chunks = [items[i::k] for i in range(k)]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    ps = []
    for ch in chunks:
        p = subprocess.Popen([REPO_PY, os.path.join(ROOT, "pv", "conc.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, env=env)
        p.stdin.write(json.dumps(dict(specs=specs, items=ch)))
        p.stdin.close()
        p.stdin = None
        ps.append((p, ch))
    out = []
    end = time.time() + timeout
    for p, ch in ps:
        try:
            so, se = p.communicate(timeout=max(1, end - time.time()))
            out.extend(json.loads(so))
        except subprocess.TimeoutExpired:
            p.kill()
            out.extend(dict(contract=i["contract"], case=i.get("case"), error="timeout", trials=0, failures=[]) for i in ch)
        except ValueError:
            out.extend(dict(contract=i["contract"], case=i.get("case"), error="harness: " + se[-400:], trials=0, failures=[]) for i in ch)
    return out


_prog = None


class Stuck(BaseException):
    pass


def _stuck(*_):
    raise Stuck()


def undecided(name, case, why):
    return dict(contract=name, case=case, obligations=[], unsupported=why, functions=[], assumed=[], paths=0, wall=0,
                stats=dict(z3_calls=0, z3_time=0, structural=0, z3=0, cvc5=0, cvc5_agree=0))


def _work(job):
    """one contract and case, in a process of its own: what the verifier answers does not depend on earlier jobs"""
    import signal

    from pv import runner

    name, case, kw, limit = job
    import speclib

    c = [x for x in speclib.ALL if x.__name__ == name][0]
    signal.signal(signal.SIGALRM, _stuck)
    signal.alarm(limit)
    try:
        return runner.verify(c, case, _prog, **kw)
    except Stuck:
        return undecided(name, case, "verification budget exhausted (stuck)")
    finally:
        signal.alarm(0)


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    from multiprocessing import get_context

    from pv import runner

    allc = [c for c in runner.load_specs() if prop in runner.props_of(c)]
    cs = [c for c in allc if not c.witness]
    if not cs:
        print(f"no contracts for {prop}")
        return 1
    specs = sorted({c.__module__ for c in allc})
    thorough = tier == "thorough"
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    mine = [f for f in known["findings"] if f["property"] == prop]

    # 1. obligations, from the current source
    kw = dict(timeout_ms=20000 if thorough else 8000, use_cvc5=thorough, budget=600.0 if thorough else 200.0)
    limit = 3000 if thorough else 420
    jobs = [(c.__name__, case, kw, limit) for c in cs if not c.bounded for case in runner.cases_of(c)]
    items = []
    base = 400 if thorough else 60
    for c in cs:
        for case in runner.cases_of(c):
            n = max(4, int(base * c.conc))
            items.append(dict(contract=c.__name__, case=case, trials=n, seed=seed, secs=(60 if thorough else 12) * max(1.0, c.conc)))
    global _prog
    from pv.prog import Program

    _prog = Program()
    ctx = get_context("fork")
    res = []
    with ctx.Pool(min(CORES, max(1, len(jobs))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        conf = conc(items, specs, 700)
        end = t0 + (6000 if thorough else 800)
        try:
            for _ in jobs:
                res.append(it.next(timeout=max(1, end - time.time())))
        except Exception as e:  # workers that never answer: nothing was decided about their contracts
            print(f"verifier did not finish: {type(e).__name__}")
    done = {(r["contract"], r["case"]) for r in res}
    res += [undecided(j[0], j[1], "verifier did not finish") for j in jobs if (j[0], j[1]) not in done]
    for c in cs:
        if c.bounded:
            for case in runner.cases_of(c):
                res.append(undecided(c.__name__, case, "bounded by design: " + str(c.bounded)))
    conc_by = {(r["contract"], r["case"]): r for r in conf}
    violations = []
    rdir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)

    # 2. failed obligations: look for a failing input on the real code
    retry = []
    for r in res:
        key = (r["contract"], r["case"])
        bad = [o for o in r["obligations"] if not o["ok"]]
        if bad and not conc_by.get(key, {}).get("failures"):
            hs = [o["hints"] for o in bad if o.get("hints")][:6]
            retry.append(dict(contract=r["contract"], case=r["case"], trials=4000, seed=seed + 17, hints=hs, secs=25))
    for r in conc(retry, specs, 120):
        key = (r["contract"], r["case"])
        if r.get("failures"):
            conc_by.setdefault(key, r)["failures"] = r["failures"]
        if key in conc_by:
            conc_by[key]["trials"] = conc_by[key].get("trials", 0) + r.get("trials", 0)

    # 3. verdicts
    err = []
    for r in sorted(res, key=lambda r: (r["contract"], str(r["case"]))):
        key = (r["contract"], r["case"])
        label = r["contract"] + (f"[{r['case']}]" if r["case"] is not None else "")
        bad = [o for o in r["obligations"] if not o["ok"]]
        cr = conc_by.get(key, {})
        if cr.get("error"):
            err.append(f"{label}: {cr['error']}")
        for e in cr.get("spec_errors", []):
            err.append(f"{label}: {e[:300]}")
        fails = cr.get("failures") or []
        if not bad and not fails:
            continue
        fn = os.path.join(rdir, f"{prop}-{label.replace('[', '-').replace(']', '').replace('/', '_')}.json")
        rec = dict(property=prop, contract=r["contract"], case=r["case"], failed_obligations=bad, failing_input=fails[0] if fails else None,
                   specs=specs, functions=r["functions"])
        json.dump(rec, open(fn, "w"), indent=1, default=str)
        violations.append((label, fn, bad, fails))
    violations.sort(key=lambda v: not v[3])  # the ones with a failing input first
    for label, fn, bad, fails in violations:
        if bad:
            print(f"failed obligation: {bad[0]['name']}" + (f" (+{len(bad) - 1})" if len(bad) > 1 else ""))
        if fails:
            print(f"  failing input for {label}: {json.dumps(fails[0]['values'])[:500]} -> {fails[0]['post']}: {fails[0]['detail'][:300]}")
        print(f"VIOLATION property={prop} replay={fn}" + ("" if fails else " no-failing-input-found"))

    # 4. listed findings
    kf_items = [dict(contract=f["contract"], case=f.get("case"), values=f["values"], trials=0, seed=1) for f in mine if f["status"] == "open"]
    kf = conc(kf_items, specs, 120)
    for f in [f for f in mine if f["status"] == "open"]:
        r = next((x for x in kf if x["contract"] == f["contract"] and x["case"] == f.get("case") and any(y.get("values") == f["values"] for y in x.get("failures", []))), None)
        if r is not None:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")

    # 5. evidence
    byname = {c.__name__: c for c in cs}
    full = [r for r in res if not byname[r["contract"]].bound]
    obl = sum(len(r["obligations"]) for r in full)
    dis = sum(1 for r in full for o in r["obligations"] if o["ok"])
    functions = sorted({f for r in res for f in r["functions"]})
    trusted = sorted({a for r in res for a in r["assumed"]})
    summ = sorted({a for r in res for a in r.get("summaries", [])})
    unsup = {}
    for r in res:
        if r.get("unsupported"):
            label = r["contract"] + (f"[{r['case']}]" if r["case"] is not None else "")
            cr = conc_by.get((r["contract"], r["case"]), {})
            unsup[label] = dict(reason=r["unsupported"], bounded_trials=cr.get("trials", 0))
    for r in res:
        b = byname[r["contract"]].bound
        if b and r["obligations"]:
            label = r["contract"] + (f"[{r['case']}]" if r["case"] is not None else "")
            unsup.setdefault(label, dict(reason="decided only within a bound: " + b, obligations_within_bound=len(r["obligations"]),
                                         discharged_within_bound=sum(1 for o in r["obligations"] if o["ok"]),
                                         bounded_trials=conc_by.get((r["contract"], r["case"]), {}).get("trials", 0)))
    st = lambda k: sum(r["stats"][k] for r in res)
    per = {}
    for r in res:
        label = r["contract"] + (f"[{r['case']}]" if r["case"] is not None else "")
        per[label] = dict(obligations=len(r["obligations"]), discharged=sum(1 for o in r["obligations"] if o["ok"]), paths=r["paths"], wall_s=r["wall"],
                          conformance_trials=conc_by.get((r["contract"], r["case"]), {}).get("trials", 0))
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd=f"python3 /verif/check.py {prop} --tier {tier}",
        trusted_base=["pv (the deductive verifier in /verif/pv: parser = CPython ast of the current source, path-wise weakest preconditions, canonical term algebra)",
                      f"z3 {_z3v()}", "library models (assumed contracts) used in this run: " + (", ".join(trusted) or "none")],
        functions_under_contract=functions,
        callee_contracts_assumed=summ,
        discharged_by=dict(structural_term_algebra=st("structural"), z3=st("z3"), cvc5_cross_checked=st("cvc5"), cvc5_agree=st("cvc5_agree")),
        solver=dict(z3_calls=st("z3_calls"), z3_time_s=round(st("z3_time"), 2)),
        contracts=per,
        bounded_standins=unsup,
        vacuous=[r["contract"] for r in res if r.get("vacuous")],
        conformance=dict(evaluations=sum(r.get("trials", 0) for r in conf), distinct_nontrivial=sum(r.get("distinct", 0) for r in conf),
                         rule="contract executed on the imported code with random and edge inputs satisfying the precondition; distinct by recorded argument values",
                         samples=[dict(contract=r["contract"], case=r["case"], values=r["sample"]) for r in conf if r.get("sample")][:3]),
        harness_errors=err,
        known_findings=[f["what"] for f in mine if f["status"] == "open"],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=_level(prop), coverage=cov,
              assumptions=[
                  "machine floating point treated as real arithmetic; integers unbounded",
                  "numpy / scipy / pandas / sqlalchemy behave as their models in pv/npmodel.py, pv/sqlmodel.py state (exercised against the real libraries by the conformance pass)",
                  "comments, docstrings, type annotations and logging calls are dropped by the extraction; everything else is the current source",
                  "contracts whose functions fall outside the verified subset are listed under bounded_standins and are not counted as proved",
              ],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop} [{tier}]: obligations {dis}/{obl} discharged over {len(functions)} functions; {len(unsup)} bounded; "
          f"{cov['conformance']['evaluations']} concrete conformance runs; {len(violations)} violations; {ev['wall_s']}s")
    for e in err[:5]:
        print("  harness note:", e)
    return 1 if violations else 0


def _level(prop):
    try:
        m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


def _z3v():
    import z3

    return z3.get_version_string()


def replay(fn):
    rec = json.load(open(fn))
    print(json.dumps({k: rec[k] for k in ("property", "contract", "case")}))
    for o in rec["failed_obligations"]:
        print("failed obligation:", o["name"], "\n  goal:", o.get("goal"), "\n  path:", o.get("pc"))
    if rec.get("failing_input"):
        r = conc([dict(contract=rec["contract"], case=rec["case"], values=rec["failing_input"]["values"], trials=0, seed=1)], rec["specs"], 60)
        print(json.dumps(r, indent=1))
        return 1 if r and r[0].get("failures") else 0
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
