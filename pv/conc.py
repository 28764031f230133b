"""Concrete execution of contracts on the real, imported code (run with the repository's interpreter).

Used (a) to replay counterexamples of failed obligations, (b) to search for a failing input of a failed
obligation, (c) as the labelled-bounded stand-in where a function is outside the verifier's reach, and (d) as
a conformance pass of every contract (the trusted library models are thereby exercised against numpy/scipy).

stdin: JSON job {specs, items:[{contract, case, trials, seed, hints, values, secs}], repo_src}
stdout: JSON results"""
import contextlib
import copy
import importlib
import io
import json
import logging
import math
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "native"))
sys.path.insert(0, os.path.join(ROOT, "specs"))
if os.environ.get("PV_REPO_SRC"):
    sys.path.insert(0, os.environ["PV_REPO_SRC"])
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402

np.seterr(all="ignore")
import speclib  # noqa: E402
from speclib import Builder, Skip  # noqa: E402


class Hang(BaseException):
    pass


class RunHang(BaseException):
    """the code under contract itself did not finish"""


def _alarm(sig, frm):
    raise Hang()


def params(fn):
    return fn.__code__.co_varnames[: fn.__code__.co_argcount]


def raw(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def posts_of(c):
    seen = []
    for k in reversed(c.__mro__):
        for n in k.__dict__:
            if n.startswith("post_") and n not in seen:
                seen.append(n)
    return seen


def snapshot(x):
    if isinstance(x, np.ndarray):
        return ("nd", x.copy())
    if isinstance(x, (list, tuple)):
        return ("seq", type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, dict):
        return ("dict", {k: snapshot(v) for k, v in x.items()})
    if hasattr(x, "__dict__") and not isinstance(x, type):
        return ("obj", {k: snapshot(v) for k, v in vars(x).items() if k != "_pv_calls" and not callable(v)})
    return ("v", x)


def same_snap(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "nd":
        return a[1].shape == b[1].shape and a[1].dtype == b[1].dtype and bool(np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == "f"))
    if a[0] == "seq":
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(same_snap(x, y) for x, y in zip(a[2], b[2]))
    if a[0] in ("dict", "obj"):
        return set(a[1]) == set(b[1]) and all(same_snap(a[1][k], b[1][k]) for k in a[1])
    if isinstance(a[1], float) and a[1] != a[1]:
        return isinstance(b[1], float) and b[1] != b[1]
    try:
        return bool(a[1] is b[1] or a[1] == b[1])
    except Exception:
        return False


def short(x, n=300):
    try:
        r = repr(x)
    except Exception:
        r = f"<{type(x).__name__}>"
    return r if len(r) <= n else r[:n] + "..."


def trial(c, case, builder):
    """one concrete execution; None if it conforms, a failure dict otherwise; raises Skip"""
    env = {"S": builder, "case": case}

    def call(name):
        f = raw(c, name)
        return f(**{p: env[p] for p in params(f)})

    env.update(call("args"))
    if raw(c, "pre") is not None and not bool(call("pre")):
        raise Skip()
    snaps = {a: snapshot(env[a]) for a in c.unchanged}
    exc = None
    result = None
    try:
        result = call("run")
    except Skip:
        raise
    except Hang:
        raise RunHang()
    except Exception as e:
        exc = e
    env["result"] = result
    env["exc"] = type(exc).__name__ if exc is not None else None
    handles = any("exc" in params(raw(c, p)) for p in posts_of(c))
    if exc is not None and not handles:
        tb = traceback.extract_tb(exc.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
        return dict(post="no_exception", detail=f"raised {type(exc).__name__}: {short(str(exc), 200)} at {where}")
    for p in posts_of(c):
        f = raw(c, p)
        if exc is not None and "exc" not in params(f):
            continue
        try:
            ok = bool(call(p))
        except Skip:
            raise
        except Exception as e:
            return dict(post=p, detail=f"result of the wrong shape ({type(e).__name__}: {short(str(e), 150)}); result={short(result)}")
        if not ok:
            return dict(post=p, detail=f"result={short(result)}" + (f" exception={env['exc']}" if exc is not None else ""))
    for a in c.unchanged:
        if not same_snap(snaps[a], snapshot(env[a])):
            return dict(post=f"frame:{a}", detail=f"argument {a} was modified: now {short(env[a])}")
    return None


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


def run_item(c, it):
    case = it.get("case")
    out = dict(contract=c.__name__, case=case, trials=0, skipped=0, failures=[], distinct=0)
    t0 = time.time()
    secs = it.get("secs", 6.0)
    plans = []
    if it.get("values") is not None:
        plans.append(("values", it["values"]))
    for h in it.get("hints") or []:
        if h:
            plans.append(("hints", h))
    seen = set()
    n = it.get("trials", 40)
    k = 0
    while True:
        if plans:
            kind, vals = plans.pop(0)
            b = Builder(it.get("seed", 1), values=vals)
        elif it.get("values") is not None and n == 0:
            break
        else:
            if k >= n or time.time() - t0 > secs:
                break
            b = Builder(it.get("seed", 1) * 1000003 + k, scale=1 if k % 5 else (20 if k % 15 == 10 else 3))
            kind = "random"
            k += 1
        signal.setitimer(signal.ITIMER_PROF, it.get("hang", 25))
        try:
            np.random.seed((it.get("seed", 1) * 7919 + k) % (2**31))
            with contextlib.redirect_stdout(io.StringIO()):
                f = trial(c, case, b)
        except Skip:
            out["skipped"] += 1
            continue
        except RunHang:
            f = dict(post="terminates", detail="no result within the time limit")
        except Hang:  # preparing the arguments or evaluating the specification took too long: nothing decided
            out["skipped"] += 1
            out["slow"] = out.get("slow", 0) + 1
            if out["slow"] > 2:
                break
            continue
        except Exception as e:
            out.setdefault("spec_errors", []).append(f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:])
            if len(out["spec_errors"]) > 3:
                break
            continue
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            b.undo()
        out["trials"] += 1
        key = json.dumps(jsonable(b.values), sort_keys=True, default=str)
        seen.add(key)
        if out.get("sample") is None and b.values:
            out["sample"] = jsonable(b.values)
        if f is not None:
            f["values"] = jsonable(b.values)
            f["kind"] = kind
            out["failures"].append(f)
            if len(out["failures"]) >= it.get("maxfail", 1):
                break
    out["distinct"] = len(seen)
    out["wall"] = round(time.time() - t0, 3)
    return out


def main():
    job = json.load(sys.stdin)
    real_out = sys.stdout
    sys.stdout = io.StringIO()
    signal.signal(signal.SIGPROF, _alarm)
    results = []
    load_err = None
    for nm in job["specs"]:
        try:
            importlib.import_module(nm)
        except Exception as e:
            load_err = f"{nm}: {type(e).__name__}: {e}"
    by = {c.__name__: c for c in speclib.ALL}
    for it in job["items"]:
        c = by.get(it["contract"])
        if c is None:
            results.append(dict(contract=it["contract"], case=it.get("case"), error=load_err or "contract not found", trials=0, failures=[]))
            continue
        try:
            results.append(run_item(c, it))
        except Hang:
            results.append(dict(contract=it["contract"], case=it.get("case"), error="hang", trials=0, failures=[]))
    real_out.write(json.dumps(results))
    real_out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
