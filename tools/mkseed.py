"""Development helper: plants a bug in a scratch copy of /repo, confirms it (tests pass, demo fails with it and passes
without it) and stores it under /verif/seeded/<id>.

usage: mkseed.py SPEC.json   {"id","property","needs","what_it_breaks","edits":[{"file","old","new"}],"demo": python source}"""
import json
import os
import shutil
import subprocess
import sys
import tempfile


def main(path):
    for sp in json.load(open(path)):
        d = tempfile.mkdtemp(prefix="seed_")
        try:
            w = os.path.join(d, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
            for e in sp["edits"]:
                f = os.path.join(w, e["file"])
                s = open(f).read()
                if s.count(e["old"]) != e.get("count", 1):
                    print(sp["id"], "edit not unique/found:", s.count(e["old"]), e["old"][:60])
                    break
                open(f, "w").write(s.replace(e["old"], e["new"]))
            else:
                diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
                out = os.path.join("/verif/seeded", sp["id"])
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.py"), "w").write(sp["demo"])
                open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                json.dump(dict(property=sp["property"], needs=sp["needs"], what_it_breaks=sp["what_it_breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
                a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
                b = subprocess.run(["bash", out + "/demo.sh"], cwd=w, capture_output=True, text=True)
                env = dict(os.environ, PYTHONPATH=w + "/src")
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider", "-n", "8"], cwd=w, env=env, capture_output=True, text=True)
                if "unrecognized arguments" in t.stderr + t.stdout:
                    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider"], cwd=w, env=env, capture_output=True, text=True)
                tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
                ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
                print(sp["id"], "OK" if ok else "REJECTED", "demo clean", a.returncode, "demo bug", b.returncode, "|", tail, "" if a.returncode == 0 else a.stderr[-300:])
                if not ok:
                    shutil.rmtree(out)
        finally:
            shutil.rmtree(d)


main(sys.argv[1])
