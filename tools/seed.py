#!/usr/bin/env python3
"""Plant the bugs of tools/seeds.py in scratch copies of /repo and keep the confirmed ones under /verif/seeded.
   seed.py [--tests] [--keep] [--all-checks] [ids...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(s, tests, keep):
    d = tempfile.mkdtemp(prefix="seed_")
    w = os.path.join(d, "repo")
    res = {"id": s["id"], "property": s["property"]}
    try:
        sh(["git", "clone", "-q", "/repo", w])
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                res["error"] = "edit matches %d times in %s: %s" % (t.count(old), f, old[:60])
                return res
            open(p, "w").write(t.replace(old, new))
        sd = os.path.join(d, "demo")
        os.makedirs(sd)
        open(os.path.join(sd, "demo.py"), "w").write(s["demo"])
        open(os.path.join(sd, "demo.sh"), "w").write('#!/bin/bash\ncd "${PWD}"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        diff = sh(["git", "diff"], cwd=w).stdout
        a = sh(["bash", os.path.join(sd, "demo.sh")], cwd="/repo", env=ENV)
        b = sh(["bash", os.path.join(sd, "demo.sh")], cwd=w, env=ENV)
        res["demo_clean"], res["demo_bug"] = a.returncode, b.returncode
        if a.returncode != 0 or b.returncode == 0:
            res["out"] = (a.stdout[-600:], b.stdout[-600:])
        c = sh(["python3", os.path.join(V, "check.py"), s["property"]], env=dict(ENV, TV_REPO=w, TV_EVIDENCE=d))
        res["check"] = c.returncode
        res["msg"] = c.stdout[-700:] if c.returncode not in (0,) else ""
        if tests:
            e = dict(ENV, PYTHONPATH="/opt/vp/plugins:" + w)
            x = sh([PY, "-m", "pytest", "-q", "-p", "vp_seed", "-p", "no:cacheprovider", "--timeout=300", "--tb=no", "-rA", "tests"], cwd=w, env=e)
            ok = set(l.split(" ", 1)[1].strip() for l in x.stdout.splitlines() if l.startswith("PASSED "))
            miss = [t for t in STABLE if not any(norm(t) == norm(o) for o in ok)]
            res["tests_missing"] = miss[:3]
            if keep and not miss and a.returncode == 0 and b.returncode != 0:
                o = os.path.join(V, "seeded", s["id"])
                shutil.rmtree(o, ignore_errors=True)
                shutil.copytree(sd, o)
                open(os.path.join(o, "patch.diff"), "w").write(diff)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
                res["kept"] = True
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def norm(t):
    return t.replace("/", ".").replace(".py", "").replace("::", ".").replace("..", ".")


def main():
    a = sys.argv[1:]
    ids = [x for x in a if not x.startswith("-")]
    todo = [s for s in seeds.SEEDS if not ids or s["id"] in ids or s["property"] in ids]
    if "--new" in a:
        todo = [s for s in todo if not os.path.isdir(os.path.join(V, "seeded", s["id"]))]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda s: one(s, "--tests" in a or "--keep" in a, "--keep" in a), todo):
            print(json.dumps(r, indent=None), flush=True)


if __name__ == "__main__":
    main()
