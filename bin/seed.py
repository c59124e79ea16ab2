#!/usr/bin/env python3
"""Development tool: make and test planted bugs in a scratch copy of /repo.
  seed.py make SPEC.py      build seeded/<id>/ from a spec (dict SEED: id, property, edits, demo, needs, breaks)
  seed.py test ID [--no-tests] [--no-check]
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
DEMO = '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def make(path):
    for s in runpy.run_path(path)["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        wt = tempfile.mkdtemp(prefix="seedmk")
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt + "/r", "HEAD"], check=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(wt, "r", f)
                t = open(p, newline="").read()
                nl = "\r\n" if "\r\n" in t else "\n"
                old, new = old.replace("\n", nl), new.replace("\n", nl)
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w", newline="").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", wt + "/r", "diff"], capture_output=True).stdout
            open(d + "/patch.diff", "wb").write(diff)
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt + "/r"])
            os.rmdir(wt)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def test(i, tests=True, check=True):
    d = os.path.join(V, "seeded", i)
    pid = json.load(open(d + "/meta.json"))["property"]
    wt = tempfile.mkdtemp(prefix="seedt")
    r = wt + "/r"
    res = {}
    try:
        shutil.copytree("/repo", r, symlinks=True)
        e = dict(ENV, PYTHONPATH=r, VERIF_REPO=r)
        run = lambda c: subprocess.run(c, cwd=r, env=e, capture_output=True, text=True)
        res["demo_clean"] = run(["sh", d + "/demo.sh"]).returncode
        subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
        x = run(["sh", d + "/demo.sh"])
        res["demo_bug"] = x.returncode
        res["demo_out"] = (x.stdout + x.stderr)[-200:]
        if tests:
            rep = wt + "/junit.xml"
            run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300",
                 "--continue-on-collection-errors", "--tb=no", "-o", "junit_family=xunit2", "--junitxml=" + rep])
            run(["/opt/venv/bin/python", "/opt/vp/results.py", wt + "/o.json", "junit:" + rep])
            b = json.load(open("/opt/vp/BASELINE.json"))
            o = json.load(open(wt + "/o.json"))
            st = set(b.get("passed") or b.get("stable") or b.get("tests"))
            miss = sorted(st - set(o["passed"]))
            res["tests_broken"] = len(miss), miss[:3]
        if check:
            x = subprocess.run(["python3", V + "/bin/check.py", pid], cwd=V, env=dict(e, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION property=" + pid)]
            res["check"] = "CAUGHT" if x.returncode == 1 and v else "MISSED rc=%d" % x.returncode
            res["out"] = (v[0] if v else x.stdout[-300:] + x.stderr[-300:])[:260]
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    print(i, pid, json.dumps(res), flush=True)


if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    for i in [a for a in sys.argv[2:] if not a.startswith("--")]:
        test(i, "--no-tests" not in sys.argv, "--no-check" not in sys.argv)
