"""plant.py [id ...]: (re)creates /verif/seeded/<id> from tools/plants/<id>.py, after confirming it in a scratch copy:
patch applies, builds, passes the stable tests, demo passes without and fails with it. plant.py --try [id ...] runs the property's check on it."""
import json, os, subprocess, sys, shutil, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = os.path.join(HERE, "tools", "plants")
DEMO = '#!/bin/bash\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 200 $PY "$(dirname "$0")/demo.py"\n'
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="plant")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    sh("git checkout -- . && git clean -fdq", r)
    return d, r


def tests(r):
    for f in ("build.sh", "test.sh", "check.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", r).replace("/opt/vp/check.py", os.path.dirname(r) + "/check.py")
        open(os.path.join(os.path.dirname(r), f), "w").write(s)
    b = sh(f"bash ../build.sh", r)
    if b.returncode != 0:
        return "build fails: " + b.stdout[-500:] + b.stderr[-500:]
    o = os.path.join(os.path.dirname(r), "out.json")
    sh(f"bash ../test.sh {o}", r)
    j = json.load(open(o))
    ok = set(j.get("passed", []))
    miss = STABLE - ok
    return "tests fail: " + str(sorted(miss)) if miss else None


def make(pid):
    src = runpy.run_path(os.path.join(PL, pid + ".py"))
    d, r = copy()
    try:
        out = os.path.join(d, "seed")
        os.makedirs(out)
        open(out + "/demo.sh", "w").write(DEMO)
        open(out + "/demo.py", "w").write(src["DEMO"].lstrip("\n"))
        clean = sh(f"bash {out}/demo.sh", r)
        if clean.returncode != 0:
            return "demo fails on the unchanged tree: " + clean.stdout[-800:] + clean.stderr[-800:]
        for f, old, new in src["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{f}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", r).stdout
        open(out + "/patch.diff", "w").write(diff)
        t = tests(r)
        if t:
            return t
        dirty = sh(f"bash {out}/demo.sh", r)
        if dirty.returncode == 0:
            return "demo passes with the change: " + dirty.stdout[-500:]
        json.dump(dict(property=src["PROPERTY"], needs=src["NEEDS"], what_it_breaks=src["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        dst = os.path.join(HERE, "seeded", pid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return "ok; with the change: " + (dirty.stdout + dirty.stderr).strip().splitlines()[-1][:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(pid):
    m = json.load(open(os.path.join(HERE, "seeded", pid, "meta.json")))
    d, r = copy()
    try:
        a = sh(f"git apply {HERE}/seeded/{pid}/patch.diff", r)
        if a.returncode:
            return "patch does not apply " + a.stderr
        p = sh(f"python3-vt check.py {m['property']}", HERE, env=dict(os.environ, VERIF_REPO=r))
        lines = p.stdout.strip().splitlines()
        return f"{m['property']} exit {p.returncode} " + " | ".join(x[:230] for x in lines[-3:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    tr = "--try" in a
    a = [x for x in a if not x.startswith("--")]
    if not a:
        a = sorted(os.listdir(os.path.join(HERE, "seeded"))) if tr else sorted(x[:-3] for x in os.listdir(PL) if x.endswith(".py"))
    for x in a:
        print(x, (attempt if tr else make)(x), flush=True)
