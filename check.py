#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE]

1. proof: every obligation generated from /repo's current source for the functions under contract of the property;
2. bounded stand-in: the contract evaluated on generated inputs against the running code (search/<id>.py);
3. when an obligation is not accepted: a longer search for a failing input, then the report.
Exit 0: held. Exit 1: a VIOLATION line."""
import json, os, sys, time, subprocess, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
PY = "/opt/veriftools/pyvenv/bin/python3" if os.path.exists("/opt/veriftools/pyvenv/bin/python3") else sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)


def run_worker(mod, what, limit):
    t0 = time.time()
    for attempt in range(3):
        p = None
        try:
            p = subprocess.run([PY, "-m", "pyvc.worker", mod, what], cwd=HERE, env=dict(ENV, PYVC_ATTEMPT=str(attempt)), capture_output=True, text=True,
                               timeout=max(10, limit - (time.time() - t0)))
            r = json.loads(p.stdout.strip().splitlines()[-1])
            break
        except subprocess.TimeoutExpired:
            r = dict(name=what, obligations=0, discharged=0, failures=[f"{what}: verifier did not finish in {limit} s"], names=[])
            break
        except Exception as x:
            # the solver itself crashed: again, in another order
            r = dict(name=what, obligations=0, discharged=0, failures=[f"{what}: verifier ended without a result"], names=[],
                     trace=(p.stderr if p else "")[-2000:])
    r["module"] = mod
    r["wall_s"] = round(time.time() - t0, 2)
    return r


def run_search(mod, lo, hi, seed, tier, seconds, out, idx, only=None):
    """one search process over case numbers lo..hi"""
    a = [PY, "-m", "search.runner", mod, str(lo), str(hi), str(seed), tier, str(seconds)] + ([only] if only else [])
    try:
        p = subprocess.run(a, cwd=HERE, env=ENV, capture_output=True, text=True, timeout=seconds + 60)
        out[idx] = json.loads(p.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        out[idx] = dict(error="search process did not end")
    except Exception as x:
        out[idx] = dict(error=f"search process failed: {x}: {(p.stderr or '')[-1500:]}")


def pool(jobs, n):
    """runs callables with n at a time"""
    q = queue.Queue()
    for j in jobs:
        q.put(j)

    def w():
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                return
            j()
    ts = [threading.Thread(target=w) for _ in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=" + pid + " "):
                key, _, text = line.split(" ", 2)[2].partition(" ")
                out[key] = text
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if "case" not in d:
            print(json.dumps(d, indent=1))
            return 1
        p = subprocess.run([PY, "-m", "search.runner", d["case"]["module"], "--case", json.dumps(d["case"])], cwd=HERE, env=ENV)
        return p.returncode
    t0 = time.time()
    known = known_findings(pid)
    results, sres = [], {}
    lock = threading.Lock()
    limit = 300 if tier == "quick" else 2000
    sec = c.get("seconds", 20) if tier == "quick" else 240
    jobs = []

    def job(mod, what):
        def f():
            r = run_worker(mod, what, limit)
            with lock:
                results.append(r)
        return f
    mods = []
    for mod, quals in c.get("contracts", {}).items():
        jobs.append(job(mod, "lemmas"))
        for q in quals:
            jobs.append(job(mod, q))
    smod = c.get("search")
    N = 3 if tier == "quick" else 6
    cases = c.get("cases", 4000) * (1 if tier == "quick" else 40)
    if smod:
        step = (cases + N - 1) // N
        for i in range(N):
            jobs.insert(i, (lambda i: lambda: run_search(smod, i * step, (i + 1) * step, seed, tier, sec, sres, i))(i))
    pool(jobs, 8)
    failures = [f for r in results for f in r["failures"]]

    def violations(sr):
        vs, ks, errs = [], {}, []
        for r in sr.values():
            if "error" in r:
                errs.append(r["error"])
                continue
            for v in r["violations"]:
                if v.get("finding") in known:
                    ks.setdefault(v["finding"], v)
                else:
                    vs.append(v)
        return vs, ks, errs
    vs, ks, errs = violations(sres)
    extended = False
    if failures and not vs and smod:
        extended = True
        ex = {}
        sec2 = c.get("extended_seconds", 75) if tier == "quick" else 400
        off = cases * 10
        step = cases * 10
        pool([(lambda i: lambda: run_search(smod, off + i * step, off + (i + 1) * step, seed + 1000, "thorough", sec2, ex, i))(i) for i in range(8)], 8)
        vs2, ks2, errs2 = violations(ex)
        vs += vs2
        ks.update(ks2)
        errs += errs2
        sres.update({100 + k: v for k, v in ex.items()})
    obl = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    evals = sum(r.get("evaluations", 0) for r in sres.values())
    distinct = sum(r.get("distinct", 0) for r in sres.values())
    samples = [s for r in sres.values() for s in r.get("samples", [])][:4]
    cover = {}
    for r in sres.values():
        for k, v in r.get("cover", {}).items():
            cover[k] = cover.get(k, 0) + v
    bad = bool(vs or failures or errs)
    notes = {}
    for r in results:
        notes.update(r.get("notes", {}))
    assumed = sorted({a for r in results for a in r.get("assumed", [])})
    trusted = ["pyvc (the verification-condition generator in /verif/pyvc)", "z3 " + z3v(), "CPython's ast module and its semantics as encoded in pyvc/theory.py and pyvc/exec.py"] + \
        [f"assumed contract: {a}" for a in assumed]
    ev = dict(property=pid, tier=tier, seed=seed, level=c["level"], wall_s=0, violations=len(vs) + (1 if failures and not vs else 0),
              assumptions=sorted(set(notes.values())) + list(c.get("assumptions", [])))
    cov = {}
    if results:
        cov.update(obligations=obl, discharged=dis, checker_cmd=f"python3-vt check.py {pid} (python3-vt -m pyvc.worker <module> <function>, back end z3 through its Python API)",
                   trusted_base=trusted, functions_under_contract=[r["name"] for r in results if r["name"] != "lemmas"],
                   per_function=[dict(function=r["name"], obligations=r["obligations"], discharged=r["discharged"], solver_s=r.get("solver_s"),
                                      queries=r.get("queries"), invariants_used=r.get("invariants"), exits_reached=r.get("reach"), inlined=r.get("inlined"),
                                      failures=r["failures"]) for r in results],
                   solver_s=round(sum(r.get("solver_s") or 0 for r in results), 2), back_end="z3", undischarged=failures)
    if smod:
        cov.update(evaluations=evals, distinct_nontrivial=distinct, rule="bounded stand-in / replay of the contracts on the running code: " + c.get("rule", "inputs generated from the seed; distinct by their printed form"),
                   samples=samples, bounded_cases_by_kind=cover)
    if c["level"] == "other":
        cov["explanation"] = c.get("explanation", "")
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for k, v in sorted(ks.items()):
        print(f"KNOWN-FINDING: property={pid} {k} {known[k]}")
    print(f"{pid}: {dis}/{obl} obligations discharged over {len([r for r in results if r['name'] != 'lemmas'])} functions; "
          f"{evals} bounded evaluations ({distinct} distinct); {ev['wall_s']} s")
    if not bad:
        return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rp = os.path.join(HERE, "replays", pid + ".json")
    if vs:
        v = vs[0]
        json.dump(dict(property=pid, case=v["case"], message=v["message"], inputs=v.get("inputs"), failed_obligations=failures,
                       rerun=f"python3-vt check.py {pid} --replay {rp}"), open(rp, "w"), indent=1)
        print("   " + v["message"][:1500].replace("\n", "\n   "))
        for f in failures[:5]:
            print("   failed obligation: " + f[:300])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    json.dump(dict(property=pid, failed_obligations=failures, search_errors=errs,
                   verifier_output=[dict(function=r["name"], failures=r["failures"], trace=r.get("trace"), not_discharged=[n for n in r["names"] if not n[2]]) for r in results if r["failures"]],
                   searched=dict(evaluations=evals, distinct=distinct)), open(rp, "w"), indent=1)
    for f in failures[:8] + errs[:3]:
        print("   not discharged: " + f[:400])
    print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    return 1


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "(version unknown)"


if __name__ == "__main__":
    sys.exit(main())
