"""Verifies one function (or the lemmas) of a spec module in a process of its own; prints one JSON line."""
import importlib, json, sys, time, traceback, resource, threading
from pyvc import theory as th, repo, contract
from pyvc.exec import Exec


def main():
    mod, what = sys.argv[1], sys.argv[2]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    m = importlib.import_module("specs." + mod)
    t0 = time.time()
    out = dict(name=what, obligations=0, discharged=0, failures=[], names=[], inlined=[], assumed=[], reach=0, invariants=0)
    try:
        R = repo.Repo()
        th.setup(R, m.CLASSES)
        if what == "lemmas":
            res = th.prove_lemmas(lambda x: None)
            out["names"] = [[n, None, ok, round(t, 3)] for n, ok, t in res]
            out["obligations"] = len(res)
            out["discharged"] = sum(1 for _, ok, _ in res if ok)
            out["failures"] = [f"lemma {n} not proved" for n, ok, _ in res if not ok]
        else:
            th.use_lemmas()
            c = contract.CONTRACTS[what]
            e = Exec(R, c)
            try:
                e.run()
            except th.Unsupported as x:
                e.failures.append(f"{what}: outside the supported subset: {x}")
            out.update(obligations=e.obl, discharged=e.ok, reach=e.reach, invariants=len(e.inv_used),
                       failures=[str(f) for f in e.failures], names=[list(x) for x in e.obl_names],
                       inlined=sorted(map(str, e.inlined)), assumed=sorted(map(str, e.assumed_used)))
            if not e.failures and (e.obl == 0 or e.reach == 0):
                out["failures"].append(f"{what}: vacuous (no obligation, or no exit of the function is reachable)")
    except Exception as x:
        out["failures"].append(f"{what}: verifier error {type(x).__name__}: {x}")
        out["trace"] = traceback.format_exc()[-3000:]
    out["notes"] = th.ASSUME
    out["queries"], out["solver_s"] = th.STATS["queries"], round(th.STATS["time"], 2)
    out["wall_s"] = round(time.time() - t0, 2)
    print(json.dumps(out, default=str))


# the solver recurses deeply on some queries: a thread with a large stack
threading.stack_size(1 << 30)
t = threading.Thread(target=main)
t.start()
t.join()
