"""Runs the bounded contract checks of one property: search.runner <module> <lo> <hi> <seed> <tier> <seconds> [only]

A module has functions t_<kind>(rng, i): they build an input, run the code of /repo and raise Bad when what the code did
is not what the specification says. Everything random comes from rng."""
import importlib, json, os, random, resource, signal, sys, time, traceback, contextlib, io, tempfile, shutil
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Bad(Exception):
    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class Hang(BaseException):
    pass


INPUT = {}


def note(**k):
    """the input of the running case, for the report"""
    INPUT.update({a: repr(b)[:3000] for a, b in k.items()})


def bad(msg, finding=None):
    raise Bad(msg, finding)


def expect(got, want, what):
    if got != want or type(got) is not type(want):
        raise Bad(f"{what}: got {got!r}, want {want!r}")


def run_case(mod, kind, i, seed, limit=20):
    rng = random.Random(f"{seed}:{kind}:{i}")
    INPUT.clear()

    def on(sig, fr):
        raise Hang()
    signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            getattr(mod, "t_" + kind)(rng, i)
        return None
    except Bad as b:
        return str(b), b.finding
    except Hang:
        return f"did not end within {limit} s", None
    except RecursionError:
        return "unbounded recursion: " + tail(), None
    except Exception as x:
        return f"unexpected {type(x).__name__}: {x}\n{tail()}", None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def tail():
    return "\n".join(traceback.format_exc().strip().splitlines()[-8:])


def main():
    name = sys.argv[1]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    scratch = tempfile.mkdtemp(prefix="vsearch")
    os.chdir(scratch)
    try:
        mod = importlib.import_module("search." + name)
        if sys.argv[2] == "--case":
            c = json.loads(sys.argv[3])
            r = run_case(mod, c["kind"], c["i"], c["seed"], getattr(mod, "LIMIT", 20))
            print("input:", json.dumps(INPUT, indent=1))
            print("replayed: " + ("VIOLATED: " + r[0] if r else "holds"))
            return 1 if r else 0
        lo, hi, seed, tier, secs = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], float(sys.argv[6])
        kinds = [k[2:] for k in vars(mod) if k.startswith("t_")]
        if len(sys.argv) > 7:
            kinds = [k for k in kinds if k == sys.argv[7]]
        t0, n, seen, vs, samples, cover = time.time(), 0, set(), [], [], {}
        weight = getattr(mod, "WEIGHT", {})
        for i in range(lo, hi):
            if time.time() - t0 > secs or len(vs) >= 3:
                break
            for k in kinds:
                w = weight.get(k, 1)
                if w < 1 and (i % int(round(1 / w))) != 0:
                    continue
                r = run_case(mod, k, i, seed, getattr(mod, "LIMIT", 20))
                n += 1
                cover[k] = cover.get(k, 0) + 1
                h = hash((k, json.dumps(INPUT, sort_keys=True)))
                if h not in seen:
                    seen.add(h)
                    if len(samples) < 2 and INPUT:
                        samples.append(dict(kind=k, i=i, **{a: b[:400] for a, b in INPUT.items()}))
                if r:
                    f = r[1]
                    if f and any(v.get("finding") == f for v in vs):
                        continue
                    v = dict(case=dict(module=name, kind=k, i=i, seed=seed), message=r[0], inputs=dict(INPUT), finding=f)
                    vs.append(v)
        print(json.dumps(dict(evaluations=n, distinct=len(seen), violations=vs, samples=samples, cover=cover, wall_s=round(time.time() - t0, 2))))
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    # the module must be one object whether run or imported
    import search.runner as me
    me.INPUT.clear()
    sys.exit(me.main())
