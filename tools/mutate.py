"""mutate.py <specmodule> <qual> [max] : deliberately broken bodies of one function under contract; lists those the verifier still accepts.
Run on a scratch copy; /repo is not touched."""
import ast, copy, json, os, subprocess, sys, tempfile, shutil, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import importlib
from pyvc import contract


def mutants(tree, qual):
    """yields (description, tree)"""
    def find(t):
        parts = qual.split(".")
        body = t.body
        n = None
        for p in parts:
            n = next(x for x in body if isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == p)
            body = n.body
        return n
    fn = find(tree)
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mk(change, what):
            t = copy.deepcopy(tree)
            m = list(ast.walk(find(t)))[i]
            change(m, t)
            return f"line {getattr(n, 'lineno', '?')}: {what}", t
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def neg(m, t): m.test = ast.UnaryOp(ast.Not(), m.test)
            yield mk(neg, "negate " + ast.unparse(n.test))
            if not isinstance(n, ast.While):
                def tr(m, t): m.test = ast.Constant(True)
                def fa(m, t): m.test = ast.Constant(False)
                yield mk(tr, "true for " + ast.unparse(n.test))
                yield mk(fa, "false for " + ast.unparse(n.test))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alts = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            def ch(m, t): m.ops = [alts[type(m.ops[0])]()]
            yield mk(ch, "operator in " + ast.unparse(n))
            if isinstance(n.ops[0], (ast.Gt, ast.Lt)):
                def sw(m, t): m.left, m.comparators = m.comparators[0], [m.left]
                yield mk(sw, "swap in " + ast.unparse(n))
        if isinstance(n, ast.BoolOp):
            def ch2(m, t): m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield mk(ch2, "and/or in " + ast.unparse(n))
            for k in range(len(n.values)):
                def dr(m, t, k=k): del m.values[k]; m.values.append(ast.Constant(isinstance(m.op, ast.And)))
                yield mk(dr, f"drop operand {k} of " + ast.unparse(n))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)) and not isinstance(n.value, str):
            def c1(m, t): m.value = (not m.value) if isinstance(m.value, bool) else m.value + 1
            yield mk(c1, f"constant {n.value!r} changed")
        if isinstance(n, ast.Constant) and n.value is None:
            def c2(m, t): m.value = 0
            yield mk(c2, "None to 0")
        if isinstance(n, ast.BinOp):
            alts = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}
            if type(n.op) in alts:
                def c3(m, t): m.op = alts[type(m.op)]()
                yield mk(c3, "operator of " + ast.unparse(n))
                def c4(m, t): m.left, m.right = m.right, m.left
                yield mk(c4, "operands swapped in " + ast.unparse(n))
        if isinstance(n, (ast.List,)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            def c5(m, t): m.elts.reverse()
            yield mk(c5, "reverse " + ast.unparse(n))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            def c6(m, t): m.args[0], m.args[1] = m.args[1], m.args[0]
            yield mk(c6, "arguments swapped in " + ast.unparse(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            def c7(m, t): m.func = ast.Name("_idf", ast.Load()); m.args = [n.func.value]; t.body.append(ast.parse("def _idf(x): return x").body[0])
            yield mk(c7, "no copy in " + ast.unparse(n))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                def c8(m, t): m.lower = None
                yield mk(c8, "slice without lower bound")
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        continue
                    def dl(m, t, k=k, f=f): getattr(m, f)[k] = ast.Pass()
                    yield mk(dl, "delete " + ast.unparse(s).split("\n")[0])
                    if isinstance(s, ast.Continue):
                        def br(m, t, k=k, f=f): getattr(m, f)[k] = ast.Break()
                        yield mk(br, "continue to break")
                    if isinstance(s, ast.Break):
                        def br2(m, t, k=k, f=f): getattr(m, f)[k] = ast.Continue()
                        yield mk(br2, "break to continue")
                    if k + 1 < len(b):
                        def swp(m, t, k=k, f=f):
                            x = getattr(m, f); x[k], x[k + 1] = x[k + 1], x[k]
                        yield mk(swp, "swap statement with next: " + ast.unparse(s).split("\n")[0])


def main():
    mod, qual = sys.argv[1], sys.argv[2]
    mx = int(sys.argv[3]) if len(sys.argv) > 3 else 1000
    importlib.import_module("specs." + mod)
    c = contract.CONTRACTS[qual]
    src = open(os.path.join("/repo", c.file)).read()
    ms = list(mutants(ast.parse(src), qual))
    random.Random(1).shuffle(ms)
    ms = ms[:mx]
    top = tempfile.mkdtemp(prefix="mut")

    def run(j):
        d, t = ms[j]
        root = os.path.join(top, str(j))
        shutil.copytree("/repo/richard", os.path.join(root, "richard"), ignore=shutil.ignore_patterns("__pycache__"))
        try:
            text = ast.unparse(ast.fix_missing_locations(t))
            compile(text, "x", "exec")
        except Exception as x:
            return d, None, str(x)
        open(os.path.join(root, c.file), "w").write(text)
        env = dict(os.environ, VERIF_REPO=root, PYTHONHASHSEED="0", PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run(["python3-vt", "-m", "pyvc.worker", mod, qual], cwd=HERE, env=env, capture_output=True, text=True, timeout=300)
            r = json.loads(p.stdout.strip().splitlines()[-1])
            f = r["failures"]
        except subprocess.TimeoutExpired:
            f = ["timeout"]
        except Exception:
            f = ["crash " + p.stderr[-300:]]
        shutil.rmtree(root, ignore_errors=True)
        return d, f, None
    surv = 0
    with ThreadPoolExecutor(8) as ex:
        for d, f, e in ex.map(run, range(len(ms))):
            if f is None:
                continue
            if not f:
                surv += 1
                print("ACCEPTED", d)
            elif "-v" in sys.argv:
                print("refused ", d, "|", f[0][:150])
            elif any(x in f[0] for x in ("verifier error", "crash", "timeout")):
                print("ODD     ", d, "|", f[0][:200])
    print(f"{qual}: {len(ms)} mutants, {surv} accepted")
    shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main()
