"""reference meaning of the predicates of the core module, over tables"""
from .solver_gen import *


class Fails(Exception):
    """the specification refuses this"""


class Unspecified(Exception):
    pass


def num(rng):
    r = rng.random()
    return rng.randrange(-3, 6) if r < .75 else int("100" + str(rng.randrange(3))) if r < .85 else rng.choice([0, 1.5, -2.5, 2.0, True])


def ent(rng):
    return fresh_str(rng.choice(["a", "b", "cc", "", "mary"])) if rng.random() < .8 else rng.choice([0, 1, 7])


class World:
    """tables e(Entity), n(Entity, Number), m(Entity, Entity2), l(Entity, Anything)"""

    def __init__(self, rng, lists=False):
        self.log, self.reflog = [], []
        k = lambda hi: range(rng.randrange(0, hi))
        self.tables = {
            "e": [[ent(rng)] for _ in k(5)],
            "n": [[ent(rng), num(rng)] for _ in k(6)],
            "m": [[ent(rng), ent(rng)] for _ in k(5)],
            "l": [[ent(rng), rng.choice([[1], [1], ["a", 2], 1, 1.0, "x", 0, ""]) if lists else ent(rng)] for _ in k(5)],
            "none": None}
        del self.tables["none"]
        for t in self.tables.values():
            if t and rng.random() < .5:
                t.append(list(rng.choice(t)))
        self.mode = {p: rng.choice(["filter", "filter", "all"]) for p in self.tables}
        self.quiet = 0

    def rows(self, p, vals, log):
        log.append((p, repr(vals)))
        out = []
        for row in self.tables[p]:
            if self.mode[p] == "all" or all(v is None or v == r for v, r in zip(vals, row)):
                out.append(list(row))
        return out

    def module(self):
        m = Mod()
        for p in self.tables:
            m.add_relation(Relation(p, query_function=(lambda p: lambda values, context: self.rows(p, values, self.log))(p)))
        return m

    # ---------------------------------------------------------------- reference
    def solve(self, atoms, b):
        if not atoms:
            return [dict(b)]
        first = self.single(atoms[0], b)
        if len(atoms) == 1:
            return first
        out = []
        for x in first:
            for r in self.solve(atoms[1:], x):
                if r not in out:
                    out.append(r)
        return out

    def single(self, atom, b):
        p = atom[0]
        if p == "$disjunction":
            for alt in atom[1]:
                r = self.solve(alt, b)
                if r:
                    return r
            return []
        args = atom[1:]
        vals = [b.get(a.name) if isinstance(a, Variable) else a for a in args]
        if p in self.tables:
            rows = self.rows(p, vals, self.reflog)
        else:
            rows = self.core(p, vals, args, b)
        uniq, seen = [], set()
        for r in rows:
            if str(r) not in seen:
                seen.add(str(r))
                uniq.append(r)
        return o_match(uniq, args, b)

    def core(self, p, vals, args, b):
        def col(rs, v):
            if not isinstance(v, Variable) or any(v.name not in r for r in rs):
                raise Unspecified()
            return [r[v.name] for r in rs]

        def nums(xs):
            if any(isinstance(x, (str, list, tuple)) or x is None for x in xs):
                raise Unspecified()
            return xs
        if p == "count":
            return [[len(self.solve(vals[1], b)), None]]
        if p == "sum":
            xs = nums(col(self.solve(vals[2], b), args[1]))
            t = 0
            for x in xs:
                t += x
            return [[t, None, None]]
        if p == "avg":
            xs = nums(col(self.solve(vals[2], b), args[1]))
            if not xs:
                return []
            t = 0
            for x in xs:
                t += x
            return [[t / len(xs), None, None]]
        if p == "percentage":
            n, d = len(self.solve(vals[1], b)), len(self.solve(vals[2], b))
            return [] if d == 0 else [[n / d * 100.0, None, None]]
        if p in ("arg_min", "arg_max"):
            rs = self.solve(vals[2], b)
            es, xs = col(rs, args[0]), nums(col(rs, args[1]))
            best = None
            for k in range(len(xs)):
                if best is None or (xs[k] < xs[best] if p == "arg_min" else xs[k] > xs[best]):
                    best = k
            return [] if best is None else [[es[best], xs[best], None]]
        if p in ("find_all", "find_one"):
            names = vals[0]
            out = []
            for r in self.solve(vals[1], b):
                if isinstance(names, list):
                    x = [r.get(v) for v in names]
                elif names in r:
                    x = r[names]
                else:
                    continue
                if x not in out:
                    out.append(x)
            if p == "find_all":
                return [[None, None, out]]
            return [[None, None, out[0]]] if out else []
        if p in ("not", "none"):
            return [] if self.solve(vals[0], b) else [[None]]
        if p == "scoped":
            return [[None]] if self.solve(vals[0], b) else []
        if p in ("det_equals", "det_greater_than", "det_less_than"):
            k = len(self.solve(vals[0], b))
            n = vals[1]
            if n is None or isinstance(n, (str, list)):
                raise Unspecified()
            ok = k == n if p == "det_equals" else k > n if p == "det_greater_than" else k < n
            return [[None, None]] if ok else []
        if p == "all":
            ents = []
            for x in col(self.solve(vals[1], b), args[0]):
                if isinstance(x, list):
                    raise Unspecified()
                if x not in ents:
                    ents.append(x)
            good = [x for x in ents if self.solve(vals[2], {**b, args[0].name: x})]
            return [[x, None, None] for x in ents] if ents and len(good) == len(ents) else []
        if p == "equals":
            x, y = vals
            if x is None and y is None:
                raise Fails()
            if x is None:
                return [[y, y]]
            if y is None:
                return [[x, x]]
            return [[x, y]] if x == y else []
        if p in ("greater_than", "less_than"):
            x, y = vals
            if x is None or y is None:
                raise Fails()
            if isinstance(x, str) != isinstance(y, str) or isinstance(x, list) or isinstance(y, list):
                raise Unspecified()
            return [vals] if (x > y if p == "greater_than" else x < y) else []
        if p == "let":
            if vals[1] is None:
                raise Unspecified()
            return [[vals[1], vals[1]]]
        if p == "multiply":
            x, y = vals[:2]
            if x is None or y is None:
                raise Fails()
            if isinstance(x, (str, list)) or isinstance(y, (str, list)):
                raise Unspecified()
            return [[None, None, x * y]]
        raise AssertionError(p)


AGG = ["count", "sum", "avg", "percentage", "arg_min", "arg_max", "find_all", "find_one"]
LOG = ["not", "none", "scoped", "det_equals", "det_greater_than", "det_less_than", "all", "equals", "greater_than", "less_than", "let", "multiply"]


def gen_body(rng, depth=1, nested=(), lo=0, hi=3):
    out = []
    for _ in range(rng.randint(lo, hi)):
        r = rng.random()
        if depth and nested and r < .25:
            out.append(gen_core(rng, rng.choice(nested), depth - 1, nested))
        elif depth and r < .32:
            out.append(("$disjunction", [gen_body(rng, depth - 1, nested, 0, 2) for _ in range(rng.randint(1, 3))]))
        else:
            e = var(rng.choice(["E1", "E1", "E2", "X"]))
            if rng.random() < .15:
                e = ent(rng)
            p = rng.choice(["e", "n", "n", "m", "l"])
            second = var(rng.choice(["E2", "E2", "Y", "N"])) if rng.random() < .85 else (num(rng) if p == "n" else ent(rng))
            out.append((fresh_str(p),) + ((e,) if p == "e" else (e, second)))
    return out


def gen_core(rng, p, depth=1, nested=()):
    body = lambda lo=0: gen_body(rng, depth, nested, lo, 3)
    v = lambda *n: var(rng.choice(n))
    p = fresh_str(p)
    number = lambda: v("N", "Z") if rng.random() < .3 else rng.randrange(0, 5)
    side = lambda: v("E1", "Z", "N") if rng.random() < .6 else (num(rng) if rng.random() < .7 else ent(rng))
    if p == "count":
        return (p, v("E1", "C") if rng.random() < .9 else rng.randrange(4), body())
    if p in ("sum", "avg"):
        return (p, v("E1", "C") if rng.random() < .9 else rng.randrange(4), v("E2", "N"), [("n", var("E1"), v("E2", "N"))] + body() if rng.random() < .8 else body())
    if p == "percentage":
        return (p, v("E1", "C"), body(), body())
    if p in ("arg_min", "arg_max"):
        x = v("E2", "N")
        return (p, var("E1"), x, [("n", var("E1"), x)] + body() if rng.random() < .9 else body())
    if p in ("find_all", "find_one"):
        names = rng.choice(["E1", "E2", "N", "Q", ["E1"], ["E1", "E2"], ["E2", "E1"], ["E1", "Q"], []])
        return (p, snap(names), body(1), v("R", "E2") if rng.random() < .9 else 5)
    if p in ("not", "none", "scoped"):
        return (p, body())
    if p.startswith("det_"):
        return (p, body(), number())
    if p == "all":
        return (p, var("E1"), [(rng.choice(["e", "n", "m"]),)] and [a for a in [rng.choice([("e", var("E1")), ("n", var("E1"), var("N")), ("m", var("E1"), var("E2"))])]] + gen_body(rng, depth, nested, 0, 1), body())
    if p in ("equals", "greater_than", "less_than"):
        return (p, side(), side())
    if p == "let":
        return (p, v("E1", "Z", "C"), side())
    if p == "multiply":
        return (p, side(), side(), v("C", "E1"))


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    return a == b


def run_query(rng, w, query, binding, counts, s=None):
    """solves on the real code and by the reference and compares"""
    try:
        want = ("ok", w.solve(snap(query), snap(binding)))
    except Fails:
        want = ("fails",)
    except (Unspecified, TypeError):
        return None
    s = s or Solver(Model([w.module()]))
    q0, b0 = snap(query), snap(binding)
    if want[0] == "fails":
        raises(lambda: s.solve(query, binding), "a refused query")
    else:
        got = [dict(x) for x in s.solve(query, binding)]
        if not close(got, want[1]):
            bad(f"results: got {got!r}, want {want[1]!r}")
        if counts and sorted(w.log) != sorted(w.reflog):
            bad(f"queries made: {w.log!r}; a body is solved once: {w.reflog!r}")
    same(query, q0, "the query afterwards")
    same(binding, b0, "the binding afterwards")
    return want


def binding_for(rng):
    b = {}
    for n in ["E1", "E2", "N", "X", "Z", "C"]:
        if rng.random() < .2:
            b[fresh_str(n)] = num(rng) if n in "NZC" or rng.random() < .2 else ent(rng)
    return b
