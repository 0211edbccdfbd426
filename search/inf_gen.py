"""reference meaning of inference rules"""
from .core_gen import *
from richard.module.InferenceModule import InferenceModule
from richard.type.InferenceRule import InferenceRule


def variables(x, out=None):
    out = set() if out is None else out
    if isinstance(x, Variable):
        out.add(x.name)
    elif isinstance(x, (list, tuple)):
        for y in x:
            variables(y, out)
    return out


def subst(x, b):
    if isinstance(x, list):
        return [subst(y, b) for y in x]
    if isinstance(x, tuple):
        return tuple(subst(y, b) for y in x)
    if isinstance(x, Variable) and x.name in b:
        return b[x.name]
    return x


class RuleWorld(World):
    def __init__(self, rng, **k):
        super().__init__(rng, **k)
        self.rules = {}      # predicate -> [(head, body)]
        self.writes = []
        self.refwrites = []
        self.depth = 0

    def rule(self, head, body):
        self.rules.setdefault(head[0], []).append((head, body))

    def single(self, atom, b):
        p = atom[0]
        args = atom[1:]
        if p not in self.rules and p not in ("store", "learn_rule", "w"):
            if p not in self.tables and p not in AGG + LOG and p != "$disjunction":
                raise Fails()
            return super().single(atom, b)
        if p in self.tables:
            vals = [b.get(a.name) if isinstance(a, Variable) else a for a in args]
            rows = self.rows(p, vals, self.reflog)
        else:
            rows = []
        vals = [b.get(a.name) if isinstance(a, Variable) else a for a in args]
        if p == "store":
            if not isinstance(vals[0], list):
                raise Fails()
            for a in subst(vals[0], b):
                self.refwrites.append(a)
            rows = [[None]]
        elif p == "learn_rule":
            if not isinstance(vals[0], tuple):
                raise Fails()
            self.rule(subst(vals[0], b), subst(vals[1], b))
            rows = [[None, None]]
        else:
            for head, body in list(self.rules.get(p, [])):
                rows += self.apply(head, body, args, b)
        uniq, seen = [], set()
        for r in rows:
            if str(r) not in seen:
                seen.add(str(r))
                uniq.append(r)
        return o_match(uniq, args, b)

    def apply(self, head, body, args, b):
        self.depth += 1
        if self.depth > 60:
            raise Unspecified()
        try:
            mine = variables([head, body])
            start = {k: v for k, v in b.items() if k not in mine}
            for h, a in zip(head[1:], args):
                if isinstance(a, Variable):
                    if a.name not in b:
                        continue
                    a = b[a.name]
                    if isinstance(a, Variable):
                        raise Unspecified()
                if isinstance(h, Variable):
                    if h.name in start and start[h.name] != a:
                        return []
                    start[h.name] = a
                elif h != a:
                    return []
            out, missing = [], 0
            sols = self.solve(body, start)
            for s in sols:
                row = []
                for h, a in zip(head[1:], args):
                    if not isinstance(a, Variable):
                        row.append(a)
                    elif not isinstance(h, Variable):
                        row.append(h)
                    elif h.name in s:
                        row.append(s[h.name])
                    else:
                        missing += 1
                        break
                else:
                    out.append(row)
            if missing:
                if missing < len(sols):
                    raise Unspecified()
                return []
            return out
        finally:
            self.depth -= 1

    def writer(self):
        m = Mod()
        for p in ("w", "v"):
            m.add_relation(Relation(p, query_function=lambda values, context: [], write_function=(lambda p: lambda values, context: self.writes.append((p,) + tuple(values)))(p)))
        return m


HEADVARS = ["E1", "E2", "X", "A", "$3"]


def term(rng, const=.25):
    if rng.random() < const:
        return ent(rng) if rng.random() < .7 else num(rng)
    return var(rng.choice(HEADVARS))


def gen_rules(rng, levels=3, core=True):
    """[(head, body)], a body uses facts and predicates of lower level"""
    out = []
    preds = {}
    for lv in range(levels):
        for _ in range(rng.randint(1, 3)):
            p = f"r{lv}" if rng.random() < .8 else "m"
            if p == "m" and lv:
                p = f"r{lv}"
            ar = preds.setdefault(p, 2 if p == "m" else rng.choice([1, 2, 2, 3]))
            head = (fresh_str(p),) + tuple(term(rng) for _ in range(ar))
            body = []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                low = [q for q in preds if q != p and q < f"r{lv}" and q != "m"]
                r = rng.random()
                if low and r < .45:
                    q = rng.choice(low)
                    body.append((q,) + tuple(term(rng, .15) for _ in range(preds[q])))
                elif core and r < .6:
                    body.append(rng.choice([("equals", term(rng), ent(rng)), ("not", [("e", term(rng))]), ("$disjunction", [[("e", term(rng))], [("m", term(rng), term(rng))]])])
                                if p != "m" else ("e", term(rng)))
                else:
                    body.append(rng.choice([("e", term(rng, .1)), ("n", term(rng, .1), term(rng, .1)), ("l", term(rng, .1), term(rng, .1))] + ([("m", term(rng, .1), term(rng, .1))] if p != "m" else [])))
            out.append((head, body))
    if rng.random() < .5:
        rng.shuffle(out)
    return out, preds


def rule_binding(rng):
    return {fresh_str(n): (ent(rng) if rng.random() < .8 else num(rng)) for n in HEADVARS + ["Q"] if rng.random() < .3}


def check(rng, w, s, query, binding):
    q0, b0 = snap(query), snap(binding)
    w.writes.clear()
    w.refwrites.clear()
    try:
        want = ("ok", w.solve(snap(query), snap(binding)))
    except Fails:
        want = ("fails",)
    except (Unspecified, TypeError):
        return False
    if want[0] == "fails":
        raises(lambda: s.solve(query, binding), "a refused query")
    else:
        got = [dict(x) for x in s.solve(query, binding)]
        if not close(got, want[1]):
            bad(f"results: got {got!r}, want {want[1]!r}")
        same(w.writes, w.refwrites, "atoms written")
    same(query, q0, "the query afterwards")
    same(binding, b0, "the binding afterwards")
    return True
