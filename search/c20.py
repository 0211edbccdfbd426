"""C20: random write grammars, output buffers and sequences of sentences against an own rendering"""
from .common import *
from .gram import *
from richard.core.BasicGenerator import BasicGenerator
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

BUFFER = {"output_type": 1, "output_value": 1, "output_value_with_unit": 2, "output_list": 1}
FACTS = {"next": 2, "name": 2, "big": 1}
CATS = [("s", 0), ("np", 1), ("vp", 2), ("list", 1), ("np", 2), ("adv", 0)]          # a category refers to later ones only, except list
VALUES = ["declarative", "list", "bob", "", 0, 1, 2, "x y"]
WORDS = ["The", "is", "OK", "it's", ",", "a"]


class Fail(Exception):
    pass


def rows_of(facts, atom, b):
    """extensions of b by one atom, in order"""
    out = []
    for row in facts[atom[0]]:
        if len(row) != len(atom) - 1:
            continue
        n, ok = dict(b), True
        for a, v in zip(atom[1:], row):
            if isinstance(a, Variable):
                if str(a) in n:
                    ok = ok and n[str(a)] == v
                else:
                    n[str(a)] = v
            else:
                ok = ok and a == v
        if ok and n not in out:
            out.append(n)
    return out


def first(facts, cond, b):
    sols = [b]
    for atom in cond:
        if atom[0] == "unknown_predicate":
            if sols:
                raise Fail("unknown predicate")
            return None
        new = []
        for x in sols:
            for y in rows_of(facts, atom, x):
                new.append(y)
        sols = new
    return sols[0] if sols else None


def condition(rng, args):
    """over the arguments and new variables"""
    vs = list(args) + ["E5", "E6"]
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        p, n = rng.choice(list(BUFFER.items()) + list(FACTS.items()))
        out.append((p, *[var(rng.choice(vs)) if rng.random() < .75 else rng.choice(VALUES) for _ in range(n)]))
    if rng.random() < .03:
        out.insert(rng.randint(0, len(out)), ("unknown_predicate", 1))
    return out


def rule(rng, level):
    cat, n = CATS[level]
    args = ["E1", "E2"][:n]
    if n == 2 and rng.random() < .2:
        args = ["E2", "E1"]
    vs = args + ["E5", "E6"]
    cond, cons = None, []
    if rng.random() < .75:
        cond = condition(rng, args)
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        if k:
            cons.append((rng.choice(["sep", "sep", "glue", "osep"]),))
        r = rng.random()
        if r < .35:
            cons.append(("word", rng.choice(WORDS), rng.random() < .15))
        elif r < .5:
            cons.append(("cat", rng.choice(["text", "value", "text"]), [rng.choice(vs)], False))
        elif r < .6:
            cons.append(("cat", "format", [rng.choice(vs) for _ in range(rng.choice([1, 2]))], False))
        elif level + 1 < len(CATS):
            c, m = CATS[rng.randint(level + 1, len(CATS) - 1)]
            cons.append(("cat", c, [rng.choice(vs) for _ in range(m)], rng.random() < .3))
        else:
            cons.append(("word", rng.choice(WORDS), False))
    if cat == "list" and rng.random() < .5:
        cond = [("next", var("E1"), var("E9"))] + (cond or [])
        cons.append(("sep",))
        cons.append(("cat", "list", ["E9"], rng.random() < .3))
    d = dict(syn=syn(cat, args, cons, rng))
    if cond is not None:
        d["if"] = cond
    elif rng.random() < .2:
        d["if"] = []
    kind = rng.choice(["angle", "sum", "raise"]) if rng.random() < .9 else "angle"
    d["format"] = FORMATS[kind] if rng.random() < .9 or any(c[0] == "cat" and c[1] == "format" for c in cons) else None
    if d["format"] is None:
        del d["format"]
    if rng.random() < .3:
        d["post"] = rng.choice(POSTS)
    return d, cat, args, plain(cons)


def f_raise(*v):
    if v[0] == "bob":
        raise Fail("format")
    return "f:" + repr(v)


FORMATS = dict(angle=lambda *v: "<" + "|".join(repr(x) for x in v) + ">", sum=lambda *v: [len(v), v[0]], **{"raise": f_raise})
POSTS = [lambda x: "(" + x + ")" if isinstance(x, str) else x, lambda x: ["post", x], lambda x: x.strip().upper() if isinstance(x, str) else "?"]


def syntax_key(cat, args, cons):
    """of the rule as written: its variants with and without optional parts count as one"""
    return (cat, tuple(args), tuple((c[0], c[1], c[2]) for c in cons))


def render(rules, facts, used, cat, values, optional):
    chosen, b, applied = None, None, None
    for d, c, args, cons, key in rules:
        if c != cat or len(args) != len(values):
            continue
        start = dict(zip(args, values))
        sol = first(facts, d["if"], start) if d.get("if") else start
        if sol is None:
            continue
        chosen, b = (d, c, args, cons, key), sol
        if key not in used:
            break
    if chosen is None:
        if optional:
            return ""
        raise Fail("no rule for " + cat)
    d, c, args, cons, key = chosen
    used.append(key)
    words = []
    for p, a, kind, opt, _ in cons:
        vals = [b.get(x, "") for x in a]
        if kind == "word-form":
            words.append(p)
        elif p == "value":
            words.append(vals[0])
        elif p == "text":
            words.append(str(vals[0]))
        elif p == "format":
            words.append(d["format"](*vals))
        else:
            words.append(render(rules, facts, used, p, vals, opt))
    if all(isinstance(w, str) for w in words):
        out = "".join(words)
    elif len(words) == 1:
        out = words[0]
    else:
        out = words
    return d["post"](out) if d.get("post") else out


class Facts(SomeModule):
    def __init__(self, facts):
        super().__init__()
        self.facts = facts
        for p, n in FACTS.items():
            self.add_relation(Relation(p, arguments=["a", "b"][:n], query_function=self.q))

    def q(self, values, context):
        return [list(r) for r in self.facts[context.relation.predicate] if all(v is None or v == x for v, x in zip(values, r))]


def t_sentences(rng, i):
    rules = []
    for level in range(len(CATS)):
        for _ in range(rng.choice([0, 1, 2, 2, 3] if level else [1, 2, 3])):
            rules.append(rule(rng, level))
    for _ in range(rng.choice([0, 0, 1, 2])):
        if not rules:
            break
        d, cat, args, cons = rng.choice(rules)         # the same syntax under another condition
        e = dict(d)
        e["if"] = condition(rng, args) if cat != "list" else [("next", var("E1"), var("E9"))] + condition(rng, args)
        if rng.random() < .3:
            e["post"] = rng.choice(POSTS)
        rules.append((e, cat, args, cons))
    rng.shuffle(rules)
    base = {p: [[rng.choice(VALUES) for _ in range(n)] for _ in range(rng.randint(0, 3))] for p, n in FACTS.items()}
    base["next"] = [[a, b] for a, b in base["next"] if VALUES.index(a) < VALUES.index(b)]
    buffer = BasicOutputBuffer()
    model = Model([Facts(base), buffer])
    gr = SimpleGrammarRulesParser().parse_write_grammar([d for d, *_ in rules])
    gen = BasicGenerator(gr, model, buffer)
    expanded = []
    for d, cat, args, cons in rules:
        for v in variants(cons):
            expanded.append((d, cat, args, v, syntax_key(cat, args, cons)))
    said = []
    for k in range(rng.choice([1, 2, 3])):
        facts = dict(base)
        for p, n in BUFFER.items():
            facts[p] = []
        for _ in range(rng.randint(0, 4)):
            p, n = rng.choice(list(BUFFER.items()))
            row = [rng.choice(VALUES) for _ in range(n)]
            Solver(model).write_atom((p, *row))
            facts[p] = facts[p] + [row]
        said.append(dict(facts))
        note(rules=[{k: (v if k in ("syn", "if") else True) for k, v in d.items()} for d, *_ in rules], sentences=said)
        try:
            want = render(expanded, facts, [], "s", [], False)
        except Fail as f:
            want = f
        if isinstance(want, Fail):
            raises(gen.generate_output, f"sentence {k + 1}: no output can be made ({want})")
        else:
            same(gen.generate_output(), want, f"output of sentence {k + 1}")
        for p, n in BUFFER.items():
            left = Solver(model).solve([(p, *[var("E%d" % (j + 1)) for j in range(n)])])
            if left:
                bad(f"after sentence {k + 1} the output buffer has {p}: {left}")


def t_recursion(rng, i):
    """lists, and a category that is rendered more often than it has rules"""
    names = [fresh_str("n%d" % k) for k in range(rng.randint(1, 4))]
    base = dict(next=[[a, b] for a, b in zip(names, names[1:])], name=[[n, n.upper()] for n in names if rng.random() < .9], big=[[n] for n in names if rng.random() < .5])
    v = {k: var(k) for k in ["E1", "E2", "E3"]}
    pool = [
        ("el", ["E1"], [("cat", "text", ["E2"], False)], [("name", v["E1"], v["E2"])]),
        ("el", ["E1"], [("word", "the", False), ("sep",), ("cat", "value", ["E1"], False)], [("big", v["E1"])]),
        ("el", ["E1"], [("word", "it", False)], None),
        ("el", ["E1"], [("word", "big", False), ("sep",), ("cat", "text", ["E2"], False)], [("big", v["E1"]), ("name", v["E1"], v["E2"])]),
        ("el", ["E1"], [("cat", "text", ["E2"], False)], [("big", v["E2"]), ("next", v["E1"], v["E2"])]),
    ]
    rules = []

    def add(cat, args, cons, cond):
        d = dict(syn=syn(cat, args, cons, rng))
        if cond:
            d["if"] = cond
        rules.append((d, cat, args, plain(cons)))
    add("s", [], [("cat", "seq", ["E1"], False)], [("output_list", v["E1"])])
    add("seq", ["E1"], [("cat", "el", ["E1"], rng.random() < .5), ("glue",), ("word", ", ", False), ("glue",), ("cat", "rest", ["E2"], False)], [("next", v["E1"], v["E2"])])
    add("seq", ["E1"], [("cat", "el", ["E1"], True)], None)
    add("rest", ["E1"], [("word", "and ", False), ("glue",), ("cat", "el", ["E1"], True), ("sep",), ("cat", "rest", ["E2"], True)], [("next", v["E1"], v["E2"])])
    add("rest", ["E1"], [("cat", "el", ["E1"], rng.random() < .5)], None)
    for p in rng.sample(pool, rng.randint(1, len(pool))):
        add(*p)
    rng.shuffle(rules)
    buffer = BasicOutputBuffer()
    model = Model([buffer, Facts(base)])
    gen = BasicGenerator(SimpleGrammarRulesParser().parse_write_grammar([d for d, *_ in rules]), model, buffer)
    expanded = [(d, cat, args, w, syntax_key(cat, args, cons)) for d, cat, args, cons in rules for w in variants(cons)]
    for k in range(2):
        start = rng.choice(names)
        Solver(model).write_atom(("output_list", start))
        note(rules=[d for d, *_ in rules], facts=base, start=start)
        facts = dict(base, output_list=[[start]])
        try:
            want = render(expanded, facts, [], "s", [], False)
        except Fail as f:
            raises(gen.generate_output, f"no output can be made ({f})")
            continue
        same(gen.generate_output(), want, "output")
