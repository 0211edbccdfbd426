"""C07: storing facts and learning rules"""
import os
from .inf_gen import *
from richard.entity.Relation import Relation


def nested(rng, d=2):
    r = rng.random()
    if d and r < .2:
        return [nested(rng, d - 1) for _ in range(rng.randrange(0, 3))]
    if d and r < .4:
        return tuple(nested(rng, d - 1) for _ in range(rng.randrange(0, 3)))
    return term(rng, .4)


def bindings(rng):
    b = rule_binding(rng)
    for k in list(b):
        if rng.random() < .2:
            b[k] = rng.choice([0, "", None and 1, [1, var("E1")], ("p", var("X")), [], False]) if rng.random() < .9 else b[k]
            if b[k] is None:
                del b[k]
    return b


def t_store(rng, i):
    w = RuleWorld(rng)
    s = Solver(Model([w.module(), w.writer()] + ([w.writer()] if False else [])))
    b = bindings(rng)
    r = rng.random()
    if r < .12:
        arg = rng.choice([("w", 1, 2), "w", 5, var("NO"), {"a": 1}])
    else:
        arg = [(fresh_str(rng.choice("wv")),) + tuple(nested(rng) for _ in range(rng.randrange(0, 3))) for _ in range(rng.randrange(0, 4))]
        if arg and rng.random() < .3:
            arg.append(snap(rng.choice(arg)))
        if rng.random() < .2:
            b["L"] = arg
            arg = var("L")
    q = [("store", arg)]
    if rng.random() < .2:
        q.insert(0, ("e", term(rng, .1)))
    if rng.random() < .2:
        q.append(("e", term(rng, .1)))
    note(tables=w.tables, query=q, binding=b)
    check(rng, w, s, q, b)


def t_learn(rng, i):
    w = RuleWorld(rng)
    inf = InferenceModule()
    s = Solver(Model([w.module(), inf]))
    rules, preds = gen_rules(rng, 2, False)
    start = rng.randrange(0, len(rules) + 1)
    hist = []
    for h, body in rules[:start]:
        inf.insert_rule(InferenceRule(snap(h), snap(body)))
        w.rule(h, body)
        hist.append(("insert", h, body))
    for h, body in rules[start:]:
        b = rule_binding(rng) if rng.random() < .7 else {}
        b = {k: v for k, v in b.items() if isinstance(v, str) or rng.random() < .3}
        q = [("learn_rule", h, body)]
        hist.append((q, b))
        note(tables=w.tables, history=hist)
        ok = check(rng, w, s, q, b)
        # every predicate afterwards
        for p in list(w.rules):
            qq = [(p,) + tuple(var(n) for n in ("Q1", "Q2", "Q3")[:preds[p]])]
            hist.append(qq)
            note(tables=w.tables, history=hist)
            check(rng, w, s, qq, {})


def t_refuse(rng, i):
    inf = InferenceModule()
    w = RuleWorld(rng)
    s = Solver(Model([w.module(), inf]))
    h = rng.choice([[("r0", var("A"))], "r0", 5, [], ["r0", 1], var("H")])
    b = {"H": rng.choice([[("r0", 1)], "x", 0, []])}
    note(head=h, binding=b)
    raises(lambda: s.solve([("learn_rule", h, [])], b), "a rule head that is not an atom")


def t_import(rng, i):
    """rules read from a file come after the rules that are there"""
    w = RuleWorld(rng)
    inf = InferenceModule()
    s = Solver(Model([w.module(), inf]))
    rules, preds = gen_rules(rng, 2, False)

    def t(x):
        return x.name if isinstance(x, Variable) else '"' + x + '"' if isinstance(x, str) else str(x)

    def a(x):
        return x[0] + "(" + ", ".join(t(y) for y in x[1:]) + ")"
    ok = lambda x: isinstance(x, Variable) and x.name[0].isalpha() or isinstance(x, str) and x and '"' not in x or type(x) is int and x > 0
    rules = [(h, b) for h, b in rules if all(ok(y) for at in [h] + b for y in at[1:])]
    for k in range(2):
        part = rules[k::2]
        text = "".join(a(h) + (" :- " + ", ".join(a(x) for x in b) if b else "") + ".\n" for h, b in part)
        with open("rules.pl", "w") as f:
            f.write(text)
        inf.import_rules(os.path.abspath("rules.pl"))
        for h, b in part:
            w.rule(h, b)
        for p in list(w.rules):
            qq = [(p,) + tuple(var(n) for n in ("Q1", "Q2", "Q3")[:preds[p]])]
            note(tables=w.tables, text=text, rules=w.rules, query=qq)
            check(rng, w, s, qq, {})


WEIGHT = {"refuse": .1, "import": .25}
