"""C06: applying inference rules"""
from .inf_gen import *


def make(rng, levels, core=True):
    w = RuleWorld(rng)
    rules, preds = gen_rules(rng, levels, core)
    inf = InferenceModule()
    for h, b in rules:
        inf.insert_rule(InferenceRule(snap(h), snap(b)))
        w.rule(h, b)
    mods = [w.module(), inf]
    if "m" in preds and rng.random() < .5:
        pass
    return w, rules, preds, inf, Solver(Model(mods))


def run(rng, levels, core=True):
    w, rules, preds, inf, s = make(rng, levels, core)
    for k in range(2):
        p = rng.choice(list(preds))
        q = [(fresh_str(p),) + tuple(term(rng, .25) for _ in range(preds[p]))]
        if rng.random() < .3:
            q.append(("e", term(rng)))
        if rng.random() < .2:
            q.insert(0, ("e", term(rng)))
        b = rule_binding(rng) if rng.random() < .75 else {}
        note(tables=w.tables, rules=rules, query=q, binding=b, modes=w.mode)
        check(rng, w, s, q, b)


def t_one(rng, i):
    run(rng, 1, False)


def t_levels(rng, i):
    run(rng, 3)


def t_recursive(rng, i):
    """ancestor over an acyclic parent relation, with the caller's variables named as the rule's"""
    w = RuleWorld(rng)
    names = ["a", "b", "c", "d"]
    w.tables["m"][:] = [[x, y] for k, x in enumerate(names) for y in names[k + 1:] if rng.random() < .5]
    A, B, C = [var(n) for n in rng.sample(HEADVARS, 3)]
    rules = [(("anc", A, B), [("m", A, B)]), (("anc", A, B), [("m", A, C), ("anc", C, B)])]
    if rng.random() < .5:
        rules.reverse()
    inf = InferenceModule()
    for h, b in rules:
        inf.insert_rule(InferenceRule(snap(h), snap(b)))
        w.rule(h, b)
    q = [("anc", rng.choice([var("E1"), var("X"), fresh_str(rng.choice(names))]), rng.choice([var("E2"), var("A"), var("X"), rng.choice(names)]))]
    b = {n: fresh_str(rng.choice(names)) for n in HEADVARS if rng.random() < .35}
    note(tables=w.tables, rules=rules, query=q, binding=b)
    check(rng, w, Solver(Model([w.module(), inf])), q, b)
