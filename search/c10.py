"""C10: each tree is a derivation of the text; an error is reported when there is none"""
from .parse_gen import *


def o_length(n):
    return len(n.form) if n.rule.antecedent.position_type != "relation" else sum(o_length(c) for c in n.children)


def o_check(n, text, start, rules):
    """n derives the text from start; gives the end"""
    kind = n.rule.antecedent.position_type
    if n.category != n.rule.antecedent.predicate:
        bad(f"node {n.category} has a rule for {n.rule.antecedent.predicate}")
    if kind != "relation":
        if n.children:
            bad(f"leaf {n.form!r} with children")
        end = start + len(n.form)
        part = text[start:end]
        if kind == "word-form":
            if n.form != n.category or len(part) != len(n.form) or part.lower() != n.form.lower():
                bad(f"word {n.category!r} read as {n.form!r} at {part!r}")
        else:
            m = re.match(n.category, text[start:])
            if n.form != part or not n.form or not (re.fullmatch(n.category, part) or (m and m.group(0) == part)):
                bad(f"/{n.category}/ read as {n.form!r} at {part!r}")
        return end
    if n.form != "":
        bad(f"inner node with form {n.form!r}")
    cons = n.rule.consequents
    key = (n.category, len(n.rule.antecedent.arguments), tuple((c.predicate, len(c.arguments), c.position_type) for c in cons))
    if key not in rules:
        bad(f"{key} is no rule of the grammar")
    if len(cons) != len(n.children):
        bad(f"{len(n.children)} children for {len(cons)} constituents")
    for c, k in zip(cons, n.children):
        a = k.rule.antecedent
        if (c.predicate, len(c.arguments), c.position_type) != (a.predicate, len(a.arguments), a.position_type):
            bad(f"constituent {c.predicate}/{len(c.arguments)} has a child {a.predicate}/{len(a.arguments)}")
        start = o_check(k, text, start, rules)
    return start


def t_sound(rng, i):
    g = grammar(rng)
    rules = build(g)
    known = {(c, a, view(v)) for c, a, v in g.rules}
    for text in some_texts(rng, g, 4):
        note(grammar=[r["syn"] for r in g.simple], text=text)
        r = EarleyParser().parse(rules, text)
        for t in r.products:
            if t.category != "s":
                bad(f"root {t.category}")
            end = o_check(t, text, 0, known)
            if end != len(text):
                bad(f"a tree ends at {end}, the text at {len(text)}")
        if bool(r.products) == bool(r.error_type):
            bad(f"{len(r.products)} trees and error {r.error_type!r}")
