"""C09: rules, their variants and the index"""
import copy
from .common import *
from .gram import *
from richard.entity.GrammarRule import GrammarRule
from richard.entity.GrammarRules import GrammarRules
from richard.entity.RuleConstituent import RuleConstituent
from richard.module.GrammarModule import GrammarModule
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.BasicParser import BasicParser

CATS = ["s", "np", "vp", "noun", "tv"]


def constituents(rng, n=None):
    out = []
    for k in range(n if n is not None else rng.choice([0, 1, 1, 2, 2, 3, 4, 5])):
        r = rng.random()
        if r < .4:
            out.append((fresh_str(rng.choice(["the", "a", "of", "'s", "dog"])), (), "word-form", rng.random() < .4, False))
        elif r < .65:
            out.append((" ", (), "word-form", rng.random() < .3, True))
        elif r < .75:
            out.append(("\\w+", (), "reg-exp", rng.random() < .1, False))
        else:
            out.append((fresh_str(rng.choice(CATS)), tuple(rng.choice(["E1", "E2", "E3"]) for _ in range(rng.choice([0, 1, 1, 2]))), "relation", rng.random() < .3, False))
    return out


def make(rng, tag):
    a = RuleConstituent(fresh_str(rng.choice(CATS)), [fresh_str(x) for x in ["E1", "E2"][:rng.choice([0, 1, 1, 2])]], "relation")
    cons = constituents(rng)
    return GrammarRule(a, [RuleConstituent(c[0], list(c[1]), c[2], c[3], c[4]) for c in cons], sem=("sem", tag), exec=("exec", tag), post=("post", tag),
                       dialog=[("d", tag)], boost=rng.choice([0, 0, 2, -1])), cons


def attributes(r):
    return (view(r.antecedent), r.sem, r.exec, r.post, r.dialog, r.boost, r.hash)


def compare(got, want, what):
    """want: list of (attributes, constituents)"""
    g = [(attributes(r), tuple(view(c) for c in r.consequents)) for r in got]
    if g != want:
        bad(f"{what}: got {[x[1] for x in g]}, want {[x[1] for x in want]}" if [x[1] for x in g] != [x[1] for x in want] else f"{what}: attributes differ: {g} {want}")


def check_all(gr, model, what):
    for cat in CATS + ["unknown", "gamma"]:
        for n in range(4):
            compare(gr.find_rules(cat, n), model.get((cat, n), []), f"{what}: rules for {cat}/{n}")
        counts = sorted(n for c, n in model if c == cat)
        if sorted(gr.find_argument_counts(cat)) != counts:
            bad(f"{what}: argument counts of {cat}: {sorted(gr.find_argument_counts(cat))}, want {counts}")


def t_index(rng, i):
    rules = [make(rng, k) for k in range(rng.randint(0, 5))]
    note(rules=[str(r) + repr(c) for r, c in rules])
    before = [(attributes(r), [view(c) for c in r.consequents]) for r, _ in rules]
    cut = rng.randint(0, len(rules))
    gr = GrammarRules([r for r, _ in rules[:cut]])
    model = {}

    def put(k):
        r, cons = rules[k]
        model.setdefault((r.antecedent.predicate, len(r.antecedent.arguments)), []).extend((before[k][0], v) for v in variants(cons))
    for k in range(cut):
        put(k)
    check_all(gr, model, "at start")
    for k in range(cut, len(rules)):
        gr.add_rule(rules[k][0])
        put(k)
        check_all(gr, model, "after an addition")
    for (r, cons), b in zip(rules, before):
        if (attributes(r), [view(c) for c in r.consequents]) != b:
            bad(f"the rule that was added has changed: {r}")
        if len({id(x) for x in gr.find_rules(r.antecedent.predicate, len(r.antecedent.arguments))}) != len(gr.find_rules(r.antecedent.predicate, len(r.antecedent.arguments))):
            bad("two variants are one object")


WORDS = ["red", "big", "of", "cat", "it's", 'say "x"', "."]


def text_rule(rng):
    """constituents with what is between them"""
    cat, args = rng.choice(CATS), ["E1", "E2"][:rng.choice([1, 1, 2])]
    cons = []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        if k:
            cons.append((rng.choice(["sep", "sep", "osep", "glue"]),))
        r = rng.random()
        if r < .45:
            cons.append(("word", rng.choice(WORDS), rng.random() < .4))
        elif r < .6:
            cons.append(("regexp", rng.choice(["\\w+", "[a-z]+", "a/b"])))
        else:
            cons.append(("cat", rng.choice(CATS), [rng.choice(["E1", "E2", "X"]) for _ in range(rng.choice([1, 1, 2]))], False))
    return cat, args, cons


def t_text(rng, i):
    """rules as text, at start and learned"""
    rs = [text_rule(rng) for _ in range(rng.randint(1, 4))]
    simple = []
    for k, (cat, args, cons) in enumerate(rs):
        d = {"syn": syn(cat, args, cons, rng), "sem": ("sem", k)}
        if rng.random() < .3:
            d["boost"] = rng.choice([1, 2])
        if rng.random() < .3:
            d["exec"] = ("exec", k)
        if rng.random() < .3:
            d["dialog"] = [("d", k)]
        simple.append(d)
    note(rules=simple)
    given = snap(simple)
    cut = rng.randint(0, len(rs))
    gr = SimpleGrammarRulesParser().parse_read_grammar(simple[:cut])
    gm = GrammarModule(gr)
    m = Model([gm])
    model = {}

    def put(k):
        cat, args, cons = rs[k]
        d = simple[k]
        for v in variants(plain(cons)):
            model.setdefault((cat, len(args)), []).append(((cat, tuple(args), "relation", False, False), d["sem"], d.get("exec"), None, d.get("dialog", []), d.get("boost", 0), v))

    def check(what):
        for cat in CATS + ["gamma"]:
            for n in range(4):
                got = [attributes(r)[:-1] + (tuple(view(c) for c in r.consequents),) for r in gr.find_rules(cat, n)]
                if got != model.get((cat, n), []):
                    bad(f"{what}: {cat}/{n}: got {got}, want {model.get((cat, n), [])}")
    for k in range(cut):
        put(k)
    check("at start")
    for k in range(cut, len(rs)):
        r = Solver(m).solve([("learn_grammar_rule", simple[k])])
        expect(r, [{}], "result of learning")
        put(k)
        check("after learning")
    if repr(simple) != repr(given):
        bad("the simple rules were changed")
