"""C22: the trees that the parser finds are all derivations of the text"""
from .parse_gen import *


def t_all(rng, i):
    g = grammar(rng)
    rules = build(g)
    for _ in range(4):
        text = some_text(rng, g)
        note(grammar=[r["syn"] for r in g.simple], text=text)
        try:
            want = Derivations(g, text).all()
        except TooMany:
            continue
        got = [structure(t) for t in EarleyParser().parse(rules, text).products]
        if len(got) != len(want) or sorted(got, key=repr) != sorted(want, key=repr):
            bad(f"{len(got)} trees, {len(want)} derivations; missing {[w for w in want if w not in got][:2]}, too many {[x for x in got if x not in want][:2] or [x for x in got if got.count(x) > 1][:2]}")
