"""C05: logical and comparison predicates"""
from .core_gen import *
from .c04 import one


def t_plain(rng, i):
    one(rng, [LOG[i % len(LOG)]], (), False)


def t_nested(rng, i):
    one(rng, [LOG[i % len(LOG)]], LOG + ["count", "find_all"], False)


def t_compare(rng, i):
    """comparisons of every kind of number and text"""
    w = World(rng)
    p = ["equals", "greater_than", "less_than", "let", "multiply"][i % 5]
    pick = lambda: rng.choice([0, 1, 2, 2, -1, 1.0, 0.5, 10**20, 10**20 + 1, True, False, "", "a", "b", "ab", "10", "9", "é"])
    x, y = pick(), pick()
    b = {}
    args = []
    for n, v in (("E1", x), ("E2", y)):
        r = rng.random()
        if r < .4:
            args.append(v)
        else:
            args.append(var(n))
            if r < .85:
                b[n] = v
    if p == "let":
        args[0] = var("E9")
    q = [(p,) + tuple(args) + ((var("C"),) if p == "multiply" else ())]
    note(query=q, binding=b)
    run_query(rng, w, q, b, False)


def t_sequence(rng, i):
    from .c04 import sequence
    sequence(rng, LOG)
