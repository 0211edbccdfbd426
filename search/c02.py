"""C02: matching a row against an atom"""
from .solver_gen import *


def t_match(rng, i):
    ar = rng.choice([1, 2, 2, 3, 4])
    rows = [[value(rng) if rng.random() < .88 else None for _ in range(ar)] for _ in range(rng.randrange(0, 6))]
    if rng.random() < .5:
        pool = [value(rng) for _ in range(2)] + [None]
        rows = [[rng.choice(pool) for _ in range(ar)] for _ in range(rng.randrange(0, 8))]
    args = [var(rng.choice(VARS[:3])) if rng.random() < .7 else (rng.choice(rows)[0] if rows and rng.random() < .5 else value(rng)) for _ in range(ar)]
    args = [value(rng) if a is None else a for a in args]
    binding = gen_binding(rng) if rng.random() < .6 else {}
    m = Mod()
    given = [list(r) for r in rows]
    m.add_relation(Relation("p", query_function=lambda values, context: given))
    atom = ("p",) + tuple(args)
    note(rows=rows, atom=atom, binding=binding)
    want = o_match(o_rows([lambda v: rows], args, binding), args, binding)
    b0, g0 = snap(binding), snap(given)
    got = Solver(Model([m])).solve([atom], binding)
    same([dict(x) for x in got], want, "bindings")
    same(binding, b0, "the incoming binding afterwards")
    same(given, g0, "the relation's rows afterwards")
    # no shared state
    for k, r in enumerate(got):
        if r is binding:
            bad("a result is the incoming binding itself")
        r["__mark" + str(k)] = k
    for k, r in enumerate(got):
        if [x for x in r if str(x).startswith("__mark")] != ["__mark" + str(k)]:
            bad("two results share state")
    same(binding, b0, "the incoming binding after a change to a result")


def t_first_row(rng, i):
    ar = rng.choice([1, 2, 3])
    n = rng.choice([x for x in range(0, 5) if x != ar])
    row = [[value(rng) for _ in range(n)], tuple(value(rng) for _ in range(ar)), "x" * ar, {}, None, 5][i % 6]
    rest = [[value(rng) for _ in range(ar)] for _ in range(rng.randrange(3))]
    m = Mod()
    m.add_relation(Relation("p", query_function=lambda values, context: [row] + rest))
    atom = ("p",) + tuple(var(VARS[k]) for k in range(ar))
    note(row=row, atom=atom)
    raises(lambda: Solver(Model([m])).solve([atom], gen_binding(rng)), "a first row that is not a list of the right length")
