"""C01: the ordered join"""
from .solver_gen import *


def t_join(rng, i):
    tables = gen_tables(rng)
    model, funcs = build(rng, tables)
    atoms = gen_atoms(rng, tables, 2, 0, 2 if i % 3 == 0 else 4)
    binding = gen_binding(rng) if rng.random() < .6 else {}
    log_stats = rng.random() < .3
    note(tables=tables, atoms=atoms, binding=binding, log_stats=log_stats)
    want = o_solve(funcs, snap(atoms), snap(binding))
    a0, b0 = snap(atoms), snap(binding)
    s = Solver(model, log_stats=log_stats) if log_stats else Solver(model)
    got = s.solve(atoms, binding)
    same([dict(x) for x in got], want, "solve")
    same(atoms, a0, "the caller's atoms after solve")
    same(binding, b0, "the caller's binding after solve")
    # a second time, on the same solver
    same([dict(x) for x in s.solve(atoms, binding)], want, "solve, second call")
    if not binding:
        same([dict(x) for x in s.solve(atoms)], want, "solve without a binding")


def t_disjunction(rng, i):
    tables = gen_tables(rng)
    model, funcs = build(rng, tables)
    atom = ("$disjunction", [gen_atoms(rng, tables, 1, 0, 3) for _ in range(rng.randrange(0, 4))])
    binding = gen_binding(rng) if rng.random() < .6 else {}
    note(tables=tables, atom=atom, binding=binding)
    want = o_single(funcs, snap(atom), snap(binding))
    a0, b0 = snap(atom), snap(binding)
    got = Solver(model).solve([atom], binding)
    same([dict(x) for x in got], want, "solve of a disjunction")
    same(atom, a0, "the disjunction after solve")
    same(binding, b0, "the caller's binding after solve")


def t_refuse(rng, i):
    tables = gen_tables(rng)
    model, funcs = build(rng, tables)
    q = [tuple(gen_atoms(rng, tables, 0, 1, 2)), gen_atom(rng, tables, 0), "abc", None, 3, {}, {"a": 1}, (), "", 0][i % 10]
    note(query=q)
    raises(lambda: Solver(model).solve(q, gen_binding(rng)), "a query that is not a list")


def t_sequence(rng, i):
    """one solver, facts and queries changing"""
    tables = gen_tables(rng)
    model, funcs = build(rng, tables)
    s = Solver(model)
    atoms = gen_atoms(rng, tables, 1, 0, 3)
    hist = []
    for k in range(3):
        if rng.random() < .4:
            atoms = gen_atoms(rng, tables, 1, 0, 3)
        for p, (ar, rows, mode) in tables.items():
            if rng.random() < .4:
                rows[:] = [[value(rng) for _ in range(ar)] for _ in range(rng.randrange(0, 4))]
        b = gen_binding(rng)
        hist.append((snap(tables), snap(atoms), snap(b)))
        note(history=hist)
        same([dict(x) for x in s.solve(atoms, b)], o_solve(funcs, snap(atoms), snap(b)), f"solve, call {k + 1}")
