"""C04: aggregates"""
from .core_gen import *


def one(rng, preds, nested, counts):
    w = World(rng, lists=rng.random() < .3)
    q = [gen_core(rng, rng.choice(preds), 1, nested)]
    if rng.random() < .35:
        q = gen_body(rng, 0, (), 1, 1) + q
    if rng.random() < .2:
        q = q + gen_body(rng, 0, (), 1, 1)
    b = binding_for(rng) if rng.random() < .6 else {}
    note(tables=w.tables, modes=w.mode, query=q, binding=b)
    run_query(rng, w, q, b, counts)


def t_plain(rng, i):
    one(rng, [AGG[i % len(AGG)]], (), True)


def t_nested(rng, i):
    one(rng, [AGG[i % len(AGG)]], AGG, True)


def t_mixed(rng, i):
    one(rng, [AGG[i % len(AGG)]], AGG + LOG, False)


def sequence(rng, preds):
    """several queries on one solver while the facts change"""
    w = World(rng)
    s = Solver(Model([w.module()]))
    q = [gen_core(rng, rng.choice(preds), 1, preds)]
    hist = []
    for k in range(rng.randint(2, 4)):
        if rng.random() < .4:
            q = [gen_core(rng, rng.choice(preds), 1, preds)]
        if rng.random() < .6:
            other = World(rng)
            for p in w.tables:
                w.tables[p][:] = other.tables[p]
        b = binding_for(rng) if rng.random() < .6 else {}
        hist.append((snap(w.tables), snap(q), snap(b)))
        note(history=hist, modes=w.mode)
        w.log.clear()
        w.reflog.clear()
        run_query(rng, w, q, b, False, s)


def t_sequence(rng, i):
    sequence(rng, AGG)
