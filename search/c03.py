"""C03: dispatch to relations"""
from .solver_gen import *
from richard.entity.ResultIterator import ResultIterator


def setup(rng, log, wlog, iters=False):
    nm = rng.randint(1, 4)
    mods, rels = [], []
    for k in range(nm):
        m = Mod()
        r = {}
        for p in rng.sample(["p", "q", "r"], rng.randint(0, 3)):
            rows = [[value(rng), value(rng)] for _ in range(rng.randrange(4))]
            if rows and rng.random() < .5:
                rows.append(list(rows[0]))
            if rels and rng.random() < .5:
                rows += [list(x) for x in rels[-1][2][:2]]
            it = ResultIterator([1], 3) if iters and rng.random() < .4 else None

            def q(values, context, k=k, p=p, rows=rows, it=it):
                log.append((k, p, snap(values), tuple(context.arguments), dict(context.binding), context.relation))
                return it if it is not None else [list(x) for x in rows]

            def w(values, context, k=k, p=p):
                wlog.append((k, p, list(values), context.relation))
            writable = rng.random() < .6
            rel = Relation(p, query_function=q, write_function=w if writable else None)
            r[p] = rel
            rels.append((k, p, rows, it, writable, rel))
        if rng.random() < .3:
            mods.append(OtherModule(r))
        else:
            for x in r.values():
                m.add_relation(x)
            mods.append(m)
    return mods, rels


def t_query(rng, i):
    log, wlog = [], []
    mods, rels = setup(rng, log, wlog, iters=i % 3 == 0)
    args = [gen_arg(rng), gen_arg(rng)]
    if rng.random() < .7:
        args = [var("E1"), var("Y") if rng.random() < .7 else gen_arg(rng)]
    binding = gen_binding(rng)
    atom = (fresh_str(rng.choice(["p", "q"])),) + tuple(args)
    note(relations=[x[:5] for x in rels], atom=atom, binding=binding)
    mine = [x for x in rels if x[1] == atom[0]]
    s = Solver(Model(mods))
    a0, b0 = snap(atom), snap(binding)
    if not mine:
        raises(lambda: s.solve([atom], binding), "a predicate that no module defines")
        return
    if any(x[3] is not None for x in mine):
        if len(mine) > 1:
            raises(lambda: s.solve([atom], binding), "an iterator beside another relation")
        else:
            got = s.solve([atom], binding)
            if got is not mine[0][3]:
                bad(f"the iterator is not passed on untouched: {got!r}")
            if got.index != 0 or len(got) != 3:
                bad("the iterator was consumed")
        return
    got = s.solve([atom], binding)
    vals = [binding.get(a.name) if isinstance(a, Variable) else a for a in args]
    same([(k, p, v, a, b) for k, p, v, a, b, r in log], [(k, p, vals, tuple(args), binding) for k, p, *_ in mine], "calls of the query functions")
    for e, x in zip(log, mine):
        if e[5] is not x[5]:
            bad("the context does not carry the relation that is called")
    want = o_match(o_rows([(lambda x: lambda v: x[2])(x) for x in mine], args, binding), args, binding)
    same([dict(x) for x in got], want, "results over all relations")
    same(atom, a0, "the atom afterwards")
    same(binding, b0, "the binding afterwards")
    if wlog:
        bad("a query called a write function")


def t_write(rng, i):
    log, wlog = [], []
    mods, rels = setup(rng, log, wlog)
    atom = (fresh_str(rng.choice(["p", "q"])), value(rng), gen_arg(rng))
    note(relations=[x[:5] for x in rels], atom=atom)
    mine = [x for x in rels if x[1] == atom[0]]
    s = Solver(Model(mods))
    if not mine:
        raises(lambda: s.write_atom(atom), "storing an atom of an unknown predicate")
        return
    s.write_atom(atom)
    same([e[:3] for e in wlog], [(k, p, list(atom[1:])) for k, p, _, _, w, _ in mine if w], "calls of the write functions")
    for e, x in zip(wlog, [x for x in mine if x[4]]):
        if e[3] is not x[5]:
            bad("the context does not carry the relation that is written")
    if log:
        bad("storing called a query function")
