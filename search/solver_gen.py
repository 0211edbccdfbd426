from .common import *


def table_relation(rng, pred, arity, rows, log=None, mode="filter"):
    def q(values, context):
        if log is not None:
            log.append((pred, list(values)))
        out = []
        for row in rows:
            if mode == "filter":
                if all(v is None or v == r for v, r in zip(values, row)):
                    out.append(list(row))
            elif mode == "none":        # answers None for what was given
                if all(v is None or v == r for v, r in zip(values, row)):
                    out.append([None if v is not None else r for v, r in zip(values, row)])
            else:                       # does not filter at all
                out.append(list(row))
        return out
    return Relation(pred, query_function=q)


def gen_tables(rng, n=3):
    """pred -> list of (rows, mode)"""
    out = {}
    for k in range(n):
        p = "p" + str(k)
        ar = rng.choice([1, 2, 2, 3]) if k else 2
        rows = [[value(rng) if rng.random() < .95 else None for _ in range(ar)] for _ in range(rng.randrange(0, 5))]
        if rows and rng.random() < .4:
            rows.append(list(rng.choice(rows)))
        out[p] = (ar, rows, rng.choice(["filter", "filter", "none", "all"]))
    return out


def gen_arg(rng, tables=None):
    if rng.random() < .7:
        return var(rng.choice(VARS[:4]))
    return value(rng)


def gen_atom(rng, tables, depth=1):
    if depth and rng.random() < .2:
        return ("$disjunction", [gen_atoms(rng, tables, depth - 1, 0, 2) for _ in range(rng.randrange(0, 4))])
    p = fresh_str(rng.choice(list(tables)))
    return (p,) + tuple(gen_arg(rng) for _ in range(tables[p][0]))


def gen_atoms(rng, tables, depth=1, lo=0, hi=4):
    return [gen_atom(rng, tables, depth) for _ in range(rng.randint(lo, hi))]


def gen_binding(rng):
    return {fresh_str(v): value(rng) for v in VARS if rng.random() < .25}


# ------------------------------------------------------------------ reference
def o_match(rows, args, binding):
    out = []
    for row in rows:
        res = dict(binding)
        ok = True
        for a, v in zip(args, row):
            if isinstance(a, Variable):
                if a.name in binding:
                    continue
                if a.name in res and res[a.name] != v:
                    ok = False
                res[a.name] = v
            elif v is not None and a != v:
                ok = False
        if ok:
            out.append(res)
    return out


def o_rows(rels, args, binding):
    """rels: list of pure functions values -> rows"""
    vals = [binding.get(a.name) if isinstance(a, Variable) else a for a in args]
    seen, out = set(), []
    for f in rels:
        for row in f(list(vals)):
            if str(row) not in seen:
                seen.add(str(row))
                out.append(row)
    return out


def o_single(funcs, atom, binding):
    if atom[0] == "$disjunction":
        for alt in atom[1]:
            r = o_solve(funcs, alt, binding)
            if r:
                return r
        return []
    return o_match(o_rows(funcs[atom[0]], atom[1:], binding), atom[1:], binding)


def o_solve(funcs, atoms, binding):
    if not atoms:
        return [dict(binding)]
    first = o_single(funcs, atoms[0], binding)
    if len(atoms) == 1:
        return first
    out = []
    for b in first:
        for r in o_solve(funcs, atoms[1:], b):
            if r not in out:
                out.append(r)
    return out


def build(rng, tables, logs=False):
    """a model whose modules share out the tables (a predicate may occur in several modules)"""
    nm = rng.choice([1, 1, 2, 3])
    mods = [Mod() for _ in range(nm)]
    funcs = {}
    order = {}
    for p, (ar, rows, mode) in tables.items():
        ms = sorted(rng.sample(range(nm), rng.randint(1, nm)))
        for j, mi in enumerate(ms):
            rr = rows if j == 0 else rng.sample(rows, len(rows)) + [[value(rng) for _ in range(ar)] for _ in range(rng.randrange(2))]
            rel = table_relation(rng, p, ar, rr, None, mode)
            mods[mi].add_relation(rel)
            funcs.setdefault(p, []).append((lambda rel: lambda vals: rel.query_function(vals, None))(rel))
    return Model(mods), funcs
