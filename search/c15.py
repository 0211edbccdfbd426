"""C15: query optimisation"""
from .common import *
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
from richard.processor.semantic_composer.optimizer.FrontResolveName import FrontResolveName
from richard.processor.semantic_composer.optimizer.SortByCost import SortByCost
from richard.processor.semantic_composer.optimizer.IsolateIndependentParts import IsolateIndependentParts

NAMES = ["E1", "E2", "E3", "E4", "E5", "E6"]
PREDS = {"p": 2, "q": 2, "r": 1, "s": 3, "big": 2, "same": 2, "nosize": 2, "resolve_name": 2, "not": 1, "find": 2}


def arg(rng, depth):
    x = rng.random()
    if x < .62:
        return var(rng.choice(NAMES))
    if x < .72:
        return rng.choice([0, 1, "bob", ""])
    if x < .74:
        return ReifiedVariable(rng.choice(NAMES))
    if x < .76:
        return rng.choice([[], ["a"], [1, 2], ("t", var(rng.choice(NAMES)))])
    if depth > 0:
        return [atom(rng, depth - 1) for _ in range(rng.randint(1, 3))]
    return var(rng.choice(NAMES))


def atom(rng, depth):
    p = rng.choice(list(PREDS) + ["unknown"])
    return (fresh_str(p),) + tuple(arg(rng, depth if p not in ("resolve_name",) else 0) for _ in range(PREDS.get(p, 2)))


def query(rng, depth=2):
    pool = [atom(rng, depth) for _ in range(rng.randint(1, 7))]
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8])):
        out.append(snap(rng.choice(pool)) if rng.random() < .3 else atom(rng, depth))
    return out


def model(rng):
    mods = []
    for _ in range(rng.randint(1, 3)):
        m = Mod()
        for p, n in PREDS.items():
            if rng.random() < .7:
                m.add_relation(Relation(p, [None] * n, query_function=None, relation_size=rng.choice([1, 2, 10, 1000, "ignored", 10]),
                                        argument_sizes=[rng.choice([1, 2, 5, 10, "ignored", 100]) for _ in range(n)]))
        mods.append(m)
    return Model(mods)


def o_vars(x):
    if isinstance(x, Variable):
        return {x.name}
    if isinstance(x, (list, tuple)):
        return set().union(*[o_vars(y) for y in x]) if len(x) else set()
    return set()


def o_front(q):
    """(names, others)"""
    names, others = [], []
    for a in q:
        if isinstance(a, tuple) and a[0] == "resolve_name":
            names.append(a)
        elif isinstance(a, tuple):
            t = []
            for x in a:
                if isinstance(x, list):
                    n, o = o_front(x)
                    names += n
                    t.append(o)
                else:
                    t.append(x)
            others.append(tuple(t))
        else:
            others.append(a)
    return names, others


def o_cost(a, bound, m):
    rels = [r for mod in m.modules for k, r in mod.get_relations().items() if k == a[0]]
    best = None
    for r in rels:
        if r.relation_size == "ignored":
            c = 1000000000000
        else:
            f = 1
            for x, s in zip(a[1:], r.argument_sizes):
                if s == "ignored" or isinstance(x, (list, tuple)):
                    continue
                if isinstance(x, Variable) and x.name not in bound:
                    continue
                f = f * s
            c = r.relation_size / f
        best = c if best is None or c > best else best
    return 0 if best is None else best


def o_sort(q, m, bound=frozenset()):
    todo, out, bound = list(q), [], set(bound)
    while todo:
        costs = [o_cost(a, bound, m) for a in todo]
        # the others stay in the order they have got so far
        ranked = [a for _, _, a in sorted(((c, i, a) for i, (c, a) in enumerate(zip(costs, todo))), key=lambda t: (t[0], t[1]))]
        a = ranked[0]
        a = tuple(o_sort(x, m, bound) if isinstance(x, list) and x and isinstance(x[0], tuple) else x for x in a)
        out.append(a)
        bound |= o_vars(a)
        todo = ranked[1:]
    return out


def o_isolate(q, roots):
    if not q:
        return []
    head = o_vars(q[0])
    rest = q[1:]
    part = list(range(len(rest)))
    vs = [o_vars(a) - head for a in rest]
    changed = True
    while changed:
        changed = False
        for i in range(len(rest)):
            for j in range(len(rest)):
                if vs[i] & vs[j] and part[i] != part[j]:
                    part[i] = part[j] = min(part[i], part[j])
                    changed = True
    out = [q[0]]
    for p in sorted(set(part)):
        mine = [i for i in range(len(rest)) if part[i] == p]
        atoms = [rest[i] for i in mine]
        if any(vs[i] & set(roots) for i in mine):
            out += atoms
        else:
            out.append(("scoped", o_isolate(atoms, [])))
    return out


def same(got, want, what):
    if repr(got) != repr(want):
        bad(f"{what}: got {got!r}, want {want!r}")


def t_front(rng, i):
    q = query(rng, 3)
    before = snap(q)
    note(query=q)
    got = FrontResolveName().sort(q)
    n, o = o_front(q)
    same(got, n + o, "name resolution first")
    same(q, before, "input after sorting")


def t_cost(rng, i):
    q, m = query(rng), model(rng)
    before = snap(q)
    note(query=q, relations=[(k, r.relation_size, r.argument_sizes) for mod in m.modules for k, r in mod.get_relations().items()])
    got = SortByCost().sort(q, m)
    same(got, o_sort(q, m), "cheapest first")
    same(q, before, "input after sorting")
    same(SortByCost().sort(q, m), got, "sorting again")


def t_isolate(rng, i):
    q = query(rng, rng.choice([0, 1, 2]))
    if rng.random() < .5:
        # a chain in an odd order
        vs = NAMES + ["E7", "E8", "E9"]
        rng.shuffle(vs)
        q = [(rng.choice("pq"), var(a), var(b)) for a, b in zip(vs, vs[1:])]
        rng.shuffle(q)
        q = q[:rng.randint(0, 8)]
    roots = [fresh_str(x) for x in rng.sample(NAMES, rng.choice([0, 0, 1, 2, 3]))]
    before, rb = snap(q), snap(roots)
    note(query=q, roots=roots)
    got = IsolateIndependentParts().isolate(q, roots)
    same(got, o_isolate(q, roots), "isolated")
    same(q, before, "query after isolation")
    same(roots, rb, "answer variables after isolation")


def t_all(rng, i):
    m = model(rng)
    opt = BasicQueryOptimizer(m)
    for _ in range(rng.randint(1, 3)):
        q = query(rng)
        roots = rng.sample(NAMES, rng.choice([0, 1, 2]))
        before = snap(q)
        note(query=q, roots=roots)
        got = opt.optimize(q, roots)
        n, o = o_front(q)
        s = o_sort(n + o, m)
        same(list(got.values()), [before, n + o, s, o_isolate(s, roots)], "optimised forms")
        same(q, before, "query after optimisation")
