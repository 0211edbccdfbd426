"""C15: query optimisation."""
from pyvc.theory import spec, macro, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["Variable", "ReifiedVariable", "Relation", "AtomBatch"]
D_ = "richard/processor/semantic_composer/optimizer/"


# ---------------------------------------------------------------- names first
@spec
def names_in(a: L) -> L:
    """the resolve_name atoms in a list of atoms, at any depth"""
    if len(a) == 0:
        return []
    x = a[0]
    if isinstance(x, list):
        return names_in(list(x)) + names_in(a[1:])
    if isinstance(x, tuple):
        if x[0] == 'resolve_name':
            return cons(x, names_in(a[1:]))
        return names_args(list(x)) + names_in(a[1:])
    return names_in(a[1:])


@spec
def names_args(a: L) -> L:
    """those in the lists among the arguments of an atom"""
    if len(a) == 0:
        return []
    if isinstance(a[0], list):
        return names_in(list(a[0])) + names_args(a[1:])
    return names_args(a[1:])


@spec
def nameless(a: L) -> L:
    """the list without them"""
    if len(a) == 0:
        return []
    x = a[0]
    if isinstance(x, list):
        return cons(nameless(list(x)), nameless(a[1:]))
    if isinstance(x, tuple):
        if x[0] == 'resolve_name':
            return nameless(a[1:])
        return cons(tuple(nameless_args(list(x))), nameless(a[1:]))
    return cons(x, nameless(a[1:]))


@spec
def nameless_args(a: L) -> L:
    if len(a) == 0:
        return []
    if isinstance(a[0], list):
        return cons(nameless(list(a[0])), nameless_args(a[1:]))
    return cons(a[0], nameless_args(a[1:]))


@spec
def atoms_ok(a: L) -> B:
    """no empty atom at any depth"""
    if len(a) == 0:
        return True
    x = a[0]
    if isinstance(x, list):
        return atoms_ok(list(x)) and atoms_ok(a[1:])
    if isinstance(x, tuple):
        return len(list(x)) > 0 and args_ok(list(x)) and atoms_ok(a[1:])
    return atoms_ok(a[1:])


@spec
def args_ok(a: L) -> B:
    if len(a) == 0:
        return True
    if isinstance(a[0], list):
        return atoms_ok(list(a[0])) and args_ok(a[1:])
    return args_ok(a[1:])


F1 = D_ + "FrontResolveName.py"
contract(F1, "FrontResolveName.extract_list", dict(composition="L"), requires=["atoms_ok(composition)"], no_raise="True",
         result="(names_in(composition), nameless(composition))", ret="T",
         inv=["names_in(composition) == ACC + names_in(REST)", "nameless(composition) == ACC + nameless(REST)", "atoms_ok(REST)"], inv_timeout=300, fuel=1)
contract(F1, "FrontResolveName.extract_tuple", dict(terms="T"), requires=["args_ok(list(terms))"], no_raise="True",
         result="(names_args(list(terms)), tuple(nameless_args(list(terms))))", ret="T",
         inv=["names_args(list(terms)) == ACC + names_args(REST)", "nameless_args(list(terms)) == ACC + nameless_args(REST)", "args_ok(REST)"], inv_timeout=300, fuel=1)
contract(F1, "FrontResolveName.sort", dict(composition="L"), requires=["atoms_ok(composition)"], no_raise="True",
         result="names_in(composition) + nameless(composition)", ret="L")


# ---------------------------------------------------------------- variables
@spec
def addall(s: SET, l: L) -> SET:
    if len(l) == 0:
        return s
    return addall(setadd(s, l[0]), l[1:])


@spec
def varset(c: V) -> SET:
    """names of the variables at any depth"""
    if isinstance(c, Variable):
        return setadd(emptyset(), c.name)
    if isinstance(c, tuple) or isinstance(c, list):
        return varsets(list(c), emptyset())
    return emptyset()


@spec
def varsets(l: L, acc: SET) -> SET:
    if len(l) == 0:
        return acc
    return varsets(l[1:], addall(acc, list(varset(l[0]))))


contract("richard/core/atoms.py", "get_atom_variables", dict(construct="V"), result="list(varset(construct))", ret="L",
         inv=["varsets(list(construct), emptyset()) == varsets(REST, SET)",
              "addall(SET, REST) == addall(SET, REST)",
              "varsets(list(construct), emptyset()) == varsets(TAIL1, addall(SET, REST))"])


@macro
def vars_of(c: V) -> SET:
    return toset(list(varset(c)))


# ---------------------------------------------------------------- cheapest first
@uninterpreted
def relations_of(model: V, predicate: V) -> L:
    """the relations of a predicate"""


iface("Model", "find_relations", dict(self="V", predicate="V"), result="relations_of(self, predicate)", ret="L", types={"result": "list[Relation]"},
      ensures=["all_relations(result)"],
      assumed="Model.find_relations gives the relations of a predicate and changes nothing (proved under C03); sizes are positive integers or 'ignored'")


@spec
def all_relations(rs: L) -> B:
    if len(rs) == 0:
        return True
    return isinstance(rs[0], Relation) and isinstance(rs[0].argument_sizes, list) and sizes_ok(list(rs[0].argument_sizes)) \
        and isinstance(rs[0].relation_size, (int, float, str)) and implies(isinstance(rs[0].relation_size, str), rs[0].relation_size == 'ignored') and all_relations(rs[1:])


@macro
def num(v: V) -> I:
    return v


@macro
def posint(v: V) -> B:
    return isinstance(v, int) and not isinstance(v, bool) and num(v) > 0


@spec
def sizes_ok(ss: L) -> B:
    if len(ss) == 0:
        return True
    return (ss[0] == 'ignored' or posint(ss[0])) and sizes_ok(ss[1:])


@spec
def bound_size(args: L, sizes: L, bound: SET, acc: V) -> V:
    """product of the sizes of the arguments that have a value"""
    if len(args) == 0 or len(sizes) == 0:
        return acc
    if sizes[0] == 'ignored' or isinstance(args[0], list) or isinstance(args[0], tuple) or (isinstance(args[0], Variable) and args[0].name not in bound):
        return bound_size(args[1:], sizes[1:], bound, acc)
    return bound_size(args[1:], sizes[1:], bound, acc * sizes[0])


@spec
def rel_cost(r: V, args: L, bound: SET) -> V:
    if r.relation_size == 'ignored':
        return 1000000000000
    return r.relation_size / bound_size(args, list(r.argument_sizes), bound, 1)


@spec
def rel_costs(rs: L, args: L, bound: SET) -> L:
    if len(rs) == 0:
        return []
    return cons(rel_cost(rs[0], args, bound), rel_costs(rs[1:], args, bound))


@spec
def sizes_fit(rs: L, n: I) -> B:
    if len(rs) == 0:
        return True
    return (rs[0].relation_size == 'ignored' or len(list(rs[0].argument_sizes)) == n) and sizes_fit(rs[1:], n)


@spec
def cost(atom: V, bound: SET, model: V) -> V:
    """of the most expensive relation of its predicate"""
    rs = relations_of(model, atom[0])
    if len(rs) == 0:
        return 0
    return vmax(rel_costs(rs, list(atom)[1:], bound))


F2 = D_ + "SortByCost.py"
contract(F2, "SortByCost.calculate_cost", dict(atom="T", bound_variables="SET", model="V"),
         requires=["len(list(atom)) > 0", "isinstance(atom[0], str)", "sizes_fit(relations_of(model, atom[0]), len(list(atom)) - 1)"],
         result="cost(atom, bound_variables, model)", ret="V",
         inv=["rel_costs(relations_of(model, atom[0]), list(atom)[1:], bound_variables) == ACC + rel_costs(REST, list(atom)[1:], bound_variables)",
              "all_relations(REST)", "sizes_ok(RESTb)", "posint(VAL)", "sizes_fit(REST, len(list(atom)) - 1)", "implies(len(REST) == 0, len(ACC) > 0)",
              "bound_size(list(atom)[1:], list(ELT1.argument_sizes), bound_variables, 1) == bound_size(REST, RESTb, bound_variables, VAL)"],
         inv_timeout=2500)


@spec
def costs_of(atoms: L, bound: SET, model: V) -> L:
    if len(atoms) == 0:
        return []
    return cons(cost(atoms[0], bound, model), costs_of(atoms[1:], bound, model))


@spec
def by_cost(done: L, todo: L, model: V, bound: SET) -> L:
    if len(todo) == 0:
        return done
    s = sortk(costs_of(todo, bound, model), todo)
    first = inner_by_cost(s[0], model, bound)
    return by_cost(done + [first], s[1:], model, bound | vars_of(first))


@macro
def inner_by_cost(atom: V, model: V, bound: SET) -> V:
    """the atom with the lists of atoms among its arguments ordered in the same way"""
    return tuple(args_by_cost(list(atom), model, bound))


@spec
def args_by_cost(args: L, model: V, bound: SET) -> L:
    if len(args) == 0:
        return []
    if isinstance(args[0], list) and len(list(args[0])) > 0 and isinstance(args[0][0], tuple):
        return cons(by_cost([], list(args[0]), model, bound), args_by_cost(args[1:], model, bound))
    return cons(args[0], args_by_cost(args[1:], model, bound))


@spec
def fits(atoms: L, model: V) -> B:
    """atoms, with the sizes of their relations matching, at any depth"""
    if len(atoms) == 0:
        return True
    a = atoms[0]
    return isinstance(a, tuple) and len(list(a)) > 0 and isinstance(a[0], str) and sizes_fit(relations_of(model, a[0]), len(list(a)) - 1) \
        and fits_args(list(a), model) and fits(atoms[1:], model)


@spec
def fits_args(args: L, model: V) -> B:
    if len(args) == 0:
        return True
    return implies(isinstance(args[0], list) and len(list(args[0])) > 0 and isinstance(args[0][0], tuple), fits(list(args[0]), model)) and fits_args(args[1:], model)


@spec
def costed(atoms: L, costs: L) -> L:
    if len(atoms) == 0 or len(costs) == 0:
        return []
    return cons({'atom': atoms[0], 'cost': costs[0]}, costed(atoms[1:], costs[1:]))


@spec
def cost_of(rs: L) -> L:
    if len(rs) == 0:
        return []
    return cons(asD(rs[0])['cost'], cost_of(rs[1:]))


@spec
def atom_of(rs: L) -> L:
    if len(rs) == 0:
        return []
    return cons(asD(rs[0])['atom'], atom_of(rs[1:]))


@spec
def records(rs: L) -> B:
    if len(rs) == 0:
        return True
    return isinstance(rs[0], dict) and haskey(asD(rs[0]), 'cost') and haskey(asD(rs[0]), 'atom') and records(rs[1:])


@spec
def unrecord(ps: L) -> L:
    if len(ps) == 0:
        return []
    return cons((ps[0][0], asD(ps[0][1])['atom']), unrecord(ps[1:]))


TS = "costed(ts, costs_of(ts, bound, model))"
lemma("costed_cost", "ts:L, bound:SET, model:V", f"cost_of({TS}) == costs_of(ts, bound, model)", induct="ts", trigger=TS)
lemma("costed_atom", "ts:L, bound:SET, model:V", f"atom_of({TS}) == ts", induct="ts", trigger=TS)
lemma("costed_records", "ts:L, bound:SET, model:V", f"records({TS})", induct="ts", trigger=TS)
lemma("unrecord_ins", "p:V, ps:L", "unrecord(insp(p, ps)) == insp((p[0], asD(p[1])['atom']), unrecord(ps))", induct="ps", trigger="unrecord(insp(p, ps))")
lemma("unrecord_sort", "ks:L, rs:L", "unrecord(sortp(ks, rs)) == sortp(ks, atom_of(rs))", induct="rs", trigger="unrecord(sortp(ks, rs))")
lemma("atom_of_seconds", "ps:L", "atom_of(seconds(ps)) == seconds(unrecord(ps))", induct="ps", trigger="atom_of(seconds(ps))")
lemma("records_ins", "p:V, ps:L", "records(seconds(insp(p, ps))) == (records([p[1]]) and records(seconds(ps)))", induct="ps", trigger="seconds(insp(p, ps))")
lemma("records_sort", "ks:L, rs:L", "implies(records(rs), records(seconds(sortp(ks, rs))))", induct="rs", trigger="seconds(sortp(ks, rs))")
lemma("fits_ins", "p:V, ps:L, model:V", "fits(seconds(insp(p, ps)), model) == (fits([p[1]], model) and fits(seconds(ps), model))", induct="ps", trigger="fits(seconds(insp(p, ps)), model)")
lemma("fits_sort", "ks:L, rs:L, model:V", "implies(fits(rs, model), fits(seconds(sortp(ks, rs)), model))", induct="rs", trigger=[("seconds(sortp(ks, rs))", "fits(rs, model)")])
lemma("len_ins", "p:V, ps:L", "lenL(seconds(insp(p, ps))) == 1 + lenL(seconds(ps))", induct="ps", trigger="seconds(insp(p, ps))")
lemma("len_sort", "rs:L, bound:SET, model:V", "lenL(seconds(sortp(costs_of(rs, bound, model), rs))) == lenL(rs)", induct="rs", trigger="seconds(sortp(costs_of(rs, bound, model), rs))")
lemma("take_set", "a:L, n:I, x:V", "implies(0 <= n and n < lenL(a), take(setnth(a, n, x), n + 1) == take(a, n) + [x])", induct="a", trigger="setnth(a, n, x)")
lemma("len_set", "a:L, n:I, x:V", "lenL(setnth(a, n, x)) == lenL(a)", induct="a", trigger="setnth(a, n, x)")
lemma("drop_set", "a:L, n:I, x:V", "implies(0 <= n, drop(setnth(a, n, x), n + 1) == drop(a, n + 1))", induct="a", trigger="setnth(a, n, x)")
lemma("take_next", "a:L, n:I, m:I", "implies(0 <= n and n < lenL(a) and m == n + 1, take(a, m) == take(a, n) + [a[n]])", induct="a", trigger=[("take(a, m)", "take(a, n)")])
lemma("drop_next", "a:L, n:I, m:I", "implies(0 <= n and m == n + 1, drop(a, m) == tlz(drop(a, n)))", induct="a", trigger=[("drop(a, m)", "drop(a, n)")])
lemma("take_all", "a:L, n:I", "implies(lenL(a) <= n, take(a, n) == a)", induct="a", trigger="take(a, n)")

contract(F2, "SortByCost.sort_rest", dict(done="L", todo="L", model="V", bound_variables="SET"), types=dict(model="Model"),
         requires=["fits(todo, model)"],
         result="by_cost(done, todo, model, bound_variables)", ret="L", inv_timeout=300,
         inv=["fits(REST, model)", "costed(todo, costs_of(todo, bound_variables, model)) == ACC + costed(REST, costs_of(REST, bound_variables, model))",
              "costs_of(todo, bound_variables, model) == ACC + costs_of(REST, bound_variables, model)",
              "costs_of(todo, bound_variables, model) == ACC + cost_of(REST)", "records(REST)", "fits(sortk(costs_of(todo, bound_variables, model), todo), model)",
              "sortk(costs_of(todo, bound_variables, model), todo) == ACC + atom_of(REST)"])
contract(F2, "SortByCost.sort", dict(composition="L", model="V", bound_variables="SET"), types=dict(model="Model"), requires=["fits(composition, model)"],
         result="by_cost([], composition, model, bound_variables)", ret="L")
contract(F2, "SortByCost.sort_arguments", dict(atom="T", model="V", bound_variables="SET"), types=dict(model="Model"), requires=["fits_args(list(atom), model)"],
         result="inner_by_cost(atom, model, bound_variables)", ret="V", inv_timeout=1500, fuel=1,
         inv=["fits_args(REST, model)", "args_by_cost(list(atom), model, bound_variables) == take(ACC, IDX) + args_by_cost(REST, model, bound_variables)",
              "drop(ACC, IDX) == REST", "IDX + lenL(REST) == lenL(list(atom))", "lenL(ACC) == lenL(list(atom))", "implies(not FLAG, ACC == list(atom))",
              "args_by_cost(list(atom), model, bound_variables) == ACC + args_by_cost(REST, model, bound_variables)"])


# ---------------------------------------------------------------- independent parts
@macro
def overlap(a: SET, b: SET) -> B:
    return (a & b) != emptyset()


@spec
def batches_ok(bs: L) -> B:
    if len(bs) == 0:
        return True
    return isinstance(bs[0], AtomBatch) and isinstance(bs[0].atoms, list) and isinstance(bs[0].variables, set) and batches_ok(bs[1:])


@spec
def singles(atoms: L, excluded: SET) -> L:
    if len(atoms) == 0:
        return []
    return cons(AtomBatch([atoms[0]], vars_of(atoms[0]) - excluded), singles(atoms[1:], excluded))


@spec
def join_batch(bs: L, b: V) -> L:
    """b joined to the first batch that shares a variable with it, or else as a batch of its own"""
    if len(bs) == 0:
        return [b]
    if overlap(b.variables, bs[0].variables):
        return cons(AtomBatch(list(bs[0].atoms) + list(b.atoms), asSET(bs[0].variables) | asSET(b.variables)), bs[1:])
    return cons(bs[0], join_batch(bs[1:], b))


@spec
def join_all(bs: L, todo: L) -> L:
    if len(todo) == 0:
        return bs
    return join_all(join_batch(bs, todo[0]), todo[1:])


@spec
def parts(bs: L) -> L:
    """joined until nothing changes"""
    if len(join_all([], bs)) == len(bs):
        return bs
    return parts(join_all([], bs))


@spec
def in_order(atoms: L, left: L) -> L:
    """the atoms that are among left, each as often as there"""
    if len(atoms) == 0:
        return []
    if mem(atoms[0], left):
        return cons(atoms[0], in_order(atoms[1:], remove1(left, atoms[0])))
    return in_order(atoms[1:], left)


@spec
def restored(atoms: L, bs: L) -> L:
    if len(bs) == 0:
        return []
    return cons(AtomBatch(in_order(atoms, list(bs[0].atoms)), bs[0].variables), restored(atoms, bs[1:]))


@macro
def batches(atoms: L, excluded: SET) -> L:
    return restored(atoms, parts(singles(atoms, excluded)))


@spec
def isolated(atoms: L, roots: L) -> L:
    if len(atoms) == 0:
        return []
    return cons(atoms[0], emit(batches(atoms[1:], vars_of(atoms[0])), roots))


@spec
def emit(bs: L, roots: L) -> L:
    """the parts: those with an answer variable as they are, the others on their own"""
    if len(bs) == 0:
        return []
    if overlap(bs[0].variables, toset(roots)):
        return list(bs[0].atoms) + emit(bs[1:], roots)
    return cons(('scoped', isolated(list(bs[0].atoms), [])), emit(bs[1:], roots))


@spec
def find_batch(bs: L, vs: SET, i: I) -> I:
    if len(bs) == 0:
        return -1
    if overlap(vs, bs[0].variables):
        return i
    return find_batch(bs[1:], vs, i + 1)


def joined(x, b):
    return f"AtomBatch(list({x}.atoms) + list({b}.atoms), asSET({x}.variables) | asSET({b}.variables))"


lemma("find_low", "bs:L, vs:SET, i:I", "find_batch(bs, vs, i) == -1 or find_batch(bs, vs, i) >= i", induct="bs", trigger="find_batch(bs, vs, i)")
lemma("find_shift", "bs:L, vs:SET, i:I", "implies(i >= 0, find_batch(bs, vs, i) == ite(find_batch(bs, vs, 0) == -1, -1, find_batch(bs, vs, 0) + i))", induct="bs", trigger="find_batch(bs, vs, i)")
lemma("find_high", "bs:L, vs:SET, i:I", "implies(i >= 0, find_batch(bs, vs, i) < i + lenL(bs))", induct="bs", trigger="find_batch(bs, vs, i)")
lemma("join_none", "bs:L, b:V", "implies(find_batch(bs, asSET(b.variables), 0) == -1, join_batch(bs, b) == bs + [b])", induct="bs", trigger="join_batch(bs, b)")
FB = "find_batch(bs, asSET(b.variables), 0)"
lemma("join_found", "bs:L, b:V", f"implies({FB} >= 0, join_batch(bs, b) == setnth(bs, {FB}, " + joined(f"bs[{FB}]", "b") + "))", induct="bs", trigger="join_batch(bs, b)")


def asSET(x): return x


lemma("ok_singles", "atoms:L, ex:SET", "batches_ok(singles(atoms, ex))", induct="atoms", trigger="singles(atoms, ex)")
lemma("ok_app", "a:L, b:L", "batches_ok(app(a, b)) == (batches_ok(a) and batches_ok(b))", induct="a", trigger="batches_ok(app(a, b))")
lemma("ok_set", "a:L, n:I, x:V", "implies(batches_ok(a) and batches_ok([x]), batches_ok(setnth(a, n, x)))", induct="a", trigger="batches_ok(setnth(a, n, x))")
lemma("ok_nth", "a:L, n:I", "implies(batches_ok(a) and 0 <= n and n < lenL(a), isinstance(a[n], AtomBatch) and isinstance(a[n].atoms, list) and isinstance(a[n].variables, set))", induct="a",
      trigger=[("drop(a, n)", "batches_ok(a)")])

F3 = D_ + "IsolateIndependentParts.py"
contract(F3, "IsolateIndependentParts.restore_atom_order", dict(atoms="L", batch="V"), types=dict(batch="AtomBatch"),
         requires=["isinstance(batch.atoms, list)"], result="AtomBatch(in_order(atoms, list(batch.atoms)), batch.variables)", ret="V", no_raise="True",
         inv=["in_order(atoms, list(batch.atoms)) == ACC + in_order(REST, ACC2)"])
SG = "singles(atoms, excluded_variables)"
contract(F3, "IsolateIndependentParts.collect_batches", dict(atoms="L", excluded_variables="SET"), fuel=1, result="batches(atoms, excluded_variables)", ret="L", no_raise="True",
         ensures=["batches_ok(result)"], types={"result": "list[AtomBatch]"}, inv_timeout=500,
         inv=[f"{SG} == ACC + singles(REST, excluded_variables)", "batches_ok(ACC)", "batches_ok(REST)",
              "VAL is None", f"parts({SG}) == parts(ACC)", "join_all([], ACC) == join_all(ACC2, REST)",
              "find_batch(ACC, asSET(ELT1.variables), 0) == find_batch(REST, asSET(ELT1.variables), IDX)",
              f"restored(atoms, parts({SG})) == ACC + restored(atoms, REST)"])
contract(F3, "IsolateIndependentParts.isolate", dict(atoms="L", root_variables="L"), result="isolated(atoms, root_variables)", ret="L", no_raise="True",
         inv=["isolated(atoms, root_variables) == ACC + emit(REST, root_variables)", "batches_ok(REST)"])


# ---------------------------------------------------------------- what follows from the definitions: nothing lost, connected atoms together
@spec
def cnt(x: V, l: L) -> I:
    if len(l) == 0:
        return 0
    return ite(x == l[0], 1, 0) + cnt(x, l[1:])


@spec
def flat(bs: L) -> L:
    if len(bs) == 0:
        return []
    return list(bs[0].atoms) + flat(bs[1:])


@spec
def independent(bs: L, todo: L) -> B:
    """no batch of todo shares a variable with one of bs or with one before it"""
    if len(todo) == 0:
        return True
    return find_batch(bs, asSET(todo[0].variables), 0) == -1 and independent(bs + [todo[0]], todo[1:])


lemma("cnt_app", "x:V, a:L, b:L", "cnt(x, app(a, b)) == cnt(x, a) + cnt(x, b)", induct="a", trigger="cnt(x, app(a, b))")
lemma("cnt_nonneg", "x:V, a:L", "cnt(x, a) >= 0", induct="a", trigger="cnt(x, a)")
lemma("cnt_mem", "x:V, a:L", "mem(x, a) == (cnt(x, a) > 0)", induct="a", trigger="mem(x, a)")
lemma("cnt_remove", "x:V, y:V, a:L", "cnt(x, remove1(a, y)) == cnt(x, a) - ite(x == y and mem(y, a), 1, 0)", induct="a", trigger="cnt(x, remove1(a, y))")
lemma("flat_join", "x:V, bs:L, b:V", "cnt(x, flat(join_batch(bs, b))) == cnt(x, flat(bs)) + cnt(x, list(b.atoms))", induct="bs", trigger="cnt(x, flat(join_batch(bs, b)))")
lemma("flat_join_all", "x:V, bs:L, todo:L", "cnt(x, flat(join_all(bs, todo))) == cnt(x, flat(bs)) + cnt(x, flat(todo))", induct="todo", trigger="cnt(x, flat(join_all(bs, todo)))")
lemma("len_join", "bs:L, b:V", "lenL(join_batch(bs, b)) == lenL(bs) + ite(find_batch(bs, asSET(b.variables), 0) == -1, 1, 0)", induct="bs", trigger="lenL(join_batch(bs, b))")
lemma("len_join_all", "bs:L, todo:L", "lenL(join_all(bs, todo)) <= lenL(bs) + lenL(todo)", induct="todo", trigger="lenL(join_all(bs, todo))")
lemma("full_independent", "bs:L, todo:L", "implies(lenL(join_all(bs, todo)) == lenL(bs) + lenL(todo), independent(bs, todo))", induct="todo", trigger="join_all(bs, todo)")
lemma("flat_singles", "atoms:L, ex:SET", "flat(singles(atoms, ex)) == atoms", induct="atoms", trigger="flat(singles(atoms, ex))")
lemma("parts_independent", "bs:L", "independent([], parts(bs))", measure="lenL(bs)", trigger="parts(bs)")
lemma("parts_keep", "bs:L, x:V", "cnt(x, flat(parts(bs))) == cnt(x, flat(bs))", measure="lenL(bs)", trigger="cnt(x, flat(parts(bs)))")
lemma("cnt_in_order", "x:V, atoms:L, left:L", "cnt(x, in_order(atoms, left)) == ite(cnt(x, atoms) < cnt(x, left), cnt(x, atoms), cnt(x, left))", induct="atoms", trigger="cnt(x, in_order(atoms, left))")
lemma("flat_restored", "x:V, atoms:L, bs:L", "implies(cnt(x, flat(bs)) <= cnt(x, atoms), cnt(x, flat(restored(atoms, bs))) == cnt(x, flat(bs)))", induct="bs", trigger="cnt(x, flat(restored(atoms, bs)))")
lemma("independent_parts", "atoms:L, ex:SET", "independent([], parts(singles(atoms, ex)))", trigger="parts(singles(atoms, ex))")
lemma("nothing_lost", "x:V, atoms:L, ex:SET", "cnt(x, flat(batches(atoms, ex))) == cnt(x, atoms)", trigger="cnt(x, flat(batches(atoms, ex)))")


@spec
def heads(x: V, l: L) -> I:
    """number of atoms with predicate x"""
    if len(l) == 0:
        return 0
    return ite(x == l[0][0], 1, 0) + heads(x, l[1:])


lemma("heads_app", "x:V, a:L, b:L", "heads(x, app(a, b)) == heads(x, a) + heads(x, b)", induct="a", trigger="heads(x, app(a, b))")
lemma("heads_ins", "x:V, p:V, ps:L", "heads(x, seconds(insp(p, ps))) == ite(x == p[1][0], 1, 0) + heads(x, seconds(ps))", induct="ps", trigger="heads(x, seconds(insp(p, ps)))")
lemma("heads_sort", "x:V, rs:L, bound:SET, model:V", "heads(x, seconds(sortp(costs_of(rs, bound, model), rs))) == heads(x, rs)", induct="rs", trigger="heads(x, seconds(sortp(costs_of(rs, bound, model), rs)))")
FRONT = "names_in(semantics) + nameless(semantics)"
SORTED = f"by_cost([], {FRONT}, self.model, emptyset())"
ISOLATED = f"isolated({SORTED}, root_variables)"
contract(D_ + "BasicQueryOptimizer.py", "BasicQueryOptimizer.optimize", dict(semantics="L", root_variables="L"), self_fields=dict(model="V"),
         requires=["atoms_ok(semantics)", f"fits({FRONT}, self.model)"],
         result=f"put(put(put(put({{}}, 'Semantics', semantics), 'Names resolved', {FRONT}), 'Sorted by cost', {SORTED}), 'Isolated', {ISOLATED})", ret="D")
