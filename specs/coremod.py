"""C04, C05, C07: CoreModule predicates."""
from pyvc.theory import spec, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["Variable", "ReifiedVariable", "Relation", "ExecutionContext"]
F = "richard/module/CoreModule.py"


@uninterpreted
def solved(solver: V, atoms: V, binding: D) -> L:
    """what the solver returns for atoms under a binding"""


iface("SomeSolver", "solve", dict(self="V", atoms="V", binding="D"), result="solved(self, atoms, binding)", ret="L",
      types={"result": "list"}, trace="[('solve', atoms, binding)]",
      assumed="solver.solve returns a list that is determined by the solver's state, the atoms and the binding, changes neither, and the state does not change between the two bodies of one aggregate (C01 is proved for Solver.solve itself)")
iface("SomeSolver", "write_atom", dict(self="V", atom="V"), ret="N", trace="[('write', atom)]",
      assumed="solver.write_atom does not change the atoms (C03 is proved for Solver.write_atom itself)")


def body_of(values, k, context): return solved(context.solver, values[k], asD(context.binding))


P = dict(values="L", context="V")
CTX = dict(context="ExecutionContext")
N = ["isinstance(context, ExecutionContext)", "isinstance(context.binding, dict)", "isinstance(context.arguments, list) or isinstance(context.arguments, tuple)"]


def q(name, result, no_raise=None, must_raise=None, trace=None, n=2, inv=(), **k):
    contract(F, "CoreModule." + name, P, result=result, ret="L", requires=N + [f"len(values) == {n}"] + k.pop("requires", []), no_raise=no_raise,
             must_raise=must_raise, trace=trace, inv=list(inv), types=dict(context="ExecutionContext"), **k)


# ---------------------------------------------------------------- C05
q("equals", "equals_rows(values[0], values[1])", must_raise="values[0] is None and values[1] is None")
q("greater_than", "ite(values[1] < values[0], [values], [])", must_raise="values[0] is None or values[1] is None")
q("less_than", "ite(values[0] < values[1], [values], [])", must_raise="values[0] is None or values[1] is None")
q("multiply", "[[None, None, values[0] * values[1]]]", must_raise="values[0] is None or values[1] is None", n=3)
q("let", "[[values[1], values[1]]]", no_raise="True")


@spec
def equals_rows(a: V, b: V) -> L:
    if a is None:
        return [[b, b]]
    if b is None:
        return [[a, a]]
    if a == b:
        return [[a, b]]
    return []


B0, B1, B2 = [f"solved(context.solver, values[{k}], asD(context.binding))" for k in range(3)]


def ev(*ks): return "[" + ", ".join(f"('solve', values[{k}], asD(context.binding))" for k in ks) + "]"


q("not_function", f"ite(len({B0}) == 0, [[None]], [])", no_raise="True", trace=ev(0), n=1)
q("determiner_none", f"ite(len({B0}) == 0, [[None]], [])", no_raise="True", trace=ev(0), n=1)
q("scoped", f"ite(len({B0}) == 0, [], [[None]])", no_raise="True", trace=ev(0), n=1)
NUM = ["isinstance(values[1], int)"]
q("determiner_equals", f"ite(len({B0}) == values[1], [[None, None]], [])", no_raise="True", trace=ev(0), requires=NUM)
q("determiner_greater_than", f"ite(len({B0}) > values[1], [[None, None]], [])", no_raise="True", trace=ev(0), requires=NUM)
q("determiner_less_than", f"ite(len({B0}) < values[1], [[None, None]], [])", no_raise="True", trace=ev(0), requires=NUM)

# ---------------------------------------------------------------- C04


@spec
def has_key(bs: L, name: V) -> B:
    """every result binds the variable"""
    if len(bs) == 0:
        return True
    return isinstance(bs[0], dict) and haskey(asD(bs[0]), name) and has_key(bs[1:], name)


@spec
def all_dict(bs: L) -> B:
    if len(bs) == 0:
        return True
    return isinstance(bs[0], dict) and all_dict(bs[1:])


@spec
def total(bs: L, name: V, acc: V) -> V:
    if len(bs) == 0:
        return acc
    return total(bs[1:], name, acc + asD(bs[0])[name])


@spec
def has_num(bs: L, name: V) -> B:
    if len(bs) == 0:
        return True
    return isinstance(bs[0], dict) and haskey(asD(bs[0]), name) and asD(bs[0])[name] is not None and has_num(bs[1:], name)


ARG = ["len(list(context.arguments)) > 1", "isinstance(list(context.arguments)[0], Variable)", "isinstance(list(context.arguments)[1], Variable)"]
EL = "list(context.arguments)[1].name"
q("count", f"[[len({B1}), None]]", no_raise="True", trace=ev(1))
q("sum", f"[[total({B2}, {EL}, 0), None, None]]", n=3, requires=ARG, trace=ev(2), no_raise=f"has_key({B2}, {EL})",
  inv=[f"total({B2}, {EL}, 0) == total(REST, {EL}, VAL)", f"implies(has_key({B2}, {EL}), has_key(REST, {EL}))"])
q("avg", f"ite(len({B2}) == 0, [], [[total({B2}, {EL}, 0) / len({B2}), None, None]])", n=3, requires=ARG, trace=ev(2), no_raise=f"has_num({B2}, {EL})",
  inv=[f"total({B2}, {EL}, 0) == total(REST, {EL}, VAL)", f"implies(has_num({B2}, {EL}), has_num(REST, {EL}))", "len(SEQ) == NUM + len(REST)", "VAL is not None"])
q("percentage", f"ite(len({B2}) == 0, [], [[(len({B1}) / len({B2})) * 100.0, None, None]])", n=3, trace=ev(1, 2), no_raise="True")


@spec
def min_from(bs: L, entity: V, name: V, best: V, value: V) -> L:
    """first result with the smallest value, given the best so far"""
    if len(bs) == 0:
        return [best, value, None]
    if value is None or asD(bs[0])[name] < value:
        return min_from(bs[1:], entity, name, asD(bs[0])[entity], asD(bs[0])[name])
    return min_from(bs[1:], entity, name, best, value)


@spec
def max_from(bs: L, entity: V, name: V, best: V, value: V) -> L:
    if len(bs) == 0:
        return [best, value, None]
    if value is None or value < asD(bs[0])[name]:
        return max_from(bs[1:], entity, name, asD(bs[0])[entity], asD(bs[0])[name])
    return max_from(bs[1:], entity, name, best, value)


E0 = "list(context.arguments)[0].name"
for nm, f in (("arg_min", "min_from"), ("arg_max", "max_from")):
    q(nm, f"ite(len({B2}) == 0, [], [{f}({B2}, {E0}, {EL}, None, None)])", n=3, requires=ARG, trace=ev(2), no_raise=f"has_num({B2}, {EL}) and has_key({B2}, {E0})",
      inv=[f"{f}({B2}, {E0}, {EL}, None, None) == {f}(REST, {E0}, {EL}, VAL1, VAL2)",
           f"implies(has_num({B2}, {EL}), has_num(REST, {EL}))", f"implies(has_key({B2}, {E0}), has_key(REST, {E0}))"])


@spec
def combo(names: L, binding: D) -> L:
    if len(names) == 0:
        return []
    return cons(binding.get(names[0]), combo(names[1:], binding))


@spec
def combos(bs: L, names: L) -> L:
    if len(bs) == 0:
        return []
    return cons(combo(names, asD(bs[0])), combos(bs[1:], names))


@spec
def column(bs: L, name: V) -> L:
    if len(bs) == 0:
        return []
    if haskey(asD(bs[0]), name):
        return cons(asD(bs[0])[name], column(bs[1:], name))
    return column(bs[1:], name)


@spec
def found(bs: L, variable: V) -> L:
    if isinstance(variable, list):
        return dedup(combos(bs, list(variable)))
    return dedup(column(bs, variable))


q("find_all", f"[[None, None, found({B1}, values[0])]]", n=3, trace=ev(1), when=f"all_dict({B1})",
  inv=[f"implies(isinstance(values[0], list), addnew([], combos({B1}, list(values[0]))) == addnew(ACC, combos(REST, list(values[0]))))",
       f"implies(not isinstance(values[0], list), addnew([], column({B1}, values[0])) == addnew(ACC, column(REST, values[0])))",
       "all_dict(REST)",
       "combo(list(values[0]), ELT1) == ACC + combo(REST, ELT1)"])
q("find_one", f"ite(len(found({B1}, values[0])) == 0, [], [[None, None, found({B1}, values[0])[0]]])", n=3, trace=ev(1), when=f"all_dict({B1})")


# ---------------------------------------------------------------- all
@spec
def values_of(bs: L, name: V) -> L:
    if len(bs) == 0:
        return []
    return cons(asD(bs[0])[name], values_of(bs[1:], name))


@spec
def hold(entities: L, name: V, body: V, solver: V, binding: D) -> L:
    """the entities for which the body has a result"""
    if len(entities) == 0:
        return []
    if len(solved(solver, body, put(binding, name, entities[0]))) > 0:
        return cons(entities[0], hold(entities[1:], name, body, solver, binding))
    return hold(entities[1:], name, body, solver, binding)


@spec
def all_hold(entities: L, name: V, body: V, solver: V, binding: D) -> B:
    if len(entities) == 0:
        return True
    return len(solved(solver, body, put(binding, name, entities[0]))) > 0 and all_hold(entities[1:], name, body, solver, binding)


@spec
def triples(entities: L) -> L:
    if len(entities) == 0:
        return []
    return cons([entities[0], None, None], triples(entities[1:]))


@spec
def body_events(entities: L, name: V, body: V, binding: D) -> L:
    if len(entities) == 0:
        return []
    return cons(('solve', body, put(binding, name, entities[0])), body_events(entities[1:], name, body, binding))


@spec
def distinct(a: L) -> B:
    if len(a) == 0:
        return True
    return not mem(a[0], a[1:]) and distinct(a[1:])


lemma("mem_cons", "x:V, h:V, b:L", "mem(x, cons(h, b)) == (x == h or mem(x, b))", trigger="mem(x, cons(h, b))", auto=False)
lemma("distinct_cut", "a:L, b:L, h:V", "implies(distinct(app(a, cons(h, b))), not mem(h, a))", induct="a", trigger="app(a, cons(h, b))", using=["mem_cons"], auto=False)
lemma("distinct_end", "a:L, x:V", "distinct(app(a, [x])) == (distinct(a) and not mem(x, a))", induct="a", trigger="distinct(app(a, [x]))", using=["mem_cons"], auto=False)
lemma("addnew_distinct", "a:L, b:L", "implies(distinct(a), distinct(addnew(a, b)))", induct="b", trigger="distinct(addnew(a, b))", using=["distinct_end"], auto=False)
lemma("cons_app", "a:L, h:V, b:L", "app(app(a, [h]), b) == app(a, cons(h, b))", trigger="app(a, cons(h, b))", auto=False)
lemma("addnew_of_distinct", "a:L, b:L", "implies(distinct(app(a, b)), addnew(a, b) == app(a, b))", induct="b", trigger="addnew(a, b)",
      using=["distinct_cut", "cons_app"], auto=False)
lemma("dedup_distinct", "b:L", "distinct(addnew([], b))", trigger="addnew([], b)", using=["addnew_distinct"], auto=False)
lemma("dedup_of_distinct", "b:L", "implies(distinct(b), addnew([], b) == b)", trigger="addnew([], b)", using=["addnew_of_distinct"], auto=False)
lemma("hold_mem", "x:V, e:L, n:V, body:V, s:V, d:D", "implies(mem(x, hold(e, n, body, s, d)), mem(x, e))", induct="e", trigger="mem(x, hold(e, n, body, s, d))", auto=False)
lemma("hold_distinct", "e:L, n:V, body:V, s:V, d:D", "implies(distinct(e), distinct(hold(e, n, body, s, d)))", induct="e", trigger="hold(e, n, body, s, d)", using=["hold_mem"], auto=False)
lemma("hold_len", "e:L, n:V, body:V, s:V, d:D", "lenL(hold(e, n, body, s, d)) <= lenL(e) and raweq(lenL(hold(e, n, body, s, d)) == lenL(e), all_hold(e, n, body, s, d))",
      induct="e", trigger="hold(e, n, body, s, d)", auto=False)
lemma("hold_all", "e:L, n:V, body:V, s:V, d:D", "implies(all_hold(e, n, body, s, d), hold(e, n, body, s, d) == e)", induct="e", trigger="all_hold(e, n, body, s, d)", auto=False)
lemma("all_decides", "e:L, n:V, body:V, s:V, d:D",
      "raweq(lenL(addnew([], hold(addnew([], e), n, body, s, d))) == lenL(addnew([], e)), all_hold(addnew([], e), n, body, s, d)) and "
      "implies(all_hold(addnew([], e), n, body, s, d), addnew([], hold(addnew([], e), n, body, s, d)) == addnew([], e))",
      trigger="hold(addnew([], e), n, body, s, d)", using=["dedup_distinct", "dedup_of_distinct", "hold_distinct", "hold_len", "hold_all"], auto=False)

EV = "(list(context.arguments)[0]).name"
ENT = f"dedup(values_of({B1}, {EV}))"
q("determiner_all", f"ite(all_hold({ENT}, {EV}, values[2], context.solver, asD(context.binding)), triples({ENT}), [])", n=3,
  requires=["len(list(context.arguments)) > 0", "isinstance(list(context.arguments)[0], Variable)"],
  when=f"has_key({B1}, {EV})", using=["all_decides"],
  trace=f"[('solve', values[1], asD(context.binding))] + body_events({ENT}, {EV}, values[2], asD(context.binding))",
  inv=[f"values_of({B1}, {EV}) == ACC + values_of(REST, {EV})", f"has_key(REST, {EV})",
       f"addnew([], hold({ENT}, {EV}, values[2], context.solver, asD(context.binding))) == addnew(KEYS, hold(REST, {EV}, values[2], context.solver, asD(context.binding)))",
       f"[('solve', values[1], asD(context.binding))] + body_events({ENT}, {EV}, values[2], asD(context.binding)) == TRACE + body_events(REST, {EV}, values[2], asD(context.binding))",
       "triples(SEQ) == ACC + triples(REST)", "triples(KEYS) == ACC + triples(REST)"])
