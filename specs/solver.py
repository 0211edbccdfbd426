"""C01-C03: Solver."""
from pyvc.theory import spec, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["Variable", "ReifiedVariable", "Relation", "ExecutionContext", "Model"]
F = "richard/core/Solver.py"


@spec
def bind_row(arguments: L, row: L, binding: D, acc: D) -> D:
    """binding extended with the values of the variables that the incoming binding does not have"""
    if len(arguments) == 0:
        return acc
    a = arguments[0]
    if isinstance(a, Variable) and not haskey(binding, a.name):
        return bind_row(arguments[1:], row[1:], binding, put(acc, a.name, row[0]))
    return bind_row(arguments[1:], row[1:], binding, acc)


@spec
def row_conflict(arguments: L, row: L, binding: D, acc: D) -> B:
    if len(arguments) == 0:
        return False
    a = arguments[0]
    if isinstance(a, Variable):
        if haskey(binding, a.name):
            return row_conflict(arguments[1:], row[1:], binding, acc)
        return (haskey(acc, a.name) and acc[a.name] != row[0]) or row_conflict(arguments[1:], row[1:], binding, put(acc, a.name, row[0]))
    return (row[0] is not None and a != row[0]) or row_conflict(arguments[1:], row[1:], binding, acc)


@spec
def match_rows(rows: L, binding: D, arguments: L) -> L:
    if len(rows) == 0:
        return []
    if row_conflict(arguments, list(rows[0]), binding, binding):
        return match_rows(rows[1:], binding, arguments)
    return cons(bind_row(arguments, list(rows[0]), binding, binding), match_rows(rows[1:], binding, arguments))


@spec
def rows_ok(rows: L, n: I) -> B:
    if len(rows) == 0:
        return True
    return isinstance(rows[0], list) and len(list(rows[0])) == n and rows_ok(rows[1:], n)


contract(F, "Solver.create_solve_single_results", dict(values="L", binding="D", arguments="T"),
         result="match_rows(values, binding, arguments)", ret="L",
         when="rows_ok(values, len(arguments))",
         inv=["match_rows(values, binding, arguments) == ACC + match_rows(REST, binding, arguments)",
              "rows_ok(REST, len(arguments))",
              "bind_row(arguments, list(ELT1), binding, binding) == bind_row(REST, drop(list(ELT1), IDX), binding, MAP)",
              "row_conflict(arguments, list(ELT1), binding, binding) == (FLAG or row_conflict(REST, drop(list(ELT1), IDX), binding, MAP))",
              ])


# ---------------------------------------------------------------- C03: relations
@uninterpreted
def qres(fn: V, values: V, context: V) -> V:
    """what a relation's query function returns"""


@uninterpreted
def module_relations(m: V) -> D:
    """SomeModule.get_relations: predicate -> Relation"""


iface("*", "call:query_function", dict(fn="V", values="L", context="V"), result="qres(fn, values, context)", ret="V",
      trace="[('query', fn, values, context)]",
      assumed="a relation's query function gives a result that depends on the values and the context, and does not change the solver, the atoms or the bindings")
iface("*", "call:write_function", dict(fn="V", values="V", context="V"), ret="N", trace="[('write', fn, values, context)]",
      assumed="a relation's write function does not change the solver or the atoms")
iface("SomeModule", "get_relations", dict(self="V"), result="module_relations(self)", ret="D", fresh=False,
      types={"result": "dict[str, Relation]"}, assumed="get_relations has no effect and returns a dict of Relation")


@spec
def relations_of(modules: L, predicate: V) -> L:
    if len(modules) == 0:
        return []
    if haskey(module_relations(modules[0]), predicate):
        return cons(module_relations(modules[0])[predicate], relations_of(modules[1:], predicate))
    return relations_of(modules[1:], predicate)


contract("richard/core/Model.py", "Model.find_relations", dict(relation="V"), self_val="Model",
         requires=["isinstance(self.modules, list)"],
         result="relations_of(list(self.modules), relation)", ret="L", types={"result": "list[Relation]"},
         inv=["relations_of(list(self.modules), relation) == ACC + relations_of(REST, relation)"])


@spec
def db_values(arguments: L, binding: D) -> L:
    if len(arguments) == 0:
        return []
    a = arguments[0]
    if isinstance(a, Variable):
        return cons(binding.get(a.name), db_values(arguments[1:], binding))
    return cons(a, db_values(arguments[1:], binding))


contract(F, "Solver.model_values_2_db_values", dict(model_values="T", binding="D"),
         result="db_values(model_values, binding)", ret="L",
         inv=["db_values(model_values, binding) == ACC + db_values(REST, binding)"])


@spec
def memtext(s: S, rows: L) -> B:
    if len(rows) == 0:
        return False
    return str(rows[0]) == s or memtext(s, rows[1:])


@spec
def addrows(acc: L, rows: L) -> L:
    """acc, then the rows that are new"""
    if len(rows) == 0:
        return acc
    if memtext(str(rows[0]), acc):
        return addrows(acc, rows[1:])
    return addrows(acc + [rows[0]], rows[1:])


@spec
def textmap(acc: D, rows: L) -> D:
    if len(rows) == 0:
        return acc
    return textmap(put(acc, str(rows[0]), rows[0]), rows[1:])


@spec
def textset(rows: L) -> SET:
    if len(rows) == 0:
        return emptyset()
    return setadd(textset(rows[1:]), str(rows[0]))


lemma("memtext_app", "s:S, a:L, b:L", "memtext(s, app(a, b)) == (memtext(s, a) or memtext(s, b))", induct="a", trigger="memtext(s, app(a, b))")
lemma("textmap_app", "d:D, a:L, b:L", "textmap(d, app(a, b)) == textmap(textmap(d, a), b)", induct="a", trigger="textmap(d, app(a, b))")
lemma("textmap_has", "d:D, a:L, s:S", "haskey(textmap(d, a), s) == (haskey(d, s) or memtext(s, a))", induct="a", trigger=["rawsel(textmap(d, a), s)"])


def rel_context(rel, arguments, binding, me): return ExecutionContext(rel, arguments, binding, me)


@spec
def rel_result(rel: V, arguments: T, binding: D, me: V) -> V:
    return qres(rel.query_function, db_values(arguments, binding), ExecutionContext(rel, arguments, binding, me))


@spec
def any_iter(rels: L, arguments: T, binding: D, me: V) -> B:
    if len(rels) == 0:
        return False
    return isinstance(rel_result(rels[0], arguments, binding, me), ResultIterator) or any_iter(rels[1:], arguments, binding, me)


@spec
def results_ok(rels: L, arguments: T, binding: D, me: V) -> B:
    """every relation is a Relation and returns a list or an iterator"""
    if len(rels) == 0:
        return True
    r = rel_result(rels[0], arguments, binding, me)
    return isinstance(rels[0], Relation) and (isinstance(r, list) or isinstance(r, ResultIterator)) and results_ok(rels[1:], arguments, binding, me)


@spec
def union_rows(rels: L, arguments: T, binding: D, me: V, acc: L) -> L:
    if len(rels) == 0:
        return acc
    return union_rows(rels[1:], arguments, binding, me, addrows(acc, list(rel_result(rels[0], arguments, binding, me))))


@spec
def query_events(rels: L, arguments: T, binding: D, me: V) -> L:
    if len(rels) == 0:
        return []
    return cons(('query', rels[0].query_function, db_values(arguments, binding), ExecutionContext(rels[0], arguments, binding, me)),
                query_events(rels[1:], arguments, binding, me))


@spec
def rels_for(model: V, predicate: V) -> L:
    return relations_of(list(model.modules), predicate)


@spec
def relation_values(model: V, predicate: V, arguments: T, binding: D, me: V) -> V:
    rels = rels_for(model, predicate)
    if len(rels) == 1 and any_iter(rels, arguments, binding, me):
        return rel_result(rels[0], arguments, binding, me)
    return union_rows(rels, arguments, binding, me, [])


@spec
def values_fail(model: V, predicate: V, arguments: T, binding: D, me: V) -> B:
    rels = rels_for(model, predicate)
    return len(rels) == 0 or (len(rels) > 1 and any_iter(rels, arguments, binding, me))


@spec
def values_ok(model: V, predicate: V, arguments: T, binding: D, me: V) -> B:
    return not values_fail(model, predicate, arguments, binding, me) and results_ok(rels_for(model, predicate), arguments, binding, me)


contract(F, "Solver.find_relation_values", dict(predicate="S", arguments="T", binding="D"),
         requires=["isinstance(self.model, Model)", "isinstance(self.model.modules, list)"],
         result="relation_values(self.model, predicate, arguments, binding, ident(self))", ret="V",
         must_raise="values_fail(self.model, predicate, arguments, binding, ident(self))",
         no_raise="values_ok(self.model, predicate, arguments, binding, ident(self))",
         trace="query_events(rels_for(self.model, predicate), arguments, binding, ident(self))",
         inv=["union_rows(rels_for(self.model, predicate), arguments, binding, ident(self), []) == union_rows(REST, arguments, binding, ident(self), ACC)",
              "union_rows(rels_for(self.model, predicate), arguments, binding, ident(self), []) == union_rows(TAIL1, arguments, binding, ident(self), addrows(ACC, REST))",
              "any_iter(rels_for(self.model, predicate), arguments, binding, ident(self)) == any_iter(REST, arguments, binding, ident(self))",
              "implies(results_ok(rels_for(self.model, predicate), arguments, binding, ident(self)), results_ok(REST, arguments, binding, ident(self)))",
              "implies(values_ok(self.model, predicate, arguments, binding, ident(self)), results_ok(REST, arguments, binding, ident(self)))",
              "query_events(rels_for(self.model, predicate), arguments, binding, ident(self)) == TRACE + query_events(REST, arguments, binding, ident(self))",
              "MAP == textmap({}, ACC)",
              ])


@spec
def write_events(rels: L, arguments: T, me: V) -> L:
    if len(rels) == 0:
        return []
    if rels[0].write_function is None:
        return write_events(rels[1:], arguments, me)
    return cons(('write', rels[0].write_function, arguments, ExecutionContext(rels[0], arguments, {}, me)), write_events(rels[1:], arguments, me))


contract(F, "Solver.write_atom", dict(atom="T"),
         requires=["isinstance(self.model, Model)", "isinstance(self.model.modules, list)", "len(atom) > 0", "isinstance(atom[0], str)",
                   "all_relations(rels_for(self.model, atom[0]))"],
         must_raise="len(rels_for(self.model, atom[0])) == 0",
         trace="write_events(rels_for(self.model, atom[0]), atom[1:], ident(self))",
         inv=["write_events(rels_for(self.model, atom[0]), atom[1:], ident(self)) == TRACE + write_events(REST, atom[1:], ident(self))",
              "all_relations(REST)"])


@spec
def all_relations(rels: L) -> B:
    if len(rels) == 0:
        return True
    return isinstance(rels[0], Relation) and all_relations(rels[1:])


# ---------------------------------------------------------------- C01: join and disjunction
@spec
def first_row_bad(values: V, n: I) -> B:
    return len(list(values)) > 0 and (not isinstance(list(values)[0], list) or len(list(list(values)[0])) != n)


@spec
def single_spec(model: V, atom: V, binding: D, me: V) -> V:
    if atom[0] == '$disjunction':
        return disj_spec(model, list(atom[1]), binding, me)
    r = relation_values(model, atom[0], list(atom)[1:], binding, me)
    if isinstance(r, ResultIterator):
        return r
    return match_rows(list(r), binding, list(atom)[1:])


@spec
def disj_spec(model: V, alternatives: L, binding: D, me: V) -> V:
    if len(alternatives) == 0:
        return []
    if len(solve_spec(model, list(alternatives[0]), binding, me)) > 0:
        return solve_spec(model, list(alternatives[0]), binding, me)
    return disj_spec(model, alternatives[1:], binding, me)


@spec
def solve_spec(model: V, atoms: L, binding: D, me: V) -> V:
    if len(atoms) == 0:
        return [binding]
    if len(atoms[1:]) == 0:
        return single_spec(model, atoms[0], binding, me)
    return join(model, list(single_spec(model, atoms[0], binding, me)), atoms[1:], [], me)


@spec
def join(model: V, bindings: L, atoms: L, acc: L, me: V) -> L:
    if len(bindings) == 0:
        return acc
    return join(model, bindings[1:], atoms, addnew(acc, list(solve_spec(model, atoms, asD(bindings[0]), me))), me)


# the query's relations and their answers are well-formed wherever the search gets to
@spec
def single_ok(model: V, atom: V, binding: D, me: V) -> B:
    if not (isinstance(atom, tuple) and len(atom) > 0):
        return False
    if atom[0] == '$disjunction':
        return len(list(atom)) > 1 and isinstance(atom[1], list) and disj_ok(model, list(atom[1]), binding, me)
    r = relation_values(model, atom[0], list(atom)[1:], binding, me)
    return isinstance(atom[0], str) and values_ok(model, atom[0], list(atom)[1:], binding, me) and \
        (isinstance(r, ResultIterator) or rows_ok(list(r), len(list(atom)[1:])))


@spec
def disj_ok(model: V, alternatives: L, binding: D, me: V) -> B:
    if len(alternatives) == 0:
        return True
    if not (isinstance(alternatives[0], list) and solve_ok(model, list(alternatives[0]), binding, me)
            and isinstance(solve_spec(model, list(alternatives[0]), binding, me), list)):
        return False
    return len(solve_spec(model, list(alternatives[0]), binding, me)) > 0 or disj_ok(model, alternatives[1:], binding, me)


@spec
def solve_ok(model: V, atoms: L, binding: D, me: V) -> B:
    if len(atoms) == 0:
        return True
    if not single_ok(model, atoms[0], binding, me):
        return False
    if len(atoms[1:]) == 0:
        return True
    return isinstance(single_spec(model, atoms[0], binding, me), list) and join_ok(model, list(single_spec(model, atoms[0], binding, me)), atoms[1:], me)


@spec
def join_ok(model: V, bindings: L, atoms: L, me: V) -> B:
    if len(bindings) == 0:
        return True
    return isinstance(bindings[0], dict) and solve_ok(model, atoms, asD(bindings[0]), me) \
        and isinstance(solve_spec(model, atoms, asD(bindings[0]), me), list) and join_ok(model, bindings[1:], atoms, me)


SELF = dict(self_fields=dict(log_stats="B", stats="D", model="V"), effects={"self.stats": "*"}, trace="*")
REQ = ["isinstance(self.model, Model)", "isinstance(self.model.modules, list)"]
contract(F, "Solver.solve_single", dict(atom="T", binding="D"), ret="V", requires=REQ + ["len(atom) > 0", "isinstance(atom[0], str)"],
         when="single_ok(self.model, atom, binding, ident(self))",
         result="single_spec(self.model, atom, binding, ident(self))",
         must_raise="atom[0] != '$disjunction' and not isinstance(relation_values(self.model, atom[0], atom[1:], binding, ident(self)), ResultIterator) and first_row_bad(relation_values(self.model, atom[0], atom[1:], binding, ident(self)), len(atom[1:]))",
         **SELF)
contract(F, "Solver.solve", dict(atoms="V", binding="D"), ret="V", requires=REQ,
         when="isinstance(atoms, list) and solve_ok(self.model, list(atoms), binding, ident(self))",
         result="solve_spec(self.model, list(atoms), binding, ident(self))",
         must_raise="not isinstance(atoms, list)",
         inv=["join(self.model, list(single_spec(self.model, atoms[0], binding, ident(self))), list(atoms)[1:], [], ident(self)) == join(self.model, REST, list(atoms)[1:], ACC, ident(self))",
              "join(self.model, list(single_spec(self.model, atoms[0], binding, ident(self))), list(atoms)[1:], [], ident(self)) == join(self.model, TAIL1, list(atoms)[1:], addnew(ACC, REST), ident(self))",
              "join_ok(self.model, REST, list(atoms)[1:], ident(self))",
              "join_ok(self.model, TAIL1, list(atoms)[1:], ident(self))",
              ],
         **SELF)
contract(F, "Solver.solve_disjunction", dict(disjuncts="V", binding="D"), ret="V", requires=REQ,
         when="isinstance(disjuncts, list) and disj_ok(self.model, list(disjuncts), binding, ident(self))",
         result="disj_spec(self.model, list(disjuncts), binding, ident(self))",
         inv=["disj_spec(self.model, list(disjuncts), binding, ident(self)) == disj_spec(self.model, REST, binding, ident(self))",
              "disj_ok(self.model, REST, binding, ident(self))"],
         **SELF)
