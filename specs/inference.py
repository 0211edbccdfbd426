"""C06, C07: InferenceModule, substitution, store."""
from pyvc.theory import spec, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["Variable", "ReifiedVariable", "Relation", "ExecutionContext", "InferenceRule"]
F = "richard/module/InferenceModule.py"


@uninterpreted
def solved(solver: V, atoms: V, binding: D) -> L:
    """what the solver returns for atoms under a binding"""


@uninterpreted
def word_match(pattern: V, text: V) -> V:
    """re.fullmatch"""


iface("SomeSolver", "solve", dict(self="V", atoms="V", binding="D"), result="solved(self, atoms, binding)", ret="L",
      types={"result": "list"}, trace="[('solve', atoms, binding)]",
      assumed="solver.solve returns a list determined by the solver's state, the atoms and the binding, changes neither, and the state does not change between two calls (C01 is proved for Solver.solve itself)")
iface("SomeSolver", "write_atom", dict(self="V", atom="V"), ret="N", trace="[('write', atom)]",
      assumed="solver.write_atom does not change the atoms (C03 is proved for Solver.write_atom itself)")
iface("ext", "re.fullmatch", dict(pattern="V", text="V"), result="word_match(pattern, text)", ret="V", assumed="re.fullmatch has no effect")


# ---------------------------------------------------------------- C07: substitution
@spec
def bindv(c: V, binding: D) -> V:
    if isinstance(c, list):
        return bindl(list(c), binding)
    if isinstance(c, tuple):
        return tuple(bindl(list(c), binding))
    if isinstance(c, Variable) and haskey(binding, c.name):
        return binding[c.name]
    return c


@spec
def bindl(l: L, binding: D) -> L:
    if len(l) == 0:
        return []
    return cons(bindv(l[0], binding), bindl(l[1:], binding))


contract("richard/core/atoms.py", "bind_variables", dict(construct="V", binding="D"), result="bindv(construct, binding)",
         types={"result": "any"},
         inv=["bindl(SEQ, binding) == ACC + bindl(REST, binding)"])


@spec
def write_all(atoms: L) -> L:
    if len(atoms) == 0:
        return []
    return cons(('write', atoms[0]), write_all(atoms[1:]))


contract("richard/module/CoreModule.py", "CoreModule.store", dict(values="L", context="V"), types=dict(context="ExecutionContext"),
         requires=["isinstance(context, ExecutionContext)", "isinstance(context.binding, dict)", "len(values) == 1"],
         must_raise="not isinstance(values[0], list)", result="[[None]]", ret="L",
         trace="write_all(bindl(list(values[0]), asD(context.binding)))",
         inv=["write_all(bindl(list(values[0]), asD(context.binding))) == TRACE + write_all(REST)"])

# ---------------------------------------------------------------- the rule base
IM = dict(self_fields=dict(rules="D", relations="D"))


@spec
def isword(p: V) -> B:
    return isinstance(p, str) and bool(word_match('[\\w_]+', p))


@spec
def old_rules(rules: D, predicate: V) -> L:
    if haskey(rules, predicate):
        return list(rules[predicate])
    return []


@spec
def one_relation(relations: D, post: D, predicate: V, fn: V) -> B:
    """the relation of the predicate is there, queried by the given function and not writable; no other changed"""
    return haskey(post, predicate) and post == put(relations, predicate, post[predicate]) and isinstance(post[predicate], Relation) \
        and post[predicate].query_function == fn and post[predicate].predicate == predicate and post[predicate].write_function is None


WELL = "implies(haskey(asD(self.rules), {p}), isinstance(asD(self.rules)[{p}], list))"
contract(F, "InferenceModule.insert_rule", dict(rule="V"), types=dict(rule="InferenceRule"),
         requires=["isinstance(rule.head, tuple)", WELL.format(p="rule.head[0]")],
         when="len(list(rule.head)) > 0 and isword(rule.head[0])",
         ensures=["asD(self_post.rules) == put(asD(self.rules), rule.head[0], old_rules(asD(self.rules), rule.head[0]) + [rule])",
                  "one_relation(asD(self.relations), asD(self_post.relations), rule.head[0], METH_handle_rule)"],
         effects={"self.rules": "*", "self.relations": "*"}, **IM)
contract(F, "InferenceModule.learn_rule", dict(values="L", context="V"), types=dict(context="ExecutionContext"),
         requires=["isinstance(context, ExecutionContext)", "isinstance(context.binding, dict)", "len(values) == 2",
                   WELL.format(p="bindv(values[0], asD(context.binding))[0]")],
         when="isinstance(values[0], tuple) and len(list(values[0])) > 0 and isword(bindv(values[0], asD(context.binding))[0])",
         must_raise="not isinstance(values[0], tuple)", result="[[None, None]]", ret="L",
         ensures=["asD(self_post.rules) == put(asD(self.rules), bindv(values[0], asD(context.binding))[0], "
                  "old_rules(asD(self.rules), bindv(values[0], asD(context.binding))[0]) + [InferenceRule(bindv(values[0], asD(context.binding)), bindv(values[1], asD(context.binding)))])"],
         effects={"self.rules": "*", "self.relations": "*"}, **IM)


# ---------------------------------------------------------------- C06: variables of a rule
@spec
def addall(s: SET, l: L) -> SET:
    if len(l) == 0:
        return s
    return addall(setadd(s, l[0]), l[1:])


@spec
def varset(c: V) -> SET:
    """names of the variables at any depth"""
    if isinstance(c, Variable):
        return setadd(emptyset(), c.name)
    if isinstance(c, tuple) or isinstance(c, list):
        return varsets(list(c), emptyset())
    return emptyset()


@spec
def varsets(l: L, acc: SET) -> SET:
    if len(l) == 0:
        return acc
    return varsets(l[1:], addall(acc, list(varset(l[0]))))


A = "richard/core/atoms.py"
contract(A, "get_atom_variables", dict(construct="V"), result="list(varset(construct))", ret="L",
         inv=["varsets(list(construct), emptyset()) == varsets(REST, SET)",
              "addall(SET, REST) == addall(SET, REST)",
              "varsets(list(construct), emptyset()) == varsets(TAIL1, addall(SET, REST))"])
contract(A, "get_atoms_variables", dict(atoms="L"), result="list(varsets(atoms, emptyset()))", ret="L",
         inv=["varsets(atoms, emptyset()) == varsets(REST, SET)", "varsets(atoms, emptyset()) == varsets(TAIL1, addall(SET, REST))"])


@spec
def rule_vars(rule: V) -> L:
    return app(list(varsets(list(rule.head), emptyset())), list(varsets(list(rule.body), emptyset())))


RULE = ["isinstance(rule.head, tuple)", "isinstance(rule.body, list)"]
contract("richard/type/InferenceRule.py", "InferenceRule.get_all_variables", {}, self_val="InferenceRule",
         requires=["isinstance(self.head, tuple)", "isinstance(self.body, list)"], result="rule_vars(self)", ret="L")


# ---------------------------------------------------------------- rule application
@spec
def bval(a: V, binding: D) -> V:
    """the caller's argument: the value of a bound variable"""
    if isinstance(a, Variable) and haskey(binding, a.name):
        return binding[a.name]
    return a


@spec
def head_bind(rargs: L, args: L, binding: D, acc: D) -> D:
    if len(rargs) == 0 or len(args) == 0:
        return acc
    if isinstance(rargs[0], Variable) and not isinstance(bval(args[0], binding), Variable):
        return head_bind(rargs[1:], args[1:], binding, put(acc, rargs[0].name, bval(args[0], binding)))
    return head_bind(rargs[1:], args[1:], binding, acc)


@spec
def head_clash(rargs: L, args: L, binding: D, acc: D) -> B:
    if len(rargs) == 0 or len(args) == 0:
        return False
    v = bval(args[0], binding)
    if isinstance(v, Variable):
        return head_clash(rargs[1:], args[1:], binding, acc)
    if isinstance(rargs[0], Variable):
        return (haskey(acc, rargs[0].name) and acc[rargs[0].name] != v) or head_clash(rargs[1:], args[1:], binding, put(acc, rargs[0].name, v))
    return v != rargs[0] or head_clash(rargs[1:], args[1:], binding, acc)


@spec
def head_row(rargs: L, args: L, solution: D) -> L:
    if len(rargs) == 0 or len(args) == 0:
        return []
    if isinstance(args[0], Variable):
        if isinstance(rargs[0], Variable):
            return cons(solution[rargs[0].name], head_row(rargs[1:], args[1:], solution))
        return cons(rargs[0], head_row(rargs[1:], args[1:], solution))
    return cons(args[0], head_row(rargs[1:], args[1:], solution))


@spec
def unresolved(rargs: L, args: L, solution: D) -> B:
    """a head variable asked for has no value"""
    if len(rargs) == 0 or len(args) == 0:
        return False
    return (isinstance(args[0], Variable) and isinstance(rargs[0], Variable) and not haskey(solution, rargs[0].name)) or unresolved(rargs[1:], args[1:], solution)


@spec
def head_rows(solutions: L, rargs: L, args: L) -> L:
    if len(solutions) == 0:
        return []
    return cons(head_row(rargs, args, asD(solutions[0])), head_rows(solutions[1:], rargs, args))


@spec
def any_unresolved(solutions: L, rargs: L, args: L) -> B:
    if len(solutions) == 0:
        return False
    return unresolved(rargs, args, asD(solutions[0])) or any_unresolved(solutions[1:], rargs, args)


@spec
def all_dict(bs: L) -> B:
    if len(bs) == 0:
        return True
    return isinstance(bs[0], dict) and all_dict(bs[1:])


@spec
def start(rule: V, args: L, binding: D) -> D:
    """what the body is solved under"""
    return head_bind(list(rule.head)[1:], args, binding, without(binding, rule_vars(rule)))


@spec
def clash(rule: V, args: L, binding: D) -> B:
    return head_clash(list(rule.head)[1:], args, binding, without(binding, rule_vars(rule)))


@spec
def solutions(rule: V, args: L, solver: V, binding: D) -> L:
    if len(list(rule.body)) == 0:
        return [start(rule, args, binding)]
    return solved(solver, rule.body, start(rule, args, binding))


@spec
def rule_result(rule: V, args: L, solver: V, binding: D) -> L:
    if clash(rule, args, binding):
        return []
    if any_unresolved(solutions(rule, args, solver, binding), list(rule.head)[1:], args):
        return []
    return head_rows(solutions(rule, args, solver, binding), list(rule.head)[1:], args)


@spec
def rule_events(rule: V, args: L, binding: D) -> L:
    if clash(rule, args, binding) or len(list(rule.body)) == 0:
        return []
    return [('solve', rule.body, start(rule, args, binding))]


SOL = "solutions(rule, arguments, solver, binding)"
RA = "list(rule.head)[1:]"
contract(F, "InferenceModule.solve_rule", dict(rule="V", arguments="L", solver="V", binding="D"), types=dict(rule="InferenceRule"),
         requires=RULE, when=f"all_dict({SOL})",
         result="rule_result(rule, arguments, solver, binding)", ret="L", trace="rule_events(rule, arguments, binding)",
         inv=["start(rule, arguments, binding) == head_bind(REST, RESTb, binding, MAP)",
              "clash(rule, arguments, binding) == head_clash(REST, RESTb, binding, MAP)",
              f"head_rows({SOL}, {RA}, arguments) == ACC + head_rows(REST, {RA}, arguments)",
              f"any_unresolved({SOL}, {RA}, arguments) == any_unresolved(REST, {RA}, arguments)",
              "all_dict(REST)",
              f"head_row({RA}, arguments, asD(ELT1)) == ACC + head_row(REST, RESTb, asD(ELT1))",
              f"unresolved({RA}, arguments, asD(ELT1)) == unresolved(REST, RESTb, asD(ELT1))",
              f"head_row({RA}, arguments, MAP) == ACC + head_row(REST, RESTb, MAP)",
              f"unresolved({RA}, arguments, MAP) == unresolved(REST, RESTb, MAP)",
              ])


@spec
def all_rules(rules: L, args: L, solver: V, binding: D) -> L:
    if len(rules) == 0:
        return []
    return app(rule_result(rules[0], args, solver, binding), all_rules(rules[1:], args, solver, binding))


@spec
def all_events(rules: L, args: L, binding: D) -> L:
    if len(rules) == 0:
        return []
    return app(rule_events(rules[0], args, binding), all_events(rules[1:], args, binding))


@spec
def rules_ok(rules: L, args: L, solver: V, binding: D) -> B:
    if len(rules) == 0:
        return True
    return isinstance(rules[0], InferenceRule) and isinstance(rules[0].head, tuple) and isinstance(rules[0].body, list) \
        and all_dict(solutions(rules[0], args, solver, binding)) and rules_ok(rules[1:], args, solver, binding)


RS = "list(asD(self.rules)[context.relation.predicate])"
CA = "list(context.arguments), context.solver, asD(context.binding)"
contract(F, "InferenceModule.handle_rule", dict(values="L", context="V"), types=dict(context="ExecutionContext"),
         requires=["isinstance(context, ExecutionContext)", "isinstance(context.binding, dict)", "isinstance(context.arguments, tuple) or isinstance(context.arguments, list)",
                   "isinstance(context.relation, Relation)"],
         when=f"haskey(asD(self.rules), context.relation.predicate) and isinstance(asD(self.rules)[context.relation.predicate], list) and rules_ok({RS}, {CA})",
         result=f"all_rules({RS}, {CA})", ret="L", trace=f"all_events({RS}, list(context.arguments), asD(context.binding))",
         inv=[f"all_rules({RS}, {CA}) == ACC + all_rules(REST, {CA})", f"rules_ok(REST, {CA})",
              f"all_events({RS}, list(context.arguments), asD(context.binding)) == TRACE + all_events(REST, list(context.arguments), asD(context.binding))"], **IM)
