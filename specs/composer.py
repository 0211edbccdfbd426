"""C13: composition of the meaning of a parse tree."""
from pyvc.theory import spec, macro, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["Variable", "ReifiedVariable", "SemanticTemplate", "ParseTreeNode", "GrammarRule", "RuleConstituent", "BasicParserProduct", "SemanticComposerProduct", "ProcessResult"]
P = "richard/processor/semantic_composer/"
F = P + "SemanticComposer.py"
VG = P + "helper/VariableGenerator.py"


# ---------------------------------------------------------------- fresh names
@macro
def name(p: S, n: I) -> S:
    """the n-th name of the dialog"""
    return p + str(n)


contract(VG, "VariableGenerator.next", {}, self_fields=dict(prefix="S", number="I"), result="name(asS(self.prefix), asI(self.number) + 1)", ret="S", no_raise="True",
         effects={"self.number": "asI(self.number) + 1"})
contract(VG, "VariableGenerator.isinstance", dict(variable="V"), self_fields=dict(prefix="S", number="I"), requires=["isinstance(variable, Variable)", "isinstance(variable.name, str)"],
         result="asS(variable.name).startswith(asS(self.prefix))", ret="B", no_raise="True")
GEN = dict(self_fields=dict(variable_generator="OBJ:VariableGenerator"), objs={"self.variable_generator": dict(prefix="S", number="I")})
GP, GN = "asS(self.variable_generator.prefix)", "asI(self.variable_generator.number)"
NOW = "asI(self_now.variable_generator.number)"
GOK = []
NUMBER = "self.variable_generator.number"


# ---------------------------------------------------------------- renaming
@spec
def renamed(c: V, m: D) -> V:
    if isinstance(c, list):
        return renamed_all(list(c), m)
    if isinstance(c, tuple):
        return tuple(renamed_all(list(c), m))
    if isinstance(c, SemanticTemplate):
        return SemanticTemplate(c.args, renamed(c.body, m))
    if isinstance(c, Variable) and haskey(m, c.name):
        return Variable(m[c.name])
    if isinstance(c, ReifiedVariable) and haskey(m, c.name):
        return m[c.name]
    return c


@spec
def renamed_all(l: L, m: D) -> L:
    if len(l) == 0:
        return []
    return cons(renamed(l[0], m), renamed_all(l[1:], m))


contract(F, "SemanticComposer.unify_variables", dict(semantics="V", map="D"), **GEN, result="renamed(semantics, map)", ret="V", no_raise="True",
         inv=["renamed_all(SEQ, map) == ACC + renamed_all(REST, map)"])


# ---------------------------------------------------------------- the map of a rule application
@spec
def given(args: L, vs: L, m: D) -> D:
    """variables of the head: those of the parent at that position"""
    if len(args) == 0:
        return m
    return given(args[1:], vs[1:], put(m, args[0], vs[0]))


@spec
def fill(args: L, m: D, p: S, n: I) -> T:
    """every other variable: a new one. (map, last number)"""
    if len(args) == 0:
        return (m, n)
    if haskey(m, args[0]):
        return fill(args[1:], m, p, n)
    return fill(args[1:], put(m, args[0], name(p, n + 1)), p, n + 1)


@spec
def fill_all(cs: L, m: D, p: S, n: I) -> T:
    if len(cs) == 0:
        return (m, n)
    return fill_all(cs[1:], asD(fill(list(cs[0].arguments), m, p, n)[0]), p, asI(fill(list(cs[0].arguments), m, p, n)[1]))


@spec
def constituents_ok(cs: L) -> B:
    if len(cs) == 0:
        return True
    return isinstance(cs[0], RuleConstituent) and isinstance(cs[0].arguments, list) and constituents_ok(cs[1:])


@macro
def rule_ok(r: V) -> B:
    return isinstance(r, GrammarRule) and isinstance(r.antecedent, RuleConstituent) and isinstance(r.antecedent.arguments, list) and isinstance(r.consequents, list) and constituents_ok(list(r.consequents)) \
        and isinstance(r.boost, int)


@spec
def has_args(args: L, m: D) -> B:
    if len(args) == 0:
        return True
    return haskey(m, args[0]) and has_args(args[1:], m)


@spec
def has_all(cs: L, m: D) -> B:
    if len(cs) == 0:
        return True
    return has_args(list(cs[0].arguments), m) and has_all(cs[1:], m)


lemma("fill_keeps", "a:L, m:D, p:S, n:I, x:V", "implies(haskey(m, x), haskey(asD(fill(a, m, p, n)[0]), x))", induct="a", trigger="haskey(asD(fill(a, m, p, n)[0]), x)")
lemma("fill_keeps_args", "b:L, a:L, m:D, p:S, n:I", "implies(has_args(b, m), has_args(b, asD(fill(a, m, p, n)[0])))", induct="b", trigger="has_args(b, asD(fill(a, m, p, n)[0]))")
lemma("fill_has", "a:L, m:D, p:S, n:I", "has_args(a, asD(fill(a, m, p, n)[0]))", induct="a", trigger="has_args(a, asD(fill(a, m, p, n)[0]))")
lemma("fill_all_keeps", "cs:L, b:L, m:D, p:S, n:I", "implies(has_args(b, m), has_args(b, asD(fill_all(cs, m, p, n)[0])))", induct="cs", trigger="has_args(b, asD(fill_all(cs, m, p, n)[0]))")
lemma("fill_all_has", "cs:L, m:D, p:S, n:I", "has_all(cs, asD(fill_all(cs, m, p, n)[0]))", induct="cs", trigger="fill_all(cs, m, p, n)")

MAP0 = "fill_all(list(node.rule.consequents), given(list(node.rule.antecedent.arguments), incoming_variables, {}), " + f"{GP}, {GN})"
contract(F, "SemanticComposer.create_map", dict(node="V", incoming_variables="L"), **GEN, types=dict(node="ParseTreeNode"),
         requires=["isinstance(node, ParseTreeNode)", "rule_ok(node.rule)", "len(list(node.rule.antecedent.arguments)) <= len(incoming_variables)"] + GOK,
         result=f"asD({MAP0}[0])", ret="D", no_raise="True", fuel=1, inv_timeout=400, effects={NUMBER: f"asI({MAP0}[1])"}, ensures=["has_all(list(node.rule.consequents), result)"],
         inv=["given(list(node.rule.antecedent.arguments), incoming_variables, {}) == given(REST, drop(incoming_variables, IDX), MAP)", "isinstance(self_now.variable_generator.number, int)",
              f"{MAP0} == fill_all(REST, MAP, {GP}, {NOW})", "constituents_ok(REST)",
              f"{MAP0} == fill_all(TAIL1, asD(fill(REST, MAP, {GP}, {NOW})[0]), {GP}, asI(fill(REST, MAP, {GP}, {NOW})[1]))"])


# ---------------------------------------------------------------- variables of the top level of the semantics
@macro
def is_new(x: V, m: D, p: S) -> B:
    return isinstance(x, Variable) and not haskey(m, x.name) and not asS(x.name).startswith(p)


@spec
def ext_atom(args: L, m: D, p: S, n: I) -> T:
    if len(args) == 0:
        return (m, n)
    if is_new(args[0], m, p):
        return ext_atom(args[1:], put(m, args[0].name, name(p, n + 1)), p, n + 1)
    return ext_atom(args[1:], m, p, n)


@spec
def ext_atoms(atoms: L, m: D, p: S, n: I) -> T:
    if len(atoms) == 0:
        return (m, n)
    return ext_atoms(atoms[1:], asD(ext_atom(list(atoms[0]), m, p, n)[0]), p, asI(ext_atom(list(atoms[0]), m, p, n)[1]))


@macro
def extended(sem: V, m: D, p: S, n: I) -> T:
    return ite(isinstance(sem, list), ext_atoms(list(sem), m, p, n), (m, n))


@spec
def names_ok(args: L) -> B:
    """variables have texts as names"""
    if len(args) == 0:
        return True
    return implies(isinstance(args[0], Variable), isinstance(args[0].name, str)) and names_ok(args[1:])


@spec
def atoms_ok(atoms: L) -> B:
    if len(atoms) == 0:
        return True
    return isinstance(atoms[0], (tuple, list)) and names_ok(list(atoms[0])) and atoms_ok(atoms[1:])


EXT = f"extended(semantics, map, {GP}, {GN})"
contract(F, "SemanticComposer.extend_map_with_semantics", dict(map="MD", semantics="V"), **GEN, types=dict(semantics="any"),
         requires=["implies(isinstance(semantics, list), atoms_ok(list(semantics)))"], ret="N", no_raise="True", fuel=1, inv_timeout=400,
         effects={"map": f"asD({EXT}[0])", NUMBER: f"asI({EXT}[1])"},
         inv=["isinstance(self_now.variable_generator.number, int)", "atoms_ok(REST)", "names_ok(REST)",
              f"{EXT} == ext_atoms(REST, map_now, {GP}, {NOW})",
              f"{EXT} == ext_atoms(TAIL1, asD(ext_atom(REST, map_now, {GP}, {NOW})[0]), {GP}, asI(ext_atom(REST, map_now, {GP}, {NOW})[1]))"])


# ---------------------------------------------------------------- composition
@uninterpreted
def calledn(f: V, xs: L) -> V:
    """value of a function of the grammar's author"""


AUTHOR = "the functions of a grammar are functions: they return the same value for the same arguments, do not raise and change nothing"
iface("*", "call:sem", dict(f="V", args="L"), result="calledn(f, args)", ret="V", ensures=["implies(isinstance(result, list), atoms_ok(list(result)))"], assumed=AUTHOR + "; a list is a list of atoms")
iface("*", "call:exec", dict(f="V", args="L"), result="calledn(f, args)", ret="V", ensures=["isinstance(result, list)"], assumed=AUTHOR + "; the executable atoms are a list")
iface("*", "call:dialog", dict(f="V", args="L"), result="calledn(f, args)", ret="V", ensures=["isinstance(result, list)"], assumed=AUTHOR + "; the inferences are a list")


@spec
def mapped(args: L, m: D) -> L:
    """the variables of the parent at the places of a constituent"""
    if len(args) == 0:
        return []
    return cons(m[args[0]], mapped(args[1:], m))


lemma("mapped_len", "a:L, m:D", "lenL(mapped(a, m)) == lenL(a)", induct="a", trigger="mapped(a, m)")


@macro
def leaf(node: V) -> B:
    return len(list(node.children)) == 0


@macro
def map_of(node: V, vs: L, p: S, n: I) -> T:
    return fill_all(list(node.rule.consequents), given(list(node.rule.antecedent.arguments), vs, {}), p, n)


@spec
def kids(ch: L, cs: L, m: D, p: S, n: I, sems: L, infs: L, exes: L) -> T:
    """of the children from left to right: their meanings, inferences, executable atoms, and the last number"""
    if len(ch) == 0 or len(cs) == 0:
        return (sems, infs, exes, n)
    c = ch[0]
    if not leaf(c):
        r = composed(c, mapped(list(cs[0].arguments), m), p, n)
        return kids(ch[1:], cs[1:], m, p, asI(r[3]), sems + [r[0]], infs + list(r[1]), exes + list(r[2]))
    if c.rule.sem:
        return kids(ch[1:], cs[1:], m, p, n, sems + [calledn(c.rule.sem, [])], infs, exes)
    return kids(ch[1:], cs[1:], m, p, n, sems, infs, exes)


@macro
def inferences_of(rule: V, sems: L, infs: L) -> L:
    return infs + ite(callable(rule.dialog), list(calledn(rule.dialog, sems)), list(rule.dialog))


@macro
def executable_of(rule: V, sems: L, exes: L) -> V:
    return ite(rule.exec, calledn(rule.exec, sems), exes)


@spec
def composed(node: V, vs: L, p: S, n: I) -> T:
    """(semantics, inferences, executable atoms, last number) of a parse tree"""
    m = map_of(node, vs, p, n)
    k = kids(list(node.children), list(node.rule.consequents), asD(m[0]), p, asI(m[1]), [], [], [])
    s = calledn(node.rule.sem, list(k[0]))
    x = extended(s, asD(m[0]), p, asI(k[3]))
    return (renamed(s, asD(x[0])), renamed(inferences_of(node.rule, list(k[0]), list(k[1])), asD(x[0])), renamed(executable_of(node.rule, list(k[0]), list(k[2])), asD(x[0])), asI(x[1]))


@spec
def tree_ok(node: V) -> B:
    """a parse tree: the children match the constituents of the rule (C10)"""
    return isinstance(node, ParseTreeNode) and rule_ok(node.rule) and isinstance(node.children, list) and (callable(node.rule.dialog) or isinstance(node.rule.dialog, list)) and kids_ok(list(node.children), list(node.rule.consequents))


@spec
def kids_ok(ch: L, cs: L) -> B:
    if len(ch) == 0 or len(cs) == 0:
        return True
    c = ch[0]
    return isinstance(c, ParseTreeNode) and isinstance(c.children, list) and isinstance(c.rule, GrammarRule) \
        and implies(not leaf(c), tree_ok(c) and len(list(c.rule.antecedent.arguments)) == len(list(cs[0].arguments))) and kids_ok(ch[1:], cs[1:])


lemma("fill_mono", "a:L, m:D, p:S, n:I", "asI(fill(a, m, p, n)[1]) >= n", induct="a", trigger="fill(a, m, p, n)")
lemma("fill_all_mono", "cs:L, m:D, p:S, n:I", "asI(fill_all(cs, m, p, n)[1]) >= n", induct="cs", trigger="fill_all(cs, m, p, n)")
lemma("ext_atom_mono", "a:L, m:D, p:S, n:I", "asI(ext_atom(a, m, p, n)[1]) >= n", induct="a", trigger="ext_atom(a, m, p, n)")
lemma("ext_atoms_mono", "cs:L, m:D, p:S, n:I", "asI(ext_atoms(cs, m, p, n)[1]) >= n", induct="cs", trigger="ext_atoms(cs, m, p, n)")
COMP = f"composed(node, incoming_variables, {GP}, {GN})"
MO = f"map_of(node, incoming_variables, {GP}, {GN})"
KS = f"kids(list(node.children), list(node.rule.consequents), asD({MO}[0]), {GP}, asI({MO}[1]), [], [], [])"
contract(F, "SemanticComposer.compose", dict(node="V", incoming_variables="L"), **GEN, types=dict(node="ParseTreeNode"),
         requires=["isinstance(node, ParseTreeNode)", "tree_ok(node)", "len(list(node.rule.antecedent.arguments)) <= len(incoming_variables)"],
         result=f"({COMP}[0], {COMP}[1], {COMP}[2])", ret="T", no_raise="True", fuel=1, inv_timeout=400, effects={NUMBER: f"asI({COMP}[3])"},
         ensures=["isinstance(result[1], list)", "isinstance(result[2], list)", f"asI({COMP}[3]) >= {GN}"],
         inv=["isinstance(self_now.variable_generator.number, int)", "kids_ok(REST, RESTb)", "constituents_ok(RESTb)", "has_all(RESTb, MAP)", "has_args(REST, MAP)",
              f"{KS} == kids(REST, RESTb, MAP, {GP}, {NOW}, ACC, ACC2, ACC3)", "mapped(SEQ, MAP) == ACC + mapped(REST, MAP)", f"{NOW} >= {GN}"])


# ---------------------------------------------------------------- the processor
@spec
def complete(node: V) -> B:
    """every rule of the tree has a meaning"""
    return not (node.form == "" and node.rule.sem is None) and all_complete(list(node.children))


@spec
def all_complete(l: L) -> B:
    if len(l) == 0:
        return True
    return complete(l[0]) and all_complete(l[1:])


@spec
def nodes(node: V) -> B:
    return isinstance(node, ParseTreeNode) and isinstance(node.rule, GrammarRule) and isinstance(node.children, list) and all_nodes(list(node.children))


@spec
def all_nodes(l: L) -> B:
    if len(l) == 0:
        return True
    return nodes(l[0]) and all_nodes(l[1:])


@uninterpreted
def shown(x: V) -> S:
    """text for a message"""


iface("GrammarRule", "__str__", dict(self="V"), ret="S", result="shown(self)", assumed="showing a rule has no effect")
contract(F, "SemanticComposer.check_for_sem", dict(node="V"), **GEN, types=dict(node="ParseTreeNode"), requires=["nodes(node)"], ret="N",
         must_raise="not complete(node)", no_raise="complete(node)", inv=["complete(node) == all_complete(REST)", "all_nodes(REST)"])


@spec
def new_names(l: L, p: S, n: I) -> L:
    """as many new names"""
    if len(l) == 0:
        return []
    return cons(name(p, n + 1), new_names(l[1:], p, n + 1))


lemma("new_names_len", "l:L, p:S, n:I", "lenL(new_names(l, p, n)) == lenL(l)", induct="l", trigger="new_names(l, p, n)")


@uninterpreted
def optimized(optimizer: V, semantics: L, roots: L) -> D:
    """the forms the optimizer gives (C15)"""


iface("*", "optimize", dict(self="V", composition="L", root_variables="L"), ret="D", result="optimized(self, composition, root_variables)", assumed="QueryOptimizer.optimize is decided by C15")
TREE = "asD(request.current_products)[self.parser].parse_tree"
ARGS = f"list({TREE}.rule.antecedent.arguments)"
ROOTS = f"new_names({ARGS}, {GP}, {GN})"
TOP = f"composed({TREE}, {ROOTS}, {GP}, {GN} + len({ARGS}))"
contract(F, "SemanticComposer.process", dict(request="OBJ:SentenceRequest"), ret="V",
         self_fields=dict(variable_generator="OBJ:VariableGenerator", parser="V", query_optimizer="V"),
         objs={"self.variable_generator": dict(prefix="S", number="I"), "request": dict(current_products="D", alternative_products="D", logger="V")},
         requires=["haskey(request.current_products, self.parser)", "isinstance(asD(request.current_products)[self.parser], BasicParserProduct)", f"nodes({TREE})", f"tree_ok({TREE})"],
         must_raise=f"not complete({TREE}) or (self.query_optimizer and not isinstance({TOP}[0], list))", no_raise=f"complete({TREE}) and (not self.query_optimizer or isinstance({TOP}[0], list))",
         fuel=1, inv_timeout=400, effects={NUMBER: f"asI({TOP}[3])"}, raise_ensures=[f"asI(self_post.variable_generator.number) >= {GN}"],
         ensures=["isinstance(result, ProcessResult)", "result.error_type == ''", "len(list(result.products)) == 1", "isinstance(result.products[0], SemanticComposerProduct)",
                  f"implies(self.query_optimizer, result.products[0].semantics_iterations == optimized(self.query_optimizer, list({TOP}[0]), {ROOTS}))",
                  f"implies(not self.query_optimizer, result.products[0].semantics_iterations == {{'Semantics': {TOP}[0]}})",
                  f"result.products[0].inferences == {TOP}[1]", f"result.products[0].executable == {TOP}[2]", f"result.products[0].return_variables == {ROOTS}"],
         inv=[f"{ROOTS} == ACC + new_names(REST, {GP}, {NOW})", f"{NOW} == {GN} + IDX"])
