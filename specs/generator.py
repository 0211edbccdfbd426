"""C20: generation of output."""
from pyvc.theory import spec, macro, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["GrammarRule", "RuleConstituent"]


@uninterpreted
def solved(solver: V, atoms: V, binding: D) -> L:
    """the bindings that solving a condition gives"""


@uninterpreted
def rules_for(grammar: V, category: V, n: I) -> L:
    """the rules of a grammar for a category with n arguments, in grammar order"""


@uninterpreted
def called1(f: V, x: V) -> V:
    """value of a function of the grammar's author"""


@uninterpreted
def calledn(f: V, xs: L) -> V:
    """value of a function of the grammar's author"""


@uninterpreted
def node_out(grammar: V, solver: V, used: L, category: V, values: L, optional: V) -> V:
    """what generating a category gives"""


@uninterpreted
def node_used(grammar: V, solver: V, used: L, category: V, values: L, optional: V) -> L:
    """the used rules after it"""


@uninterpreted
def node_ok(grammar: V, solver: V, used: L, category: V, values: L, optional: V) -> B:
    """it ends without an exception"""


@spec
def rules_ok(rs: L) -> B:
    if len(rs) == 0:
        return True
    return isinstance(rs[0], GrammarRule) and isinstance(rs[0].antecedent, RuleConstituent) and isinstance(rs[0].antecedent.arguments, list) \
        and isinstance(rs[0].consequents, list) and consequents_ok(list(rs[0].consequents)) and rules_ok(rs[1:])


@macro
def rule_ok(r: V) -> B:
    return isinstance(r, GrammarRule) and isinstance(r.consequents, list) and consequents_ok(list(r.consequents))


@spec
def consequents_ok(cs: L) -> B:
    if len(cs) == 0:
        return True
    return isinstance(cs[0], RuleConstituent) and isinstance(cs[0].arguments, list) and isinstance(cs[0].predicate, str) and consequents_ok(cs[1:])


@spec
def all_dicts(bs: L) -> B:
    if len(bs) == 0:
        return True
    return isinstance(bs[0], dict) and all_dicts(bs[1:])


iface("GrammarRules", "find_rules", dict(self="V", antecedent="V", argument_count="I"), result="rules_for(self, antecedent, argument_count)", ret="L", ensures=["rules_ok(result)"],
      types={"result": "list[GrammarRule]"}, assumed="GrammarRules.find_rules gives rules in grammar order and changes nothing (C09)")
iface("Solver", "solve", dict(self="V", atoms="V", binding="D"), result="solved(self, atoms, binding)", ret="L", ensures=["all_dicts(result)"],
      assumed="solving the condition of a rule gives bindings (C01) and changes nothing (conditions are queries)")
iface("*", "call:post", dict(f="V", x="V"), result="called1(f, x)", ret="V", assumed="the functions of a grammar are functions")
iface("*", "call:exec", dict(f="V", args="L"), result="calledn(f, args)", ret="V", assumed="the functions of a grammar are functions")


@spec
def given(arguments: L, values: L, acc: D) -> D:
    if len(arguments) == 0 or len(values) == 0:
        return acc
    return given(arguments[1:], values[1:], put(acc, arguments[0], values[0]))


@macro
def start(rule: V, values: L) -> D:
    return given(list(rule.antecedent.arguments), values, {})


@macro
def applies(rule: V, values: L, solver: V) -> B:
    """no condition, or one with a solution that extends the argument values"""
    return not rule.sem or len(solved(solver, rule.sem, start(rule, values))) > 0


@macro
def bound(rule: V, values: L, solver: V) -> V:
    """the argument values, or the first solution of the rule's own condition"""
    return ite(not rule.sem, start(rule, values), solved(solver, rule.sem, start(rule, values))[0])


@spec
def chosen(rules: L, used: L, values: L, solver: V, rule: V, binding: V, found: B) -> T:
    """the first that applies and has not been used, else the last that applies"""
    if len(rules) == 0:
        return (rule, binding, found)
    if not applies(rules[0], values, solver):
        return chosen(rules[1:], used, values, solver, rule, binding, found)
    if not mem(rules[0].hash, used):
        return (rules[0], bound(rules[0], values, solver), True)
    return chosen(rules[1:], used, values, solver, rules[0], bound(rules[0], values, solver), True)


lemma("drop_all", "a:L, n:I", "implies(lenL(a) <= n, drop(a, n) == [])", induct="a", trigger="drop(a, n)")
F = "richard/core/BasicGenerator.py"
SF = dict(grammar="V", solver="V")
CH = "chosen(rules_for(self.grammar, antecedent_cat, len(antecedent_values)), used_rules, antecedent_values, self.solver, None, {}, False)"
contract(F, "BasicGenerator.find_rule", dict(used_rules="L", antecedent_cat="V", antecedent_values="L"), self_fields=SF,
         result=CH, ret="T", no_raise="True", fuel=1,
         ensures=["result == (result[0], result[1], result[2])", "implies(not result[2], result[0] is None)", "isinstance(result[1], dict)", "rule_ok(result[0]) == result[2]", "isinstance(result[2], bool)"],
         inv=["implies(not FLAG, VAL is None)", "rule_ok(VAL) == FLAG", "isinstance(VAL, dict)", f"{CH} == chosen(REST, used_rules, antecedent_values, self.solver, VAL, MAP, FLAG)", "rules_ok(REST)",
              "start(ELT1, antecedent_values) == given(REST, RESTb, MAP)"])


@spec
def values_of(arguments: L, word: B, binding: D) -> L:
    if len(arguments) == 0:
        return []
    if word or not haskey(binding, arguments[0]):
        return cons("", values_of(arguments[1:], word, binding))
    return cons(binding[arguments[0]], values_of(arguments[1:], word, binding))


@macro
def is_word(c: V) -> B:
    return c.position_type == 'word-form'


CON = "rule.consequents[i]"
VO = f"values_of(list({CON}.arguments), is_word({CON}), binding)"
contract(F, "BasicGenerator.get_consequent_values", dict(rule="V", i="I", binding="D"), self_fields=SF,
         requires=["rule_ok(rule)", "0 <= i", "i < len(list(rule.consequents))", f"isinstance({CON}, RuleConstituent)", f"isinstance({CON}.arguments, list)"],
         result=VO, ret="L", no_raise="True",
         inv=[f"{VO} == ACC + values_of(drop(list({CON}.arguments), IDX), is_word({CON}), binding)"])


# a single constituent
@macro
def single_out(g: V, s: V, rule: V, used: L, category: V, values: L, kind: V, optional: V) -> V:
    return ite(kind == 'word-form', category, ite(category == 'value', values[0], ite(category == 'text', str(values[0]), ite(category == 'format', calledn(rule.exec, values),
               node_out(g, s, used, category, values, optional)))))


@macro
def single_used(g: V, s: V, used: L, category: V, values: L, kind: V, optional: V) -> L:
    return ite(kind == 'word-form' or category == 'value' or category == 'text' or category == 'format', used, node_used(g, s, used, category, values, optional))


@macro
def single_ok(g: V, s: V, used: L, category: V, values: L, kind: V, optional: V) -> B:
    return ite(kind == 'word-form', True, ite(category == 'value' or category == 'text', len(values) > 0, ite(category == 'format', True, node_ok(g, s, used, category, values, optional))))


SOK = "single_ok(self.grammar, self.solver, used_rules, category, values, position_type, optional)"
GS = "self.grammar, self.solver"
contract(F, "BasicGenerator.generate_single_consequent", dict(rule="V", used_rules="ML", category="V", values="L", position_type="V", optional="V"), self_fields=SF,
         result=f"single_out({GS}, rule, used_rules, category, values, position_type, optional)", ret="V",
         no_raise=SOK, must_raise=f"not {SOK}",
         effects={"used_rules": f"single_used({GS}, used_rules, category, values, position_type, optional)"})


@spec
def all_ok(g: V, s: V, rule: V, cs: L, used: L, binding: D) -> B:
    if len(cs) == 0:
        return True
    v = values_of(list(cs[0].arguments), is_word(cs[0]), binding)
    return single_ok(g, s, used, cs[0].predicate, v, cs[0].position_type, cs[0].optional) \
        and all_ok(g, s, rule, cs[1:], single_used(g, s, used, cs[0].predicate, v, cs[0].position_type, cs[0].optional), binding)


@spec
def parts(g: V, s: V, rule: V, cs: L, used: L, binding: D) -> L:
    """the constituents rendered in order"""
    if len(cs) == 0:
        return []
    v = values_of(list(cs[0].arguments), is_word(cs[0]), binding)
    return cons(single_out(g, s, rule, used, cs[0].predicate, v, cs[0].position_type, cs[0].optional),
                parts(g, s, rule, cs[1:], single_used(g, s, used, cs[0].predicate, v, cs[0].position_type, cs[0].optional), binding))


@spec
def used_after(g: V, s: V, rule: V, cs: L, used: L, binding: D) -> L:
    if len(cs) == 0:
        return used
    v = values_of(list(cs[0].arguments), is_word(cs[0]), binding)
    return used_after(g, s, rule, cs[1:], single_used(g, s, used, cs[0].predicate, v, cs[0].position_type, cs[0].optional), binding)


@spec
def all_str(l: L) -> B:
    if len(l) == 0:
        return True
    return isinstance(l[0], str) and all_str(l[1:])


@spec
def only_str(l: L) -> L:
    if len(l) == 0:
        return []
    if isinstance(l[0], str):
        return cons(l[0], only_str(l[1:]))
    return only_str(l[1:])


lemma("only_short", "l:L", "lenL(only_str(l)) <= lenL(l)", induct="l", trigger="only_str(l)")
lemma("only_all", "l:L", "(lenL(only_str(l)) == lenL(l)) == all_str(l)", induct="l", trigger="only_str(l)")


@macro
def combined(ps: L) -> V:
    """texts are concatenated"""
    return ite(all_str(ps), joinS("", ps), ite(len(ps) == 1, ps[0], ps))


@macro
def post(rule: V, x: V) -> V:
    return ite(rule.post, called1(rule.post, x), x)


R_, B_, F_ = f"{CH}[0]", f"asD({CH}[1])", f"{CH}[2]"
U1 = f"used_rules + [{R_}.hash]"
CS = f"list({R_}.consequents)"
A_ = f"{GS}, {R_}, {CS}, {U1}, {B_}"
NODE = f"{GS}, used_rules, antecedent_cat, antecedent_values, optional"
NOK = f"ite({F_}, all_ok({A_}), bool(optional))"
contract(F, "BasicGenerator.generate_node", dict(used_rules="ML", antecedent_cat="V", antecedent_values="L", optional="V"), self_fields=SF,
         result=f"ite({F_}, post({R_}, combined(parts({A_}))), '')", ret="V",
         effects={"used_rules": f"ite({F_}, used_after({A_}), used_rules)"},
         no_raise=NOK, must_raise=f"not {NOK}", defines_pre=[f"node_ok({NODE}) == {NOK}"],
         event={"BasicGenerator.generate_output": "[('generate',)]"},
         defines=[f"result == node_out({NODE})", f"used_rules_post == node_used({NODE})"],
         inv=[f"parts({A_}) == ACC + parts({GS}, {R_}, REST, used_rules_now, {B_})", f"used_after({A_}) == used_after({GS}, {R_}, REST, used_rules_now, {B_})",
              f"all_ok({A_}) == all_ok({GS}, {R_}, REST, used_rules_now, {B_})", "consequents_ok(REST)", f"only_str(ACC) == ACC2 + only_str(REST)"])

iface("BasicOutputBuffer", "clear", dict(self="V"), ret="N", trace="[('clear', self)]", assumed="clearing the output buffer (proved below) changes nothing else")
TOP = f"{GS}, [], 's', [], False"
contract(F, "BasicGenerator.generate_output", {}, self_fields=dict(SF, output_buffer="V"), requires=["isinstance(self.output_buffer, BasicOutputBuffer)"],
         result=f"node_out({TOP})", ret="V", must_raise=f"not node_ok({TOP})", no_raise=f"node_ok({TOP})",
         trace="[('generate',), ('clear', self.output_buffer)]", raise_trace="[('generate',), ('clear', self.output_buffer)]")


@uninterpreted
def new_store() -> V:
    """an empty in-memory store"""


iface("*", "new:SimpleDataSource", {}, ret="V", result="new_store()", assumed="a new SimpleDataSource is empty (C17)")
contract("richard/module/BasicOutputBuffer.py", "BasicOutputBuffer.clear", {}, self_fields=dict(data_source="V"), effects={"self.data_source": "new_store()"}, no_raise="True")
