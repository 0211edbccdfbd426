"""C09: the rules of a grammar."""
from pyvc.theory import spec, macro, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["GrammarRule", "RuleConstituent"]
F = "richard/entity/GrammarRules.py"


@spec
def constituents(cs: L) -> B:
    if len(cs) == 0:
        return True
    return isinstance(cs[0], RuleConstituent) and constituents(cs[1:])


@spec
def extended(vs: L, cs: L) -> L:
    """each of vs continued with cs"""
    if len(vs) == 0:
        return []
    return cons(list(vs[0]) + cs, extended(vs[1:], cs))


@macro
def in_pair(c: V, n: V, first: B) -> B:
    """an optional constituent with the separator that goes with it: the one after it at the start of the rule, else the one before it"""
    return (first and c.optional and not c.separator and n.separator) or (c.separator and n.optional and not n.separator)


@spec
def variants(cs: L, i: I, vs: L) -> L:
    """the ways to continue the beginnings vs with the constituents cs from the i-th, with what is optional present first"""
    if i >= len(cs):
        return vs
    if i + 1 < len(cs) and in_pair(cs[i], cs[i + 1], i == 0):
        return variants(cs, i + 2, extended(vs, [cs[i], cs[i + 1]]) + vs)
    if cs[i].optional:
        return variants(cs, i + 1, extended(vs, [cs[i]]) + vs)
    return variants(cs, i + 1, extended(vs, [cs[i]]))


@spec
def lists(vs: L) -> B:
    if len(vs) == 0:
        return True
    return isinstance(vs[0], list) and lists(vs[1:])


lemma("lists_ext", "vs:L, cs:L", "lists(extended(vs, cs))", induct="vs", trigger="extended(vs, cs)")
lemma("lists_app", "a:L, b:L", "lists(app(a, b)) == (lists(a) and lists(b))", induct="a", trigger="lists(app(a, b))")
lemma("drop_all", "a:L, n:I", "implies(lenL(a) <= n, drop(a, n) == [])", induct="a", trigger="drop(a, n)")
lemma("drop_next", "a:L, n:I, m:I", "implies(0 <= n and m == n + 1, drop(a, m) == tlz(drop(a, n)))", induct="a", trigger=[("drop(a, m)", "drop(a, n)")])
lemma("constituents_nth", "a:L, n:I", "implies(constituents(a) and 0 <= n and n < lenL(a), isinstance(a[n], RuleConstituent))", induct="a", trigger=[("drop(a, n)", "constituents(a)")])
lemma("lists_variants", "cs:L, i:I, vs:L", "implies(lists(vs), lists(variants(cs, i, vs)))", measure="ite(i > lenL(cs), 0, lenL(cs) - i)", trigger="variants(cs, i, vs)")

CS = "list(rule.consequents)"
OK = ["isinstance(rule.consequents, list)", f"constituents({CS})"]
contract(F, "GrammarRules.create_rule_variants_rest", dict(rule="V", index="I", variants="L"), types=dict(rule="GrammarRule"), requires=["0 <= index", f"index <= len({CS})", "lists(variants)"] + OK,
         result=f"variants({CS}, index, variants)", ret="L", no_raise="True", fuel=1, inv_timeout=300, decreases=f"len({CS}) - index",
         inv=["lists(REST)"] + [f"extended(variants, {x}) == ACC + extended(REST, {x})" for x in (f"[{CS}[index]]", f"[{CS}[index], {CS}[index + 1]]")])


@spec
def as_rules(rule: V, vs: L) -> L:
    if len(vs) == 0:
        return []
    return cons(updated(rule, 'GrammarRule', 'consequents', vs[0]), as_rules(rule, vs[1:]))


ALL = f"variants({CS}, 0, [[]])"
contract(F, "GrammarRules.create_rule_variants", dict(rule="V"), types=dict(rule="GrammarRule"), requires=OK, result=f"as_rules(rule, {ALL})", ret="L", no_raise="True",
         inv=[f"as_rules(rule, {ALL}) == ACC + as_rules(rule, REST)", "lists(REST)"])


@macro
def sub(index: D, a: V) -> D:
    return ite(haskey(index, a), asD(index[a]), {})


@macro
def entry(index: D, a: V, n: I) -> L:
    return ite(haskey(sub(index, a), n), list(sub(index, a)[n]), [])


@macro
def added(index: D, a: V, n: I, rules: L) -> D:
    """the rules appended under the category and number of arguments, nothing else changed"""
    return put(index, a, put(sub(index, a), n, entry(index, a, n) + rules))


A, N = "rule.antecedent.predicate", "len(list(rule.antecedent.arguments))"
IX = "asD(self.index)"
NOW = "asD(self_now.index)"
WELL = [f"implies(haskey({IX}, {A}), isinstance({IX}[{A}], dict))", f"implies(haskey(sub({IX}, {A}), {N}), isinstance(sub({IX}, {A})[{N}], list))"]
RV = f"as_rules(rule, {ALL})"
contract(F, "GrammarRules.add_rule", dict(rule="V"), types=dict(rule="GrammarRule"), self_fields=dict(index="D"), requires=OK + ["isinstance(rule.antecedent, RuleConstituent)", "isinstance(rule.antecedent.arguments, list)"] + WELL,
         no_raise="True", effects={"self.index": f"added({IX}, {A}, {N}, {RV})"},
         inv=[f"added({IX}, {A}, {N}, {RV}) == added({NOW}, {A}, {N}, REST)", f"haskey({NOW}, {A})", f"isinstance({NOW}[{A}], dict)", f"haskey(asD({NOW}[{A}]), {N})", f"isinstance(asD({NOW}[{A}])[{N}], list)", "isinstance(self_now.index, dict)"])
WELL2 = [w.replace(A, "antecedent").replace(N, "argument_count") for w in WELL]
contract(F, "GrammarRules.find_rules", dict(antecedent="V", argument_count="I"), self_fields=dict(index="D"), requires=WELL2,
         result=f"entry({IX}, antecedent, argument_count)", ret="L", no_raise="True")
contract(F, "GrammarRules.find_argument_counts", dict(antecedent="V"), self_fields=dict(index="D"), requires=WELL2[:1],
         result=f"ite(haskey({IX}, antecedent), {IX}[antecedent], [])", ret="V", no_raise="True")


# ---------------------------------------------------------------- what follows
@spec
def none_optional(cs: L) -> B:
    if len(cs) == 0:
        return True
    return not cs[0].optional and none_optional(cs[1:])


lemma("none_nth", "a:L, n:I", "implies(none_optional(a) and 0 <= n and n < lenL(a), not a[n].optional)", induct="a", trigger=[("drop(a, n)", "none_optional(a)")])
lemma("take_next", "a:L, n:I, m:I", "implies(0 <= n and n < lenL(a) and m == n + 1, take(a, m) == take(a, n) + [a[n]])", induct="a", trigger=[("take(a, m)", "take(a, n)")])
lemma("take_all", "a:L, n:I", "implies(lenL(a) <= n, take(a, n) == a)", induct="a", trigger="take(a, n)")
lemma("one_variant_from", "cs:L, i:I, v:V", "implies(none_optional(cs) and 0 <= i and i <= lenL(cs) and v == take(cs, i), variants(cs, i, [v]) == [cs])", measure="ite(i > lenL(cs), 0, lenL(cs) - i)",
      trigger="variants(cs, i, [v])")
lemma("one_variant", "cs:L", "implies(none_optional(cs) and take(cs, 0) == [], variants(cs, 0, [[]]) == [cs])", trigger="variants(cs, 0, [[]])")


# ---------------------------------------------------------------- learning
@uninterpreted
def parsed(simple_rule: V, write: V) -> V:
    """the rule that a simple rule spells"""


iface("*", "new:SimpleGrammarRulesParser", {}, ret="V", types=dict(result="SimpleGrammarRulesParser"), assumed="making a parser has no effect")
iface("SimpleGrammarRulesParser", "parse_simple_rule", dict(self="V", simple_rule="V", write_rules="V"), ret="V", result="parsed(simple_rule, write_rules)", assumed="parsing a rule has no effect; checked by test only")
iface("GrammarRules", "add_rule", dict(self="V", rule="V"), ret="N", trace="[('add_rule', self, rule)]", assumed="GrammarRules.add_rule is proved above")
contract("richard/module/GrammarModule.py", "GrammarModule.learn_grammar_rule", dict(values="L", context="V"), self_fields=dict(grammar="V"), requires=["len(values) == 1", "isinstance(self.grammar, GrammarRules)"],
         result="[[None]]", ret="L", no_raise="True", trace="[('add_rule', self.grammar, parsed(values[0], False))]")
