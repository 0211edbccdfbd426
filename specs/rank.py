"""C12: ranking of parse trees."""
from pyvc.theory import spec, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["ParseTreeNode", "GrammarRule", "RuleConstituent"]
P = "richard/processor/parser/tree_sort_heuristics/"


@spec
def tree_ok(t: V) -> B:
    return isinstance(t, ParseTreeNode) and isinstance(t.rule, GrammarRule) and isinstance(t.rule.boost, int) and not isinstance(t.rule.boost, bool) \
        and isinstance(t.rule.antecedent, RuleConstituent) and isinstance(t.children, list) and trees_ok(list(t.children))


@spec
def trees_ok(ts: L) -> B:
    if len(ts) == 0:
        return True
    return tree_ok(ts[0]) and trees_ok(ts[1:])


@spec
def boost(t: V) -> I:
    return t.rule.boost + boosts(list(t.children))


@spec
def boosts(ts: L) -> I:
    if len(ts) == 0:
        return 0
    return boost(ts[0]) + boosts(ts[1:])


@spec
def regexps(t: V) -> I:
    return ite(t.rule.antecedent.position_type == 'reg-exp', 1, 0) + regexps_all(list(t.children))


@spec
def regexps_all(ts: L) -> I:
    if len(ts) == 0:
        return 0
    return regexps(ts[0]) + regexps_all(ts[1:])


@spec
def depth(t: V) -> I:
    return 1 + depths(list(t.children))


@spec
def depths(ts: L) -> I:
    if len(ts) == 0:
        return 0
    if depth(ts[0]) > depths(ts[1:]):
        return depth(ts[0])
    return depths(ts[1:])


contract(P + "SortByBoost.py", "SortByBoost.get_boost", dict(node="V"), types=dict(node="ParseTreeNode"), requires=["tree_ok(node)"],
         result="boost(node)", ret="I", no_raise="True", inv=["boost(node) == VAL + boosts(REST)", "isinstance(VAL, int) and not isinstance(VAL, bool)", "trees_ok(REST)"])
contract(P + "SortByRegExpCount.py", "SortByRegExpCount.count_tokens", dict(node="V"), types=dict(node="ParseTreeNode"), requires=["tree_ok(node)"],
         result="regexps(node)", ret="I", no_raise="True", inv=["regexps(node) == NUM + regexps_all(REST)", "trees_ok(REST)"])


@spec
def least(ts: L, base: I, acc: I) -> I:
    if len(ts) == 0:
        return acc
    if base - depth(ts[0]) < acc:
        return least(ts[1:], base, base - depth(ts[0]))
    return least(ts[1:], base, acc)


lemma("depths_nonneg", "ts:L", "depths(ts) >= 0", induct="ts", trigger="depths(ts)")
lemma("least_is", "ts:L, base:I, acc:I", "implies(acc <= base, least(ts, base, acc) == ite(base - depths(ts) < acc, base - depths(ts), acc))", induct="ts", trigger="least(ts, base, acc)")
contract(P + "SortByTreeDepth.py", "SortByTreeDepth.get_depth", dict(node="V", base_depth="I"), types=dict(node="ParseTreeNode"), requires=["tree_ok(node)"],
         result="base_depth - depth(node)", ret="I", no_raise="True",
         inv=["base_depth - depth(node) == least(REST, base_depth - 1, NUM)", "trees_ok(REST)"])


@spec
def scored(trees: L, scores: L) -> L:
    if len(trees) == 0 or len(scores) == 0:
        return []
    return cons({'tree': trees[0], 'score': scores[0]}, scored(trees[1:], scores[1:]))


@spec
def neg_boosts(trees: L) -> L:
    if len(trees) == 0:
        return []
    return cons(-boost(trees[0]), neg_boosts(trees[1:]))
@spec
def regexp_counts(trees: L) -> L:
    if len(trees) == 0:
        return []
    return cons(regexps(trees[0]), regexp_counts(trees[1:]))
@spec
def neg_depths(trees: L) -> L:
    if len(trees) == 0:
        return []
    return cons(0 - depth(trees[0]), neg_depths(trees[1:]))


# how the code carries the trees through the sort: records with the tree and its score
@spec
def score_of(rs: L) -> L:
    if len(rs) == 0:
        return []
    return cons(asD(rs[0])['score'], score_of(rs[1:]))


@spec
def tree_of(rs: L) -> L:
    if len(rs) == 0:
        return []
    return cons(asD(rs[0])['tree'], tree_of(rs[1:]))


@spec
def records(rs: L) -> B:
    if len(rs) == 0:
        return True
    return isinstance(rs[0], dict) and haskey(asD(rs[0]), 'score') and haskey(asD(rs[0]), 'tree') and records(rs[1:])


@spec
def unrecord(ps: L) -> L:
    """pairs of key and record -> pairs of key and tree"""
    if len(ps) == 0:
        return []
    return cons((ps[0][0], asD(ps[0][1])['tree']), unrecord(ps[1:]))


for f, n in (("neg_boosts", "nb"), ("regexp_counts", "rc"), ("neg_depths", "nd")):
    lemma(f"scored_{n}", "ts:L", f"score_of(scored(ts, {f}(ts))) == {f}(ts)", induct="ts", trigger=f"scored(ts, {f}(ts))")
    lemma(f"trees_{n}", "ts:L", f"tree_of(scored(ts, {f}(ts))) == ts", induct="ts", trigger=f"scored(ts, {f}(ts))")
    lemma(f"records_{n}", "ts:L", f"records(scored(ts, {f}(ts)))", induct="ts", trigger=f"scored(ts, {f}(ts))")
lemma("unrecord_ins", "p:V, ps:L", "unrecord(insp(p, ps)) == insp((p[0], asD(p[1])['tree']), unrecord(ps))", induct="ps", trigger="unrecord(insp(p, ps))")
lemma("unrecord_sort", "ks:L, rs:L", "unrecord(sortp(ks, rs)) == sortp(ks, tree_of(rs))", induct="rs", trigger="unrecord(sortp(ks, rs))")
lemma("tree_of_seconds", "ps:L", "tree_of(seconds(ps)) == seconds(unrecord(ps))", induct="ps", trigger="tree_of(seconds(ps))")
lemma("records_ins", "p:V, ps:L", "records(seconds(insp(p, ps))) == (records([p[1]]) and records(seconds(ps)))", induct="ps", trigger="seconds(insp(p, ps))")
lemma("records_sort", "ks:L, rs:L", "implies(records(rs), records(seconds(sortp(ks, rs))))", induct="rs", trigger="seconds(sortp(ks, rs))")
lemma("trees_ins", "p:V, ps:L", "trees_ok(seconds(insp(p, ps))) == (tree_ok(p[1]) and trees_ok(seconds(ps)))", induct="ps", trigger="seconds(insp(p, ps))")
lemma("trees_sort", "ks:L, rs:L", "implies(trees_ok(rs), trees_ok(seconds(sortp(ks, rs))))", induct="rs", trigger="seconds(sortp(ks, rs))")

for cls, f in (("SortByBoost", "neg_boosts"), ("SortByRegExpCount", "regexp_counts"), ("SortByTreeDepth", "neg_depths")):
    contract(P + cls + ".py", cls + ".sort", dict(trees="L"), requires=["trees_ok(trees)"],
             result=f"sortk({f}(trees), trees)", ret="L", no_raise="True", timeout=2000, inv_timeout=300,
             inv=["trees_ok(REST)", f"scored(trees, {f}(trees)) == ACC + scored(REST, {f}(REST))", f"{f}(trees) == ACC + {f}(REST)",
                  f"{f}(trees) == ACC + score_of(REST)", "records(REST)", f"sortk({f}(trees), trees) == ACC + tree_of(REST)"])

contract(P + "BasicParseTreeSortHeuristics.py", "BasicParseTreeSortHeuristics.sort_trees", dict(trees="L"), requires=["trees_ok(trees)"],
         result="ranked(trees)", ret="L", no_raise="True")


@spec
def by_depth(trees: L) -> L:
    return sortk(neg_depths(trees), trees)
@spec
def by_regexps(trees: L) -> L:
    return sortk(regexp_counts(trees), trees)
@spec
def by_boost(trees: L) -> L:
    return sortk(neg_boosts(trees), trees)
@spec
def ranked(trees: L) -> L:
    return by_boost(by_regexps(by_depth(trees)))
