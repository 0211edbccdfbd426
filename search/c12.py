"""C12: ranking of parse trees"""
from .common import *
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.GrammarRule import GrammarRule
from richard.entity.RuleConstituent import RuleConstituent
from richard.core.constants import POS_TYPE_RELATION, POS_TYPE_WORD_FORM, POS_TYPE_REG_EXP
from richard.processor.parser.tree_sort_heuristics.BasicParseTreeSortHeuristics import BasicParseTreeSortHeuristics


def node(rng, depth):
    kind = rng.choice([POS_TYPE_RELATION, POS_TYPE_WORD_FORM, POS_TYPE_REG_EXP]) if rng.random() < .7 else POS_TYPE_RELATION
    boost = rng.choice([0, 0, 0, 1, 2, -1, -2, 3, 1000])
    children = [] if depth == 0 else [node(rng, depth - 1 if rng.random() < .5 else rng.randint(0, depth - 1)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    cons = [c.rule.antecedent for c in children]
    rule = GrammarRule(RuleConstituent(fresh_str(rng.choice("abc")), [], kind), cons, boost=boost)
    return ParseTreeNode(rule.antecedent.predicate, children, fresh_str(rng.choice(["", "x"])), rule)


def o_boost(t):
    todo, n = [t], 0
    while todo:
        x = todo.pop()
        n += x.rule.boost
        todo.extend(x.children)
    return n


def o_regexps(t):
    todo, n = [t], 0
    while todo:
        x = todo.pop()
        n += 1 if x.rule.antecedent.position_type == "reg-exp" else 0
        todo.extend(x.children)
    return n


def o_depth(t):
    level, n = [t], 0
    while level:
        n += 1
        level = [c for x in level for c in x.children]
    return n


def show(t):
    return f"{t.category}{t.rule.boost:+d}{'r' if t.rule.antecedent.position_type == 'reg-exp' else ''}({' '.join(show(c) for c in t.children)})"


def trees_of(rng):
    pool = [node(rng, rng.randint(0, 4)) for _ in range(rng.randint(1, 5))]
    out = []
    for _ in range(rng.randint(0, 9)):
        r = rng.random()
        if r < .35:
            out.append(rng.choice(pool))
        elif r < .6:
            # a tree over an existing one
            c = rng.choice(pool)
            out.append(ParseTreeNode(c.category, [c], "", c.rule))
        else:
            out.append(node(rng, rng.randint(0, 4)))
    return out


def order(ts, key):
    """selection sort: the first of the smallest each time"""
    rest, out = list(ts), []
    while rest:
        ks = [key(t) for t in rest]
        out.append(rest.pop(ks.index(min(ks))))
    return out


def ids(ts):
    return [id(t) for t in ts]


def t_rank(rng, i):
    ts = trees_of(rng)
    note(trees=[show(t) for t in ts])
    t0 = list(ts)
    want = order(ts, lambda t: (-o_boost(t), o_regexps(t), -o_depth(t)))
    for k in range(2):
        got = BasicParseTreeSortHeuristics().sort_trees(ts)
        if ids(got) != ids(want):
            bad(f"ranking: got {[show(t) for t in got]}, want {[show(t) for t in want]}")

