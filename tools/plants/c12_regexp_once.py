PROPERTY = 'C12'
NEEDS = 'a tree with two tokens matched by regular expressions under one node'
BREAKS = 'the tokens under one child count as one'
EDITS = [('richard/processor/parser/tree_sort_heuristics/SortByRegExpCount.py', 'count += self.count_tokens(child)', 'count += min(1, self.count_tokens(child))')]
DEMO = '''
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.GrammarRule import GrammarRule
from richard.entity.RuleConstituent import RuleConstituent
from richard.processor.parser.tree_sort_heuristics.BasicParseTreeSortHeuristics import BasicParseTreeSortHeuristics


def node(cat, children=[], kind="relation"):
    rule = GrammarRule(RuleConstituent(cat, [], kind), [c.rule.antecedent for c in children])
    return ParseTreeNode(cat, children, "", rule)


two = node("s", [node("name", [node("\\\\w+", [], "reg-exp"), node("\\\\w+", [], "reg-exp")])])
one = node("s", [node("name", [node("\\\\w+", [], "reg-exp"), node("bob", [], "word-form")])])
got = BasicParseTreeSortHeuristics().sort_trees([two, one])
assert got[0] is one
print("ok")
'''
