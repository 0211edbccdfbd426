PROPERTY = 'C12'
NEEDS = "two trees with total boosts above 10"
BREAKS = "boosts above 10 in total all count the same"
EDITS = [('richard/processor/parser/tree_sort_heuristics/SortByBoost.py', 'score = -self.get_boost(tree)', 'score = -min(self.get_boost(tree), 10)')]
DEMO = '''
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.GrammarRule import GrammarRule
from richard.entity.RuleConstituent import RuleConstituent
from richard.processor.parser.tree_sort_heuristics.BasicParseTreeSortHeuristics import BasicParseTreeSortHeuristics



def node(cat, children=[], boost=0):
    rule = GrammarRule(RuleConstituent(cat, [], "relation"), [c.rule.antecedent for c in children], boost=boost)
    return ParseTreeNode(cat, children, "", rule)


a = node("s", [node("b", boost=20)])
b = node("s", [node("b", boost=30)])
got = BasicParseTreeSortHeuristics().sort_trees([a, b])
assert got[0] is b and got[1] is a
print("ok")
'''
