PROPERTY = 'C13'
NEEDS = "a rule with a list of inferences that has a child with inferences, used in more than one sentence"
BREAKS = "the inferences of one sentence are added to the rule and come back, with their old variables, in the next sentence"
EDITS = [('richard/processor/semantic_composer/SemanticComposer.py', '''            inferences.extend(node.rule.dialog)
''', '''            node.rule.dialog.extend(inferences)
            inferences = node.rule.dialog
''')]
DEMO = '''
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.GrammarRule import GrammarRule
from richard.entity.RuleConstituent import RuleConstituent
from richard.entity.SentenceRequest import SentenceRequest
from richard.entity.Variable import Variable
from richard.processor.parser.BasicParserProduct import BasicParserProduct
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer


def leaf(w):
    return ParseTreeNode(w, [], w, GrammarRule(RuleConstituent(w, [], "word_form"), []))


V = Variable
noun = ParseTreeNode("noun", [leaf("a")], "", GrammarRule(RuleConstituent("noun", ["E1"], "relation"), [RuleConstituent("a", [], "word_form")], lambda: [], dialog=[("topic", V("E1"))]))
top = ParseTreeNode("s", [noun], "", GrammarRule(RuleConstituent("s", ["E2"], "relation"), [RuleConstituent("noun", ["E1"], "relation")], lambda n: n, dialog=[("said", V("E2"))]))
parser = object()
composer = SemanticComposer(parser)
for i in range(3):
    request = SentenceRequest("")
    request.set_current_product(parser, BasicParserProduct(top))
    inf = composer.process(request).products[0].inferences
    assert sorted(a[0] for a in inf) == ["said", "topic"], inf
print("ok")
'''
