PROPERTY = 'C13'
NEEDS = "a second sentence in the same dialog, after one that could not be composed"
BREAKS = "after a sentence with a missing meaning the names start again and clash with those of earlier sentences"
EDITS = [('richard/processor/semantic_composer/SemanticComposer.py', '''        if node.form == "" and node.rule.sem is None:
''', '''        if node.form == "" and node.rule.sem is None:
            self.variable_generator.reset()
''')]
DEMO = '''
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.GrammarRule import GrammarRule
from richard.entity.RuleConstituent import RuleConstituent
from richard.entity.SentenceRequest import SentenceRequest
from richard.entity.Variable import Variable
from richard.processor.parser.BasicParserProduct import BasicParserProduct
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer


def leaf(w):
    return ParseTreeNode(w, [], w, GrammarRule(RuleConstituent(w, [], "word_form"), []))


V = Variable
good = ParseTreeNode("noun", [leaf("a")], "", GrammarRule(RuleConstituent("noun", ["E1"], "relation"), [RuleConstituent("a", [], "word_form")], lambda: [("river", V("E1"))]))
wrong = ParseTreeNode("noun", [leaf("b")], "", GrammarRule(RuleConstituent("noun", ["E1"], "relation"), [RuleConstituent("b", [], "word_form")]))
parser = object()
composer = SemanticComposer(parser)
seen = set()
for tree in [good, wrong, good]:
    request = SentenceRequest("")
    request.set_current_product(parser, BasicParserProduct(tree))
    try:
        sem = composer.process(request).products[0].get_semantics_last_iteration()
    except Exception:
        assert tree is wrong
        continue
    name = sem[0][1].name
    assert name not in seen, name
    seen.add(name)
print("ok")
'''
