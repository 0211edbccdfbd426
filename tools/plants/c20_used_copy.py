PROPERTY = 'C20'
NEEDS = 'a category that is rendered twice in one output, with two rules that apply'
BREAKS = 'a rule that was used for an earlier constituent is used again'
EDITS = [('richard/core/BasicGenerator.py', 'result = self.generate_node(used_rules, category, values, optional)', 'result = self.generate_node(list(used_rules), category, values, optional)')]
DEMO = '''
from richard.core.BasicGenerator import BasicGenerator
from richard.core.Model import Model
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

buffer = BasicOutputBuffer()
grammar = SimpleGrammarRulesParser().parse_write_grammar([
    {"syn": "s() -> ref() 'sees' ref()"},
    {"syn": "ref() -> 'the man'"},
    {"syn": "ref() -> 'he'"},
])
got = BasicGenerator(grammar, Model([buffer]), buffer).generate_output()
assert got == "the man sees he", got
print("ok")
'''
