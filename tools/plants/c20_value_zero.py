PROPERTY = 'C20'
NEEDS = 'an output value of 0'
BREAKS = 'the value 0 is rendered as an empty text'
EDITS = [('richard/core/BasicGenerator.py', '            result = values[0]\n', '            result = values[0] if values[0] else ""\n')]
DEMO = '''
from richard.core.BasicGenerator import BasicGenerator
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Variable import Variable
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

buffer = BasicOutputBuffer()
model = Model([buffer])
grammar = SimpleGrammarRulesParser().parse_write_grammar([
    {"syn": "s() -> value(E1)", "if": [("output_value", Variable("E1"))]},
])
generator = BasicGenerator(grammar, model, buffer)
for n in (3, 0, [], 2):
    Solver(model).write_atom(("output_value", n))
    got = generator.generate_output()
    assert got == n and type(got) is type(n), got
print("ok")
'''
