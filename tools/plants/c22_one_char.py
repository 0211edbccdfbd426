PROPERTY = 'C22'
NEEDS = 'a regular expression that is to read one character where it could read more'
BREAKS = 'the reading of one character is not tried'
EDITS = [('richard/processor/parser/earley/EarleyParser.py', 'for i in range(1, len(word)+1):', 'for i in range(min(2, len(word)), len(word)+1):')]
DEMO = '''
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.earley.EarleyParser import EarleyParser

g = SimpleGrammarRulesParser().parse_read_grammar([{"syn": "s(E1) -> /[a-z]+/ + 's'", "sem": lambda a: []}])
for text in ("boats", "as"):
    r = EarleyParser().parse(g, text)
    assert len(r.products) == 1, (text, r.error_type)
print("ok")
'''
