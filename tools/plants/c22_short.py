PROPERTY = 'C22'
NEEDS = 'three constituents at the beginning of a rule that are one character each'
BREAKS = 'these are taken for too short to hold all constituents'
EDITS = [('richard/processor/parser/earley/tree_extract.py', '''    if end_char_index == 0:
        return []
''', '''    # each of the constituents has at least one character
    available = end_char_index - parent_state.start_char_index
    if end_char_index == 0 or (consequent_index > 1 and available <= consequent_index + 1):
        return []
''')]
DEMO = '''
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.earley.EarleyParser import EarleyParser

g = SimpleGrammarRulesParser().parse_read_grammar([{"syn": "s(E1) -> n(E1) + '+' + n(E2)", "sem": lambda a, b: []}, {"syn": "n(E1) -> /\\\\d+/", "sem": lambda a: []}])
for text in ("12+1", "1+1"):
    r = EarleyParser().parse(g, text)
    assert len(r.products) == 1, (text, r.error_type)
print("ok")
'''
