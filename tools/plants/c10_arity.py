PROPERTY = 'C10'
NEEDS = 'a category with rules for different numbers of arguments, and a rule that uses it with one of these'
BREAKS = 'a constituent gets a child with another number of arguments'
EDITS = [('richard/entity/RuleConstituent.py', '''        if len(self.arguments) != len(other.arguments):
            return False

        if self.position_type''', '''        if len(self.arguments) > len(other.arguments):
            return False

        if self.position_type''')]
DEMO = '''
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.earley.EarleyParser import EarleyParser

g = SimpleGrammarRulesParser().parse_read_grammar([
    {"syn": "s(E1) -> vp(E1, E2)", "sem": lambda a: []},
    {"syn": "s(E1) -> vp(E1) + '!'", "sem": lambda a: []},
    {"syn": "vp(E1, E2) -> 'go'", "sem": lambda: []},
    {"syn": "vp(E1) -> 'run'", "sem": lambda: []},
])
for text, n in (("go", 1), ("run!", 1), ("run", 0), ("go!", 0)):
    r = EarleyParser().parse(g, text)
    assert len(r.products) == n, (text, [str(x) for x in r.products])
    assert bool(r.error_type) == (n == 0), (text, r.error_type)
print("ok")
'''
