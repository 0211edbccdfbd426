PROPERTY = 'C09'
NEEDS = 'a rule that ends in an optional word'
BREAKS = 'the variant without the last word keeps the space before it'
EDITS = [('richard/entity/GrammarRules.py', 'rule.consequents[index+1] if index+1 < len(rule.consequents) else None', 'rule.consequents[index+1] if index+2 < len(rule.consequents) else None')]
DEMO = '''
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser

g = SimpleGrammarRulesParser().parse_write_grammar([{"syn": "s() -> 'come' 'here'?"}])
got = ["".join(c.predicate for c in r.consequents) for r in g.find_rules("s", 0)]
assert got == ["come here", "come"], got
print("ok")
'''
