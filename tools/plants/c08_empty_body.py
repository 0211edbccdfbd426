PROPERTY = 'C08'
NEEDS = "a rule with :- and a body that cannot be read"
BREAKS = "the rule is taken for a fact: text that is no rule is accepted"
EDITS = [('richard/module/helper/SimpleInferenceRuleParser.py', '            if not consequents:\n                return None, new_pos\n            pos = new_pos\n\n        dot', '            if consequents:\n                pos = new_pos\n            consequents = consequents or []\n\n        dot')]
DEMO = '''
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
p = SimpleInferenceRuleParser()
rules, pos = p.parse("a(X) :- .")
assert rules is None and pos is not None, rules
rules, pos = p.parse("a(X) :- b(X). c(X).")
assert pos is None and len(rules) == 2
print("ok")
'''
