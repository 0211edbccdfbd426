PROPERTY = 'C08'
NEEDS = "a body that ends with a comma"
BREAKS = "text that is no rule is accepted"
EDITS = [('richard/module/helper/SimpleInferenceRuleParser.py', '            if not atom:\n                return None, new_pos\n            pos = new_pos\n            atoms.append(atom)', '            if not atom:\n                if atoms:\n                    break\n                return None, new_pos\n            pos = new_pos\n            atoms.append(atom)')]
DEMO = '''
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
p = SimpleInferenceRuleParser()
rules, pos = p.parse("a(X) :- b(X), c(X), .")
assert rules is None and pos is not None, rules
print("ok")
'''
