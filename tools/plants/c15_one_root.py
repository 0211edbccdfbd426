PROPERTY = 'C15'
NEEDS = 'a sentence with two variables in the answer, the second in a part of its own'
BREAKS = 'a part that has only the second variable of the answer is isolated'
EDITS = [('richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py', 'set(root_variables)) > 0', 'set(root_variables[:1])) > 0')]
DEMO = '''
from richard.entity.Variable import Variable
from richard.processor.semantic_composer.optimizer.IsolateIndependentParts import IsolateIndependentParts

atoms = [("country", Variable("C")), ("river", Variable("R"))]
got = IsolateIndependentParts().isolate(atoms, ["C", "R"])
assert got == atoms, got
print("ok")
'''
