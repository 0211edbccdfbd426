PROPERTY = 'C15'
NEEDS = 'five atoms that are linked to each other in a chain that takes three rounds to follow'
BREAKS = 'parts that share a variable end up in separate scopes'
EDITS = [('richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py', '        while True:\n', '        for _ in range(2):\n')]
DEMO = '''
from richard.entity.Variable import Variable
from richard.processor.semantic_composer.optimizer.IsolateIndependentParts import IsolateIndependentParts

A, B, D, F, R = [Variable(x) for x in "ABDFR"]
atoms = [("head", R), ("p", D), ("q", B), ("r", F, A), ("s", B, A), ("t", D, F)]
got = IsolateIndependentParts().isolate(atoms, ["R"])
assert len(got) == 2, got
print("ok")
'''
