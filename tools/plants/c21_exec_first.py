PROPERTY = 'C21'
NEEDS = 'a sentence with an inference and an executable atom that looks at it'
BREAKS = 'the executable atoms run before the inferences are stored'
EDITS = [('richard/processor/semantic_executor/AtomExecutor.py', '        # store the inferences in the sentence context\n        for inference in incoming.inferences:\n            solver.write_atom(inference)\n\n        # perform executable atoms\n        solver.solve(incoming.executable)\n', '        # perform executable atoms\n        solver.solve(incoming.executable)\n\n        # store the inferences in the sentence context\n        for inference in incoming.inferences:\n            solver.write_atom(inference)\n')]
DEMO = '''
from richard.core.Model import Model
from richard.entity.Relation import Relation
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.SomeModule import SomeModule
from richard.processor.semantic_composer.SemanticComposerProduct import SemanticComposerProduct
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

log = []


class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("fact", write_function=lambda values, context: log.append("stored")))
        self.add_relation(Relation("act", query_function=lambda values, context: log.append("acted") or [[]]))
        self.add_relation(Relation("ask", query_function=lambda values, context: log.append("asked") or [[]]))


composer = object()
request = SentenceRequest("text")
request.set_current_product(composer, SemanticComposerProduct({"Semantics": [("ask",)]}, [("fact", 1)], [("act",)], []))
AtomExecutor(composer, Model([M()])).process(request)
assert log == ["stored", "acted", "asked"], log
print("ok")
'''
