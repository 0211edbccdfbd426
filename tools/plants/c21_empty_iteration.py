PROPERTY = 'C21'
NEEDS = 'an optimiser whose last step leaves an empty meaning'
BREAKS = 'the meaning that is solved is not that of the last step but of the last step that is not empty'
EDITS = [('richard/processor/semantic_composer/SemanticComposerProduct.py', '            semantics = sem\n        return', '            semantics = sem or semantics or []\n        return')]
DEMO = '''
from richard.processor.semantic_composer.SemanticComposerProduct import SemanticComposerProduct

p = SemanticComposerProduct({"Semantics": [("true",)], "Simplified": []}, [], [], [])
assert p.get_semantics_last_iteration() == [], p.get_semantics_last_iteration()
print("ok")
'''
