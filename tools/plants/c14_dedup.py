PROPERTY = 'C14'
NEEDS = 'a child meaning that contains an atom that stands next to the slot already'
BREAKS = "an atom of a child's meaning is left out when the list it is put in has it already"
EDITS = [('richard/processor/parser/helper/grammar_functions.py', 'replaced.extend(replacement)', 'replaced.extend(value for value in replacement if value not in replaced)')]
DEMO = '''
from richard.type.SemanticTemplate import SemanticTemplate
from richard.processor.parser.helper.grammar_functions import apply
from richard.core.constants import Body

got = apply(SemanticTemplate([Body], [("beep",), Body[0], ("not", [Body[0]])]), [("beep",), ("beep",)])
assert got == [("beep",), ("beep",), ("beep",), ("not", [("beep",), ("beep",)])], got
print("ok")
'''
