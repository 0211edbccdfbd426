PROPERTY = "C07"
NEEDS = "a fact or rule that has a list directly within a list, with a bound variable in the inner one"
BREAKS = "variables in a list that is itself an element of a list are not replaced"
EDITS = [("richard/core/atoms.py", "        return [bind_variables(arg, binding) for arg in construct]\n    # tuple", "        return [bind_variables(arg, binding) if not isinstance(arg, list) else arg for arg in construct]\n    # tuple")]
DEMO = '''
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule

written = []


class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("table", query_function=lambda values, context: [], write_function=lambda values, context: written.append(tuple(values))))


Solver(Model([M()])).solve([("store", [("table", [[1, Variable("N")], [2, Variable("M")]])])], {"N": 7})
assert written == [([[1, 7], [2, Variable("M")]],)], written
print("ok")
'''
