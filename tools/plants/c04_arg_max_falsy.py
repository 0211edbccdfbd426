PROPERTY = "C04"
NEEDS = "arg_max over elements of which the largest so far is 0 and a later one is negative"
BREAKS = "arg_max takes a smaller element after a largest element of 0"
EDITS = [("richard/module/CoreModule.py", "if max is None or result[element_var.name] > max:", "if not max or result[element_var.name] > max:")]
DEMO = '''
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule


class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("temp", query_function=lambda values, context: [["a", -3], ["b", 0], ["c", -1]]))


got = Solver(Model([M()])).solve([("arg_max", Variable("A"), Variable("B"), [("temp", Variable("A"), Variable("B"))])])
assert got == [{"A": "b", "B": 0}], got
print("ok")
'''
