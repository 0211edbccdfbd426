PROPERTY = "C02"
NEEDS = "an unbound variable that occurs twice in an atom, and a row whose first value for it is falsy (0, '' or False)"
BREAKS = "a row with two different values for one variable is accepted and the second value wins"
EDITS = [("richard/core/Solver.py", "if arg.name in result and result[arg.name] != v[i]:", "if result.get(arg.name) and result[arg.name] != v[i]:")]
DEMO = '''
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule


class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("p", query_function=lambda values, context: [[0, 3], [3, 3], [3, 0]]))


got = Solver(Model([M()])).solve([("p", Variable("A"), Variable("A"))])
assert got == [{"A": 3}], got
print("ok")
'''
