PROPERTY = "C01"
NEEDS = "a query of two or more atoms that derives the same binding twice, not directly after each other"
BREAKS = "a binding is listed again when another binding was derived between its two derivations"
EDITS = [("richard/core/Solver.py", "                    if not r in result:\n", "                    if not r in result[-1:]:\n")]
DEMO = '''
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule


class M(SomeModule):
    def __init__(self):
        super().__init__()
        # the value of a bound variable is not overwritten, so both rows of p lead to the bindings of q
        self.add_relation(Relation("p", query_function=lambda values, context: [[1, 1], [1, 2]]))
        self.add_relation(Relation("q", query_function=lambda values, context: [[5], [6]]))


s = Solver(Model([M()]))
got = s.solve([("p", Variable("A"), Variable("B")), ("q", Variable("C"))], {"A": 1, "B": 9})
want = [{"A": 1, "B": 9, "C": 5}, {"A": 1, "B": 9, "C": 6}]
assert got == want, got
print("ok")
'''
