PROPERTY = "C03"
NEEDS = "two modules with a relation of one predicate, where one of the rows differs from another only in its nested types ('1' inside a list against 1)"
BREAKS = "rows of a later relation are dropped when they print the same through ','.join as an earlier row"
EDITS = [("richard/core/Solver.py", "stringed_value = str(out_value)", "stringed_value = ','.join(str(v) for v in out_value)")]
DEMO = '''
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule


class M(SomeModule):
    def __init__(self, rows):
        super().__init__()
        self.add_relation(Relation("p", query_function=lambda values, context: rows))


got = Solver(Model([M([["1", "a"]]), M([[1, "a"], ["1", "a"]])])).solve([("p", Variable("A"), Variable("B"))])
assert got == [{"A": "1", "B": "a"}, {"A": 1, "B": "a"}], got
print("ok")
'''
