PROPERTY = "C05"
NEEDS = "an 'all' whose range gives the same entity more than once"
BREAKS = "'all' fails although the body holds for every entity when the range lists an entity twice"
EDITS = [("richard/module/CoreModule.py", "entities = OrderedSet([binding[quant_var.name] for binding in context.solver.solve(range, context.binding)])", "entities = [binding[quant_var.name] for binding in context.solver.solve(range, context.binding)]")]
DEMO = '''
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule


class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("parent", query_function=lambda values, context: [["a", 1], ["a", 2], ["b", 3]]))
        self.add_relation(Relation("tall", query_function=lambda values, context: [["a"], ["b"]]))


got = Solver(Model([M()])).solve([("all", Variable("A"), [("parent", Variable("A"), Variable("B"))], [("tall", Variable("A"))])])
assert got == [{"A": "a"}, {"A": "b"}], got
print("ok")
'''
