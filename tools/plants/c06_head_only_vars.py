PROPERTY = "C06"
NEEDS = "a caller binding of a variable that the rule uses in its body only, at nesting depth, in a later position"
BREAKS = "the caller's binding of a variable with the same name leaks into the rule's body"
EDITS = [("richard/type/InferenceRule.py", "variables.extend(get_atoms_variables(self.body))", "variables.extend(v for atom in self.body for v in get_atoms_variables([a for a in atom if not isinstance(a, list)]))")]
DEMO = '''
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule
from richard.module.InferenceModule import InferenceModule
from richard.type.InferenceRule import InferenceRule

A, X = Variable("A"), Variable("X")


class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("child", query_function=self.child))

    def child(self, values, context):
        return [r for r in [["ann", "tim"], ["bob", "eve"]] if all(v is None or v == w for v, w in zip(values, r))]


inf = InferenceModule()
inf.insert_rule(InferenceRule(("parent", A), [("scoped", [("child", A, X)])]))
got = Solver(Model([M(), inf])).solve([("parent", "ann")], {"X": "eve"})
assert got == [{"X": "eve"}], got
print("ok")
'''
