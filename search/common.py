"""generators and reference definitions shared by the searches; nothing here uses the code under test except entity classes"""
import copy
from .runner import bad, note, expect
from richard.entity.Variable import Variable
from richard.entity.ReifiedVariable import ReifiedVariable
from richard.entity.Relation import Relation
from richard.interface.SomeModule import SomeModule
from richard.core.Model import Model
from richard.core.Solver import Solver

VARS = ["E1", "E2", "$3", "X", "Y"]


def fresh_str(s):
    """an equal string that is another object"""
    return "".join(list(s)) if len(s) > 1 else s + ""


def var(n):
    return Variable(fresh_str(n))


def value(rng, small=True):
    r = rng.random()
    if r < .35:
        return rng.choice([0, 1, 2, 3])
    if r < .5:
        return int(rng.choice(["1000", "1001", "-7"]))
    if r < .85:
        return fresh_str(rng.choice(["a", "bob", "bob2", "", "mary ann", "E1", "1"]))
    if r < .9:
        return rng.choice([1.5, 2.5])
    if r < .93:
        return rng.choice([("t", 1), ("t", 2)])
    return rng.choice([0, "a"])


def snap(x):
    return copy.deepcopy(x)


class Mod(SomeModule):
    pass


class OtherModule:
    """a module that computes its relations on demand"""

    def __init__(self, rels):
        self.rels = rels

    def get_relations(self):
        return dict(self.rels)


def ident_key(x):
    return repr(x)


def typed(x):
    """equality that tells 1, 1.0 and True apart and looks inside"""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(typed(y) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((typed(k), typed(v)) for k, v in x.items()), key=repr)))
    return (type(x).__name__, x if isinstance(x, (int, str, float, bool, type(None))) else repr(x))


def same(got, want, what):
    if typed(got) != typed(want):
        bad(f"{what}: got {got!r}, want {want!r}")


def raises(f, what):
    try:
        r = f()
    except Exception:
        return
    bad(f"{what}: no exception, result {r!r}")
