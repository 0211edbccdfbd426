"""C14: applying a semantic template."""
from pyvc.theory import spec, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["SemanticTemplate"]
F = "richard/processor/parser/helper/grammar_functions.py"


@spec
def splice(l: L, token: V, value: L) -> L:
    """l with the token replaced by the elements of the value, at any depth"""
    if len(l) == 0:
        return []
    if l[0] == token:
        return app(value, splice(l[1:], token, value))
    if isinstance(l[0], tuple):
        return cons(tuple(splice(list(l[0]), token, value)), splice(l[1:], token, value))
    if isinstance(l[0], list):
        return cons(list(splice(list(l[0]), token, value)), splice(l[1:], token, value))
    return cons(l[0], splice(l[1:], token, value))


@spec
def spliced(l: L, token: V, value: L, is_list: B) -> V:
    if is_list:
        return splice(l, token, value)
    return tuple(splice(l, token, value))


contract(F, "replace", dict(atoms="V", token="V", replacement="V", is_list="B"),
         requires=["isinstance(atoms, list) or isinstance(atoms, tuple)", "isinstance(replacement, list)"],
         result="spliced(list(atoms), token, list(replacement), is_list)",
         no_raise="True",
         inv=["splice(list(atoms), token, list(replacement)) == ACC + splice(REST, token, list(replacement))"])




@spec
def apply_all(body: L, args: L, values: L) -> L:
    if len(values) == 0:
        return body
    return apply_all(splice(body, args[0][0], list(values[0])), args[1:], values[1:])


@spec
def slots_ok(args: L, values: L) -> B:
    if len(values) == 0:
        return True
    return len(args) > 0 and isinstance(args[0], list) and len(list(args[0])) > 0 and isinstance(values[0], list) and slots_ok(args[1:], values[1:])


contract(F, "apply", dict(template="V", values="T"), timeout=2000, inv_timeout=500, types=dict(template="SemanticTemplate"),
         requires=["isinstance(template.args, list)", "isinstance(template.body, list)", "slots_ok(list(template.args), values)", "lenL(values) <= lenL(list(template.args))"],
         result="apply_all(list(template.body), list(template.args), values)", ret="L", no_raise="True",
         inv=["apply_all(list(template.body), list(template.args), values) == apply_all(ACC, drop(list(template.args), IDX), REST)",
              "apply_all(list(template.body), list(template.args), values) == apply_all(list(VAL), drop(list(template.args), IDX), REST)",
              "isinstance(VAL, list)", "IDX + lenL(REST) <= lenL(list(template.args))",
              "slots_ok(drop(list(template.args), IDX), REST)",
              "apply_all(list(template.body), list(template.args), values) == apply_all(list(VAL), REST, RESTb)",
              "apply_all(list(template.body), list(template.args), values) == apply_all(ACC, REST, RESTb)",
              "slots_ok(REST, RESTb)", "lenL(RESTb) <= lenL(REST)"])
