"""C14: applying a semantic template"""
from .common import *
from richard.type.SemanticTemplate import SemanticTemplate
from richard.processor.parser.helper.grammar_functions import apply
from richard.core.constants import Range, Body

SLOTS = [Range, Body, ["__$Third$__"], ["slot"]]


def term(rng, tokens, depth):
    r = rng.random()
    if r < .2 and tokens:
        return fresh_str(rng.choice(tokens))
    if depth > 0 and r < .4:
        return [term(rng, tokens, depth - 1) for _ in range(rng.randint(0, 4))]
    if depth > 0 and r < .6:
        return tuple(term(rng, tokens, depth - 1) for _ in range(rng.randint(0, 4)))
    if r < .75:
        return var(rng.choice(["E1", "E2", "$4"]))
    return rng.choice([0, 1, "", "a", None, 2.5, True, [], (), "Range", fresh_str("__$Bod$__")])


def o_splice(x, table):
    """all slots at once"""
    out = []
    for e in x:
        if isinstance(e, str) and e in table:
            for v in table[e]:
                out.append(v)
        elif isinstance(e, (list, tuple)):
            out.append(o_splice(e, table))
        else:
            out.append(e)
    return out if isinstance(x, list) else tuple(out)


def t_apply(rng, i):
    n = rng.randint(0, 4)
    slots = rng.sample(SLOTS, n)
    tokens = [s[0] for s in slots]
    body = [term(rng, tokens, rng.randint(0, 4)) for _ in range(rng.randint(0, 5))]
    k = n if rng.random() < .8 else rng.randint(0, n)
    values = [[term(rng, [], rng.randint(0, 3)) for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(k)]
    if k > 1 and rng.random() < .2:
        values[1] = values[0]
    t = SemanticTemplate([list(s) for s in slots], body)
    note(slots=slots, body=body, values=values)
    t0, v0 = snap(t), snap(values)
    want = o_splice(snap(body), {tok: v for tok, v in zip(tokens, snap(values))})
    for run in range(3):
        got = apply(t, *values)
        same(got, want, f"application {run + 1}")
        same((t.args, t.body, values), (t0.args, t0.body, v0), "the template and the values after the application")
    # another use of the same template
    other = [[("other", i)] for _ in values]
    same(apply(t, *other), o_splice(snap(body), {tok: v for tok, v in zip(tokens, other)}), "application to other values")
    same(apply(t, *values), want, "application after another one")
