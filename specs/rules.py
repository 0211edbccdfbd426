"""C08: rule text, at the level of its tokens."""
from pyvc.theory import spec, macro, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["InferenceRule", "Variable"]
F = "richard/module/helper/SimpleInferenceRuleParser.py"


@uninterpreted
def matches(pattern: V, s: V) -> B:
    """a text matches a regular expression"""


@uninterpreted
def tokens_of(pattern: V, s: V) -> L:
    """the pieces of a text that match a regular expression"""


@uninterpreted
def py_int(s: V) -> V:
    """the integer that a text spells"""


@uninterpreted
def py_float(s: V) -> V:
    """the decimal number that a text spells"""


@uninterpreted
def str_replace(s: S, a: S, b: S) -> S:
    """s.replace(a, b)"""


@spec
def tokens_ok(l: L) -> B:
    """texts that are not empty"""
    if len(l) == 0:
        return True
    return isinstance(l[0], str) and len(asS(l[0])) > 0 and tokens_ok(l[1:])


iface("ext", "re.match", dict(pattern="V", s="S"), ret="V", ensures=["bool(result) == matches(pattern, s)"], assumed="matching a regular expression is a function of the pattern and the text")
iface("ext", "re.findall", dict(pattern="V", s="V"), ret="L", result="tokens_of(pattern, s)", ensures=["tokens_ok(result)"], types=dict(result="list[str]"),
      assumed="the pieces of a text that the token expression matches are texts that are not empty (no alternative of the expression matches the empty text)")
iface("ext", "int", dict(s="V"), ret="V", result="py_int(s)", ensures=["isinstance(result, int)"], assumed="int() of a text that the integer expression matches does not fail")
iface("ext", "float", dict(s="V"), ret="V", result="py_float(s)", ensures=["isinstance(result, float)"], assumed="float() of a text that the decimal expression matches does not fail")


# ---------------------------------------------------------------- the grammar of rule texts
# each nonterminal: the tokens -> (value, tokens that follow), or (None, []) for tokens that do not start with it
@macro
def comment(t: V) -> B:
    return asS(t)[0] == "#"


@spec
def skip(l: L) -> L:
    """the tokens without the comments they start with"""
    if len(l) == 0:
        return []
    if comment(l[0]):
        return skip(l[1:])
    return l


@macro
def token(l: L) -> V:
    return ite(len(skip(l)) == 0, None, skip(l)[0])


@macro
def after(l: L) -> L:
    return skip(l)[1:]


@macro
def unquoted(t: S, q: S, e: S) -> V:
    return str_replace(t[1:-1], e, q)


@spec
def p_atoms(s: L, l: L) -> T:
    """a body: a parenthesised body, or atoms with commas between them"""
    g = p_grouped(s, l)
    if g[0] is not None:
        return g
    return p_conj(s, l, [])


@spec
def p_grouped(s: L, l: L) -> T:
    if token(l) != "(":
        return (None, [])
    a = p_atoms(s, after(l))
    if a[0] is None or token(a[1]) != ")":
        return (None, [])
    return (a[0], after(a[1]))


@spec
def p_conj(s: L, l: L, acc: L) -> T:
    a = p_atom(s, l)
    if a[0] is None:
        return (None, [])
    if token(a[1]) == ",":
        return p_conj(s, after(a[1]), acc + [a[0]])
    return (acc + [a[0]], a[1])


@spec
def p_atom(s: L, l: L) -> T:
    a = p_simple(s, l)
    if a[0] is not None:
        return a
    return p_disj(s, l)


@spec
def p_disj(s: L, l: L) -> T:
    """bodies in parentheses with ; between them"""
    if token(l) != "(":
        return (None, [])
    a = p_alts(s, after(l), [])
    if a[0] is None or token(a[1]) != ")":
        return (None, [])
    return (('$disjunction', a[0]), after(a[1]))


@spec
def p_alts(s: L, l: L, acc: L) -> T:
    a = p_atoms(s, l)
    if a[0] is None:
        return (None, [])
    if token(a[1]) == ";":
        return p_alts(s, after(a[1]), acc + [a[0]])
    return (acc + [a[0]], a[1])


@macro
def identifier(s: L, l: L) -> B:
    return token(l) is not None and matches(s[0], token(l))


@spec
def p_simple(s: L, l: L) -> T:
    """a predicate with its terms"""
    if not identifier(s, l) or token(after(l)) != "(":
        return (None, [])
    a = p_terms(s, after(after(l)), [])
    if token(a[1]) != ")":
        return (None, [])
    return (tuple([token(l)] + a[0]), after(a[1]))


@spec
def p_terms(s: L, l: L, acc: L) -> T:
    """terms with commas between them, or after the last one"""
    a = p_term(s, l)
    if a[0] is None:
        return (acc, l)
    if token(a[1]) == ",":
        return p_terms(s, after(a[1]), acc + [a[0]])
    return (acc + [a[0]], a[1])


@spec
def p_term(s: L, l: L) -> T:
    t = token(l)
    if t is None or t == "'" or t == '"':
        return (None, [])
    if asS(t)[0] == "'":
        return (unquoted(asS(t), "'", "\\'"), after(l))
    if asS(t)[0] == '"':
        return (unquoted(asS(t), '"', '\\"'), after(l))
    if matches(s[1], t):
        return (py_float(t), after(l))
    if matches(s[2], t):
        return (py_int(t), after(l))
    if matches(s[3], t):
        return (Variable(t), after(l))
    return p_atoms(s, l)


@spec
def p_rule(s: L, l: L) -> T:
    h = p_simple(s, l)
    if h[0] is None:
        return (None, [])
    if token(h[1]) == ":-":
        b = p_atoms(s, after(h[1]))
        if b[0] is None or token(b[1]) != ".":
            return (None, [])
        return (InferenceRule(h[0], b[0]), after(b[1]))
    if token(h[1]) != ".":
        return (None, [])
    return (InferenceRule(h[0], []), after(h[1]))


@spec
def p_rules(s: L, l: L, acc: L) -> T:
    """rules, as long as there are any"""
    r = p_rule(s, l)
    if r[0] is None:
        return (acc, l)
    return p_rules(s, r[1], acc + [r[0]])


# ---------------------------------------------------------------- the functions
lemma("drop_all", "a:L, n:I", "implies(lenL(a) <= n, drop(a, n) == [])", induct="a", trigger="drop(a, n)")
lemma("drop_nonempty", "a:L, n:I", "implies(0 <= n and n < lenL(a), len(drop(a, n)) > 0)", induct="a", trigger="drop(a, n)")
lemma("drop_next", "a:L, n:I, m:I", "implies(0 <= n and m == n + 1, drop(a, m) == tlz(drop(a, n)))", induct="a", trigger=[("drop(a, m)", "drop(a, n)")])
lemma("tokens_nth", "a:L, n:I", "implies(tokens_ok(a) and 0 <= n and n < lenL(a), isinstance(a[n], str) and len(asS(a[n])) > 0)", induct="a", trigger=[("drop(a, n)", "tokens_ok(a)")])

SF = dict(re_identifier="V", re_float="V", re_int="V", re_variable="V", re_tokens="V")
P = "[self.re_identifier, self.re_float, self.re_int, self.re_variable]"
OK = ["tokens_ok(tokens)", "0 <= pos", "pos <= len(tokens)"]
HERE, THERE = "drop(tokens, pos)", "drop(tokens, asI(result[1]))"
SHAPE = ["isinstance(result[1], int)", "0 <= asI(result[1])", "asI(result[1]) <= len(tokens)"]
POS = ["0 <= NUM", "NUM <= len(tokens)"]


def nonterminal(name, expr, extra=(), inv=()):
    contract(F, "SimpleInferenceRuleParser." + name, dict(tokens="L", pos="I"), types=dict(tokens="list[str]"), self_fields=SF, requires=OK, ret="T", no_raise="True", fuel=1, unbox=True, inv_timeout=400,
             ensures=["result == (result[0], asI(result[1]))", f"result[0] == {expr}[0]", f"implies(result[0] is not None, {THERE} == {expr}[1])"] + SHAPE + list(extra), inv=list(inv) + (POS if inv else []))


contract(F, "SimpleInferenceRuleParser.parse_token", dict(tokens="L", pos="I"), types=dict(tokens="list[str]"), self_fields=SF, requires=OK, ret="T", no_raise="True",
         ensures=["result == (result[0], asI(result[1]))", f"result[0] == token({HERE})", f"{THERE} == after({HERE})", "implies(result[0] is not None, isinstance(result[0], str) and len(asS(result[0])) > 0)", f"(result[0] is None) == (len(skip({HERE})) == 0)"] + SHAPE,
         inv=[f"skip({HERE}) == skip(drop(tokens, NUM))"] + POS)
contract(F, "SimpleInferenceRuleParser.eat_trailing_comments", dict(tokens="L", pos="I"), types=dict(tokens="list[str]"), self_fields=SF, requires=OK, ret="I", no_raise="True",
         ensures=[f"drop(tokens, result) == ite(len(skip({HERE})) == 0, [], {HERE})", "0 <= result", "result <= len(tokens)"])
contract(F, "SimpleInferenceRuleParser.parse_identifier", dict(tokens="L", pos="I"), types=dict(tokens="list[str]"), self_fields=SF, requires=OK, ret="T", no_raise="True",
         ensures=["result == (result[0], asI(result[1]))", f"result[0] == ite(identifier({P}, {HERE}), token({HERE}), None)", f"implies(result[0] is not None, {THERE} == after({HERE}) and isinstance(result[0], str) and len(asS(result[0])) > 0)"] + SHAPE)
TRUTHY = ["implies(result[0] is not None, bool(result[0]))"]
nonterminal("parse_atoms", f"p_atoms({P}, {HERE})", TRUTHY)
nonterminal("parse_grouped_atoms", f"p_grouped({P}, {HERE})", TRUTHY)
nonterminal("parse_ungrouped_atoms", f"p_conj({P}, {HERE}, [])", TRUTHY, inv=[f"p_conj({P}, {HERE}, []) == p_conj({P}, drop(tokens, NUM), ACC)"])
nonterminal("parse_disjuncted_atom", f"p_disj({P}, {HERE})", TRUTHY, inv=[f"p_alts({P}, after({HERE}), []) == p_alts({P}, drop(tokens, NUM), ACC)"])
nonterminal("parse_atom", f"p_atom({P}, {HERE})", TRUTHY)
nonterminal("parse_simple_atom", f"p_simple({P}, {HERE})", TRUTHY, inv=[f"p_terms({P}, after(after({HERE})), []) == p_terms({P}, drop(tokens, NUM), ACC)"])
nonterminal("parse_term", f"p_term({P}, {HERE})")
nonterminal("parse_rule", f"p_rule({P}, {HERE})", ["implies(result[0] is not None, isinstance(result[0], InferenceRule))"])

T_ = "tokens_of(self.re_tokens, text)"
RS = f"p_rules({P}, {T_}, [])"
contract(F, "SimpleInferenceRuleParser.parse", dict(text="V"), self_fields=SF, ret="T", no_raise="True", fuel=1, unbox=True,
         ensures=["result == (result[0], result[1])", f"implies(len(skip({RS}[1])) == 0, result[0] == {RS}[0] and result[1] is None)", f"implies(len(skip({RS}[1])) != 0, result[0] is None and isinstance(result[1], int))"],
         inv=[f"{RS} == p_rules({P}, drop({T_}, NUM), ACC)", "0 <= NUM", f"NUM <= len({T_})", f"tokens_ok({T_})"])


# ---------------------------------------------------------------- importing a file of rules
@uninterpreted
def spelled(text: V) -> V:
    """the rules that a text spells, or None"""


@uninterpreted
def file_at(path: V) -> V:
    """an open file"""


@uninterpreted
def can_open(path: V) -> B:
    """a file can be opened"""


@uninterpreted
def content(file: V) -> V:
    """the text of a file"""


@spec
def inserts(rules: L) -> L:
    if len(rules) == 0:
        return []
    return cons(('insert_rule', rules[0]), inserts(rules[1:]))


iface("ext", "open", dict(path="V"), ret="V", result="file_at(path)", no_raise="can_open(path)", must_raise="not can_open(path)", raises_types="OSError", assumed="open gives the file or raises OSError")
iface("*", "read", dict(self="V"), ret="V", result="content(self)", assumed="reading a text file gives its text")
iface("*", "new:SimpleInferenceRuleParser", {}, ret="V", types=dict(result="SimpleInferenceRuleParser"), assumed="making a parser has no effect")
iface("SimpleInferenceRuleParser", "parse", dict(self="V", text="V"), ret="T", ensures=["result == (result[0], result[1])", "result[0] == spelled(text)", "(result[1] is None) == isinstance(result[0], list)", "implies(result[1] is not None, isinstance(result[1], int))"],
      assumed="SimpleInferenceRuleParser.parse is proved above: the rules and None, or None and a position")
iface("InferenceModule", "insert_rule", dict(self="V", rule="V"), ret="N", trace="[('insert_rule', rule)]", assumed="InferenceModule.insert_rule is proved in inference.py")
SP = "spelled(content(file_at(path)))"
OKF = f"can_open(path) and isinstance({SP}, list)"
contract("richard/module/InferenceModule.py", "InferenceModule.import_rules", dict(path="S"), self_fields=dict(rules="V"), ret="N", no_raise=OKF, must_raise=f"not ({OKF})",
         trace=f"inserts({SP})", raise_trace="[]", inv=[f"inserts({SP}) == TRACE + inserts(REST)"])
