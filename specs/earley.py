"""C10, C11: parsing. The chart, and the trees that are taken from it."""
import ast, os
from pyvc.theory import spec, macro, uninterpreted, lemma, SPEC_CONSTS
from pyvc.contract import contract, iface
from .core import *

# the names that the code itself uses for these things
for _n in ast.parse(open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "richard/core/constants.py")).read()).body:
    if isinstance(_n, ast.Assign) and isinstance(_n.value, ast.Constant) and isinstance(_n.targets[0], ast.Name):
        SPEC_CONSTS[_n.targets[0].id] = _n.value.value

CLASSES = ["ChartState", "GrammarRule", "RuleConstituent", "ParseTreeNode", "ProcessResult", "Chart", "GrammarRules"]
P = "richard/processor/parser/earley/"


# ---------------------------------------------------------------- rules
@macro
def whole(n: V) -> B:
    return isinstance(n, int) and not isinstance(n, bool)


@macro
def same(a: V, b: V) -> B:
    """a constituent is of the kind that another asks for"""
    return a.predicate == b.predicate and len(list(a.arguments)) == len(list(b.arguments)) and a.position_type == b.position_type


@macro
def constituent(c: V) -> B:
    return isinstance(c, RuleConstituent) and isinstance(c.arguments, list) and isinstance(c.predicate, str) and (c.position_type != POS_TYPE_WORD_FORM or len(asS(c.predicate)) > 0)


@spec
def constituents(cs: L) -> B:
    if len(cs) == 0:
        return True
    return constituent(cs[0]) and constituents(cs[1:])


@spec
def proper(r: V) -> B:
    return isinstance(r, GrammarRule) and constituent(r.antecedent) and isinstance(r.consequents, list) and len(list(r.consequents)) > 0 and constituents(list(r.consequents))


@spec
def terminal(r: V) -> B:
    """the rule that stands for text that has been read"""
    return len(list(r.consequents[0].arguments)) > 0 and r.consequents[0].arguments[0] == TERMINAL


@spec
def no_start(cs: L) -> B:
    """no constituent has a name that the parser uses itself"""
    if len(cs) == 0:
        return True
    return cs[0].predicate != GAMMA and cs[0].predicate != DELTA and no_start(cs[1:])


@macro
def authored(r: V) -> B:
    return proper(r) and not terminal(r) and r.antecedent.position_type == POS_TYPE_RELATION and r.antecedent.predicate != GAMMA and r.antecedent.predicate != DELTA and no_start(list(r.consequents))


@spec
def filed(l: L, a: V, n: I) -> B:
    """rules for a category with a number of arguments"""
    if len(l) == 0:
        return True
    return authored(l[0]) and l[0].antecedent.predicate == a and len(list(l[0].antecedent.arguments)) == n and filed(l[1:], a, n)


@spec
def ints(l: L) -> B:
    if len(l) == 0:
        return True
    return whole(l[0]) and ints(l[1:])


@uninterpreted
def good_index(ix: D) -> B:
    """the rules of a grammar are filed under their category and number of arguments"""



@spec
def rules_of(ix: D, a: V, n: I) -> L:
    """the rules for a category with a number of arguments"""
    if haskey(ix, a):
        return ite(haskey(asD(ix[a]), n), list(asD(ix[a])[n]), [])
    return []


@spec
def counts_of(ix: D, a: V) -> V:
    """the numbers of arguments that a category has rules for"""
    if haskey(ix, a):
        return ix[a]
    return val([])


GI = "definition of good_index: what a grammar must be to be parsed with (each rule is filed under its category and number of arguments, which add_rule does: C09; its constituents are at least one, as the rule reader gives them; no category is named as the parser's own start rules)"
lemma("good_filed", "ix:D, a:V, n:I", "implies(good_index(ix), filed(rules_of(ix, a, n), a, n))", trigger="rules_of(ix, a, n)", assumed=GI)
lemma("good_shape", "ix:D, a:V", "implies(good_index(ix) and haskey(ix, a), isinstance(ix[a], dict))", trigger=[("good_index(ix)", "ix[a]")], assumed=GI)
lemma("good_shape2", "ix:D, a:V, n:I", "implies(good_index(ix) and haskey(ix, a) and haskey(asD(ix[a]), n), isinstance(asD(ix[a])[n], list))", trigger=[("good_index(ix)", "asD(ix[a])[n]")], assumed=GI)
lemma("good_counts", "ix:D, a:V", "implies(good_index(ix), isinstance(counts_of(ix, a), (list, dict)) and ints(list(counts_of(ix, a))))", trigger="counts_of(ix, a)", assumed=GI)

G = "richard/entity/"
contract(G + "GrammarRules.py", "GrammarRules.find_rules", dict(antecedent="V", argument_count="I"), self_fields=dict(index="D"), requires=["good_index(asD(self.index))"],
         ret="L", fresh=False, no_raise="True", result="rules_of(asD(self.index), antecedent, argument_count)")
contract(G + "GrammarRules.py", "GrammarRules.find_argument_counts", dict(antecedent="V"), self_fields=dict(index="D"), requires=["good_index(asD(self.index))"],
         ret="V", fresh=False, no_raise="True", result="counts_of(asD(self.index), antecedent)")
contract(G + "RuleConstituent.py", "RuleConstituent.equals", dict(other="V"), self_fields=dict(arguments="L"), types=dict(other="RuleConstituent"), requires=["isinstance(other.arguments, list)"],
         result="self.predicate == other.predicate and len(list(self.arguments)) == len(list(other.arguments)) and self.position_type == other.position_type", ret="B", no_raise="True")
contract(P + "entity/ChartState.py", "ChartState.is_terminal", {}, self_fields=dict(rule="V"), requires=["proper(self.rule)"], result="terminal(self.rule)", ret="B", no_raise="True")
contract(P + "entity/ChartState.py", "ChartState.is_complete", {}, self_fields=dict(rule="V", dot_position="I"), requires=["proper(self.rule)"], result="asI(self.dot_position) >= len(list(self.rule.consequents)) + 1", ret="B", no_raise="True")


# ---------------------------------------------------------------- reading text
@uninterpreted
def match_at(e: V, text: S) -> V:
    """what an expression matches at the beginning of a text, or None"""


@uninterpreted
def match_object(e: V, text: S) -> V:
    """what re.match gives"""


@uninterpreted
def matched(m: V) -> V:
    """the text of a match"""


@uninterpreted
def matches_all(e: V, text: S) -> B:
    """an expression matches a text in full"""


lemma("match_prefix", "e:V, text:S", "implies(match_at(e, text) is not None, isinstance(match_at(e, text), str) and text.startswith(asS(match_at(e, text))))", trigger="match_at(e, text)",
      assumed="what re.match matches is the beginning of the text")
iface("ext", "re.match", dict(e="V", text="S"), ret="V", types=dict(result="Match"), result="match_object(e, text)", ensures=["bool(result) == (match_at(e, text) is not None)", "implies(bool(result), matched(result) == match_at(e, text))"],
      assumed="re.match is a function of the expression and the text; a match is true")
iface("ext", "re.fullmatch", dict(e="V", text="S"), ret="V", ensures=["bool(result) == matches_all(e, text)"], assumed="re.fullmatch is a function of the expression and the text")
iface("*", "group", dict(self="V", n="I"), ret="V", requires=["n == 0"], result="matched(self)", assumed="the text of a match")


@macro
def part(text: S, i: I, n: I) -> S:
    return text[i:i + n]


@spec
def reads(kind: V, form: V, word: V, text: S, i: I) -> B:
    """a word or expression reads the text form at position i"""
    if kind == POS_TYPE_WORD_FORM:
        return isinstance(form, str) and word == form and len(asS(form)) > 0 and i + len(asS(form)) <= len(text) and part(text, i, len(asS(form))).lower() == asS(form).lower()
    if kind == POS_TYPE_REG_EXP:
        return isinstance(form, str) and len(asS(form)) > 0 and i + len(asS(form)) <= len(text) and part(text, i, len(asS(form))) == form and (matches_all(word, asS(form)) or match_at(word, text[i:len(text)]) == form)
    return False


# ---------------------------------------------------------------- states
@macro
def complete(s: V) -> B:
    return asI(s.dot_position) >= len(list(s.rule.consequents)) + 1


@macro
def is_rule(r: V, ix: D) -> B:
    """a rule of the grammar"""
    return authored(r) and r in rules_of(ix, r.antecedent.predicate, len(list(r.antecedent.arguments)))


@macro
def start_rule(r: V) -> B:
    """gamma -> delta, delta -> s"""
    return (proper(r) and not terminal(r) and r.antecedent.position_type == POS_TYPE_RELATION and len(list(r.consequents)) == 1 and r.consequents[0].position_type == POS_TYPE_RELATION
            and (r.antecedent.predicate == GAMMA and len(list(r.antecedent.arguments)) == 1 and r.consequents[0].predicate == DELTA
                 or r.antecedent.predicate == DELTA and r.consequents[0].predicate == ROOT_CATEGORY))


@macro
def read_rule(r: V, text: S, i: I) -> B:
    """text read at a position"""
    return (proper(r) and terminal(r) and len(list(r.consequents)) == 1
            and reads(r.antecedent.position_type, r.consequents[0].predicate, r.antecedent.predicate, text, i))


@spec
def sound(s: V, text: S, ix: D) -> B:
    return (isinstance(s, ChartState) and whole(s.dot_position) and whole(s.start_char_index) and whole(s.end_char_index)
            and 0 <= asI(s.start_char_index) and asI(s.start_char_index) <= asI(s.end_char_index) and asI(s.end_char_index) <= len(text) and 1 <= asI(s.dot_position)
            and proper(s.rule) and implies(asI(s.dot_position) > 1, asI(s.start_char_index) < asI(s.end_char_index))
            and ite(terminal(s.rule), read_rule(s.rule, text, asI(s.start_char_index)) and asI(s.dot_position) == 2
                    and asI(s.end_char_index) == asI(s.start_char_index) + len(asS(s.rule.consequents[0].predicate)),
                    is_rule(s.rule, ix) or start_rule(s.rule)))


@macro
def keyed(s: V, e: D) -> B:
    """states are known that end where it begins, and, once it is complete, where it ends"""
    return (s.start_char_index == 0 or haskey(e, s.start_char_index)) and (s.end_char_index == 0 or complete(s) or haskey(e, s.end_char_index))


@spec
def states_at(l: L, i: I, e: D, text: S, ix: D) -> B:
    """states that end at i"""
    if len(l) == 0:
        return True
    return sound(l[0], text, ix) and l[0].end_char_index == i and keyed(l[0], e) and states_at(l[1:], i, e, text, ix)


@spec
def all_states(ls: L, i: I, e: D, text: S, ix: D) -> B:
    """the states for the positions from i"""
    if len(ls) == 0:
        return True
    return isinstance(ls[0], list) and states_at(list(ls[0]), i, e, text, ix) and all_states(ls[1:], i + 1, e, text, ix)


@spec
def done_at(l: L, k: I, e: D, text: S, ix: D) -> B:
    """complete states that end at k"""
    if len(l) == 0:
        return True
    return sound(l[0], text, ix) and complete(l[0]) and l[0].end_char_index == k and keyed(l[0], e) and done_at(l[1:], k, e, text, ix)


@spec
def done_entry(v: V, k: V, e: D, text: S, ix: D) -> B:
    return isinstance(v, list) and whole(k) and done_at(list(v), asI(k), e, text, ix)


@uninterpreted
def done(d: D, e: D, text: S, ix: D) -> B:
    """each entry has complete states that end at its key"""


@uninterpreted
def bad_key(d: D, e: D, text: S, ix: D) -> V:
    """a key with another entry, if there is one"""


DD = "definition of done (every entry is as done_entry says), with a witness for the other direction"
lemma("done_use", "d:D, e:D, text:S, ix:D, k:V", "implies(done(d, e, text, ix) and haskey(d, k), done_entry(d[k], k, e, text, ix))", trigger=[("done(d, e, text, ix)", "d[k]")], body=1, assumed=DD)
lemma("done_def", "d:D, e:D, text:S, ix:D", "implies(implies(haskey(d, bad_key(d, e, text, ix)), done_entry(d[bad_key(d, e, text, ix)], bad_key(d, e, text, ix), e, text, ix)), done(d, e, text, ix))", trigger="done(d, e, text, ix)", assumed=DD)


# ---------------------------------------------------------------- the chart
@macro
def chart_ok(text: V, states: V, done_states: V, ix: D) -> B:
    return (isinstance(text, str) and isinstance(states, list) and isinstance(done_states, dict) and len(list(states)) == len(asS(text)) + 1
            and all_states(list(states), 0, asD(done_states), asS(text), ix) and done(asD(done_states), asD(done_states), asS(text), ix))


@uninterpreted
def in_set(x: V, l: V) -> B:
    """one of the set equals x"""


iface("*", "new:OrderedSet", {}, ret="V", result="val([])", types=dict(result="OrderedSet"), assumed="an ordered set is the list of its items, in the order they were added")
iface("OrderedSet", "__contains__", dict(self="V", x="V"), ret="B", result="in_set(x, self)", assumed="membership of an ordered set is a function of the set and the item")
iface("OrderedSet", "add", dict(self="V", x="V"), ret="N", effects={"self": "ite(in_set(x, self), self, list(self) + [x])"}, assumed="an item that is not there is added at the end")


@spec
def prefix(a: L, b: L) -> B:
    if len(a) == 0:
        return True
    return len(b) > 0 and a[0] == b[0] and prefix(a[1:], b[1:])


@spec
def grows(a: L, b: L) -> B:
    """the states that were there are still there, in the same places"""
    if len(a) == 0:
        return len(b) == 0
    return len(b) > 0 and isinstance(b[0], list) and prefix(list(a[0]), list(b[0])) and grows(a[1:], b[1:])


lemma("prefix_refl", "a:L", "prefix(a, a)", induct="a", trigger="prefix(a, a)")
lemma("prefix_app", "a:L, b:L, c:L", "implies(prefix(a, b), prefix(a, app(b, c)))", induct="a", trigger="prefix(a, app(b, c))")
lemma("prefix_nth", "a:L, b:L, n:I", "implies(prefix(a, b) and 0 <= n and n < lenL(a), nth(b, n) == nth(a, n) and n < lenL(b))", induct="a", trigger=[("prefix(a, b)", "drop(b, n)"), ("prefix(a, b)", "drop(a, n)")])
lemma("prefix_trans", "a:L, b:L, c:L", "implies(prefix(a, b) and prefix(b, c), prefix(a, c))", induct="a", trigger=[("prefix(a, b)", "prefix(b, c)")])
lemma("grows_refl", "a:L, i:I, e:D, text:S, ix:D", "implies(all_states(a, i, e, text, ix), grows(a, a))", induct="a", trigger=[("all_states(a, i, e, text, ix)", "grows(a, a)")])
lemma("grows_trans", "a:L, b:L, c:L", "implies(grows(a, b) and grows(b, c), grows(a, c))", induct="a", trigger=[("grows(a, b)", "grows(b, c)")])
lemma("grows_nth", "a:L, b:L, n:I", "implies(grows(a, b) and 0 <= n and n < lenL(a), prefix(list(nth(a, n)), list(nth(b, n))))", induct="a", trigger=[("grows(a, b)", "drop(b, n)"), ("grows(a, b)", "drop(a, n)")])
lemma("grows_set", "a:L, b:L, n:I, l:L", "implies(grows(a, b) and 0 <= n and n < lenL(b) and prefix(list(nth(b, n)), l), grows(a, setnth(b, n, l)))", induct="a", trigger="grows(a, setnth(b, n, l))")

CF = dict(text="S", states="L", completed_states="D")
contract(P + "entity/Chart.py", "Chart.__init__", dict(text="S"), self_fields=CF, no_raise="True", ret="N",
         effects={"self.text": "text", "self.states": "rep([], len(text) + 1)", "self.completed_states": "{}"},
         inv=["rep([], len(text) + 1) == ACC + rep([], len(text) + 1 - IDX)"])
contract(P + "entity/Chart.py", "Chart.enqueue", dict(state="V", position="I"), self_fields=CF, no_raise="True", ret="B",
         requires=["0 <= position", "position < len(list(self.states))", "isinstance(self.states[position], list)"], result="in_set(state, self.states[position])",
         effects={"self.states": "ite(in_set(state, self.states[position]), list(self.states), setnth(list(self.states), position, list(self.states[position]) + [state]))"})
contract(P + "entity/Chart.py", "Chart.index_completed_state", dict(completed_state="V"), types=dict(completed_state="ChartState"), self_fields=CF, no_raise="True", ret="N",
         requires=["isinstance(completed_state, ChartState)", "implies(haskey(asD(self.completed_states), completed_state.end_char_index), isinstance(asD(self.completed_states)[completed_state.end_char_index], list))"],
         effects={"self.completed_states": "put(asD(self.completed_states), completed_state.end_char_index, ite(haskey(asD(self.completed_states), completed_state.end_char_index), list(asD(self.completed_states)[completed_state.end_char_index]), []) + [completed_state])"})


@uninterpreted
def gram() -> D:
    """some index of rules: nothing is known of it, so that what is proved of it holds for each"""


@macro
def gamma(r: V) -> B:
    return start_rule(r) and r.antecedent.predicate == GAMMA





lemma("len_setnth", "a:L, n:I, x:V", "lenL(setnth(a, n, x)) == lenL(a)", induct="a", trigger="setnth(a, n, x)")
lemma("nth_setnth", "a:L, n:I, x:V, m:I", "implies(0 <= n and n < lenL(a) and 0 <= m, nth(setnth(a, n, x), m) == ite(m == n, x, nth(a, m)))", induct="a", trigger="drop(setnth(a, n, x), m)")
lemma("sound_shape", "s:V, text:S, ix:D", "implies(sound(s, text, ix), isinstance(s, ChartState) and whole(s.dot_position) and whole(s.start_char_index) and whole(s.end_char_index) and 0 <= asI(s.start_char_index) and asI(s.start_char_index) <= asI(s.end_char_index) and asI(s.end_char_index) <= len(text) and 1 <= asI(s.dot_position) and isinstance(s.rule, GrammarRule) and constituent(s.rule.antecedent) and isinstance(s.rule.consequents, list) and len(list(s.rule.consequents)) > 0 and constituents(list(s.rule.consequents)) and implies(asI(s.dot_position) > 1, asI(s.start_char_index) < asI(s.end_char_index)))", trigger="sound(s, text, ix)")
lemma("states_app", "a:L, b:L, i:I, e:D, text:S, ix:D", "states_at(app(a, b), i, e, text, ix) == (states_at(a, i, e, text, ix) and states_at(b, i, e, text, ix))", induct="a", trigger="states_at(app(a, b), i, e, text, ix)")
lemma("done_app", "a:L, b:L, i:I, e:D, text:S, ix:D", "done_at(app(a, b), i, e, text, ix) == (done_at(a, i, e, text, ix) and done_at(b, i, e, text, ix))", induct="a", trigger="done_at(app(a, b), i, e, text, ix)")
lemma("states_set", "a:L, i:I, n:I, l:L, e:D, text:S, ix:D", "implies(all_states(a, i, e, text, ix) and 0 <= n and states_at(l, i + n, e, text, ix), all_states(setnth(a, n, l), i, e, text, ix))", induct="a", trigger="all_states(setnth(a, n, l), i, e, text, ix)")
lemma("states_nth", "a:L, i:I, n:I, e:D, text:S, ix:D", "implies(all_states(a, i, e, text, ix) and 0 <= n and n < lenL(a), isinstance(nth(a, n), list) and states_at(list(nth(a, n)), i + n, e, text, ix))", induct="a", trigger=[("all_states(a, i, e, text, ix)", "drop(a, n)")])
lemma("state_nth", "l:L, i:I, m:I, e:D, text:S, ix:D", "implies(states_at(l, i, e, text, ix) and 0 <= m and m < lenL(l), sound(nth(l, m), text, ix) and nth(l, m).end_char_index == i and keyed(nth(l, m), e))", induct="l", trigger=[("states_at(l, i, e, text, ix)", "drop(l, m)")])
lemma("done_nth", "l:L, i:I, m:I, e:D, text:S, ix:D", "implies(done_at(l, i, e, text, ix) and 0 <= m and m < lenL(l), sound(nth(l, m), text, ix) and complete(nth(l, m)) and nth(l, m).end_char_index == i and keyed(nth(l, m), e))", induct="l", trigger=[("done_at(l, i, e, text, ix)", "drop(l, m)")])
lemma("states_more", "a:L, i:I, e:D, text:S, ix:D, k:V, v:V", "implies(states_at(a, i, e, text, ix), states_at(a, i, put(e, k, v), text, ix))", induct="a", trigger="states_at(a, i, put(e, k, v), text, ix)")
lemma("all_more", "a:L, i:I, e:D, text:S, ix:D, k:V, v:V", "implies(all_states(a, i, e, text, ix), all_states(a, i, put(e, k, v), text, ix))", induct="a", trigger="all_states(a, i, put(e, k, v), text, ix)")
lemma("done_more", "a:L, i:I, e:D, text:S, ix:D, k:V, v:V", "implies(done_at(a, i, e, text, ix), done_at(a, i, put(e, k, v), text, ix))", induct="a", trigger="done_at(a, i, put(e, k, v), text, ix)")
lemma("entry_more", "x:V, w:V, e:D, text:S, ix:D, k:V, v:V", "implies(done_entry(x, w, e, text, ix), done_entry(x, w, put(e, k, v), text, ix))", trigger="done_entry(x, w, put(e, k, v), text, ix)")
lemma("done_put_e", "d:D, e:D, text:S, ix:D, k:V, v:V", "implies(done(d, e, text, ix), done(d, put(e, k, v), text, ix))", trigger="done(d, put(e, k, v), text, ix)")
lemma("done_put_d", "d:D, e:D, text:S, ix:D, k:V, v:V", "implies(done(d, e, text, ix) and done_entry(v, k, e, text, ix), done(put(d, k, v), e, text, ix))", trigger="done(put(d, k, v), e, text, ix)", body=1)
lemma("indexed", "d:D, k:V, b:L, x:V, text:S, ix:D", "implies(done(d, d, text, ix) and sound(x, text, ix) and complete(x) and x.end_char_index == k and keyed(x, d) and b == ite(haskey(d, k), list(d[k]), []), done(put(d, k, b + [x]), put(d, k, b + [x]), text, ix))", trigger="done(put(d, k, b + [x]), put(d, k, b + [x]), text, ix)")
lemma("empty_states", "n:I, i:I, e:D, text:S, ix:D", "all_states(rep([], n), i, e, text, ix)", measure="ite(n <= 0, 0, n)", trigger="all_states(rep([], n), i, e, text, ix)")
lemma("len_rep", "n:I, x:V", "implies(0 <= n, lenL(rep(x, n)) == n)", measure="ite(n <= 0, 0, n)", trigger="rep(x, n)")


# ---------------------------------------------------------------- the parser
lemma("mem_nth", "a:L, n:I", "implies(0 <= n and n < lenL(a), mem(nth(a, n), a))", induct="a", trigger="mem(nth(a, n), a)")
lemma("filed_nth", "l:L, a:V, n:I, m:I", "implies(filed(l, a, n) and 0 <= m and m < lenL(l), authored(nth(l, m)) and nth(l, m).antecedent.predicate == a and len(list(nth(l, m).antecedent.arguments)) == n)", induct="l", trigger=[("filed(l, a, n)", "drop(l, m)")])
lemma("constituents_nth", "l:L, m:I", "implies(constituents(l) and 0 <= m and m < lenL(l), constituent(nth(l, m)))", induct="l", trigger=[("constituents(l)", "drop(l, m)")])
lemma("rules_nth", "ix:D, a:V, n:I, m:I", "implies(good_index(ix) and 0 <= m and m < lenL(rules_of(ix, a, n)), is_rule(nth(rules_of(ix, a, n), m), ix) and mem(nth(rules_of(ix, a, n), m), rules_of(ix, a, n)))", trigger="drop(rules_of(ix, a, n), m)")
lemma("predicted", "r:V, e:I, text:S, ix:D", "implies(is_rule(r, ix) and 0 <= e and e <= len(text), sound(ChartState(r, 1, e, e), text, ix))", trigger="sound(ChartState(r, 1, e, e), text, ix)")
lemma("scanned", "r:V, i:I, j:I, text:S, ix:D", "implies(read_rule(r, text, i) and 0 <= i and j == i + len(asS(r.consequents[0].predicate)) and j <= len(text) and i < j, sound(ChartState(r, 2, i, j), text, ix))", trigger="sound(ChartState(r, 2, i, j), text, ix)", body=2)
lemma("reads_text", "kind:V, form:V, word:V, text:S, i:I", "implies(reads(kind, form, word, text, i), isinstance(form, str) and len(asS(form)) > 0 and i + len(asS(form)) <= len(text))", trigger="reads(kind, form, word, text, i)")
lemma("one_word", "w:V", "implies(isinstance(w, RuleConstituent) and isinstance(w.arguments, list) and isinstance(w.predicate, str) and len(asS(w.predicate)) > 0, constituents([w]))", trigger="constituents([w])")
lemma("enqueued", "a:L, n:I, b:L, x:V, e:D, text:S, ix:D", "implies(all_states(a, 0, e, text, ix) and 0 <= n and n < lenL(a) and b == list(nth(a, n)) and sound(x, text, ix) and keyed(x, e) and asI(x.end_char_index) == n, all_states(setnth(a, n, b + [x]), 0, e, text, ix))", trigger="all_states(setnth(a, n, b + [x]), 0, e, text, ix)")
lemma("started", "r:V, text:S, ix:D", "implies(start_rule(r), sound(ChartState(r, 1, 0, 0), text, ix))", trigger="sound(ChartState(r, 1, 0, 0), text, ix)", body=2)
contract(P + "entity/Chart.py", "Chart.build_incomplete_gamma_state", {}, self_fields=CF, no_raise="True", ret="V", types=dict(result="ChartState"),
         ensures=["isinstance(result, ChartState)", "gamma(result.rule)", "result.dot_position == 1", "result.start_char_index == 0", "result.end_char_index == 0", "sound(result, asS(self.text), gram())"])
contract(P + "entity/Chart.py", "Chart.build_complete_gamma_state", {}, self_fields=CF, no_raise="True", ret="V", types=dict(result="ChartState"),
         ensures=["isinstance(result, ChartState)", "gamma(result.rule)", "result.dot_position == 2", "result.start_char_index == 0", "result.end_char_index == len(asS(self.text))"])
E = P + "EarleyParser.py"





CO = dict(chart=dict(text="S", states="L", completed_states="D"), grammar_rules=dict(index="D"))
CHART = dict(chart=CF)
OK = "chart_ok(chart.text, chart.states, chart.completed_states, {ix})"
OK2 = ["isinstance(chart_post.states, list)", "len(list(chart_post.states)) == len(asS(chart.text)) + 1", "all_states(list(chart_post.states), 0, asD(chart.completed_states), asS(chart.text), {ix})", "grows(list(chart.states), list(chart_post.states))"]
IX = "asD(grammar_rules.index)"
NOW = ["isinstance(chart_now.states, list)", "len(list(chart_now.states)) == len(asS(chart.text)) + 1", "all_states(list(chart_now.states), 0, asD(chart.completed_states), asS(chart.text), {ix})", "grows(list(chart.states), list(chart_now.states))"]


def formula(f, ix):
    return f.format(ix=ix) if isinstance(f, str) else [x.format(ix=ix) for x in f]


@macro
def state_ok(s: V, text: S, done_states: D, ix: D) -> B:
    return sound(s, text, ix) and keyed(s, done_states)


contract(E, "EarleyParser.predict", dict(grammar_rules="V", chart="OBJ:Chart", state="V"), types=dict(grammar_rules="GrammarRules", state="ChartState"), objs=CHART,
         requires=["isinstance(grammar_rules, GrammarRules)", "isinstance(grammar_rules.index, dict)", f"good_index({IX})", formula(OK, IX), f"state_ok(state, asS(chart.text), asD(chart.completed_states), {IX})", "not complete(state)"],
         ret="N", no_raise="True", effects={"chart.states": "*"}, ensures=formula(OK2, IX),
         inv=formula(NOW, IX))

contract(E, "EarleyParser.perform_regexp", dict(text="S", start_index="I", regexp="V"), requires=["0 <= start_index", "start_index <= len(text)"], ret="V", no_raise="True",
         result="match_at(regexp, text[start_index:len(text)])")
contract(E, "EarleyParser.read_word", dict(text="S", start_index="I", word="S"), requires=["0 <= start_index", "start_index <= len(text)"], ret="B", no_raise="True",
         result="start_index + len(word) <= len(text) and part(text, start_index, len(word)).lower() == word.lower()")


@macro
def asked(s: V) -> V:
    """the constituent that a state waits for"""
    return s.rule.consequents[asI(s.dot_position) - 1]


TXT = "asS(chart.text)"
SE = "asI(state.end_char_index)"
contract(E, "EarleyParser.add_scanned_state", dict(chart="OBJ:Chart", state="V", word="S", sem="V"), types=dict(state="ChartState"), objs=CHART,
         requires=[formula(OK, "gram()"), f"state_ok(state, {TXT}, asD(chart.completed_states), gram())", "not complete(state)",
                   f"reads(asked(state).position_type, word, asked(state).predicate, {TXT}, {SE})"],
         ret="N", no_raise="True", effects={"chart.states": "*"}, ensures=formula(OK2, "gram()"))
contract(E, "EarleyParser.scan", dict(chart="OBJ:Chart", state="V"), types=dict(state="ChartState"), objs=CHART,
         requires=[formula(OK, "gram()"), f"state_ok(state, {TXT}, asD(chart.completed_states), gram())", "not complete(state)"],
         ret="N", no_raise="True", effects={"chart.states": "*"}, ensures=formula(OK2, "gram()"), inv=formula(NOW, "gram()"))


def whole_chart(c):
    return [f"isinstance({c}.states, list)", f"isinstance({c}.completed_states, dict)", f"len(list({c}.states)) == len(asS(chart.text)) + 1",
            f"all_states(list({c}.states), 0, asD({c}.completed_states), asS(chart.text), gram())", f"done(asD({c}.completed_states), asD({c}.completed_states), asS(chart.text), gram())"]


lemma("advanced", "s:V, r:V, d:V, i:V, j:V, text:S, ix:D", "implies(sound(s, text, ix) and not complete(s) and r == s.rule and d == asI(s.dot_position) + 1 and i == s.start_char_index and whole(j) and asI(s.end_char_index) < asI(j) and asI(j) <= len(text), sound(ChartState(r, d, i, j), text, ix))", trigger=[("sound(s, text, ix)", "sound(ChartState(r, d, i, j), text, ix)")], body=1)
contract(E, "EarleyParser.complete", dict(chart="OBJ:Chart", completed_state="V"), types=dict(completed_state="ChartState"), objs=CHART,
         requires=[formula(OK, "gram()"), f"state_ok(completed_state, {TXT}, asD(chart.completed_states), gram())", "complete(completed_state)"],
         ret="N", no_raise="True", effects={"chart.states": "*", "chart.completed_states": "*"}, ensures=whole_chart("chart_post") + ["grows(list(chart.states), list(chart_post.states))"],
         inv=whole_chart("chart_now") + ["grows(list(chart.states), list(chart_now.states))", "haskey(asD(chart_now.completed_states), completed_state.end_char_index)"])


def now(c):
    """of the chart that is being built"""
    return [x.replace("asS(chart.text)", "text") for x in whole_chart(c)]


GR = ["isinstance(grammar_rules, GrammarRules)", "isinstance(grammar_rules.index, dict)", f"good_index({IX})", f"{IX} == gram()"]
contract(E, "EarleyParser.buildChart", dict(grammar_rules="V", text="S"), types=dict(grammar_rules="GrammarRules", result="Chart"), requires=GR, ret="V", no_raise="True",
         ensures=["isinstance(result, Chart)", "result.text == text"] + now("result"),
         inv=now("chart_now") + ["chart_now.text == text", "ints(REST)", "len(ACC) == 0 or ACC[0] != TERMINAL", "0 <= NUM"])


# ---------------------------------------------------------------- trees
@spec
def span(t: V) -> I:
    """how much text a tree covers"""
    if terminal(t.rule):
        return len(asS(t.form))
    return spans(list(t.children))


@spec
def spans(ts: L) -> I:
    if len(ts) == 0:
        return 0
    return span(ts[0]) + spans(ts[1:])


@spec
def tree(t: V, text: S, ix: D, i: I) -> B:
    """a derivation of the text from position i"""
    return (isinstance(t, ParseTreeNode) and proper(t.rule) and t.category == t.rule.antecedent.predicate and isinstance(t.children, (list, tuple))
            and ite(terminal(t.rule), read_rule(t.rule, text, i) and len(list(t.children)) == 0 and t.form == t.rule.consequents[0].predicate,
                    (is_rule(t.rule, ix) or start_rule(t.rule)) and t.form == "" and forest(list(t.children), list(t.rule.consequents), text, ix, i)))


@spec
def forest(ts: L, cs: L, text: S, ix: D, i: I) -> B:
    """derivations of adjacent parts of the text, one for each constituent"""
    if len(cs) == 0:
        return len(ts) == 0
    return len(ts) > 0 and same(ts[0].rule.antecedent, cs[0]) and tree(ts[0], text, ix, i) and forest(ts[1:], cs[1:], text, ix, i + span(ts[0]))


@spec
def built(s: V, text: S, ix: D, e: D) -> B:
    """a complete state"""
    return (isinstance(s, ChartState) and whole(s.start_char_index) and whole(s.end_char_index)
            and 0 <= asI(s.start_char_index) and asI(s.start_char_index) <= asI(s.end_char_index) and asI(s.end_char_index) <= len(text) and proper(s.rule)
            and (s.start_char_index == 0 or haskey(e, s.start_char_index)) and (s.end_char_index == 0 or haskey(e, s.end_char_index))
            and ite(terminal(s.rule), read_rule(s.rule, text, asI(s.start_char_index)) and asI(s.end_char_index) == asI(s.start_char_index) + len(asS(s.rule.consequents[0].predicate)),
                    is_rule(s.rule, ix) or start_rule(s.rule)))


@spec
def chain(ss: L, cs: L, i: I, j: I, text: S, ix: D, e: D) -> B:
    """complete states for the constituents, from i to j"""
    if len(cs) == 0:
        return len(ss) == 0 and i == j
    return (len(ss) > 0 and built(ss[0], text, ix, e) and same(ss[0].rule.antecedent, cs[0]) and asI(ss[0].start_char_index) == i
            and chain(ss[1:], cs[1:], asI(ss[0].end_char_index), j, text, ix, e))


@spec
def chains(l: L, cs: L, i: I, j: I, text: S, ix: D, e: D) -> B:
    if len(l) == 0:
        return True
    return isinstance(l[0], list) and chain(list(l[0]), cs, i, j, text, ix, e) and chains(l[1:], cs, i, j, text, ix, e)


@spec
def tree_of(t: V, s: V, text: S, ix: D) -> B:
    """a tree for a state"""
    return tree(t, text, ix, asI(s.start_char_index)) and asI(s.start_char_index) + span(t) == asI(s.end_char_index) and t.rule == s.rule


@spec
def trees_of(l: L, s: V, text: S, ix: D) -> B:
    if len(l) == 0:
        return True
    return tree_of(l[0], s, text, ix) and trees_of(l[1:], s, text, ix)


@spec
def each(l: L, ss: L, text: S, ix: D) -> B:
    """the trees of each of the first states"""
    if len(l) == 0:
        return True
    return len(ss) > 0 and isinstance(l[0], list) and trees_of(list(l[0]), ss[0], text, ix) and each(l[1:], ss[1:], text, ix)


@spec
def fits(l: L, ss: L, text: S, ix: D) -> B:
    """a tree for each state"""
    if len(ss) == 0:
        return len(l) == 0
    return len(l) > 0 and tree_of(l[0], ss[0], text, ix) and fits(l[1:], ss[1:], text, ix)


@spec
def all_fit(l: L, ss: L, text: S, ix: D) -> B:
    if len(l) == 0:
        return True
    return isinstance(l[0], (list, tuple)) and fits(list(l[0]), ss, text, ix) and all_fit(l[1:], ss, text, ix)


@spec
def all_built(ss: L, text: S, ix: D, e: D) -> B:
    if len(ss) == 0:
        return True
    return built(ss[0], text, ix, e) and all_built(ss[1:], text, ix, e)


@spec
def before_all(x: V, ps: L) -> L:
    if len(ps) == 0:
        return []
    return [tuple([x] + list(ps[0]))] + before_all(x, ps[1:])


@spec
def combine(h: L, ps: L) -> L:
    if len(h) == 0:
        return []
    return before_all(h[0], ps) + combine(h[1:], ps)


@spec
def product(ls: L) -> L:
    """one of each, in all ways"""
    if len(ls) == 0:
        return [tuple([])]
    return combine(list(ls[0]), product(ls[1:]))


iface("ext", "itertools.product", dict(things="L"), ret="V", result="val(product(things))", assumed="itertools.product gives the product as documented (the last changes fastest); it is gone through once")
PT = P + "tree_extract.py"
lemma("all_fit_app", "a:L, b:L, ss:L, text:S, ix:D", "all_fit(app(a, b), ss, text, ix) == (all_fit(a, ss, text, ix) and all_fit(b, ss, text, ix))", induct="a", trigger="all_fit(app(a, b), ss, text, ix)")
lemma("before_fit", "x:V, ps:L, s:V, ss:L, text:S, ix:D", "implies(tree_of(x, s, text, ix) and all_fit(ps, ss, text, ix), all_fit(before_all(x, ps), [s] + ss, text, ix))", induct="ps", trigger="all_fit(before_all(x, ps), [s] + ss, text, ix)")
lemma("combine_fit", "h:L, ps:L, s:V, ss:L, text:S, ix:D", "implies(trees_of(h, s, text, ix) and all_fit(ps, ss, text, ix), all_fit(combine(h, ps), [s] + ss, text, ix))", induct="h", trigger="all_fit(combine(h, ps), [s] + ss, text, ix)")
lemma("product_fit", "l:L, ss:L, text:S, ix:D", "implies(each(l, ss, text, ix) and lenL(l) == lenL(ss), all_fit(product(l), ss, text, ix))", induct="l", trigger="all_fit(product(l), ss, text, ix)")
lemma("each_next", "a:L, ss:L, n:I, x:L, text:S, ix:D", "implies(each(a, ss, text, ix) and lenL(a) == n and n < lenL(ss) and trees_of(x, nth(ss, n), text, ix), each(a + [x], ss, text, ix))", induct="a", trigger=[("each(a + [x], ss, text, ix)", "drop(ss, n)")])
lemma("trees_app", "a:L, b:L, s:V, text:S, ix:D", "trees_of(app(a, b), s, text, ix) == (trees_of(a, s, text, ix) and trees_of(b, s, text, ix))", induct="a", trigger="trees_of(app(a, b), s, text, ix)")
lemma("chains_app", "a:L, b:L, cs:L, i:I, j:I, text:S, ix:D, e:D", "chains(app(a, b), cs, i, j, text, ix, e) == (chains(a, cs, i, j, text, ix, e) and chains(b, cs, i, j, text, ix, e))", induct="a", trigger="chains(app(a, b), cs, i, j, text, ix, e)")
lemma("chain_next", "ss:L, cs:L, c:V, s:V, i:I, j:I, k:I, text:S, ix:D, e:D", "implies(chain(ss, cs, i, j, text, ix, e) and built(s, text, ix, e) and same(s.rule.antecedent, c) and asI(s.start_char_index) == j and asI(s.end_char_index) == k, chain(ss + [s], cs + [c], i, k, text, ix, e))", induct="ss", cases=["cs"],
      trigger=[("chain(ss + [s], cs + [c], i, k, text, ix, e)", "chain(ss, cs, i, j, text, ix, e)")])
lemma("take_next", "a:L, n:I, m:I", "implies(0 <= n and n < lenL(a) and m == n + 1, take(a, m) == take(a, n) + [a[n]])", induct="a", trigger=[("take(a, m)", "take(a, n)")])
lemma("take_all", "a:L, n:I", "implies(lenL(a) <= n, take(a, n) == a)", induct="a", trigger="take(a, n)")
lemma("done_built", "s:V, text:S, ix:D, e:D", "implies(sound(s, text, ix) and complete(s) and keyed(s, e) and haskey(e, s.end_char_index), built(s, text, ix, e))", trigger=[("sound(s, text, ix)", "built(s, text, ix, e)")], body=1)
lemma("chain_fits", "ss:L, cs:L, ts:L, i:I, j:I, text:S, ix:D, e:D", "implies(chain(ss, cs, i, j, text, ix, e) and fits(ts, ss, text, ix), forest(ts, cs, text, ix, i) and i + spans(ts) == j)", induct="ss", cases=["cs"], trigger=[("chain(ss, cs, i, j, text, ix, e)", "fits(ts, ss, text, ix)")])
lemma("chain_built", "ss:L, cs:L, i:I, j:I, text:S, ix:D, e:D", "implies(chain(ss, cs, i, j, text, ix, e), all_built(ss, text, ix, e))", induct="ss", cases=["cs"], trigger="chain(ss, cs, i, j, text, ix, e)")

TREE = ["isinstance(chart, Chart)", "isinstance(chart.text, str)", "isinstance(chart.completed_states, dict)", "done(asD(chart.completed_states), asD(chart.completed_states), asS(chart.text), gram())"]
ALL = "asS(chart.text), gram(), asD(chart.completed_states)"
TG = "asS(chart.text), gram()"
TY = dict(chart="Chart", parent_state="ChartState", state="ChartState")
CS = "list(parent_state.rule.consequents)"
contract(PT, "find_state_sequences", dict(chart="V", parent_state="V", end_char_index="I", consequent_index="I"), types=TY,
         requires=TREE + [f"built(parent_state, {ALL})", "0 <= consequent_index", f"consequent_index < len({CS})", "end_char_index == 0 or haskey(asD(chart.completed_states), end_char_index)"],
         ret="L", no_raise="True", ensures=[f"chains(result, take({CS}, consequent_index + 1), asI(parent_state.start_char_index), end_char_index, {ALL})"],
         inv=[f"chains(ACC, take({CS}, consequent_index + 1), asI(parent_state.start_char_index), end_char_index, {ALL})",
              f"done_at(REST, end_char_index, asD(chart.completed_states), {TG})",
              f"chains(REST, take({CS}, consequent_index), asI(parent_state.start_char_index), asI(ELT1.start_char_index), {ALL})"])
contract(PT, "find_child_state_sequences", dict(chart="V", parent_state="V"), types=TY, requires=TREE + [f"built(parent_state, {ALL})"], ret="L", no_raise="True",
         ensures=[f"chains(result, {CS}, asI(parent_state.start_char_index), asI(parent_state.end_char_index), {ALL})"])
contract(PT, "create_permutations", dict(things="L"), ret="L", no_raise="True", result="product(things)")
lemma("built_nth", "ss:L, m:I, text:S, ix:D, e:D", "implies(all_built(ss, text, ix, e) and 0 <= m and m < lenL(ss), built(nth(ss, m), text, ix, e))", induct="ss", trigger=[("all_built(ss, text, ix, e)", "drop(ss, m)")])
contract(PT, "create_trees_for_states", dict(chart="V", states="L"), types=TY, requires=TREE + [f"all_built(states, {ALL})"], ret="L", no_raise="True",
         ensures=[f"all_fit(result, states, {TG})"], inv=[f"each(ACC, states, {TG})", "len(ACC) == IDX", f"all_built(REST, {ALL})"])
lemma("tree_made", "c:V, p:V, f:V, r:V, s:V, ss:L, cs:L, i:I, j:I, text:S, ix:D, e:D", "implies(built(s, text, ix, e) and not terminal(r) and r == s.rule and c == r.antecedent.predicate and f == '' and isinstance(p, (list, tuple)) and cs == list(r.consequents) and i == asI(s.start_char_index) and j == asI(s.end_char_index) and chain(ss, cs, i, j, text, ix, e) and fits(list(p), ss, text, ix), tree_of(ParseTreeNode(c, p, f, r), s, text, ix))",
      trigger=[("tree_of(ParseTreeNode(c, p, f, r), s, text, ix)", "chain(ss, cs, i, j, text, ix, e)")], body=1)
lemma("leaf_made", "c:V, f:V, r:V, s:V, text:S, ix:D, e:D", "implies(built(s, text, ix, e) and terminal(r) and r == s.rule and c == r.antecedent.predicate and f == r.consequents[0].predicate, tree_of(ParseTreeNode(c, [], f, r), s, text, ix))",
      trigger=[("tree_of(ParseTreeNode(c, [], f, r), s, text, ix)", "built(s, text, ix, e)")], body=1)
contract(PT, "create_trees_for_state", dict(chart="V", state="V"), types=TY, requires=TREE + [f"built(state, {ALL})"], ret="L", no_raise="True",
         ensures=[f"trees_of(result, state, {TG})"],
         inv=[f"trees_of(ACC, state, {TG})", f"chains(REST, list(state.rule.consequents), asI(state.start_char_index), asI(state.end_char_index), {ALL})", f"all_fit(REST, list(ELT1), {TG})"])


@macro
def root(t: V, text: S, ix: D) -> B:
    """a sentence that is the whole text"""
    return tree(t, text, ix, 0) and span(t) == len(text) and is_rule(t.rule, ix) and t.rule.antecedent.predicate == ROOT_CATEGORY


@spec
def roots(l: L, text: S, ix: D) -> B:
    if len(l) == 0:
        return True
    return root(l[0], text, ix) and roots(l[1:], text, ix)


@macro
def delta(r: V) -> B:
    return start_rule(r) and r.antecedent.predicate == DELTA


@spec
def below(t: V) -> V:
    """the first child"""
    return list(t.children)[0]


lemma("roots_app", "a:L, b:L, text:S, ix:D", "roots(app(a, b), text, ix) == (roots(a, text, ix) and roots(b, text, ix))", induct="a", trigger="roots(app(a, b), text, ix)")
lemma("under_gamma", "t:V, text:S, ix:D, i:I", "implies(tree(t, text, ix, i) and gamma(t.rule), isinstance(t, ParseTreeNode) and isinstance(t.children, (list, tuple)) and len(list(t.children)) == 1 and tree(list(t.children)[0], text, ix, i) and span(list(t.children)[0]) == span(t) and delta(list(t.children)[0].rule))", trigger="tree(t, text, ix, i)", body=1, fuel=4)
lemma("under_delta", "t:V, text:S, ix:D, i:I", "implies(tree(t, text, ix, i) and delta(t.rule), isinstance(t, ParseTreeNode) and isinstance(t.children, (list, tuple)) and len(list(t.children)) == 1 and tree(list(t.children)[0], text, ix, i) and span(list(t.children)[0]) == span(t) and is_rule(list(t.children)[0].rule, ix) and list(t.children)[0].rule.antecedent.predicate == ROOT_CATEGORY)", trigger="tree(t, text, ix, i)", body=1, fuel=4)
lemma("gamma_built", "s:V, text:S, ix:D, e:D", "implies(isinstance(s, ChartState) and gamma(s.rule) and s.start_char_index == 0 and s.end_char_index == len(text) and haskey(e, s.end_char_index), built(s, text, ix, e))", trigger="built(s, text, ix, e)", body=1)
lemma("tree_of_shape", "t:V, s:V, text:S, ix:D", "implies(tree_of(t, s, text, ix), tree(t, text, ix, asI(s.start_char_index)) and asI(s.start_char_index) + span(t) == asI(s.end_char_index) and t.rule == s.rule)", trigger="tree_of(t, s, text, ix)")
contract(PT, "extract_tree_roots", dict(chart="V"), types=TY, requires=TREE, ret="L", no_raise="True", ensures=[f"roots(result, {TG})"],
         inv=[f"roots(ACC, {TG})", f"trees_of(REST, VAL, {TG})"])
STATES = ["isinstance(chart.states, list)", "all_states(list(chart.states), 0, asD(chart.completed_states), asS(chart.text), gram())"]
contract(P + "unknown_word.py", "find_unknown_word", dict(chart="V"), types=TY, requires=TREE + STATES, ret="S", no_raise="True",
         inv=["-1 <= NUM", "whole(VAL) and -1 <= asI(VAL)", f"states_at(REST, NUM, asD(chart.completed_states), {TG})"])
contract(E, "EarleyParser.parse", dict(grammar_rules="V", text="S"), types=dict(grammar_rules="GrammarRules"), requires=GR, ret="V", no_raise="True",
         ensures=["isinstance(result, ProcessResult)", "isinstance(result.products, list)", "roots(list(result.products), text, gram())", "(result.error_type == '') == (len(list(result.products)) > 0)"])
