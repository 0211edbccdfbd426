"""C13: random parse trees composed one after the other by one composer, against an own composition up to the choice of new names"""
from .common import *
from richard.core.constants import POS_TYPE_RELATION, POS_TYPE_WORD_FORM
from richard.entity.GrammarRule import GrammarRule
from richard.entity.ParseTreeNode import ParseTreeNode
from richard.entity.RuleConstituent import RuleConstituent
from richard.entity.SentenceRequest import SentenceRequest
from richard.processor.parser.BasicParserProduct import BasicParserProduct
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.type.SemanticTemplate import SemanticTemplate

NAMES = ["E1", "E2", "E3", "Body", "V", "_"]


class Raises(Exception):
    pass


class Tokens:
    """new names of the oracle"""

    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return "#%d#" % self.n


# ---------------------------------------------------------------- generation
def term(rng, depth):
    r = rng.random()
    if r < .55:
        return var(rng.choice(NAMES))
    if r < .65:
        return ReifiedVariable(fresh_str(rng.choice(NAMES)))
    if r < .75:
        return fresh_str(rng.choice(["E1", "bob", "E2", ""]))
    if r < .8:
        return rng.choice([0, 1, None, 2.5])
    if depth > 2:
        return 7
    if r < .9:
        return [atom(rng, depth + 1) for _ in range(rng.randint(0, 2))]
    if r < .95:
        return tuple(term(rng, depth + 1) for _ in range(rng.randint(0, 2)))
    return SemanticTemplate([var("Body")], [atom(rng, depth + 1)])


def atom(rng, depth=0):
    a = (fresh_str(rng.choice(["p", "river", "scoped"])),) + tuple(term(rng, depth) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
    return list(a) if rng.random() < .05 else a


def atoms(rng, n=2):
    return [atom(rng) for _ in range(rng.randint(0, n))]


def meaning(rng, n, lists):
    """a function of the meanings of n children; it may return an object that it returned before"""
    own, more = atoms(rng), atoms(rng, 1)
    kind = rng.random()
    parts = [i for i in range(n) if rng.random() < .9]
    if rng.random() < .2:
        rng.shuffle(parts)
    if n == 0 and kind < .5 or kind < .15:
        return lambda *kids: own                                     # the same list each time
    if kind < .3:
        return lambda *kids: own + [("nested", list(kids), var("E1"))]
    if kind < .4 and not lists:
        return lambda *kids: SemanticTemplate([var("Body")], own + list(kids))
    if kind < .45 and not lists:
        return lambda *kids: kids[0] if kids else 5
    if kind < .5 and not lists:
        return lambda *kids: rng_free(own, kids)

    def f(*kids):
        out = list(own)
        for i in parts:
            k = kids[i] if i < len(kids) else []
            out = out + (k if isinstance(k, list) and all(isinstance(a, (tuple, list)) for a in k) else [("wrap", k)])
        return out + more
    return f


def rng_free(own, kids):
    return tuple(own) + tuple(kids)


def tree(rng, depth, cat_args, top=False):
    """a parse tree whose root has that many variables"""
    head = [rng.choice(NAMES[:4]) for _ in range(cat_args)]
    if rng.random() < .8:
        head = rng.sample(NAMES[:4], cat_args)
    cons, kids = [], []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        if depth >= 3 or rng.random() < .3:
            w = fresh_str(rng.choice(["the", "a", "river"]))
            cons.append(RuleConstituent(w, [], POS_TYPE_WORD_FORM))
            token = [None, None, lambda: "tok", lambda: [], lambda: [("tok", var("E1"))]][rng.randrange(5)]
            kids.append(ParseTreeNode(w, [], w, GrammarRule(RuleConstituent(w, [], POS_TYPE_WORD_FORM), [], token)))
        else:
            n = rng.choice([0, 1, 1, 2])
            args = [rng.choice(NAMES) for _ in range(n)]
            k = tree(rng, depth + 1, n)
            cons.append(RuleConstituent(k.category, args, POS_TYPE_RELATION))
            kids.append(k)
    sem = meaning(rng, sum(1 for k in kids if k.children or k.rule.sem), top)
    if rng.random() < .01:
        sem = None
    ex = rng.choice([None, None, None, 1])
    if ex:
        xs = atoms(rng)
        ex = (lambda *kids: xs) if rng.random() < .5 else (lambda *kids: xs + [("do", list(kids))])
    ds = atoms(rng)
    dialog = rng.choice([[], [], ds, lambda *kids: ds, lambda *kids: ds + [("say", list(kids))]])
    return ParseTreeNode("c%d" % rng.randrange(4), kids, "", GrammarRule(RuleConstituent("c", head, POS_TYPE_RELATION), cons, sem, ex, None, dialog))


# ---------------------------------------------------------------- definition
def rename(x, m):
    if isinstance(x, list):
        return [rename(y, m) for y in x]
    if isinstance(x, tuple):
        return tuple(rename(y, m) for y in x)
    if isinstance(x, SemanticTemplate):
        return SemanticTemplate(x.args, rename(x.body, m))
    if isinstance(x, Variable):
        return Variable(m[x.name]) if x.name in m else x
    if isinstance(x, ReifiedVariable):
        return m[x.name] if x.name in m else x
    return x


def meant(node, given, new):
    m = {}
    for a, g in zip(node.rule.antecedent.arguments, given):
        m[a] = g
    for c in node.rule.consequents:
        for a in c.arguments:
            if a not in m:
                m[a] = new.next()
    sems, infs, exes = [], [], []
    for k, c in zip(node.children, node.rule.consequents):
        if k.children:
            s, i, e = meant(k, [m[a] for a in c.arguments], new)
            sems.append(s)
            infs += i
            exes += e
        elif k.rule.sem:
            sems.append(k.rule.sem())
    s = copy.deepcopy(node.rule.sem(*copy.deepcopy(sems)))
    if node.rule.exec:
        exes = node.rule.exec(*copy.deepcopy(sems))
    infs = infs + (node.rule.dialog(*copy.deepcopy(sems)) if callable(node.rule.dialog) else node.rule.dialog)
    if isinstance(s, list):
        for a in s:
            for x in a:
                if isinstance(x, Variable) and x.name not in m and not x.name.startswith("#"):
                    m[x.name] = new.next()
    return rename(s, m), rename(copy.deepcopy(infs), m), rename(copy.deepcopy(exes), m)


class Match:
    """which name of the dialog stands for which of the oracle; one for one in the whole dialog"""

    def __init__(self):
        self.to, self.back = {}, {}

    def names(self, got, want, where):
        if not isinstance(want, str) or not want.startswith("#"):
            return same(got, want, where)
        if not isinstance(got, str):
            bad(f"{where}: got {got!r}, want a new name")
        if got in NAMES:
            bad(f"{where}: {got!r} is not a new name")
        if self.to.setdefault(want, got) != got or self.back.setdefault(got, want) != want:
            bad(f"{where}: name {got!r} where {self.to[want]!r} stands for the same variable, or {got!r} already stands for another one")

    def terms(self, got, want, where):
        if type(got) is not type(want):
            bad(f"{where}: got {got!r}, want {want!r} (a name # is a new one)")
        if isinstance(want, (list, tuple)):
            if len(got) != len(want):
                bad(f"{where}: got {got!r}, want {want!r} (a name # is a new one)")
            for g, w in zip(got, want):
                self.terms(g, w, where)
        elif isinstance(want, SemanticTemplate):
            same([a.name for a in got.args], [a.name for a in want.args], where)
            self.terms(got.body, want.body, where)
        elif isinstance(want, (Variable, ReifiedVariable)):
            self.names(got.name, want.name, where)
        else:
            self.names(got, want, where)


def whole(node):
    return (node.form != "" or node.rule.sem is not None) and all(whole(k) for k in node.children)


class Optimizer:
    def __init__(self):
        self.got = []

    def optimize(self, composition, root_variables):
        self.got.append((composition, root_variables))
        return {"a": 1, "b": composition}


def rules(node, out):
    out.append((node.rule, copy.deepcopy(node.rule.dialog) if isinstance(node.rule.dialog, list) else None, copy.deepcopy(node.rule.antecedent.arguments), [list(c.arguments) for c in node.rule.consequents]))
    for k in node.children:
        rules(k, out)
    return out


def show(node):
    if not node.children:
        return node.form
    r = node.rule
    kids = [k.rule.sem() for k in node.children if not k.children and k.rule.sem]
    try:
        own = r.sem(*[[("<child>",)] for k in node.children if k.children or k.rule.sem]) if r.sem else None
    except Exception as x:
        own = x
    return dict(rule=str(r), sem=own, leaves=kids, dialog=r.dialog, children=[show(k) for k in node.children])


def run(rng, trees, optimizer):
    parser = object()
    composer = SemanticComposer(parser, optimizer) if optimizer else SemanticComposer(parser)
    new, match = Tokens(), Match()
    for k, t in enumerate(trees):
        note(sentence=k + 1, tree=[show(x) for x in trees[:k + 1]], optimizer=bool(optimizer))
        before = rules(t, [])
        request = SentenceRequest("")
        request.set_current_product(parser, BasicParserProduct(t))
        if not whole(t):
            raises(lambda: composer.process(request), "a rule without meaning")
            continue
        roots = [new.next() for _ in t.rule.antecedent.arguments]
        sem, inf, exe = meant(t, roots, new)
        if optimizer and not isinstance(sem, list):
            raises(lambda: composer.process(request), "the meaning is not a list of atoms")
            continue
        result = composer.process(request)
        where = f"sentence {k + 1}"
        expect(len(result.products), 1, where + ": products")
        expect(result.error_type, "", where + ": error")
        p = result.products[0]
        match.terms(list(p.return_variables), roots, where + ": return variables")
        if optimizer:
            expect(len(optimizer.got), 1, where + ": optimizations")
            got, r = optimizer.got.pop()
            match.terms(list(r), roots, where + ": variables for the optimizer")
            expect(list(p.semantics_iterations.items()) == [("a", 1), ("b", got)], True, where + ": forms of the optimizer")
        else:
            got = p.get_semantics_last_iteration()
        match.terms(got, sem, where + ": semantics")
        match.terms(p.inferences, inf, where + ": inferences")
        match.terms(p.executable, exe, where + ": executable")
        for (r, d, a, c), (r2, d2, a2, c2) in zip(before, rules(t, [])):
            if repr(d) != repr(d2) or a != a2 or c != c2:
                bad(f"{where}: rule {r} was changed: dialog {d2!r} was {d!r}")


def t_dialog(rng, i):
    """several sentences; trees may come back, and so may rules"""
    trees = []
    for _ in range(rng.choice([1, 2, 3])):
        if trees and rng.random() < .3:
            trees.append(rng.choice(trees))
        else:
            trees.append(tree(rng, rng.choice([0, 1, 2]), rng.choice([0, 1, 1, 2]), rng.random() < .8))
    run(rng, trees, Optimizer() if rng.random() < .4 else None)


def t_deep(rng, i):
    """one chain of rules that pass two variables on, with private ones of the same names"""
    node = None
    for k in range(rng.randint(2, 6)):
        head = rng.sample(NAMES[:4], 2)
        args = [rng.choice(NAMES[:4]), rng.choice(NAMES[:4])]
        own = [("a%d" % k, *[var(rng.choice(NAMES[:4])) for _ in range(2)])]
        if node is None:
            leaf = ParseTreeNode("w", [], "w", GrammarRule(RuleConstituent("w", [], POS_TYPE_WORD_FORM), []))
            node = ParseTreeNode("c", [leaf], "", GrammarRule(RuleConstituent("c", head, POS_TYPE_RELATION), [RuleConstituent("w", [], POS_TYPE_WORD_FORM)], lambda own=own: own))
        else:
            both = rng.random() < .3
            cons = [RuleConstituent("c", args, POS_TYPE_RELATION)] + ([RuleConstituent("c", rng.sample(NAMES[:4], 2), POS_TYPE_RELATION)] if both else [])
            node = ParseTreeNode("c", [node] * len(cons), "", GrammarRule(RuleConstituent("c", head, POS_TYPE_RELATION), cons, lambda *kids, own=own: sum(kids, []) + own))
    run(rng, [node, node], None)
