"""random grammars without empty and cyclic rules, texts for them, and all derivations of a text by their definition"""
import re
from .common import *
from .gram import syn, plain, variants
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.earley.EarleyParser import EarleyParser

LIMIT = 45     # seconds for a case: some grammars give very many parts
WORDS = ["a", "b", "ab", "B", "aB", "ba", "é", "1"]
REGEXPS = ["[ab]+", "\\w+", "\\d{2}", "a|b", "ab|a", "b*a", "[a-z]\\d?", "a.", "\\w+(?= )"]
CATS = ["s", "x", "y", "z"]
NAMES = [["s", "x", "y", "z"], ["s", "x", "y", "z"], ["s", "delta", "gamma", "terminal"]]


class Grammar:
    """rules: [(category, args, views of the constituents of a variant)]; simple: as the author writes them"""


def constituent(rng, arity, lower, small):
    r = rng.random()
    if r < .4:
        return ("word", rng.choice(WORDS[:2] if small else WORDS), rng.random() < .15)
    if r < .55:
        return ("regexp", rng.choice(REGEXPS[:3] if small else REGEXPS))
    c = rng.choice(lower)
    return ("cat", c, ["E1", "E2", "E3"][:rng.choice(arity[c])], rng.random() < .0)


def make_rule(rng, cat, arity, small, CATS):
    n = rng.choice([1, 1, 2, 2, 3])
    cons = []
    for i in range(n):
        if i:
            cons.append(rng.choice([("sep",), ("glue",), ("glue",), ("osep",)] if not small or rng.random() < .1 else [("glue",)]))
        # a rule of one category only goes down
        lower = CATS[CATS.index(cat) + 1:] or None
        c = constituent(rng, arity, CATS if n > 1 else (lower or CATS[1:2]), small)
        if c[0] == "cat" and n == 1 and not lower:
            c = ("word", rng.choice(WORDS[:2] if small else WORDS), False)
        cons.append(c)
    return cons


def nested_ok(cat, vs, CATS):
    """no variant is empty, or one category that could lead back"""
    for v in vs:
        v = [c for c in v]
        if not v:
            return False
        if len(v) == 1 and v[0][2] == "relation" and CATS.index(v[0][0]) <= CATS.index(cat):
            return False
    return True


def grammar(rng):
    g = Grammar()
    g.cats = CATS = rng.choice(NAMES)
    arity = {c: rng.choice([[1], [1], [2], [1, 2]]) for c in CATS}
    g.rules, g.simple, seen = [], [], set()
    small = rng.random() < .5
    for cat in CATS:
        for ar in arity[cat]:
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                cons = make_rule(rng, cat, arity, small, CATS)
                args = ["E1", "E2", "E3"][:ar]
                views = plain([c for c in cons if c[0] != "glue"])
                vs = variants(views)
                if not nested_ok(cat, vs, CATS):
                    continue
                keys = [(cat, ar, tuple((c[0], len(c[1]), c[2]) for c in v)) for v in vs]
                if len(set(keys)) < len(keys) or set(keys) & seen:
                    continue
                seen |= set(keys)
                g.simple.append({"syn": syn(cat, args, cons, rng), "sem": lambda *a: []})
                g.rules += [(cat, ar, v) for v in vs]
    return g


def build(g):
    return SimpleGrammarRulesParser().parse_read_grammar(g.simple)


class TooMany(Exception):
    pass


class Derivations:
    """of a text; a tree is (category, number of arguments, constituents, trees) or ('word', word) or (/expression/, text)"""

    def __init__(self, g, text, limit=300):
        self.g, self.text, self.memo, self.limit = g, text, {}, limit

    def leaf(self, c, i, j):
        t = self.text[i:j]
        if c[2] == "word-form":
            return [(c[2], c[0], c[0])] if len(t) == len(c[0]) and t.lower() == c[0].lower() else []
        m = re.match(c[0], self.text[i:])
        if not m or j - i > m.end() or j == i:
            return []
        return [(c[2], c[0], t)] if j - i == m.end() or re.fullmatch(c[0], t) else []

    def cat(self, cat, ar, i, j):
        k = (cat, ar, i, j)
        if k not in self.memo:
            out = []
            for c, a, v in self.g.rules:
                if (c, a) == (cat, ar):
                    out += [("relation", cat, ar, view(v), ts) for ts in self.seq(v, i, j)]
            self.memo[k] = out
            if len(out) > self.limit:
                raise TooMany()
        return self.memo[k]

    def one(self, c, i, j):
        return self.cat(c[0], len(c[1]), i, j) if c[2] == "relation" else self.leaf(c, i, j)

    def seq(self, v, i, j):
        if not v:
            return [()] if i == j else []
        out = []
        rest = v[1:]
        for k in ([j] if not rest else range(i + 1, j - len(rest) + 1)):
            if k <= i:
                continue
            first = self.one(v[0], i, k)
            if first:
                out += [(f,) + r for f in first for r in self.seq(rest, k, j)]
                if len(out) > self.limit:
                    raise TooMany()
        return out

    def all(self):
        out = []
        for ar in (1, 2, 3):
            out += self.cat("s", ar, 0, len(self.text))
        return out


def view(v):
    return tuple((c[0], len(c[1]), c[2]) for c in v)


def structure(n):
    """of a tree that the parser gives"""
    r = n.rule
    if r.antecedent.position_type != "relation":
        return (r.antecedent.position_type, n.category, n.form)
    return ("relation", n.category, len(r.antecedent.arguments), tuple((c.predicate, len(c.arguments), c.position_type) for c in r.consequents), tuple(structure(c) for c in n.children))


def some_text(rng, g, long=False):
    """read from a random derivation, sometimes damaged"""
    def go(cat, ar, d):
        rs = [v for c, a, v in g.rules if (c, a) == (cat, ar)]
        if not rs:
            return rng.choice(WORDS)
        v = min(rng.sample(rs, min(len(rs), 3)), key=lambda v: sum(c[2] == "relation" for c in v)) if d <= 0 else rng.choice(rs)
        out = ""
        for c in v:
            if c[2] == "relation":
                if d < -6:
                    return "a"
                out += go(c[0], len(c[1]), d - 1)
            elif c[2] == "word-form":
                out += c[0] if rng.random() < .8 else c[0].upper()
            else:
                out += rng.choice(["a", "b", "ab", "12", "a1", "bba", "aa"]) * (rng.randrange(1, 20) if long else 1)
        return out
    ars = [a for c, a, v in g.rules if c == "s"]
    t = go("s", rng.choice(ars), rng.choice([1, 2, 3])) if ars else "a"
    n = 40 if long else 9
    if len(t) > n:
        t = t[:n]
    r = rng.random()
    if r < .1:
        t = ""
    elif r < .3 and t:
        k = rng.randrange(len(t))
        t = t[:k] + rng.choice(["", "a", " ", "1", "é", "İ", "K"]) + t[k + 1:]
    return t


def few(g, text):
    """does the text have few derivations"""
    try:
        Derivations(g, text).all()
        return True
    except TooMany:
        return False


def some_texts(rng, g, n):
    """texts with few derivations"""
    return [t for t in (some_text(rng, g) for _ in range(n)) if few(g, t)] or [""]
