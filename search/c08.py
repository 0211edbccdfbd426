"""C08: texts written from rules, and texts that are no rules, against a reader of the grammar of its own"""
import os, shutil, tempfile
from .common import *
from richard.core.constants import DISJUNCTION
from richard.type.InferenceRule import InferenceRule
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
from richard.module.InferenceModule import InferenceModule

NAMES = ["parent", "p", "p_1", "five_horses", "père", "is", "x2", "a1b"]
VARN = ["X", "Y1", "Abc", "E_1", "Z"]
TEXTS = ["", "bob", "mary ann", "it's", 'say "hi"', "#no", "a, b", ":-", "x\ny", ".", "é", "0", "X", "(", "'"]


# ---------------------------------------------------------------- rules
def g_atom(rng, d):
    n = rng.choice([0, 1, 1, 2, 2, 3])
    return tuple([fresh_str(rng.choice(NAMES))] + [g_term(rng, d) for _ in range(n)])


def g_term(rng, d):
    r = rng.random()
    if r < .3:
        return var(rng.choice(VARN))
    if r < .5:
        return rng.choice([0, 1, 7, 12, 1000])
    if r < .6:
        return rng.choice([0.0, 1.5, 10.25, 0.1])
    if r < .8 or d == 0:
        return fresh_str(rng.choice(TEXTS))
    return g_body(rng, d - 1)


def g_body(rng, d):
    n = rng.choice([1, 1, 2, 3])
    out = []
    for i in range(n):
        if d > 0 and rng.random() < .25:
            k = rng.choice([1, 2, 2, 3]) if i > 0 else rng.choice([2, 2, 3])
            out.append((DISJUNCTION, [g_body(rng, d - 1) for _ in range(k)]))
        else:
            out.append(g_atom(rng, d))
    return out


def g_rule(rng):
    return InferenceRule(g_atom(rng, 1), g_body(rng, rng.randint(0, 2)) if rng.random() < .6 else [])


# ---------------------------------------------------------------- writing them
def w_atom(rng, a):
    if a[0] == DISJUNCTION:
        out = ["("]
        for i, b in enumerate(a[1]):
            out += ([";"] if i else []) + w_body(rng, b, True)
        return out + [")"]
    out = [a[0], "("]
    for i, t in enumerate(a[1:]):
        last = i == len(a) - 2
        bare = isinstance(t, list) and last and rng.random() < .5
        out += w_term(rng, t, bare)
        if not last or (not bare and rng.random() < .2):
            out.append(",")
    return out + [")"]


def w_body(rng, b, bare):
    out = []
    for i, a in enumerate(b):
        out += ([","] if i else []) + w_atom(rng, a)
    while not bare or rng.random() < .15:
        out, bare = ["("] + out + [")"], True
    return out


def w_term(rng, t, bare):
    if isinstance(t, Variable):
        return [t.name]
    if isinstance(t, (int, float)):
        return [str(t)]
    if isinstance(t, str):
        q = rng.choice("'\"")
        return [q + t.replace(q, "\\" + q) + q]
    return w_body(rng, t, bare)


def w_rule(rng, r):
    out = w_atom(rng, r.head)
    if r.body:
        out += [":-"] + w_body(rng, r.body, rng.random() < .7)
    return out + ["."]


def w_text(rng, tokens, comments):
    out = ""
    for t in tokens:
        glue = "" if not out or rng.random() < .3 else rng.choice([" ", "\n", "  ", "\t"])
        if not glue and out and (out[-1].isalnum() or out[-1] in "_.") and (t[0].isalnum() or t[0] == "_"):
            glue = " "
        if comments and rng.random() < .1:
            glue = rng.choice([" ", "\n", ""]) + rng.choice(["# it's\n", "#\n", "# a(X).\n", "# \"\n# :- \n", "####\n"])
        out += glue + t
    if comments and rng.random() < .4:
        out += rng.choice(["# end", "\n#", "# done\n", "\n\n"])
    return out


def typed_rules(rs):
    return None if rs is None else [(typed(r.head), typed(r.body)) for r in rs]


def answer(text, want, what):
    got = SimpleInferenceRuleParser().parse(text)
    if not isinstance(got, tuple) or len(got) != 2:
        bad(f"{what}: result {got!r}")
    rules, pos = got
    if want is None:
        if rules is not None or not isinstance(pos, int):
            bad(f"{what}: is not a sequence of rules, but the parser gives {got!r}")
    elif pos is not None or typed_rules(rules) != typed_rules(want):
        bad(f"{what}: got {got!r}, want {want!r}")


def t_spell(rng, i):
    rules = [g_rule(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    tokens = [t for r in rules for t in w_rule(rng, r)]
    text = w_text(rng, tokens, rng.random() < .5)
    note(text=text)
    answer(text, rules, "the text")


# ---------------------------------------------------------------- a reader of its own: tokens, then the grammar
def word(c):
    return c.isalnum() or c == "_"


def o_tokens(text):
    """(kind, value)"""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c.isspace():
            i += 1
            continue
        if c == "#":
            while i < len(text) and text[i] != "\n":
                i += 1
            continue
        if text.startswith(":-", i):
            out.append((":-", None))
            i += 2
            continue
        if c in ".,;()":
            out.append((c, None))
            i += 1
            continue
        if c in "'\"":
            j = i + 1
            while j < len(text) and text[j] != c:
                j += 2 if text.startswith("\\" + c, j) else 1
            if j < len(text):
                out.append(("text", text[i + 1:j].replace("\\" + c, c)))
                i = j + 1
                continue
            out.append(("other", c))
            i += 1
            continue
        j = i
        if c in "0123456789":
            while j < len(text) and text[j] in "0123456789":
                j += 1
            k = j
            if text.startswith(".", j):
                k = j + 1
                while k < len(text) and text[k] in "0123456789":
                    k += 1
            if k > j + 1:
                out.append(("number", float(text[i:k])))
                i = k
            else:
                out.append(("int", text[i:j]))
                i = j
            continue
        if word(c):
            while j < len(text) and word(text[j]):
                j += 1
            out.append(("var" if "A" <= c <= "Z" else "name", text[i:j]))
            i = j
            continue
        out.append(("other", c))
        i += 1
    return out


class No(Exception):
    pass


class Reader:
    def __init__(self, ts):
        self.ts, self.i = ts + [("end", None)], 0

    def peek(self):
        return self.ts[self.i][0]

    def take(self, kind):
        if self.peek() != kind:
            raise No()
        self.i += 1
        return self.ts[self.i - 1][1]

    def either(self, *fs):
        start = self.i
        for f in fs:
            try:
                return f()
            except No:
                self.i = start
        raise No()

    def many(self, f, sep):
        out = [f()]
        while self.peek() == sep:
            self.take(sep)
            out.append(f())
        return out

    def rules(self):
        out = []
        while self.peek() != "end":
            h = self.simple()
            b = []
            if self.peek() == ":-":
                self.take(":-")
                b = self.body()
            self.take(".")
            out.append(InferenceRule(h, b))
        return out

    def body(self):
        return self.either(self.grouped, lambda: self.many(self.atom, ","))

    def grouped(self):
        self.take("(")
        b = self.body()
        self.take(")")
        return b

    def atom(self):
        return self.disjunction() if self.peek() == "(" else self.simple()

    def disjunction(self):
        self.take("(")
        ds = self.many(self.body, ";")
        self.take(")")
        return (DISJUNCTION, ds)

    def simple(self):
        if self.peek() not in ("name", "var", "int"):
            raise No()
        name = self.take(self.peek())
        self.take("(")
        ts = []
        while True:
            start = self.i
            try:
                ts.append(self.term())
            except No:
                self.i = start
                break
            if self.peek() != ",":
                break
            self.take(",")
        self.take(")")
        return tuple([name] + ts)

    def term(self):
        k = self.peek()
        if k in ("text", "number"):
            return self.take(k)
        if k == "int":
            return int(self.take(k))
        if k == "var":
            return Variable(self.take(k))
        return self.body()


def o_read(text):
    try:
        return Reader(o_tokens(text)).rules()
    except No:
        return None


def t_damaged(rng, i):
    rules = [g_rule(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    tokens = [t for r in rules for t in w_rule(rng, r)]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(len(tokens) + 1)
        r = rng.random()
        if r < .35 and tokens:
            del tokens[min(k, len(tokens) - 1)]
        elif r < .6:
            tokens.insert(k, rng.choice([".", ",", ";", ":-", "(", ")", "a", "X", "0", "1.5", "'t'", "'", '"', "-", "$", ":", "?", "[", "p(X)"]))
        elif r < .8 and tokens:
            tokens = tokens[:k]
        elif len(tokens) > 1:
            k = rng.randrange(len(tokens) - 1)
            tokens[k], tokens[k + 1] = tokens[k + 1], tokens[k]
    text = w_text(rng, tokens, rng.random() < .3)
    note(text=text)
    answer(text, o_read(text), "the text")


def t_tokens(rng, i):
    tokens = [rng.choice([".", ",", ";", ":-", "(", "(", ")", ")", "a", "b", "X", "0", "1.5", "'t'", "p(X)", "p(X)", "q()"]) for _ in range(rng.randint(1, 9))]
    if rng.random() < .5:
        tokens = ["p(X)", ":-"] + tokens + ["."]
    text = " ".join(tokens)
    note(text=text)
    answer(text, o_read(text), "the text")


class Recorder(InferenceModule):
    def __init__(self):
        super().__init__()
        self.seen = []

    def insert_rule(self, rule):
        self.seen.append(rule)
        super().insert_rule(rule)


def t_file(rng, i):
    rules = [g_rule(rng) for _ in range(rng.choice([0, 1, 2, 4]))]
    tokens = [t for r in rules for t in w_rule(rng, r)]
    damaged = rng.random() < .4 and len(tokens) > 0
    if damaged:
        tokens = tokens[:-1] if rng.random() < .5 else tokens + ["("]
    text = w_text(rng, tokens, rng.random() < .5)
    note(text=text)
    d = tempfile.mkdtemp(prefix="c08")
    try:
        path = os.path.join(d, "rules.pl")
        with open(path, "w", newline="") as f:
            f.write(text)
        m = Recorder()
        want = o_read(text)
        if want is None:
            raises(lambda: m.import_rules(path), "import of a file that is no sequence of rules")
            same(m.seen, [], "rules inserted from it")
            same(m.rules, {}, "rules known after it")
        else:
            m.import_rules(path)
            same(typed_rules(m.seen), typed_rules(want), "rules inserted")
    finally:
        shutil.rmtree(d)
