"""C11: a grammar that has been used gives what a new one gives, and stays as it was"""
from .parse_gen import *
from richard.processor.parser.BasicParser import BasicParser
from .runner import Hang
import signal
from richard.entity.SentenceRequest import SentenceRequest


def content(rules):
    def c(x):
        return (x.predicate, tuple(x.arguments), x.position_type, x.optional, x.separator)
    return {a: {n: [(c(r.antecedent), tuple(c(x) for x in r.consequents), id(r.sem), r.boost) for r in rs] for n, rs in d.items()} for a, d in rules.index.items()}


def outcome(r):
    return ([structure(t) for t in r.products], r.error_type, list(r.error_args))


def t_again(rng, i):
    try:
        again(rng, i)
    except Hang:
        if not LONG:
            raise


LONG = []


def again(rng, i):
    LONG.clear()
    g = grammar(rng)
    rules = build(g)
    before = content(rules)
    parser = EarleyParser()
    texts = some_texts(rng, g, 3)
    if rng.random() < .2:
        # texts with the same beginning
        t = some_text(rng, g, True)
        # some grammars have very many parts of such a text; that is not what this is about
        LONG.append(1)
        signal.setitimer(signal.ITIMER_REAL, 1.5)
        t = [t[:rng.randrange(len(t) + 1)] + rng.choice(["", "a", "ab", "1", "b" * 9]) for _ in range(3)] + [t]
        texts += [x for x in t if few(g, x)]
    texts += [rng.choice(texts) for _ in range(3)]
    kept = []
    size = None
    for text in texts:
        note(grammar=[r["syn"] for r in g.simple], texts=texts)
        first = outcome(EarleyParser().parse(build(g), text))
        r = parser.parse(rules, text)
        if outcome(r) != first:
            bad(f"{text!r}: {outcome(r)}, with a new grammar {first}")
        kept.append((r, first))
        now = content(rules)
        for cat in before:
            if now.get(cat) != before[cat]:
                bad(f"the rules for {cat} have changed")
        if cat not in now:
            bad(f"{cat} is gone")
        n = sum(len(rs) for d in now.values() for rs in d.values())
        if size is not None and n > size:
            bad(f"the grammar has grown from {size} to {n} rules")
        size = n
        for cat in g.cats + ["nothing"]:
            for n in (0, 1, 2, 3):
                if len(rules.find_rules(cat, n)) != len(before.get(cat, {}).get(n, [])):
                    bad(f"{len(rules.find_rules(cat, n))} rules for {cat} with {n} arguments")
    for r, first in kept:
        if outcome(r) != first:
            bad("an earlier result has changed")


def t_block(rng, i):
    g = grammar(rng)
    note(grammar=[r["syn"] for r in g.simple])
    p = BasicParser(build(g))
    texts = some_texts(rng, g, 4)
    for text in texts + texts[::-1]:
        note(text=text)
        got = p.process(SentenceRequest(text))
        want = BasicParser(build(g)).process(SentenceRequest(text))
        same([structure(x.parse_tree) for x in got.products], [structure(x.parse_tree) for x in want.products], f"trees of {text!r}")
        same((got.error_type, list(got.error_args)), (want.error_type, list(want.error_args)), f"error of {text!r}")
