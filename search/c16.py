"""C16: pipelines of blocks"""
from .common import *
from richard.block.FindOne import FindOne
from richard.block.FindAll import FindAll
from richard.block.TryFirst import TryFirst
from richard.block.Succeed import Succeed
from richard.core.System import System
from richard.entity.SentenceRequest import SentenceRequest
from richard.entity.ProcessResult import ProcessResult
from richard.interface.SomeProcessor import SomeProcessor
from richard.interface.Product import SomeProduct
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual

ERRORS = ["e1", "e2", "unknown_word", "x"]
KINDS = dict(one=FindOne, all=FindAll, first=TryFirst)


class P(SomeProduct):
    def __init__(self, v):
        self.v = v

    def get_output(self):
        return self.v

    def log(self, logger):
        pass

    def __repr__(self):
        return f"P({self.v})"


class Proc(SomeProcessor):
    """its answer depends on the products chosen so far"""

    def __init__(self, level, table, seed, log, procs, stateful):
        self.level, self.table, self.seed, self.log, self.procs, self.stateful, self.calls = level, table, seed, log, procs, stateful, 0

    def get_name(self):
        return f"p{self.level}"

    def process(self, request):
        seen = tuple(getattr(request.get_current_product(p), "v", None) for p in self.procs[:self.level])
        self.log.append((self.level, seen))
        self.calls += 1
        v = answer(self.seed, self.level, seen, self.calls if self.stateful else 0)
        if v[0] == "error":
            return ProcessResult([], v[1], list(v[2]))
        return ProcessResult([self.table.setdefault(x, P(x)) for x in v[1]], "")


def answer(seed, level, seen, calls):
    import random
    rng = random.Random(f"{seed}:{level}:{seen}:{calls}")
    if rng.random() < (.05 if level == 0 else .45):
        return ("error", rng.choice(ERRORS), [rng.choice(["a", "b"]) for _ in range(rng.randint(0, 2))])
    return ("ok", [f"{level}.{rng.randint(0, 3)}.{k}" for k in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))])


class Oracle:
    def __init__(self, kinds, seed, stateful):
        self.kinds, self.seed, self.cur, self.alt, self.log, self.stateful = kinds, seed, {}, {}, [], stateful
        self.calls = [0] * len(kinds)
        self.ends = []

    def run(self, level):
        if level == len(self.kinds):
            self.ends.append(dict(self.cur))
            return ("", [])
        seen = tuple(self.cur.get(j) for j in range(level))
        self.log.append((level, seen))
        self.calls[level] += 1
        v = answer(self.seed, level, seen, self.calls[level] if self.stateful else 0)
        if v[0] == "error":
            return (v[1], v[2])
        kind = self.kinds[level]
        if kind == "all":
            self.alt[level] = self.alt.get(level, []) + v[1]
        else:
            self.alt[level] = list(v[1])
        outcome = []
        for x in v[1]:
            self.cur[level] = x
            outcome.append(self.run(level + 1))
            if kind == "first" or (kind == "one" and outcome[-1][0] == ""):
                break
        if not outcome or any(e == "" for e, _ in outcome):
            return ("", [])
        return outcome[0]


def t_pipeline(rng, i):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    kinds = [rng.choice(list(KINDS)) for _ in range(n)]
    seed, stateful = rng.randint(0, 10 ** 9), rng.random() < .4
    log, procs, tables = [], [], [{} for _ in range(n)]
    for j in range(n):
        procs.append(Proc(j, tables[j], seed, log, procs, stateful))
    blocks = [KINDS[k](p) for k, p in zip(kinds, procs)]
    ends = []

    class End(Succeed):
        def process(self, request):
            ends.append({j: request.get_current_product(p).v for j, p in enumerate(procs) if request.get_current_product(p) is not None})
            return super().process(request)
    for b, nb in zip(blocks, blocks[1:] + [End(None)]):
        b.next_block = nb
    note(kinds=kinds, seed=seed, stateful=stateful)
    o = Oracle(kinds, seed, stateful)
    request = SentenceRequest("text")
    for run in range(rng.choice([1, 1, 2])):
        want = o.run(0)
        got = blocks[0].process(request)
        same((got.error_type, list(got.error_args)), want, f"result of run {run + 1}")
        same(log, o.log, "processors and the products they saw")
        same(ends, o.ends, "products current at the end of the pipeline")
        same({j: [x.v for x in request.get_alternative_products(p)] for j, p in enumerate(procs)}, {j: o.alt.get(j, []) for j in range(n)}, "alternative products")
        same({j: getattr(request.get_current_product(p), "v", None) for j, p in enumerate(procs)}, {j: o.cur.get(j) for j in range(n)}, "current products afterwards")


def t_system(rng, i):
    """System links the blocks and answers the last product's output, or stores the error"""
    n = rng.choice([1, 2, 3])
    kinds = [rng.choice(list(KINDS)) for _ in range(n)]
    seed = rng.randint(0, 10 ** 9)
    log, procs, tables = [], [], [{} for _ in range(n)]
    for j in range(n):
        procs.append(Proc(j, tables[j], seed, log, procs, False))
    stored = []

    m = Mod()
    m.relations = {}
    for name in ["type"] + ERRORS:
        m.add_relation(Relation("output_" + name, write_function=lambda values, context, name=name: stored.append(("output_" + name, *values)), arguments=["a"] * 9))
    system = System(model=Model([m]), input_pipeline=[KINDS[k](p) for k, p in zip(kinds, procs)])
    o = Oracle(kinds, seed, False)
    note(kinds=kinds, seed=seed)
    for run in range(2):
        o.cur, o.alt, o.log, log[:], stored[:] = {}, {}, [], [], []
        want = o.run(0)
        if want[0] == "" and n - 1 not in o.cur:
            return          # nothing was produced: there is no output to speak of
        got = system.enter(SentenceRequest("text"))
        same(log, o.log, "processors and the products they saw")
        if want[0] == "":
            same((got, stored), (o.cur[n - 1], []), "output")
        else:
            same((got, stored), (None, [("output_type", want[0]), ("output_" + want[0], *want[1])]), "stored error")


def t_languages(rng, i):
    locales = rng.sample(["en", "nl", "fr", "de"], rng.randint(1, 4))
    log = []
    parsers = {}

    class Parser(SomeProcessor):
        def __init__(self, locale, res):
            self.locale, self.res = locale, res

        def get_name(self):
            return "x"

        def process(self, request):
            log.append(self.locale)
            return self.res
    for l in locales:
        parsers[l] = Parser(l, ProcessResult([P(l + str(k)) for k in range(2)], "") if rng.random() < .5 else ProcessResult([], "err_" + l, [l]))
    sel = LanguageSelector(list(locales))
    multi = Multilingual(parsers, sel)
    a, b = FindOne(sel), FindOne(multi)
    a.next_block, b.next_block = b, Succeed(None)
    request = SentenceRequest("text")
    note(locales=locales, results={l: p.res for l, p in parsers.items()})
    got = a.process(request)
    ok = [l for l in locales if parsers[l].res.error_type == ""]
    tried = locales[:locales.index(ok[0]) + 1] if ok else locales
    same(log, tried, "parsers that were used")
    same((got.error_type, list(got.error_args)), ("", []) if ok else ("err_" + locales[0], [locales[0]]), "result")
    if ok:
        same((request.get_current_product(sel).get_output(), request.get_current_product(multi).v), (ok[0], ok[0] + "0"), "products")
    same([p.locale for p in request.get_alternative_products(sel)], locales, "locales")
