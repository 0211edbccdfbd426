"""C21: executing a composition, and contexts"""
from .common import *
from richard.entity.SentenceRequest import SentenceRequest
from richard.core.Logger import Logger
from richard.processor.semantic_composer.SemanticComposerProduct import SemanticComposerProduct
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
from richard.module.BasicDialogContext import BasicDialogContext

NAMES = ["a", "b", "it's", ""]


class Boom(Exception):
    pass


class World(SomeModule):
    """everything that is done is written down"""

    def __init__(self, dialog=None):
        super().__init__()
        self.log, self.store, self.dialog = [], [], dialog
        self.add_relation(Relation("fact", query_function=self.q_fact, write_function=self.w_fact, arguments=["x"]))
        self.add_relation(Relation("other", query_function=self.q_fact, write_function=self.w_other, arguments=["x", "y"]))
        self.add_relation(Relation("add", query_function=self.add, arguments=["x"]))
        self.add_relation(Relation("fail", query_function=self.fail, arguments=[]))
        self.add_relation(Relation("raise", query_function=self.boom, arguments=[]))
        self.add_relation(Relation("probe", query_function=self.probe, arguments=[]))

    def q_fact(self, values, context):
        self.log.append(("query", values[0]))
        return [[x] for x in self.store if values[0] is None or x == values[0]]

    def w_fact(self, values, context):
        self.log.append(("fact", values[0]))
        self.store.append(values[0])

    def w_other(self, values, context):
        self.log.append(("other", values[0], values[1]))

    def add(self, values, context):
        self.log.append(("add", values[0]))
        self.store.append(values[0])
        return [[None]]

    def fail(self, values, context):
        self.log.append(("fail",))
        return []

    def boom(self, values, context):
        self.log.append(("raise",))
        raise Boom()

    def probe(self, values, context):
        self.log.append(("active", tuple(len(context.solver.solve([("context", n)])) > 0 for n in NAMES)))
        return [[]]


def run_commands(atoms, log, store):
    for a in atoms:
        log.append(a)
        if a[0] == "fail":
            return
        store.append(a[1])


def t_execute(rng, i):
    w = World()
    m = Model([w])
    composer = object()
    ex = AtomExecutor(composer, m)
    log, store = [], []
    for _ in range(rng.randint(1, 3)):
        infs = [rng.choice([("fact", rng.randint(0, 3)), ("other", "x", rng.randint(0, 2))]) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        if infs and rng.random() < .4:
            infs.append(snap(infs[0]))
        execs = [rng.choice([("add", rng.randint(4, 8)), ("add", rng.randint(4, 8)), ("fail",)]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        forms = {}
        for k in rng.sample(["Semantics", "Names resolved", "Sorted by cost", "Isolated", "z", "A"], rng.randint(1, 4)):
            forms[k] = rng.choice([[("fact", var("E1"))], [("fact", rng.randint(0, 8))], [("add", 9)], [], [("add", 10), ("fact", var("E2"))]])
        last = list(forms.values())[-1]
        note(inferences=infs, executable=execs, forms=forms)
        lg = Logger()
        if rng.random() < .3:
            lg.log_stats()
        req = SentenceRequest("x", logger=lg)
        prod = SemanticComposerProduct(snap(forms), snap(infs), snap(execs), ["E1"])
        req.set_current_product(composer, prod)
        r = ex.process(req)
        for a in infs:
            log.append(a)
            if a[0] == "fact":
                store.append(a[1])
        run_commands(execs, log, store)
        want = [{}]
        for a in last:
            if a[0] == "add":
                log.append(a)
                store.append(a[1])
            elif isinstance(a[1], Variable):
                log.append(("query", None))
                want = [{a[1].name: x} for x in store]
            else:
                log.append(("query", a[1]))
                want = [{} for x in store if x == a[1]]
        if len(want) > 1:
            # alternatives that are the same are given once
            want = [x for n, x in enumerate(want) if x not in want[:n]]
        if w.log != log:
            bad(f"done: {w.log}, want {log}")
        if r.error_type != "" or len(r.products) != 1:
            bad(f"result {r}")
        got = [x for n, x in enumerate(r.products[0].bindings) if x not in r.products[0].bindings[:n]]
        expect(got, want, "bindings of the product")
        if repr(prod) != repr(SemanticComposerProduct(forms, infs, execs, ["E1"])):
            bad("the composition was changed")


def body(rng, depth):
    out = []
    for _ in range(rng.choice([0, 1, 2, 2, 3])):
        x = rng.random()
        if x < .35:
            out.append(("probe",))
        elif x < .5:
            out.append(("start_context", rng.choice(NAMES)))
        elif x < .6:
            out.append(("end_context", rng.choice(NAMES)))
        elif x < .67:
            out.append(("fail",))
        elif x < .74:
            out.append(("raise",))
        elif depth > 0:
            out.append(("with_context", rng.choice(NAMES), body(rng, depth - 1)))
    return out


def o_run(atoms, active, log):
    """False: failed"""
    for a in atoms:
        if a[0] == "probe":
            log.append(("active", tuple(n in active for n in NAMES)))
        elif a[0] == "start_context":
            active.add(a[1])
        elif a[0] == "end_context":
            active.discard(a[1])
        elif a[0] == "fail":
            log.append(("fail",))
            return
        elif a[0] == "raise":
            log.append(("raise",))
            raise Boom()
        else:
            active.add(a[1])
            try:
                o_run(a[2], active, log)
            finally:
                active.discard(a[1])


def t_context(rng, i):
    d = BasicDialogContext()
    w = World(d)
    m = Model([w, d])
    s = Solver(m)
    active, log = set(), []
    hist = []
    for _ in range(rng.randint(1, 4)):
        b = [("with_context", rng.choice(NAMES), body(rng, 2))] if rng.random() < .8 else body(rng, 2)
        hist.append(b)
        note(history=hist)
        ok = got = True
        try:
            o_run(b, active, log)
        except Boom:
            ok = False
        try:
            s.solve(b)
        except Boom:
            got = False
        expect(got, ok, "ends normally")
        if w.log != log:
            bad(f"seen {w.log}, want {log}")
        for n in NAMES:
            expect(len(s.solve([("context", n)])) > 0, n in active, f"context {n!r} active")
