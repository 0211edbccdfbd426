"""C16: the control blocks of the pipeline. The request's state is (current products, alternative products, world); `world` stands for
everything else that processors and later blocks may change."""
from pyvc.theory import spec, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["BlockResult", "ProcessResult"]


@uninterpreted
def pr_result(processor: V, cur: D, alt: D, world: V) -> V:
    """what a processor returns"""


@uninterpreted
def pr_world(processor: V, cur: D, alt: D, world: V) -> V:
    """the world after it"""


@uninterpreted
def nb_result(block: V, cur: D, alt: D, world: V) -> V:
    """what the next block returns"""


@uninterpreted
def nb_cur(block: V, cur: D, alt: D, world: V) -> D:
    """the current products after it"""


@uninterpreted
def nb_alt(block: V, cur: D, alt: D, world: V) -> D:
    """the alternative products after it"""


@uninterpreted
def nb_world(block: V, cur: D, alt: D, world: V) -> V:
    """the world after it"""


RQ = "asD(request.current_products), asD(request.alternative_products), request.world"
ST = dict(current_products="D", alternative_products="D", world="V")
iface("SomeProcessor", "process", dict(self="V", request="OBJ:SentenceRequest"), result=f"pr_result(self, {RQ})", ret="V",
      ensures=["isinstance(result, ProcessResult)", "isinstance(result.products, list)", "isinstance(result.error_type, str)"],
      effects={"request.world": f"pr_world(self, {RQ})"}, trace="[('process', self, asD(request.current_products), asD(request.alternative_products))]",
      assumed="a processor returns a ProcessResult with a list of products and does not change the products recorded on the request")
iface("ControlBlock", "process", dict(self="V", request="OBJ:SentenceRequest"), result=f"nb_result(self, {RQ})", ret="V",
      ensures=["isinstance(result, BlockResult)", "isinstance(result.error_type, str)"],
      effects={"request.current_products": f"nb_cur(self, {RQ})", "request.alternative_products": f"nb_alt(self, {RQ})", "request.world": f"nb_world(self, {RQ})"},
      trace="[('next', self, asD(request.current_products), asD(request.alternative_products))]",
      assumed="the next block returns a BlockResult; it may change everything on the request")
iface("Logger", "add_process_result", dict(self="V", processor="V", result="V"), ret="N", assumed="logging has no effect on the request")


# ---------------------------------------------------------------- find-one
@spec
def one_end(nb: V, p: V, prods: L, cur: D, alt: D, w: V, err: V) -> T:
    """(result, current, alternative, world) after trying prods; err: the first error so far"""
    if len(prods) == 0:
        return (err, cur, alt, w)
    c1 = put(cur, p, prods[0])
    r = nb_result(nb, c1, alt, w)
    if r.error_type == "":
        return (BlockResult("", []), nb_cur(nb, c1, alt, w), nb_alt(nb, c1, alt, w), nb_world(nb, c1, alt, w))
    return one_end(nb, p, prods[1:], nb_cur(nb, c1, alt, w), nb_alt(nb, c1, alt, w), nb_world(nb, c1, alt, w), first_error(err, r))


@spec
def first_error(err: V, r: V) -> V:
    if err.error_type == "":
        return BlockResult(r.error_type, r.error_args)
    return err


@spec
def one_events(nb: V, p: V, prods: L, cur: D, alt: D, w: V) -> L:
    if len(prods) == 0:
        return []
    c1 = put(cur, p, prods[0])
    if nb_result(nb, c1, alt, w).error_type == "":
        return [('next', nb, c1, alt)]
    return cons(('next', nb, c1, alt), one_events(nb, p, prods[1:], nb_cur(nb, c1, alt, w), nb_alt(nb, c1, alt, w), nb_world(nb, c1, alt, w)))


# ---------------------------------------------------------------- find-all
@spec
def all_end(nb: V, p: V, prods: L, cur: D, alt: D, w: V, err: V, success: B) -> T:
    if len(prods) == 0:
        if success:
            return (BlockResult("", []), cur, alt, w)
        return (err, cur, alt, w)
    c1 = put(cur, p, prods[0])
    r = nb_result(nb, c1, alt, w)
    return all_end(nb, p, prods[1:], nb_cur(nb, c1, alt, w), nb_alt(nb, c1, alt, w), nb_world(nb, c1, alt, w),
                   ite(r.error_type == "", err, first_error(err, r)), success or r.error_type == "")


@spec
def all_events(nb: V, p: V, prods: L, cur: D, alt: D, w: V) -> L:
    if len(prods) == 0:
        return []
    c1 = put(cur, p, prods[0])
    return cons(('next', nb, c1, alt), all_events(nb, p, prods[1:], nb_cur(nb, c1, alt, w), nb_alt(nb, c1, alt, w), nb_world(nb, c1, alt, w)))


# ---------------------------------------------------------------- try-first
@spec
def first_end(nb: V, p: V, prods: L, cur: D, alt: D, w: V) -> T:
    if len(prods) == 0:
        return (BlockResult("", []), cur, alt, w)
    c1 = put(cur, p, prods[0])
    r = nb_result(nb, c1, alt, w)
    return (BlockResult(r.error_type, r.error_args), nb_cur(nb, c1, alt, w), nb_alt(nb, c1, alt, w), nb_world(nb, c1, alt, w))


@spec
def first_events(nb: V, p: V, prods: L, cur: D, alt: D, w: V) -> L:
    if len(prods) == 0:
        return []
    return [('next', nb, put(cur, p, prods[0]), alt)]


@spec
def old_alternatives(alt: D, p: V) -> L:
    if haskey(alt, p):
        return list(alt[p])
    return []


C = "asD(request.current_products)"
A = "asD(request.alternative_products)"
PR = f"pr_result(self.processor, {RQ})"
PRODS = f"list({PR}.products)"
W1 = f"pr_world(self.processor, {RQ})"
A1 = f"put({A}, self.processor, {PR}.products)"
A1ALL = f"put({A}, self.processor, old_alternatives({A}, self.processor) + {PRODS})"
NOW = "asD(request_now.current_products), asD(request_now.alternative_products), request_now.world"
OK = "BlockResult('', [])"
TR0 = "[('process', self.processor, asD(request.current_products), asD(request.alternative_products))]"


def block(cls, end, events, inv):
    contract(f"richard/block/{cls}.py", cls + ".process", dict(request="OBJ:SentenceRequest"), objs=dict(request=ST),
             requires=[f"implies(haskey({A}, self.processor), isinstance({A}[self.processor], list))"],
             result=f"ite({PR}.error_type != '', BlockResult({PR}.error_type, {PR}.error_args), {end}[0])", ret="V", no_raise="True",
             effects={"request.current_products": f"ite({PR}.error_type != '', {C}, asD({end}[1]))",
                      "request.alternative_products": f"ite({PR}.error_type != '', {A}, asD({end}[2]))",
                      "request.world": f"ite({PR}.error_type != '', {W1}, {end}[3])"},
             trace=f"{TR0} + ite({PR}.error_type != '', [], {events})", inv=inv, inv_timeout=300)


E1 = f"one_end(self.next_block, self.processor, {PRODS}, {C}, {A1}, {W1}, {OK})"
V1 = f"one_events(self.next_block, self.processor, {PRODS}, {C}, {A1}, {W1})"
block("FindOne", E1, V1, [
    f"{E1} == one_end(self.next_block, self.processor, REST, {NOW}, BlockResult('', []))",
    f"{E1} == one_end(self.next_block, self.processor, REST, {NOW}, BlockResult(VAL, VAL2))",
    f"{TR0} + {V1} == TRACE + one_events(self.next_block, self.processor, REST, {NOW})",
    "isinstance(request_now.current_products, dict)", "isinstance(request_now.alternative_products, dict)"])
E2 = f"all_end(self.next_block, self.processor, {PRODS}, {C}, {A1ALL}, {W1}, {OK}, False)"
V2 = f"all_events(self.next_block, self.processor, {PRODS}, {C}, {A1ALL}, {W1})"
block("FindAll", E2, V2, [
    f"{E2} == all_end(self.next_block, self.processor, REST, {NOW}, BlockResult(VAL, VAL2), FLAG)",
    f"{TR0} + {V2} == TRACE + all_events(self.next_block, self.processor, REST, {NOW})",
    "isinstance(request_now.current_products, dict)", "isinstance(request_now.alternative_products, dict)"])
E3 = f"first_end(self.next_block, self.processor, {PRODS}, {C}, {A1}, {W1})"
V3 = f"first_events(self.next_block, self.processor, {PRODS}, {C}, {A1}, {W1})"
block("TryFirst", E3, V3, [
    f"{E3} == first_end(self.next_block, self.processor, REST, {NOW})",
    f"{TR0} + {V3} == TRACE + first_events(self.next_block, self.processor, REST, {NOW})",
    "isinstance(request_now.current_products, dict)", "isinstance(request_now.alternative_products, dict)", "VAL == ''", "VAL == []", "STR == ''", "ACC == []", "NUM == 0"])
contract("richard/block/Succeed.py", "Succeed.process", dict(request="OBJ:SentenceRequest"), objs=dict(request=ST), result=OK, ret="V", no_raise="True")

# ---------------------------------------------------------------- language selection
CLASSES += ["LanguageSelectorProduct", "ControlBlock"]


@spec
def locale_products(ls: L) -> L:
    if len(ls) == 0:
        return []
    return cons(LanguageSelectorProduct(ls[0]), locale_products(ls[1:]))


LS = "richard/processor/language_selector/"
contract(LS + "LanguageSelector.py", "LanguageSelector.process", dict(request="V"), self_fields=dict(locales="L"),
         result="ProcessResult(locale_products(self.locales), '', [])", ret="V", no_raise="True",
         inv=["locale_products(self.locales) == ACC + locale_products(REST)"])
SEL = f"{C}[self.language_selector]"
PROC = f"asD(self.processors)[{SEL}.locale]"
contract(LS + "Multilingual.py", "Multilingual.process", dict(request="OBJ:SentenceRequest"), objs=dict(request=ST), self_fields=dict(processors="D", language_selector="V"),
         requires=[f"haskey({C}, self.language_selector)", f"isinstance({SEL}, LanguageSelectorProduct)"],
         must_raise=f"not haskey(asD(self.processors), {SEL}.locale)", no_raise=f"haskey(asD(self.processors), {SEL}.locale)",
         result=f"pr_result({PROC}, {RQ})", ret="V",
         effects={"request.world": f"pr_world({PROC}, {RQ})"},
         trace=f"[('process', {PROC}, {C}, {A})]")

lemma("last_drop", "a:L", "implies(lenL(a) > 0, a[lenL(a) - 1] == lastL(a))", induct="a", trigger="lastL(a)")


# ---------------------------------------------------------------- entering a sentence
iface("Solver", "solve", dict(self="V", atoms="V"), ret="V", trace="[('solve', atoms)]", assumed="Solver.solve does not change the request")
iface("*", "new:Solver", dict(model="V"), ret="V", result="solver_of(model)", types=dict(result="Solver"), assumed="making a solver has no effect")


@uninterpreted
def solver_of(model: V) -> V:
    """a solver for a model"""


@uninterpreted
def product_output(p: V) -> V:
    """the output value of a product"""


iface("SomeProduct", "get_output", dict(self="V"), ret="V", result="product_output(self)", assumed="reading the output of a product has no effect")
iface("*", "get_output", dict(self="V"), ret="V", result="product_output(self)", assumed="reading the output of a product has no effect")
NR = f"nb_result(self.reader_pipeline[0], {RQ})"
NC = f"nb_cur(self.reader_pipeline[0], {RQ})"
LASTP = "self.reader_pipeline[-1].processor"
contract("richard/core/System.py", "System.enter", dict(request="OBJ:SentenceRequest"), objs=dict(request=ST), self_fields=dict(reader_pipeline="L", model="V"),
         requires=["len(self.reader_pipeline) > 0", "isinstance(self.reader_pipeline[0], ControlBlock)", "isinstance(self.reader_pipeline[-1], ControlBlock)", f"implies({NR}.error_type == '', haskey({NC}, {LASTP}))", f"isinstance({NR}.error_args, list)"],
         no_raise="True",
         result=f"ite({NR}.error_type == '', product_output({NC}[{LASTP}]), None)", ret="V",
         effects={"request.current_products": NC, "request.alternative_products": f"nb_alt(self.reader_pipeline[0], {RQ})", "request.world": f"nb_world(self.reader_pipeline[0], {RQ})"},
         trace=f"[('next', self.reader_pipeline[0], {C}, {A})] + ite({NR}.error_type == '', [], [('solve', [('store', [('output_type', {NR}.error_type), tuple(['output_' + {NR}.error_type] + list({NR}.error_args))])])])")
