"""C21: execution of a composed sentence, and contexts."""
from pyvc.theory import spec, macro, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = ["ProcessResult", "AtomExecutorProduct", "SemanticComposerProduct", "ExecutionContext"]


@uninterpreted
def solver_of(model: V, log_stats: V) -> V:
    """a new solver for a model"""


@uninterpreted
def fails(solver: V, atoms: V) -> B:
    """solving raises an exception"""


@uninterpreted
def stats_wanted(logger: V) -> V:
    """whether the logger asks for statistics"""


@spec
def last_form(d: D, ks: L, none: V) -> V:
    """the value of the last key"""
    if len(ks) == 0:
        return none
    return last_form(d, ks[1:], d[ks[0]])


@spec
def writes(solver: V, atoms: L) -> L:
    if len(atoms) == 0:
        return []
    return cons(('write', solver, atoms[0]), writes(solver, atoms[1:]))


@uninterpreted
def solved(solver: V, atoms: V, binding: V) -> L:
    """the bindings that solving gives"""


iface("*", "new:Solver", dict(model="V", log_stats="V"), optional=["log_stats"], ret="V", result="solver_of(model, log_stats)", types=dict(result="Solver"), assumed="making a solver has no effect on the model")
iface("Solver", "write_atom", dict(self="V", atom="V"), ret="N", trace="[('write', self, atom)]", assumed="Solver.write_atom stores one atom (C03)")
iface("Solver", "solve", dict(self="V", atoms="V", binding="V"), optional=["binding"], ret="L", result="solved(self, atoms, binding)", trace="[('solve', self, atoms, binding)]",
      assumed="Solver.solve gives bindings (C01); here only what it is asked and how often matters")
iface("Logger", "should_log_stats", dict(self="V"), ret="V", result="stats_wanted(self)", assumed="reading the logger's settings has no effect")

LAST = "last_form(asD(self.semantics_iterations), list(asD(self.semantics_iterations)), None)"
P = "richard/processor/"
contract(P + "semantic_composer/SemanticComposerProduct.py", "SemanticComposerProduct.get_semantics_last_iteration", {}, self_fields=dict(semantics_iterations="D"),
         result=LAST, ret="V", no_raise="True",
         inv=[f"{LAST} == last_form(asD(self.semantics_iterations), REST, VAL)"])

ST = dict(current_products="D", alternative_products="D", logger="V")
C = "asD(request.current_products)"
IN = f"{C}[self.composer]"
SO = "solver_of(self.model, stats_wanted(request.logger))"
FORM = f"last_form(asD({IN}.semantics_iterations), list(asD({IN}.semantics_iterations)), None)"
contract(P + "semantic_executor/AtomExecutor.py", "AtomExecutor.process", dict(request="OBJ:SentenceRequest"), objs=dict(request=ST), self_fields=dict(composer="V", model="V"),
         types=dict(),
         requires=[f"haskey({C}, self.composer)", f"isinstance({IN}, SemanticComposerProduct)", f"isinstance({IN}.inferences, list)", f"isinstance({IN}.semantics_iterations, dict)", "isinstance(request.logger, Logger)"],
         ensures=["isinstance(result, ProcessResult)", "result.error_type == ''", "len(list(result.products)) == 1", f"result.products[0].bindings == solved({SO}, {FORM}, {{}})",
                  "isinstance(result.products[0], AtomExecutorProduct)"],
         ret="V", no_raise="True",
         trace=f"writes({SO}, list({IN}.inferences)) + [('solve', {SO}, {IN}.executable, {{}}), ('solve', {SO}, {FORM}, {{}})]",
         inv=[f"writes({SO}, list({IN}.inferences)) == TRACE + writes({SO}, REST)"])

# ---------------------------------------------------------------- contexts
iface("Sqlite3DataSource", "insert", dict(self="V", table="V", columns="L", values="L"), ret="N", trace="[('insert', self, table, columns, values)]", assumed="the data source's insert is proved under C18")
iface("Sqlite3DataSource", "delete", dict(self="V", table="V", columns="L", values="L"), ret="N", trace="[('delete', self, table, columns, values)]", assumed="the data source's delete is proved under C18")
iface("SomeSolver", "solve", dict(self="V", atoms="V", binding="V"), optional=["binding"], ret="L", result="solved(self, atoms, binding)", trace="[('solve', self, atoms, binding)]",
      raise_trace="[('solve', self, atoms, binding)]", no_raise="not fails(self, atoms)", assumed="Solver.solve gives bindings or raises; either may have any effect on the store")
DC = "richard/module/BasicDialogContext.py"
NAME = "values[0]"
ON, OFF = [f"('{k}', self.data_source, 'context', ['name'], [values[0]])" for k in ("insert", "delete")]
BODY = "('solve', context.solver, values[1], context.binding)"
CTX = ["isinstance(context, ExecutionContext)", "isinstance(context.solver, SomeSolver)", "isinstance(self.data_source, Sqlite3DataSource)"]
contract(DC, "BasicDialogContext.with_context", dict(values="L", context="V"), self_fields=dict(data_source="V"),
         requires=["len(values) == 2"] + CTX, result="[[None, None]]", ret="L", no_raise="not fails(context.solver, values[1])",
         trace=f"[{ON}, {BODY}, {OFF}]", raise_trace=f"[{ON}, {BODY}, {OFF}]")
contract(DC, "BasicDialogContext.start_context", dict(values="L", context="V"), self_fields=dict(data_source="V"),
         requires=["len(values) == 1", CTX[2]], result="[[None]]", ret="L", no_raise="True", trace=f"[{ON}]")
contract(DC, "BasicDialogContext.end_context", dict(values="L", context="V"), self_fields=dict(data_source="V"),
         requires=["len(values) == 1", CTX[2]], result="[[None]]", ret="L", no_raise="True", trace=f"[{OFF}]")
