"""Symbolic execution of the real functions: generates and discharges the proof obligations of their contracts."""
import ast, itertools, re, time, z3
from . import theory as th
from .theory import SV, Unsupported, V, L, I, S, D, SET, truth, simp_and, simp_or, simp_not
from .contract import CONTRACTS, IFACE


class Cell:
    __slots__ = ("kind", "val", "owned", "escaped", "cls", "order", "ver", "ident", "init", "entry", "fbumps")

    def __init__(self, kind, val, owned=True, cls=None, order=None):
        self.kind, self.val, self.owned, self.cls, self.order = kind, val, owned, cls, order
        self.escaped, self.ver, self.ident, self.init, self.entry = False, 0, None, False, False
        self.fbumps = {}      # version -> the only field that changed then

    def copy(self):
        c = Cell(self.kind, dict(self.val) if self.kind == "OBJ" else self.val, self.owned, self.cls, self.order)
        c.escaped, c.ver, c.ident, c.init, c.entry = self.escaped, self.ver, self.ident, self.init, self.entry
        c.fbumps = dict(self.fbumps)
        return c


def stale(cell, path, ver):
    """may what a reference refers to have been replaced since"""
    return ver != cell.ver and not (cell.kind == "OBJ" and path and path[0][0] == "f" and all(v in cell.fbumps and cell.fbumps[v] != path[0][1] for v in range(ver + 1, cell.ver + 1)))


class St:
    __slots__ = ("env", "pc", "heap", "trace", "frames")

    def __init__(self):
        self.env, self.pc, self.heap, self.trace, self.frames = {}, [], {}, None, ()

    def copy(self):
        s = St()
        s.env, s.pc, s.heap, s.trace, s.frames = dict(self.env), list(self.pc), dict(self.heap), self.trace, self.frames
        return s

    def assume(self, c):
        if not z3.is_true(c):
            self.pc.append(c)
        return self


class Exc:
    def __init__(self, typ, line, why=""):
        self.typ, self.line, self.why = typ, line, why

    def __repr__(self):
        return f"{self.typ}@{self.line} {self.why}"


class Failure:
    def __init__(self, func, what, line=None, detail=""):
        self.func, self.what, self.line, self.detail = func, what, line, detail

    def __str__(self):
        return f"{self.func}: {self.what}" + (f" (line {self.line})" if self.line else "") + (f" -- {self.detail}" if self.detail else "")


UNDEF = SV("UNDEF", None)
BUILTINS = {"len", "isinstance", "list", "tuple", "dict", "set", "str", "int", "float", "range", "enumerate", "zip", "reversed", "any", "all",
            "sum", "max", "min", "sorted", "map", "filter", "hash", "callable", "print", "Exception", "ValueError", "TypeError", "KeyError",
            "IndexError", "StopIteration", "super", "bool", "type", "repr", "abs", "OSError", "next", "iter", "open", "id", "getattr", "hasattr",
            "RuntimeError", "AttributeError", "EOFError", "frozenset", "object", "any", "NotImplementedError", "format", "ZeroDivisionError"}
EXC_TYPES = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "StopIteration", "OSError", "RuntimeError", "AttributeError",
             "EOFError", "NotImplementedError", "ZeroDivisionError", "BaseException", "LookupError", "FileNotFoundError", "UnpicklingError"}
EXC_PARENTS = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
               "StopIteration": "Exception", "OSError": "Exception", "FileNotFoundError": "OSError", "RuntimeError": "Exception", "AttributeError": "Exception",
               "EOFError": "Exception", "NotImplementedError": "RuntimeError", "ZeroDivisionError": "Exception", "Exception": "BaseException",
               "UnpicklingError": "Exception"}


def exc_is(t, base):
    while t:
        if t == base:
            return True
        t = EXC_PARENTS.get(t)
    return False


class Loop:
    """what an invariant template may speak about"""
    def __init__(self):
        self.idx = self.rest = self.seq = None
        self.iterkind = None


class Exec:
    MAXPATHS = 400

    def __init__(self, repo, c, log=lambda *a: None):
        self.repo, self.c, self.log = repo, c, log
        self.fi = repo.find(c.file, c.qual)
        if self.fi is None:
            raise Unsupported(f"function {c.qual} not found")
        self.failures, self.obl, self.ok = [], 0, 0
        self.obl_names = []
        self.cellno = itertools.count(1)
        self.sinks = []
        self.loops = []
        self.depth = 0
        self.ghost = {}
        self.quiet = 0
        self.assumed_used = set()
        self.callees = set()
        self.inlined = set()
        self.inv_used = []
        self.havoc_vars = []
        self.module = self.fi.module
        self.cls = self.fi.cls.name if self.fi.cls else None
        self.unwritten = []
        self.cleanup = []
        self.reach = 0

    # ------------------------------------------------------------------ entry
    def run(self):
        """with a `when` clause: once under that assumption, once without it for the frame conditions only"""
        self.use_when = True
        th.ENABLED.clear()
        th.ENABLED.update(self.c.using)
        self.run1()
        if self.c.when and not self.failures:
            self.use_when = False
            self.ghost = {}
            self.__dict__.pop("_known", None)
            self.run1()

    def run1(self):
        c = self.c
        th.FUEL_NOW[:] = [c.fuel]
        st = St()
        st.trace = th.T.nil
        env = {}
        fparams = self.fi.params
        extra = [p for p in c.params if p not in fparams]
        missing = [p for p in fparams if p not in c.params and p != "self"]
        a = self.fi.node.args
        ndef = len(a.defaults)
        defaulted = set(fparams[len(fparams) - ndef:]) if ndef else set()
        if extra and not (a.vararg and a.vararg.arg in extra):
            # renamed parameters: match the contract's by position
            cp = list(c.params)
            fp = [p for p in fparams if p != "self"]
            if len(fp) < len(cp):
                raise Unsupported(f"parameters changed: {fparams}")
            self.rename = dict(zip(fp, cp))
        else:
            self.rename = {}
        inv_rename = {v: k for k, v in self.rename.items()}
        if "self" in fparams:
            if c.self_val is None:
                sv = self.symbolic_obj(st, self.cls, c.self_fields, "self")
            else:
                sv = SV("V", th.T.fresh("self", th.T.Val), (self.cls, []))
                st.assume(th.T.is_("O_" + c.self_val, sv.t))
            env["self"] = sv
            self.ghost["self"] = self.objenv(st, sv) if c.self_val is None else sv
        for name, kind in c.params.items():
            pname = inv_rename.get(name, name)
            ann = next((x.annotation for x in a.posonlyargs + a.args if x.arg == pname), None)
            ty = th.ann_ty(c.types.get(name)) if name in c.types else th.ann_ty(ann)
            if kind.startswith("OBJ:"):
                sv = self.symbolic_obj(st, kind[4:], c.objs.get(name, {}), name)
                self.ghost[name] = self.objenv(st, sv)
            elif kind == "ML":      # a list of the caller, that the function may change
                t = th.T.fresh(name, th.T.VL)
                sv = self.new(st, "L", t, ty=ty)
                st.heap[sv.x[0]].entry = True
                self.ghost[name] = SV("L", t, ty)
            elif kind == "MD":      # a dictionary of the caller, that the function may change
                t = th.T.fresh(name, th.T.sorts["D"])
                sv = self.new(st, "D", t, ty=ty)
                st.heap[sv.x[0]].entry = True
                self.ghost[name] = SV("D", t, ty)
            elif kind == "LV":      # a list (as value), known to be a list
                t = th.T.fresh(name, th.T.VL)
                sv = SV("L", t, ty)
                self.ghost[name] = sv
            else:
                sv = th.T.mk(kind, name, ty)
                self.ghost[name] = sv
                if kind == "V" and ty and ty[0] in th.T.classes and name not in c.types:
                    st.assume(th.T.is_("O_" + ty[0], sv.t))
                    th.assume_note("ann", "parameters annotated with an entity class hold an instance of that class")
                elif kind == "V" and name in c.types and ty and ty[0] in th.T.classes:
                    st.assume(th.T.is_("O_" + ty[0], sv.t))
            env[pname] = sv
        for p in missing:
            if p not in env and p not in self.rename:
                if p in defaulted:
                    d = a.defaults[fparams.index(p) - (len(fparams) - ndef)]
                    env[p] = self.const_expr(d)
                elif p in inv_rename.values():
                    pass
                elif p not in self.rename:
                    raise Unsupported(f"new parameter {p}")
        for n, e in c.ghost.items():
            self.ghost[n] = self.spec(e, {})
        st.env = env
        for r in c.requires:
            st.assume(truth(self.spec(r, {})))
        if c.when and self.use_when:
            st.assume(truth(self.spec(c.when, {})))
        for cell in st.heap.values():
            cell.init = True
        if not th.feasible(st.pc, 3000):
            self.fail("precondition is contradictory (vacuous contract)")
            return
        self.entry = st.copy()
        for n, ce in list(st.heap.items()):
            self.entry.heap[n] = ce.copy()
        if c.decreases:
            self.dec0 = I(self.spec(c.decreases, {}))
        self.sinks.append([])
        try:
            outs = self.block(self.fi.node.body, st)
            raised = self.sinks.pop()
        except Unsupported as e:
            self.fail(f"outside the supported subset: {e}", getattr(self, "line", None))
            return
        for s, x in raised:
            outs.append(("raise", s, x))
        for k, s, p in outs:
            if k in ("next", "return"):
                rv = p if k == "return" else SV("V", th.T.none)
                try:
                    self.exit_normal(s, rv)
                except Unsupported as e:
                    self.fail(f"outside the supported subset: {e}", getattr(self, "line", None))
            elif k == "raise":
                self.exit_raise(s, p)
            else:
                self.fail("break outside loop")
        if self.obl == 0:
            self.fail("no obligation generated")

    def objenv(self, st, sv):
        if st.heap[sv.x[0]].ident is None:
            c2 = st.heap[sv.x[0]] = st.heap[sv.x[0]].copy()
            c2.ident = th.T.fresh(f"{c2.cls}.id", th.T.Val)
        cell = st.heap[sv.x[0]]
        x = {f: self.objenv(st, v) if v.kind == "REF" and not v.x[1] and st.heap[v.x[0]].kind == "OBJ" else v for f, v in cell.val.items()}
        x["$id"] = SV("V", cell.ident)
        return SV("OBJ", None, (cell.cls, []), x=x)

    def symbolic_obj(self, st, cls, kinds, name):
        fields = {}
        for f in self.repo.fields(cls):
            ty = th.ann_ty(self.repo.annotation(cls, f))
            k = kinds.get(f, "V")
            if k == "D":
                fields[f] = SV("V", th.T.Val.VDict(th.T.fresh(f"{name}.{f}", th.T.sorts["D"])), ty)
            elif k in ("L", "T"):
                fields[f] = SV("V", (th.T.Val.VList if k == "L" else th.T.Val.VTup)(th.T.fresh(f"{name}.{f}", th.T.VL)), ty)
            elif k == "I":
                fields[f] = SV("V", th.T.Val.VInt(th.T.fresh(f"{name}.{f}", z3.IntSort())), ty)
            elif k == "S":
                fields[f] = SV("V", th.T.Val.VStr(th.T.fresh(f"{name}.{f}", z3.StringSort())), ty)
            elif k == "B":
                fields[f] = SV("V", th.T.Val.VBool(th.T.fresh(f"{name}.{f}", z3.BoolSort())), ty)
            elif k.startswith("OBJ:"):
                fields[f] = self.symbolic_obj(st, k[4:], self.c.objs.get(f"{name}.{f}", {}), f"{name}.{f}")
            else:
                fields[f] = SV("V", th.T.fresh(f"{name}.{f}", th.T.Val), ty)
        for f in kinds:
            if f not in fields:
                fields[f] = SV("V", th.T.fresh(f"{name}.{f}", th.T.Val))
        cell = Cell("OBJ", fields, True, cls)
        cell.ident = th.T.fresh(name + ".id", th.T.Val)
        st.assume(th.T.is_("VOpq", cell.ident))
        cell.entry = True
        cid = next(self.cellno)
        st.heap[cid] = cell
        return SV("REF", None, (cls, []), x=(cid, (), 0))

    def spec(self, e, env):
        for m in re.findall(r"\bMETH_(\w+)", e) if isinstance(e, str) else ():
            if "METH_" + m not in self.ghost:       # the bound method of self, as a value
                self.ghost["METH_" + m] = SV("V", self.fun_term(self.entry, SV("F", None, x=("bound", self.entry.env["self"], m))))
        g = dict(self.ghost)
        g.update(env)
        return th.SpecTr(self.c.fuel).ex(ast.parse(e, mode="eval").body if isinstance(e, str) else e, g)

    # ------------------------------------------------------------------ obligations
    def fail(self, what, line=None, detail=""):
        if not self.quiet:
            f = Failure(self.c.qual, what, line, detail)
            if str(f) not in [str(x) for x in self.failures]:
                self.failures.append(f)

    def oblige(self, st, goal, what, line=None):
        if self.quiet:
            return th.prove(st.pc, goal, 1500, retry=False)
        self.obl += 1
        t0 = time.time()
        ok = th.prove(st.pc, goal, self.c.timeout)
        self.obl_names.append((what, line, ok, round(time.time() - t0, 3)))
        if ok:
            self.ok += 1
        else:
            self.fail(what, line)
        return ok

    def exit_normal(self, st, rv):
        c = self.c
        self.reach += 1
        env = {}
        env_t = self.exit_env(st)
        if c.must_raise:
            self.oblige(st, simp_not(truth(self.spec(c.must_raise, {}))), f"must raise when {c.must_raise}")
        if c.when and not self.use_when:
            self.frame(st, env_t)
            return
        if c.result is not None or any("result" in e for e in c.ensures):
            r = self.rd(st, rv)
            if r.kind == "OBJ" or r.kind == "REF":
                r = SV("V", self.val(st, r))
            if c.result is not None:
                want = self.spec(c.result, env_t)
                want = th.as_kind(want, c.ret)
                if r.kind == c.ret:
                    goal = th.eq(r, want)
                else:
                    goal = th.eq(SV("V", V(r)), SV("V", V(want)))
                self.oblige(st, goal, f"postcondition: result == {c.result}")
            env["result"] = r if r.kind in th.T.sorts else SV("V", V(r))
        for e in c.ensures:
            self.oblige(st, truth(self.spec(e, dict(env, **env_t))), f"postcondition: {e}")
        self.frame(st, env_t)

    def exit_env(self, st):
        """final values: self_post, <param>_post"""
        out = {}
        for n, g in self.ghost.items():
            if g.kind == "OBJ" and n in self.entry.env:
                sv = self.entry.env[n]
                if sv.kind == "REF":
                    out[n + "_post"] = self.objenv(st, sv)
        for n, k in self.rename.items():
            sv = self.entry.env.get(n)
            if sv is not None and sv.kind == "REF" and st.heap[sv.x[0]].kind == "OBJ":
                out[k + "_post"] = self.objenv(st, sv)
        for n, sv in self.entry.env.items():
            if sv.kind == "REF" and st.heap[sv.x[0]].kind in "LD":
                out[self.rename.get(n, n) + "_post"] = SV(st.heap[sv.x[0]].kind, st.heap[sv.x[0]].val)
        return out

    def frame(self, st, env_t):
        """state reachable from self / object parameters: equal to the effects, unchanged otherwise"""
        c = self.c
        for n, sv in self.entry.env.items():
            if sv.kind != "REF":
                continue
            cid = sv.x[0]
            pn = self.rename.get(n, n)
            self.frame_cell(st, cid, pn, env_t)
        if c.trace != "*" and not (c.when and not self.use_when):
            want = self.spec(c.trace, env_t) if c.trace else SV("L", th.T.nil)
            self.oblige(st, th.eq(SV("L", st.trace), th.as_kind(want, "L")), f"external effects are exactly {c.trace or 'none'}")

    def frame_cell(self, st, cid, pn, env_t, exc=False):
        """exc: an exception is raised; what has an effect may then have any value (callers assume no more)"""
        c = self.c
        ex = ", even when an exception is raised" if exc else ""
        kk = self.entry.heap[cid].kind
        if kk in "LD":
            v0, v1 = self.entry.heap[cid].val, st.heap[cid].val
            if pn in c.effects:
                if not (c.when and not self.use_when) and not exc:
                    self.oblige(st, th.eq(SV(kk, v1), th.as_kind(self.spec(c.effects[pn], env_t), kk)), f"effect: {pn} == {c.effects[pn]}")
            elif not v1.eq(v0):
                self.oblige(st, v1 == v0, f"frame: {pn} is not modified{ex}")
            return
        for f, v0 in self.entry.heap[cid].val.items():
            key = f"{pn}.{f}"
            v1 = st.heap[cid].val.get(f)
            if v0.kind == "REF":
                if key in c.effects and c.effects[key] == "*":
                    continue
                if v1 is None or v1.kind != "REF" or v1.x[0] != v0.x[0]:
                    self.oblige(st, z3.BoolVal(False), f"frame: {key} is replaced{ex}")
                    continue
                self.frame_cell(st, v0.x[0], key, env_t, exc)
                continue
            if key in c.effects:
                if c.effects[key] == "*" or (c.when and not self.use_when) or exc:
                    continue
                want = self.spec(c.effects[key], env_t)
                got = SV("V", self.val(st, v1))
                self.oblige(st, th.eq(got, SV("V", V(want))), f"effect: {key} == {c.effects[key]}")
            else:
                got = SV("V", self.val(st, v1))
                if not got.t.eq(v0.t):
                    self.oblige(st, got.t == v0.t, f"frame: {key} is not modified{ex}")

    def exit_raise(self, st, x):
        c = self.c
        self.reach += 1
        if c.when and not self.use_when:
            return
        nr = c.no_raise if c.no_raise is not None else c.when
        if nr is not None:
            goal = simp_not(truth(self.spec(nr, {})))
            txt = f"no exception when {nr}"
        elif c.must_raise is not None:
            goal = truth(self.spec(c.must_raise, {}))
            txt = f"exception only when {c.must_raise}"
        else:
            goal = z3.BoolVal(False)
            txt = "no exception"
        self.oblige(st, goal, f"{txt} [{x.typ}: {x.why}]", x.line)
        if c.raise_trace is not None:
            want = self.spec(c.raise_trace, self.exit_env(st))
            self.oblige(st, th.eq(SV("L", st.trace), th.as_kind(want, "L")), f"external effects when an exception is raised are exactly {c.raise_trace}", x.line)
        env_t = self.exit_env(st)
        for e in c.raise_ensures:
            self.oblige(st, truth(self.spec(e, env_t)), f"when an exception is raised: {e}", x.line)
        for n, sv in self.entry.env.items():
            if sv.kind == "REF":
                self.frame_cell(st, sv.x[0], self.rename.get(n, n), env_t, True)

    # ------------------------------------------------------------------ heap
    def new(self, st, kind, val, cls=None, order=None, ty=None):
        cid = next(self.cellno)
        st.heap[cid] = Cell(kind, val, True, cls, order)
        return SV("REF", None, ty or ((cls, []) if cls else None), x=(cid, (), 0))

    def rd(self, st, sv):
        """current contents: REF -> L / D / SET / V; objects stay REF"""
        if sv.kind == "REF":
            cid, path, ver = sv.x
            cell = st.heap[cid]
            if not path:
                if cell.kind == "OBJ":
                    return sv
                return SV(cell.kind, cell.val, sv.ty)
            if stale(cell, path, ver):
                raise Unsupported("reference into a structure that was changed meanwhile")
            return SV("V", self.at(st, cell, path), sv.ty)
        return sv

    def at(self, st, cell, path):
        if cell.kind == "OBJ":
            f = path[0][1]
            t = self.val(st, cell.val[f], escape=False)
            path = path[1:]
        else:
            t = V(SV(cell.kind, cell.val))
        for k, x in path:
            t = self.step(t, k, x)
        return t

    def step(self, t, k, x):
        if k == "k":
            return th.sel(th.D(SV("V", t)), th.T.key(x))
        if k == "i":
            return th.nth(th.seqof(t), x)
        if k == "f":
            return th.attr(SV("V", t), x)[0].t
        raise Unsupported("path")

    def val(self, st, sv, escape=True):
        """as a value (snapshot); the object is shared from now on"""
        if sv.kind == "REF":
            cid, path, ver = sv.x
            cell = st.heap[cid]
            if path:
                return self.rd(st, sv).t
            if escape:
                if not cell.escaped:
                    cell = cell.copy()
                    cell.escaped = True
                    st.heap[cid] = cell
            if cell.kind == "OBJ":
                if cell.cls in th.T.classes:
                    return th.T.obj(cell.cls, *[self.val(st, cell.val[f]) if f in cell.val else th.T.none for f in th.T.classes[cell.cls]])
                if cell.ident is None:
                    cell = st.heap[cid] = cell.copy()
                    cell.ident = th.T.fresh(f"{cell.cls}.id", th.T.Val)
                return cell.ident
            return V(SV(cell.kind, cell.val))
        if sv.kind == "F":
            return self.fun_term(st, sv)
        if sv.kind == "UNDEF":
            raise Unsupported("possibly unbound local variable")
        if sv.kind == "OBJ":
            raise Unsupported("object used as value")
        return V(sv)

    def fun_term(self, st, sv):
        key = ("fun", str(sv.x[:2]) if sv.x[0] != "lambda" else ast.dump(sv.x[1]))
        if not hasattr(th.T, "funs"):
            th.T.funs = {}
        # a function value: constant per definition and receiver
        recv = ()
        if sv.x[0] == "bound":
            r = sv.x[1]
            if r.kind == "REF":
                self.val(st, r, escape=False)
            recv = self.val(st, r, escape=False)
            key = ("bound", sv.x[2], recv.get_id())
        if sv.x[0] == "lambda":
            if any(isinstance(n, ast.Name) and n.id in sv.x[2] for n in ast.walk(sv.x[1].body)):
                # a closure: some function value, of which nothing more is known
                t = th.T.fresh("closure", th.T.Val)
                st.assume(th.T.is_("VFun", t))
                return t
        if key not in th.T.funs:
            th.T.funs[key] = (th.T.Val.VFun(z3.IntVal(len(th.T.funs) + 1)), recv)
        return th.T.funs[key][0]

    def mut(self, st, ref, newval, line, replace=False):
        """in-place change of the object a reference denotes"""
        if ref.kind != "REF":
            x = ref.x if ref.kind == "V" and isinstance(ref.x, tuple) else None
            if x is None:
                self.oblige(st, z3.BoolVal(False), "frame: modifies an object it does not own", line)
                raise Unsupported("mutation of a value that is not owned")
            ref = SV("REF", None, ref.ty, x=x)
        cid, path, ver = ref.x
        cell = st.heap[cid].copy()
        st.heap[cid] = cell
        if cell.escaped and not cell.entry:
            raise Unsupported("mutation of an object after it was shared")
        if not path:
            if newval.kind != cell.kind:
                newval = th.as_kind(newval, cell.kind)
            cell.val = newval.t
            return
        if stale(cell, path, ver):
            raise Unsupported("reference into a structure that was changed meanwhile")
        self.put(st, cell, path, V(newval))

    def put(self, st, cell, path, v):
        if cell.kind == "OBJ":
            f = path[0][1]
            old = cell.val[f]
            if old.kind == "REF":
                raise Unsupported("nested object path")
            cell.val[f] = SV("V", self.upd(V(old), path[1:], v), old.ty)
        else:
            nv = self.upd(V(SV(cell.kind, cell.val)), path, v)
            cell.val = th.as_kind(SV("V", nv), cell.kind).t

    def upd(self, t, path, v):
        if not path:
            return v
        k, x = path[0]
        if k == "k":
            d = D(SV("V", t))
            return th.T.Val.VDict(th.dstore(d, th.T.key(x), self.upd(th.sel(d, th.T.key(x)), path[1:], v)))
        if k == "i":
            l = th.seqof(t)
            return th.T.Val.VList(th.call_spec("setnth", [SV("L", l), SV("I", x), SV("V", self.upd(th.nth(l, x), path[1:], v))]).t)
        if k == "f":
            cn = th.con_name(t)
            cls = cn[2:] if cn else (th.attr_cases(t, x) or [None])[0]
            fs = th.T.classes[cls]
            return th.T.obj(cls, *[self.upd(th.attr(SV("V", t), f, cls)[0].t, path[1:], v) if f == x else th.attr(SV("V", t), f, cls)[0].t for f in fs])
        raise Unsupported("path update")

    def sub_ref(self, st, base, k, x):
        """reference to a component of a mutable object, or None"""
        b = base
        if b.kind == "V" and isinstance(b.x, tuple):
            b = SV("REF", None, b.ty, x=b.x)
        if b.kind != "REF":
            return None
        cid, path, ver = b.x
        return (cid, path + ((k, x),), st.heap[cid].ver)

    # ------------------------------------------------------------------ raising
    def raise_(self, st, typ, line, why=""):
        self.sinks[-1].append((st, Exc(typ, line, why)))

    def need(self, st, cond, typ, line, why):
        """cond must hold, otherwise Python raises typ here"""
        cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if z3.is_true(cond):
            return True
        if not z3.is_false(cond) and th.prove(st.pc, cond, 1500, retry=False):
            return True
        if not z3.is_false(cond) and th.prove(st.pc, simp_not(cond), 500, retry=False):
            self.raise_(st.copy(), typ, line, why)
            return False
        bad = st.copy().assume(simp_not(cond))
        if th.feasible(bad.pc):
            self.raise_(bad, typ, line, why)
        if z3.is_false(cond):
            return False
        st.assume(cond)
        return True

    def branch(self, st, c):
        """[(state, True/False)]"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.copy().assume(c)
        if th.feasible(a.pc):
            out.append((a, True))
        b = st.copy().assume(simp_not(c))
        if th.feasible(b.pc):
            out.append((b, False))
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        states, outs = [st], []
        for s in stmts:
            nxt = []
            for x in states:
                for k, s2, p in self.stmt(s, x):
                    if k == "next":
                        nxt.append(s2)
                    else:
                        outs.append((k, s2, p))
            states = nxt
            if len(states) + len(outs) > self.MAXPATHS:
                raise Unsupported("too many paths")
            if not states:
                break
        return outs + [("next", s, None) for s in states]

    def stmt(self, s, st):
        self.line = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.sinks.append([])
        outs = m(s, st)
        for s2, x in self.sinks.pop():
            outs.append(("raise", s2, x))
        return outs

    def s_Pass(self, s, st):
        return [("next", st, None)]

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = SV("F", None, x=("module", a.name if a.asname else a.name.split(".")[0]))
        return [("next", st, None)]

    def s_ImportFrom(self, s, st):
        for a in s.names:
            m = s.module or ""
            if m in self.repo.modules:
                r = self.repo.resolve(self.repo.modules[m], a.name)
                st.env[a.asname or a.name] = self.global_value(r, a.name)
            else:
                st.env[a.asname or a.name] = SV("F", None, x=("ext", f"{m}.{a.name}"))
        return [("next", st, None)]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        return [("next", x, None) for x, _ in self.ev(s.value, st)]

    def s_Return(self, s, st):
        if s.value is None:
            return [("return", st, SV("V", th.T.none))]
        return [("return", x, v) for x, v in self.ev(s.value, st)]

    def s_Raise(self, s, st):
        typ = "Exception"
        if s.exc is None:
            cur = st.env.get("$exc")
            self.raise_(st, cur.x if cur is not None else "Exception", s.lineno, "re-raise")
            return []
        e = s.exc
        f = e.func if isinstance(e, ast.Call) else e
        if isinstance(f, ast.Name):
            typ = f.id if f.id in EXC_TYPES else "Exception"
        if isinstance(e, ast.Call):
            for a in e.args:
                # the message is evaluated too: it can itself fail
                outs = self.ev(a, st)
                for x, _ in outs:
                    self.raise_(x, typ, s.lineno, "raise")
                return []
        self.raise_(st, typ, s.lineno, "raise")
        return []

    def s_Assert(self, s, st):
        outs = []
        for x, c in self.cond(s.test, st):
            if c:
                outs.append(("next", x, None))
            else:
                self.raise_(x, "AssertionError", s.lineno, "assert")
        return outs

    def s_Assign(self, s, st):
        outs = []
        for x, v in self.ev(s.value, st):
            ys = [x]
            for t in s.targets:
                ys = [z for y in ys for z in self.assign(t, v, y)]
            outs += [("next", y, None) for y in ys]
        return outs

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", st, None)]
        outs = []
        for x, v in self.ev(s.value, st):
            if v.ty is None or v.kind == "V":
                v = SV(v.kind, v.t, th.ann_ty(s.annotation) or v.ty, v.x)
            for y in self.assign(s.target, v, x):
                outs.append(("next", y, None))
        return outs

    def s_AugAssign(self, s, st):
        outs = []
        load = _load(s.target)
        for x, cur in self.ev(load, st):
            for y, v in self.ev(s.value, x):
                c = self.rd(y, cur)
                w = self.rd(y, v)
                # in-place operators on owned lists / dicts / sets
                if isinstance(s.op, ast.Add) and (c.kind == "L" or (c.kind == "V" and th.con_name(c.t) == "VList")):
                    if w.kind == "V":
                        self.need(y, simp_or(th.isinst(w, "list"), th.isinst(w, "tuple")), "TypeError", s.lineno, "list += non-list")
                    self.mut(y, cur, th.add(SV("L", L(c)), SV("L", L(w))), s.lineno)
                    outs.append(("next", y, None))
                    continue
                if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and c.kind in ("D", "SET") and cur.kind == "REF":
                    self.mut(y, cur, th.binop(s.op, c, w), s.lineno)
                    outs.append(("next", y, None))
                    continue
                r = self.binop(y, s.op, cur, v, s.lineno)
                for z in self.assign(s.target, r, y):
                    outs.append(("next", z, None))
        return outs

    def assign(self, t, v, st):
        """list of states"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            r = self.rd(st, v)
            if r.kind not in ("L", "T", "V"):
                raise Unsupported("unpacking")
            items = th.static_items(L(r)) if r.kind != "V" or th.con_name(r.t) in ("VList", "VTup") else None
            if isinstance(v.x, list):       # tuple display with component values
                parts = v.x
                if len(parts) != len(t.elts):
                    self.raise_(st, "ValueError", t.lineno, "unpacking")
                    return []
            else:
                l = L(r)
                if r.kind == "V":
                    self.need(st, simp_or(th.isinst(r, "list"), th.isinst(r, "tuple")), "TypeError", t.lineno, "unpack a non-sequence")
                # exactly n items
                cond, x = [], l
                for _ in t.elts:
                    cond.append(simp_not(th.isnil(x)))
                    x = th.tl(x)
                cond.append(th.isnil(x))
                self.need(st, simp_and(*cond), "ValueError", t.lineno, "wrong number of values to unpack")
                parts, x = [], l
                ety = th.elt_ty(r.ty)
                for _ in t.elts:
                    parts.append(SV("V", th.hd(x), ety))
                    x = th.tl(x)
            states = [st]
            for e, p in zip(t.elts, parts):
                states = [y for s in states for y in self.assign(e, p, s)]
            return states
        if isinstance(t, ast.Subscript):
            outs = []
            for x, o in self.ev(t.value, st):
                for y, k in self.ev(t.slice, x) if not isinstance(t.slice, ast.Slice) else [(x, None)]:
                    if k is None:
                        raise Unsupported("slice assignment")
                    c = self.rd(y, o)
                    kv = self.rd(y, k)
                    cv = self.val(y, v, escape=False)
                    is_d = c.kind == "D" or (c.kind == "V" and (th.con_name(c.t) == "VDict" or (c.ty and c.ty[0] == "dict")))
                    if is_d:
                        kt = V(kv)
                        cid = o.x[0] if o.kind == "REF" or (o.kind == "V" and isinstance(o.x, tuple)) else None
                        if cid is not None and y.heap[cid].order is not None and not o.x[1]:
                            ce = y.heap[cid] = y.heap[cid].copy()
                            ce.order = th.call_spec("addnew1", [SV("L", ce.order), SV("V", kt)]).t
                        self.mut(y, o, SV("D", th.dstore(D(c), th.T.key(kt), cv)), t.lineno)
                        self.stored(y, v, o, "k", kt)
                    elif c.kind == "L" or (c.kind == "V" and (th.con_name(c.t) == "VList" or (c.ty and c.ty[0] == "list"))):
                        i = I(kv)
                        l = L(c)
                        self.need(y, z3.And(i >= 0, i < th.lenL(l)), "IndexError", t.lineno, "list assignment index")
                        self.mut(y, o, SV("L", th.call_spec("setnth", [SV("L", l), SV("I", i), SV("V", cv)]).t), t.lineno)
                        self.stored(y, v, o, "i", i)
                    else:
                        m = self.dunder(y, o, "__setitem__")
                        if m:
                            for z, _ in self.call_func(m, [o, k, v], {}, y, t.lineno):
                                outs.append(z)
                            continue
                        raise Unsupported(f"item assignment on {c.kind}")
                    outs.append(y)
            return outs
        if isinstance(t, ast.Attribute):
            outs = []
            for x, o in self.ev(t.value, st):
                if o.kind == "REF" and not o.x[1] and x.heap[o.x[0]].kind == "OBJ":
                    cid = o.x[0]
                    cell = x.heap[cid] = x.heap[cid].copy()
                    if cell.escaped and not cell.entry:
                        raise Unsupported("mutation of an object after it was shared")
                    cell.ver += 1
                    cell.fbumps[cell.ver] = t.attr
                    r = self.rd(x, v)
                    if v.kind == "REF" and x.heap[v.x[0]].kind == "OBJ" and not v.x[1]:
                        if x.heap[v.x[0]].cls in th.T.classes:
                            cell.val[t.attr] = SV("V", self.val(x, v))
                        else:
                            cell.val[t.attr] = v
                    elif v.kind == "REF" and not v.x[1] and not cell.entry and x.heap[v.x[0]].order is not None and not x.heap[v.x[0]].escaped:
                        cell.val[t.attr] = v
                    elif v.kind == "REF":
                        cell.val[t.attr] = SV("V", self.val(x, v, escape=False), v.ty)
                        self.alias(x, v, (cid, (("f", t.attr),), cell.ver))
                    elif v.kind == "F":
                        cell.val[t.attr] = v
                    else:
                        cell.val[t.attr] = SV("V", V(r), r.ty)
                    outs.append(x)
                    continue
                if o.kind == "V" and isinstance(o.x, tuple):
                    ref = self.sub_ref(x, o, "f", t.attr)
                    self.mut(x, SV("REF", None, None, x=ref), SV("V", self.val(x, v)), t.lineno)
                    outs.append(x)
                    continue
                self.oblige(x, z3.BoolVal(False), "frame: assigns an attribute of an object it does not own", t.lineno)
                raise Unsupported("attribute assignment on a value")
            return outs
        raise Unsupported("assignment target")

    def stored(self, st, v, container, k, x):
        """a fresh object was stored in a container: the local name now refers to the slot"""
        if v.kind == "REF" and not v.x[1] and st.heap[v.x[0]].kind != "OBJ":
            ref = self.sub_ref(st, container, k, x)
            cid = ref[0]
            ce = st.heap[cid] = st.heap[cid].copy()
            ce.ver += 1
            self.alias(st, v, (cid, ref[1], ce.ver))
        elif v.kind == "REF":
            self.val(st, v)
        else:
            b = container
            if b.kind == "REF" or (b.kind == "V" and isinstance(b.x, tuple)):
                ce = st.heap[b.x[0]] = st.heap[b.x[0]].copy()
                ce.ver += 1

    def alias(self, st, v, target):
        cid = v.x[0]
        for n, w in list(st.env.items()):
            if w.kind == "REF" and w.x[0] == cid and not w.x[1]:
                st.env[n] = SV("REF", None, w.ty, x=target)
        ce = st.heap[cid] = st.heap[cid].copy()
        ce.escaped = True

    def s_Delete(self, s, st):
        outs = [st]
        for t in s.targets:
            nxt = []
            for x in outs:
                if isinstance(t, ast.Name):
                    x.env.pop(t.id, None)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, o in self.ev(t.value, x):
                        for z, k in self.ev(t.slice, y):
                            c = self.rd(z, o)
                            if c.kind != "D" and not (c.kind == "V" and th.con_name(c.t) == "VDict"):
                                raise Unsupported("del of list item")
                            kt = th.T.key(V(self.rd(z, k)))
                            self.need(z, th.contains(self.rd(z, k), SV("D", D(c))), "KeyError", s.lineno, "del")
                            self.mut(z, o, SV("D", th.ddel(D(c), kt)), s.lineno)
                            nxt.append(z)
                else:
                    raise Unsupported("del")
            outs = nxt
        return [("next", x, None) for x in outs]

    def s_If(self, s, st):
        outs = []
        for x, c in self.cond(s.test, st):
            outs += self.block(s.body if c else s.orelse, x)
        return outs

    def s_FunctionDef(self, s, st):
        st.env[s.name] = SV("F", None, x=("local", s, st.env, self.module))
        return [("next", st, None)]

    def s_With(self, s, st):
        """with open(...) as f: leaving the block closes the file and lets every exception through"""
        states = [st]
        for it in s.items:
            ce = it.context_expr
            if not (isinstance(ce, ast.Call) and isinstance(ce.func, ast.Name) and ce.func.id == "open" and ("ext", "open") in IFACE):
                raise Unsupported("with statement over something else than open()")
            if it.optional_vars is not None and not isinstance(it.optional_vars, ast.Name):
                raise Unsupported("with target")
            nxt = []
            for x in states:
                for y, v in self.ev(ce, x):
                    if it.optional_vars is not None:
                        y.env[it.optional_vars.id] = v
                    nxt.append(y)
            states = nxt
        th.assume_note("with open", "leaving a with-block over open() closes the file, raises nothing itself and does not hold back exceptions")
        outs = []
        for x in states:
            outs += self.block(s.body, x)
        return outs

    def s_Try(self, s, st):
        self.sinks.append([])
        outs = self.block(s.body, st)
        raised = self.sinks.pop()
        raised += [(x, p) for k, x, p in outs if k == "raise"]
        outs = [o for o in outs if o[0] != "raise"]
        res = []
        for k, x, p in outs:
            if k == "next" and s.orelse:
                res += self.block(s.orelse, x)
            else:
                res.append((k, x, p))
        for x, e in raised:
            handled = False
            for h in s.handlers:
                names = ["BaseException"] if h.type is None else [ast.unparse(t).split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if any(exc_is(e.typ, n) for n in names):
                    if h.name:
                        x.env[h.name] = SV("V", th.T.fresh("exc", th.T.Val))
                    x.env["$exc"] = SV("EXC", None, x=e.typ)
                    self.sinks.append([])
                    r = self.block(h.body, x)
                    r += [("raise", y, q) for y, q in self.sinks.pop()]
                    res += r
                    handled = True
                    break
                if any(exc_is(n, e.typ) for n in names):
                    # an exception of a supertype may or may not be of the handler's type
                    y = x.copy()
                    self.sinks.append([])
                    r = self.block(h.body, y)
                    r += [("raise", z, q) for z, q in self.sinks.pop()]
                    res += r
            if not handled:
                res.append(("raise", x, e))
        if s.finalbody:
            fin = []
            for k, x, p in res:
                for k2, y, q in self.block(s.finalbody, x):
                    if k2 == "next":
                        fin.append((k, y, p))
                    else:
                        fin.append((k2, y, q))
            res = fin
        for k, x, p in [r for r in res if r[0] == "raise"]:
            self.sinks[-1].append((x, p))
        return [r for r in res if r[0] != "raise"]

    def s_Break(self, s, st):
        return [("break", st, None)]

    def s_Continue(self, s, st):
        return [("continue", st, None)]

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        outs = []
        for x, it in self.iter_of(s.iter, st):
            outs += self.for_loop(s, x, it, s.target, s.body, s.orelse)
        return outs

    def s_While(self, s, st):
        return self.while_loop(s, st)

    def iter_of(self, e, st):
        """[(state, IterDesc)]"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in st.env:
            f = e.func.id
            if f in ("enumerate", "zip", "reversed", "range", "list", "iter", "map"):
                if f == "range":
                    res = []
                    for x, args in self.args(e.args, st):
                        ts = [I(self.rd(x, a)) for a in args]
                        lo, hi, step = (z3.IntVal(0), ts[0], 1) if len(ts) == 1 else (ts[0], ts[1], 1)
                        if len(ts) == 3:
                            step = z3.simplify(ts[2])
                            if not z3.is_int_value(step) or step.as_long() not in (1, -1):
                                raise Unsupported("range step")
                            step = step.as_long()
                        res.append((x, IterDesc("range", lo=z3.simplify(lo), hi=z3.simplify(hi), step=step)))
                    return res
                if f == "enumerate":
                    if len(e.args) > 1 or e.keywords:
                        raise Unsupported("enumerate start")
                    return [(x, IterDesc("enum", inner=d)) for x, d in self.iter_of(e.args[0], st)]
                if f == "zip":
                    res = [(st, [])]
                    for a in e.args:
                        res = [(y, ds + [d]) for x, ds in res for y, d in self.iter_of(a, x)]
                    return [(x, IterDesc("zip", inner=ds)) for x, ds in res]
                if f == "reversed":
                    out = []
                    for x, v in self.ev(e.args[0], st):
                        out.append((x, IterDesc("seq", seq=th.call_spec("revL", [SV("L", self.seq_for_iter(x, v, e.lineno))]).t, ety=th.elt_ty(v.ty))))
                    return out
                if f in ("list", "iter") and len(e.args) == 1:
                    return self.iter_of(e.args[0], st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "keys", "values") and not e.args:
            res = []
            for x, o in self.ev(e.func.value, st):
                c = self.rd(x, o)
                if c.kind == "D" or (c.kind == "V" and (th.con_name(c.t) == "VDict" or c.ty and c.ty[0] == "dict")):
                    if c.kind == "V":
                        self.need(x, th.isinst(c, "dict"), "AttributeError", e.lineno, "items of a non-dict")
                    order = None
                    if o.kind == "REF" and not o.x[1]:
                        order = x.heap[o.x[0]].order
                    res.append((x, IterDesc(e.func.attr, d=D(c), seq=order if order is not None else th.T.dictkeys(D(c)), ety=th.val_ty(c.ty), src=o)))
                else:
                    return self.iter_default(e, st)
            return res
        return self.iter_default(e, st)

    def iter_default(self, e, st):
        res = []
        for x, v in self.ev(e, st):
            if v.kind == "REF" and x.heap[v.x[0]].kind == "OBJ":
                m = self.dunder(x, self.rd(x, v), "__iter__")
                if m is not None:
                    for y, r in self.call_func(m, [v], {}, x, e.lineno):
                        res.append((y, self.iter_value(y, r, e.lineno)))
                    continue
            res.append((x, self.iter_value(x, v, e.lineno)))
        return res

    def iter_value(self, st, v, line):
        if v.kind == "ITER":
            return v.x
        if v.kind == "REF" and not v.x[1] and st.heap[v.x[0]].kind == "D":
            cell = st.heap[v.x[0]]
            return IterDesc("keys", d=cell.val, seq=cell.order if cell.order is not None else th.T.dictkeys(cell.val), src=v)
        c = self.rd(st, v)
        if c.kind == "D":
            return IterDesc("keys", d=c.t, seq=th.T.dictkeys(c.t))
        return IterDesc("seq", seq=self.seq_for_iter(st, v, line), ety=th.elt_ty(c.ty), src=v)

    def seq_for_iter(self, st, v, line):
        c = self.rd(st, v)
        if c.kind == "REF":
            m = self.dunder(st, c, "__iter__")
            raise Unsupported("iteration over an object")
        if c.kind == "V":
            V_ = th.T.Val
            cn = th.con_name(c.t)
            if cn == "VDict":
                return th.T.dictkeys(c.t.arg(0))
            if cn == "VSet":
                return th.T.setelems(c.t.arg(0))
            if cn not in ("VList", "VTup"):
                bad = simp_or(*[th.T.is_(k, c.t) for k in ("VNone", "VBool", "VInt", "VFlt", "VFun")])
                self.need(st, simp_not(bad), "TypeError", line, "iteration over a non-iterable")
            return th.seqof(c.t)
        if c.kind in ("L", "T", "SET", "S"):
            return L(c)
        raise Unsupported(f"iteration over {c.kind}")

    def flat(self, d):
        """component descriptors of an iteration"""
        if d.kind == "enum":
            return self.flat(d.inner)
        if d.kind == "zip":
            return [y for x in d.inner for y in self.flat(x)]
        return [d]

    def element(self, d, heads, idx):
        """(SV bound to the loop target) for the current heads (list, consumed)"""
        if d.kind == "enum":
            e = self.element(d.inner, heads, idx)
            return self.tup([SV("I", idx), e])
        if d.kind == "zip":
            return self.tup([self.element(x, heads, idx) for x in d.inner])
        h = heads.pop(0)
        if d.kind == "range":
            return SV("I", h)
        if d.kind == "items":
            return self.tup([SV("V", h), SV("V", th.sel(d.d, th.T.key(h)), d.ety)])
        if d.kind == "values":
            return SV("V", th.sel(d.d, th.T.key(h)), d.ety)
        return SV("V", h, d.ety)

    def tup(self, items):
        return SV("T", th.mklist([V(x) if x.kind != "REF" else None for x in items]), None, x=list(items))

    def for_loop(self, node, st, it, target, body, orelse):
        comps = self.flat(it)
        # exact unrolling of short constant sequences
        n_static = []
        for c in comps:
            if c.kind == "range":
                lo, hi = c.lo, c.hi
                n_static.append(max(0, (hi.as_long() - lo.as_long()) * c.step) if z3.is_int_value(lo) and z3.is_int_value(hi) else None)
            else:
                it_ = th.static_items(c.seq)
                n_static.append(len(it_) if it_ is not None else None)
        known = [n for n in n_static if n is not None]
        if known and (len(known) == len(n_static) or it.kind == "zip") and min(known) <= self.c.unroll and (len(known) == len(n_static)):
            n = min(known)
            states, outs = [st], []
            for k in range(n):
                nxt = []
                for x in states:
                    heads = [(z3.IntVal(c.lo.as_long() + k * c.step) if c.kind == "range" else th.static_items(c.seq)[k]) for c in comps]
                    for y in self.assign(target, self.element(it, heads, z3.IntVal(k)), x):
                        for kk, z, p in self.block(body, y):
                            if kk in ("next", "continue"):
                                nxt.append(z)
                            elif kk == "break":
                                outs.append(("next", z, None))
                            else:
                                outs.append((kk, z, p))
                states = nxt
            for x in states:
                outs += self.block(orelse, x) if orelse else [("next", x, None)]
            return outs

        if len(self.loops) > 6:
            raise Unsupported("loop nesting")
        lp = Loop()
        lp.comps, lp.it = comps, it
        lp.line = node.lineno

        def head(x, first):
            """assume the head of an arbitrary iteration; returns nothing"""
            lp.idx = z3.IntVal(0) if first else th.T.fresh("idx", z3.IntSort())
            lp.rests = []
            if not first:
                x.assume(lp.idx >= 0)
            for c in comps:
                if c.kind == "range":
                    # the number of iterations is max(0, hi - lo)
                    n = (c.hi - c.lo) if c.step == 1 else (c.lo - c.hi)
                    lp.rests.append(("range", c, n))
                    if not first:
                        x.assume(z3.Or(lp.idx <= n, z3.And(lp.idx == 0, n < 0)))
                else:
                    r = c.seq if first else th.T.fresh("rest", th.T.VL)
                    lp.rests.append(("seq", c, r))
                    if not first:
                        x.assume(r == th.drop(c.seq, lp.idx))
                        x.assume(lp.idx <= th.lenL(c.seq))
                        x.assume(th.lenL(c.seq) == lp.idx + th.lenL(r))
            lp.rest = next((r for k, c, r in lp.rests if k == "seq"), None)
            lp.seq = next((c.seq for k, c, r in lp.rests if k == "seq"), None)

        def exit_cond():
            cs = []
            for k, c, r in lp.rests:
                cs.append(lp.idx >= r if k == "range" else th.isnil(r))
            return simp_or(*cs)

        def step(x):
            """bind the target; returns states"""
            heads, news = [], []
            for k, c, r in lp.rests:
                if k == "range":
                    x.assume(lp.idx < r)
                    heads.append(z3.simplify(c.lo + lp.idx if c.step == 1 else c.lo - lp.idx))
                    news.append((k, c, r))
                else:
                    h, t = th.T.fresh("elt", th.T.Val), th.T.fresh("tail", th.T.VL)
                    x.assume(r == th.T.cons(h, t))
                    x.assume(th.hd(th.drop(c.seq, lp.idx)) == h)
                    x.assume(th.T.tlz(th.drop(c.seq, lp.idx)) == t)
                    if c.kind in ("items", "keys", "values"):
                        x.assume(th.contains(SV("V", h), SV("D", c.d)))
                    heads.append(h)
                    news.append((k, c, t))
            lp.next_rests = news
            lp.cur = [h for h in heads]
            return self.assign(target, self.element(it, heads, lp.idx), x)

        def advance():
            lp.idx = lp.idx + 1
            lp.rests = lp.next_rests
            lp.rest = next((r for k, c, r in lp.rests if k == "seq"), None)

        return self.loop(node, st, lp, head, exit_cond, step, advance, body, orelse, None)

    def while_loop(self, node, st):
        lp = Loop()
        lp.comps, lp.it, lp.rests = [], None, []
        lp.line = node.lineno

        def head(x, first):
            lp.idx = lp.rest = lp.seq = None

        return self.loop(node, st, lp, head, lambda: None, lambda x: [x], lambda: None, node.body, node.orelse, node.test)

    def loop(self, node, st0, lp, head, exit_cond, step, advance, body, orelse, test):
        assigned = assigned_names(body) | (target_names(node.target) if isinstance(node, ast.For) else set()) | (walrus(test) if test is not None else set())
        mod = {}         # (cid, path) -> kind of contents
        kinds = {}       # variable -> kind at the loop head
        for n in sorted(assigned):
            v = st0.env.get(n)
            if v is not None and v.kind != "UNDEF":
                kinds[n] = self.head_kind(st0, v)
                if kinds[n] == "V" and self.c.unbox and any("NUM" in i for i in self.c.inv) and th.prove(st0.pc, th.T.is_("VInt", self.rd(st0, v).t), 500, retry=False):
                    kinds[n] = "I"
        trace_mod = False
        escaped = set()
        mark_ids = set(st0.heap)
        dropped = set()
        cands = None
        order_mod = set()
        for attempt in range(60):
            # state at the head of an arbitrary iteration
            h = st0.copy()
            newid = next(self.cellno)
            hv = {}
            for n in sorted(assigned):
                if n not in kinds:
                    h.env[n] = UNDEF
                    continue
                k = kinds[n]
                ty = st0.env[n].ty
                if k in ("F", "OBJ", "SAME"):
                    h.env[n] = st0.env[n]
                elif k.startswith("ref"):
                    kk = k[3:]
                    t = th.T.fresh(n, th.T.sorts[kk])
                    h.env[n] = self.new(h, kk, t, ty=ty)
                else:
                    h.env[n] = th.T.mk(k, n, ty)
            for (cid, path), k in sorted(mod.items(), key=lambda z: (z[0][0], str(z[0][1]))):
                cell = h.heap[cid] = h.heap[cid].copy()
                fresh = th.T.mk(k, "m", None)
                if not path:
                    cell.val = fresh.t
                else:
                    self.put(h, cell, path, V(fresh))
                if (cid in order_mod):
                    cell.order = th.T.fresh("order", th.T.VL)
            for cid in escaped:
                if cid in h.heap:
                    cell = h.heap[cid] = h.heap[cid].copy()
                    cell.escaped = True
            if trace_mod:
                h.trace = th.T.fresh("trace", th.T.VL)
            # candidates
            self.loops.append(lp)
            try:
                head(st0, True)
                base = self.cand_env(st0, lp, kinds, mod, trace_mod, entry=True)
                if cands is None:
                    cands = self.candidates(base)
                    self.quiet += 1
                    try:
                        cands = [c for c in cands if self.cand_ok(st0, c, base)]
                    finally:
                        self.quiet -= 1
                head(h, False)
                henv = self.cand_env(h, lp, kinds, mod, trace_mod)
                live = [c for c in cands if c not in dropped]
                for c in live:
                    g = self.cand_term(c, henv)
                    if g is not None:
                        h.assume(g)
                hp = h.copy()
                snap = (lp.idx, lp.rests, lp.rest, lp.seq)
                # body
                nfail, nobl, nok, nnames = len(self.failures), self.obl, self.ok, len(self.obl_names)
                bst = h.copy()
                pre_outs = []
                self.sinks.append([])
                if test is not None:
                    starts = []
                    exits = []
                    for x, c in self.cond(test, bst):
                        (starts if c else exits).append(x)
                else:
                    starts = step(bst)
                    exits = None
                ends, outs = [], []
                for x in starts:
                    for k, y, p in self.block(body, x):
                        if k in ("next", "continue"):
                            ends.append(y)
                        else:
                            outs.append((k, y, p))
                raised = self.sinks.pop()
                # discover what the body changes
                again = False
                for y in ends + [o[1] for o in outs if o[0] == "break"]:
                    for cid in mark_ids:
                        a, b = h.heap[cid], y.heap[cid]
                        if a is b:
                            continue
                        if b.escaped and not a.escaped and cid not in escaped:
                            escaped.add(cid)
                            again = True
                        for path, k in self.diff(h, y, cid, mark_ids):
                            key = self.cover(mod, cid, path)
                            if key is None:
                                self.add_mod(mod, cid, path, k, h)
                                again = True
                        if a.order is not None and b.order is not None and not a.order.eq(b.order) and cid not in order_mod:
                            order_mod.add(cid)
                            self.add_mod(mod, cid, (), "D", h)
                            again = True
                    if not y.trace.eq(h.trace) and not trace_mod:
                        trace_mod = True
                        again = True
                for y in ends:
                    for n in sorted(kinds):
                        nk = self.join_kind(kinds[n], self.head_kind(y, y.env.get(n, UNDEF)), n, st0, y)
                        if nk != kinds[n]:
                            kinds[n] = nk
                            again = True
                if again:
                    cands = None
                    dropped = set()
                    del self.failures[nfail:]
                    self.obl, self.ok = nobl, nok
                    del self.obl_names[nnames:]
                    continue
                # source of the iteration may not change
                for c in lp.comps:
                    src = getattr(c, "src", None)
                    if src is not None and src.kind == "V" and isinstance(src.x, tuple) and c.kind == "seq" and any(k[0] == src.x[0] and (k[1][:len(src.x[1])] == src.x[1] or src.x[1][:len(k[1])] == k[1]) for k in mod):
                        # held in a structure that the body changes: not at this place
                        def held(z):
                            return th.seqof(self.at(z, z.heap[src.x[0]], src.x[1])) == c.seq
                        for y in ends:
                            self.oblige(y.copy().assume(held(h)), held(y), "the sequence being iterated over is not changed by the loop", lp.line)
                        continue
                    if src is not None and src.kind == "REF" and any(k[0] == src.x[0] and (k[1][:len(src.x[1])] == src.x[1] or src.x[1][:len(k[1])] == k[1]) for k in mod):
                        raise Unsupported("the sequence being iterated over is modified in the loop")
                # preservation
                advance()
                bad = set()
                self.quiet += 1
                try:
                    for y in ends:
                        yenv = self.cand_env(y, lp, kinds, mod, trace_mod)
                        for c in live:
                            if c in bad:
                                continue
                            if not self.cand_ok(y, c, yenv):
                                bad.add(c)
                                self.log(f"   drop inv {c} (line {lp.line})")
                finally:
                    self.quiet -= 1
                if bad:
                    dropped |= bad
                    del self.failures[nfail:]
                    self.obl, self.ok = nobl, nok
                    del self.obl_names[nnames:]
                    continue
                if not self.quiet:
                    n_inv = len(live) * (1 + len(ends))
                    self.obl += n_inv
                    self.ok += n_inv
                    self.inv_used += [(lp.line, str(c)) for c in live]
                lp.idx, lp.rests, lp.rest, lp.seq = snap
                # after the loop
                res = []
                if test is None:
                    x = hp.copy()
                    x.assume(exit_cond())
                    exits = [x] if th.feasible(x.pc) else []
                self.loops.pop()
                for x in exits:
                    for n in assigned:
                        if n not in kinds and n not in st0.env:
                            x.env.pop(n, None) if False else x.env.__setitem__(n, UNDEF)
                    res += self.block(orelse, x) if orelse else [("next", x, None)]
                for k, y, p in outs:
                    if k == "break":
                        res.append(("next", y, None))
                    else:
                        res.append((k, y, p))
                for y, x in raised:
                    self.sinks[-1].append((y, x))
                return res
            finally:
                if lp in self.loops:
                    while self.loops and self.loops[-1] is not lp:
                        self.loops.pop()
                    if self.loops:
                        self.loops.pop()
        raise Unsupported("loop did not stabilise")

    def head_kind(self, st, v):
        if v.kind == "REF":
            cid, path, ver = v.x
            if path:
                return "V"
            k = st.heap[cid].kind
            return "OBJ" if k == "OBJ" else "ref" + k
        if v.kind == "UNDEF":
            return "UNDEF"
        if v.kind == "F":
            return "F"
        if v.kind in ("L", "D", "SET"):
            return v.kind
        return v.kind

    def join_kind(self, a, b, n, st0, y):
        if a == b:
            if a == "OBJ" and st0.env[n].x[0] != y.env[n].x[0]:
                raise Unsupported(f"object variable {n} changes in a loop")
            return a
        if b == "UNDEF":
            return a
        if a == "V":
            return "V"
        if a.startswith("ref") and b == a[3:]:
            return a
        if b.startswith("ref") and a == b[3:]:
            return b if False else a
        if a in ("F", "OBJ") or b in ("F", "OBJ"):
            raise Unsupported(f"variable {n} changes kind in a loop")
        if b == "V" and self.c.unbox and a in ("I", "B", "S") and th.prove(y.pc, th.T.is_(dict(I="VInt", B="VBool", S="VStr")[a], self.rd(y, y.env[n]).t), 500, retry=False):
            return a      # a value of that kind, boxed
        return "V"

    def diff(self, a, b, cid, marks):
        """paths of the cell that differ between two states: [(path, kind)]"""
        ca, cb = a.heap[cid], b.heap[cid]
        if ca.kind == "OBJ":
            for f in cb.val:
                va, vb = ca.val.get(f), cb.val[f]
                if va is None:
                    continue
                if va.kind == "REF" or vb.kind == "REF":
                    if va.kind == vb.kind and va.x[0] == vb.x[0]:
                        continue
                    raise Unsupported(f"object field {f} is replaced in a loop")
                if va.kind == "F" or vb.kind == "F":
                    continue
                if not va.t.eq(vb.t):
                    for p, k in self.diffv(va.t, vb.t):
                        yield (("f", f),) + p, k
        else:
            if not ca.val.eq(cb.val):
                t1, t2 = V(SV(ca.kind, ca.val)), V(SV(cb.kind, cb.val))
                if ca.kind == "D":
                    for p, k in self.diffv(t1, t2):
                        yield p, (ca.kind if not p else k)
                else:
                    yield (), ca.kind

    def diffv(self, t1, t2):
        """where t2 differs from t1: follows dictionary stores with terms that exist outside the loop"""
        c1, c2 = th.con_name(t1), th.con_name(t2)
        if c1 == c2 == "VDict":
            d1, d2 = t1.arg(0), t2.arg(0)
            # d2 = store(...store(d1, k, v)...)
            keys, d = [], d2
            while not d.eq(d1) and z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE:
                keys.append((d.arg(1), d.arg(2)))
                d = d.arg(0)
            if d.eq(d1) and len({k.get_id() for k, _ in keys}) == 1:
                k, v = keys[0]
                if z3.is_app(k) and k.decl().name() == "key" and th.con_name(v) == "some":
                    v = v.arg(0)
                    kv = k.arg(0)
                    if all(s in self.known_consts for s in th.symbols(kv)):
                        sub = list(self.diffv(th.sel(d1, k), v))
                        return [((("k", kv),) + p, kk) for p, kk in sub]
            return [((), "D")]
        if c2 == "VList" and (c1 == "VList" or c1 is None):
            return [((), "L")] if c1 == "VList" else [((), "V")]
        if c2 == "VInt" and c1 == "VInt":
            return [((), "I")]
        if c2 == "VBool" and c1 == "VBool":
            return [((), "B")]
        if c2 == "VStr" and c1 == "VStr":
            return [((), "S")]
        return [((), "V")]

    @property
    def known_consts(self):
        # constants of the function's inputs (stable over iterations)
        if not hasattr(self, "_known"):
            ks = set()
            for n, g in self.ghost.items():
                if g.kind == "OBJ":
                    for v in g.x.values():
                        if v.kind in th.T.sorts:
                            ks |= th.symbols(v.t)
                elif g.kind in th.T.sorts:
                    ks |= th.symbols(g.t)
            self._known = ks
        return self._known

    def cover(self, mod, cid, path):
        for (c, p) in mod:
            if c == cid and path[:len(p)] == p and all(self.same_step(a, b) for a, b in zip(p, path)):
                return (c, p)
        return None

    def same_step(self, a, b):
        return a[0] == b[0] and (a[1] == b[1] if isinstance(a[1], str) else a[1].eq(b[1]))

    def add_mod(self, mod, cid, path, k, st):
        for (c, p) in list(mod):
            if c == cid and p[:len(path)] == path:
                del mod[(c, p)]
        # siblings below one dictionary: merge to the common prefix
        for (c, p) in list(mod):
            if c == cid:
                n = 0
                while n < min(len(p), len(path)) and self.same_step(p[n], path[n]):
                    n += 1
                if n > 0 and n < len(p) and p[n][0] == "k":
                    del mod[(c, p)]
                    path, k = p[:n], "D"
        mod[(cid, path)] = k

    # ---------- invariant candidates
    def cand_env(self, st, lp, kinds, mod, trace_mod, entry=False):
        """role -> [(name, SV)]"""
        roles = {"L": [], "D": [], "I": [], "B": [], "V": [], "S": [], "SET": [], "T": [], "K": []}
        named = {}
        seen = set()
        for n, v in sorted(st.env.items()):
            if v.kind in ("UNDEF", "F", "OBJ", "ITER", "EXC"):
                continue
            if n in self.entry.env and n in st.env and st.env[n] is self.entry.env[n] and n not in kinds:
                continue
            try:
                r = self.rd(st, v)
            except Unsupported:
                continue
            if r.kind == "REF":
                continue
            if n in kinds:
                k = kinds[n]
                k = k[3:] if k.startswith("ref") else k
                if k in th.T.sorts and k != r.kind:
                    try:
                        r = th.as_kind(r, k)
                    except Unsupported:
                        continue
            if r.kind in roles:
                roles[r.kind].append((n, r))
            if r.kind == "V" and th.con_name(r.t) == "VList":
                pass
        for (cid, path), k in mod.items():
            if not path:
                continue
            t = self.at(st, st.heap[cid], path)
            nm = f"@{cid}{_pstr(path)}"
            try:
                roles[k].append((nm, th.as_kind(SV("V", t), k)))
            except Unsupported:
                pass
        for cid, ce in st.heap.items():
            if ce.order is not None and not ce.escaped:
                roles["K"].append((f"order{cid}", SV("L", ce.order)))
        spec = dict(self.ghost)
        if st.trace is not None:
            spec["TRACE"] = SV("L", st.trace)
        depth = len(self.loops)
        for i, l in enumerate(reversed(self.loops)):
            sfx = "" if i == 0 else str(i)
            if l.idx is not None:
                spec["IDX" + sfx] = SV("I", l.idx)
            rs = [r for k, c, r in l.rests if k == "seq"]
            for j, r in enumerate(rs):
                spec["REST" + "abcd"[j] * (j > 0) + sfx] = SV("L", r)
            ss = [c.seq for k, c, r in l.rests if k == "seq"]
            for j, r in enumerate(ss):
                spec["SEQ" + "abcd"[j] * (j > 0) + sfx] = SV("L", r)
            if i > 0 and getattr(l, "next_rests", None) is not None:
                ts = [r for k, c, r in l.next_rests if k == "seq"]
                for j, r in enumerate(ts):
                    spec["TAIL" + "abcd"[j] * (j > 0) + sfx] = SV("L", r)
                for j, hh in enumerate(getattr(l, "cur", [])):
                    spec["ELT" + "abcd"[j] * (j > 0) + sfx] = SV("I" if l.rests[j][0] == "range" else "V", hh)
        for n, sv in self.entry.env.items():
            if sv.kind == "REF" and st.heap[sv.x[0]].kind == "OBJ":
                spec[self.rename.get(n, n) + "_now"] = self.objenv(st, sv)
            elif sv.kind == "REF" and st.heap[sv.x[0]].kind in "LD":
                spec[self.rename.get(n, n) + "_now"] = SV(st.heap[sv.x[0]].kind, st.heap[sv.x[0]].val)
        for n, sv in st.env.items():
            if n not in self.entry.env and sv.kind == "REF" and not sv.x[1] and st.heap[sv.x[0]].kind == "OBJ":
                spec[n + "_now"] = self.objenv(st, sv)
        return roles, spec

    ROLE = re.compile(r"\b(ACC|MAP|NUM|FLAG|VAL|STR|SET|TUP|KEYS)(\d*)\b")
    KIND = dict(KEYS="K", ACC="L", MAP="D", NUM="I", FLAG="B", VAL="V", STR="S", SET="SET", TUP="T")

    def candidates(self, env):
        roles, spec = env
        out = []
        if self.c.when and not self.use_when:
            return out
        for tmpl in self.c.inv:
            names = sorted({m.group(0) for m in self.ROLE.finditer(tmpl)})
            pools = []
            for n in names:
                k = self.KIND[self.ROLE.match(n).group(1)]
                pool = [m for m, _ in roles[k]]
                if k in ("L", "D", "B", "I", "S"):
                    pool += ["V:" + m for m, _ in roles["V"]] if k in ("D",) else []
                pools.append(pool)
            tot = 1
            for p in pools:
                tot *= len(p)
            if tot > 300:
                continue
            for combo in itertools.product(*pools):
                if len(set(combo)) == len(combo):
                    out.append((tmpl, tuple(zip(names, combo))))
        return out

    def cand_term(self, c, env):
        roles, spec = env
        tmpl, bind = c
        e = dict(spec)
        for role, var in bind:
            k = self.KIND[self.ROLE.match(role).group(1)]
            src = "V" if var.startswith("V:") else k
            nm = var[2:] if var.startswith("V:") else var
            sv = next((v for n, v in roles[src] if n == nm), None)
            if sv is None:
                return None
            e[role] = th.as_kind(sv, "L" if k == "K" else k)
        try:
            return truth(th.SpecTr(self.c.fuel).ex(ast.parse(tmpl, mode="eval").body, e))
        except Unsupported:
            return None
        except z3.Z3Exception:
            return None

    def cand_ok(self, st, c, env):
        g = self.cand_term(c, env)
        if g is None:
            return False
        return th.prove(st.pc, g, self.c.inv_timeout, retry=False)

    # ------------------------------------------------------------------ conditions and expressions
    def cond(self, e, st):
        """[(state, bool)]"""
        if isinstance(e, ast.BoolOp):
            outs, cur = [], [st]
            is_and = isinstance(e.op, ast.And)
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for y, b in self.cond(x, s):
                        if b == is_and:
                            nxt.append(y)
                        else:
                            outs.append((y, b))
                cur = nxt
            return outs + [(s, is_and) for s in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.cond(e.operand, st)]
        outs = []
        for x, v in self.ev(e, st):
            outs += self.branch(x, self.truth(x, v, e.lineno))
        return outs

    def truth(self, st, v, line):
        c = self.rd(st, v)
        if c.kind == "REF":
            cell = st.heap[c.x[0]]
            m = self.repo.method(cell.cls, "__len__") or self.repo.method(cell.cls, "__bool__")
            if m:
                for y, r in self.call_func(m, [c], {}, st, line):
                    return truth(self.rd(y, r))
            return z3.BoolVal(True)
        return truth(c)

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        if hasattr(e, "lineno"):
            self.line = e.lineno
        return m(e, st)

    def const_expr(self, e):
        if isinstance(e, ast.Constant):
            return th.const(e.value)
        if isinstance(e, ast.List) and not e.elts:
            return SV("L", th.T.nil)
        if isinstance(e, ast.Dict) and not e.keys:
            return SV("D", th.T.emptyD)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "set" and not e.args:
            return SV("SET", th.T.emptySet)
        if isinstance(e, ast.List):
            return SV("L", th.mklist([V(self.const_expr(x)) for x in e.elts]))
        if isinstance(e, ast.Tuple):
            return SV("T", th.mklist([V(self.const_expr(x)) for x in e.elts]))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return th.neg(self.const_expr(e.operand))
        if isinstance(e, ast.Name):
            return self.global_value(self.repo.resolve(self.module, e.id), e.id)
        raise Unsupported("constant expression")

    def e_Constant(self, e, st):
        return [(st, th.const(e.value))]

    def e_Name(self, e, st):
        n = e.id
        if n in st.env:
            v = st.env[n]
            if v.kind == "UNDEF":
                raise Unsupported(f"possibly unbound variable {n}")
            if v.kind == "V" and isinstance(v.x, tuple):
                r = SV("REF", None, v.ty, x=v.x)
                cid, path, ver = v.x
                cell = st.heap[cid]
                if path and stale(cell, path, ver) and v.t is not None:
                    # the structure was changed, but what is at this place has the value that it had
                    try:
                        if th.prove(st.pc, self.at(st, cell, path) == v.t, 4000, retry=False):
                            st.env[n] = v = SV("V", v.t, v.ty, (cid, path, cell.ver))
                            return [(st, v)]
                    except (Unsupported, z3.Z3Exception):
                        pass
                c = self.rd(st, r)
                return [(st, SV("V", c.t, v.ty, v.x))]
            return [(st, v)]
        r = self.repo.resolve(self.module, n)
        if r is None:
            if n in BUILTINS or n in EXC_TYPES:
                return [(st, SV("F", None, x=("builtin", n)))]
            self.raise_(st, "NameError", e.lineno, n)
            return []
        return [(st, self.global_value(r, n))]

    def global_value(self, r, n):
        if r is None:
            raise Unsupported(f"name {n}")
        if r[0] == "class":
            return SV("F", None, x=("class", r[1]))
        if r[0] == "func":
            return SV("F", None, x=("func", r[1]))
        if r[0] == "module":
            return SV("F", None, x=("module", r[1]))
        if r[0] == "ext":
            return SV("F", None, x=("ext", r[1]))
        if r[0] == "const":
            old = self.module
            self.module = r[1]
            try:
                return self.global_const(r[2])
            finally:
                self.module = old
        raise Unsupported(f"name {n}")

    def global_const(self, e):
        if isinstance(e, ast.Call):
            r = self.repo.resolve(self.module, e.func.id) if isinstance(e.func, ast.Name) else None
            if r and r[0] == "class" and r[1].name in th.T.classes:
                args = [V(self.const_expr(a)) for a in e.args]
                fs = th.T.classes[r[1].name]
                return SV("V", th.T.obj(r[1].name, *(args + [th.T.none] * (len(fs) - len(args)))))
            raise Unsupported("module constant")
        return self.const_expr(e)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x, l in self.seq_display(e.elts, st):
                out.append((x, SV("T", l)))
            return out
        out = []
        for x, vs in self.args(e.elts, st):
            if all(v.kind not in ("REF", "F") for v in vs):
                out.append((x, SV("T", th.mklist([V(v) for v in vs]), None, x=vs)))
            else:
                out.append((x, SV("T", th.mklist([self.val(x, v, escape=False) if v.kind != "F" else self.fun_or_opaque(x, v) for v in vs]), None, x=vs)))
        return out

    def fun_or_opaque(self, st, v):
        return self.fun_term(st, v)

    def seq_display(self, elts, st):
        res = [(st, th.T.nil)]
        for a in elts:
            nxt = []
            for x, l in res:
                if isinstance(a, ast.Starred):
                    for y, v in self.ev(a.value, x):
                        nxt.append((y, th.app(l, self.seq_for_iter(y, v, a.lineno))))
                else:
                    for y, v in self.ev(a, x):
                        nxt.append((y, th.app(l, th.mklist([self.val(y, v)]))))
            res = nxt
        return res

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(x, self.new(x, "L", l)) for x, l in self.seq_display(e.elts, st)]
        out = []
        for x, vs in self.args(e.elts, st):
            out.append((x, self.new(x, "L", th.mklist([self.val(x, v) for v in vs]))))
        return out

    def e_Set(self, e, st):
        out = []
        for x, vs in self.args(e.elts, st):
            s = th.T.emptySet
            for v in vs:
                s = z3.Store(s, th.T.key(self.val(x, v)), z3.BoolVal(True))
            out.append((x, self.new(x, "SET", s)))
        return out

    def e_Dict(self, e, st):
        if any(k is None for k in e.keys):
            res = [(st, th.T.emptyD)]
            for k, v in zip(e.keys, e.values):
                nxt = []
                for x, d in res:
                    if k is None:
                        for y, o in self.ev(v, x):
                            od = D(self.rd(y, o))
                            nxt.append((y, od if d.eq(th.T.emptyD) else th.dict_union(d, od)))
                    else:
                        for y, kv in self.ev(k, x):
                            for z, vv in self.ev(v, y):
                                nxt.append((z, th.dstore(d, th.T.key(self.val(z, kv)), self.val(z, vv))))
                res = nxt
            return [(x, self.new(x, "D", d)) for x, d in res]
        out = []
        for x, ks in self.args(e.keys, st):
            for y, vs in self.args(e.values, x):
                d = th.T.emptyD
                for k, v in zip(ks, vs):
                    d = th.dstore(d, th.T.key(self.val(y, k)), self.val(y, v))
                order = th.mklist([V(self.rd(y, k)) for k in ks]) if len(ks) <= 1 else None
                out.append((y, self.new(y, "D", d, order=order)))
        return out

    def args(self, es, st):
        res = [(st, [])]
        for a in es:
            if isinstance(a, ast.Starred):
                raise Unsupported("starred argument")
            res = [(y, vs + [v]) for x, vs in res for y, v in self.ev(a, x)]
        return res

    def e_BinOp(self, e, st):
        out = []
        for x, vs in self.args([e.left, e.right], st):
            r = self.binop(x, e.op, vs[0], vs[1], e.lineno)
            if r is not None:
                out.append((x, r))
        return out

    def binop(self, st, op, a, b, line):
        a, b = self.rd(st, a), self.rd(st, b)
        if isinstance(op, ast.Mod) and a.kind == "S":
            return SV("S", th.T.fresh("fmt", z3.StringSort()))
        if isinstance(op, ast.Add):
            ks = {a.kind, b.kind}
            if "S" in ks and "V" in ks:
                o = a if a.kind == "V" else b
                self.need(st, th.isinst(o, "str"), "TypeError", line, "str + non-str")
            if ("L" in ks or "T" in ks) and "V" in ks:
                o, k = (a, b.kind) if a.kind == "V" else (b, a.kind)
                self.need(st, th.isinst(o, "list" if k == "L" else "tuple"), "TypeError", line, "list + non-list")
            if a.kind == "V" and b.kind == "V" and any(o.ty and o.ty[0] == "list" for o in (a, b)):
                for o in (a, b):
                    self.need(st, th.isinst(o, "list"), "TypeError", line, "list + non-list")
                a, b = SV("L", L(a)), SV("L", L(b))
            if a.kind == "V" and b.kind == "V" and (self.is_con(st, a, "VList") or self.is_con(st, b, "VList")):
                a, b = SV("L", L(a)), SV("L", L(b))
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and "V" in (a.kind, b.kind) and any(o.kind == "SET" or (o.ty and o.ty[0] == "set") for o in (a, b)):
            for o in (a, b):
                if o.kind == "V":
                    self.need(st, th.isinst(o, "set"), "TypeError", line, "set operation on a non-set")
            a, b = SV("SET", th.SET(a)), SV("SET", th.SET(b))
        if isinstance(op, ast.BitOr) and (a.kind == "V" or b.kind == "V") and "SET" not in (a.kind, b.kind):
            for o in (a, b):
                if o.kind == "V":
                    self.need(st, th.isinst(o, "dict"), "TypeError", line, "dict | non-dict")
        if isinstance(op, (ast.Mult, ast.Sub, ast.Div)) and (a.kind == "V" or b.kind == "V"):
            for o in (a, b):
                if o.kind == "V":
                    self.need(st, simp_not(th.T.is_("VNone", o.t)), "TypeError", line, "arithmetic on None")
        if isinstance(op, ast.Div):
            z = th.eq(SV("V", V(b)), SV("V", th.T.Val.VInt(z3.IntVal(0)))) if b.kind != "I" else th.int_cmp("eq", b.t, z3.IntVal(0))
            self.need(st, simp_not(z), "ZeroDivisionError", line, "division by zero")
        r = th.binop(op, a, b)
        if r.kind == "L":
            return self.new(st, "L", r.t, ty=a.ty)
        if r.kind == "D":
            return self.new(st, "D", r.t, ty=a.ty)
        if r.kind == "SET":
            return self.new(st, "SET", r.t, ty=a.ty)
        return r

    def is_con(self, st, sv, con):
        c = th.T.is_(con, sv.t)
        c = z3.simplify(c)
        return z3.is_true(c) or (not z3.is_false(c) and th.prove(st.pc, c, 300, retry=False))

    def e_UnaryOp(self, e, st):
        out = []
        if isinstance(e.op, ast.Not):
            for x, v in self.ev(e.operand, st):
                out.append((x, SV("B", simp_not(self.truth(x, v, e.lineno)))))
            return out
        if isinstance(e.op, ast.USub):
            return [(x, th.neg(self.rd(x, v))) for x, v in self.ev(e.operand, st)]
        raise Unsupported("unary operator")

    def e_BoolOp(self, e, st):
        # value semantics: the operand that decides
        is_and = isinstance(e.op, ast.And)
        res, cur = [], [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for y, v in self.ev(x, s):
                    if last:
                        res.append((y, v))
                        continue
                    for z, b in self.branch(y, self.truth(y, v, e.lineno)):
                        if b == is_and:
                            nxt.append(z)
                        else:
                            res.append((z, v))
            cur = nxt
        return res

    def e_IfExp(self, e, st):
        out = []
        for x, c in self.cond(e.test, st):
            out += self.ev(e.body if c else e.orelse, x)
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            for y in self.assign(e.target, v, x):
                out.append((y, v))
        return out

    def e_Compare(self, e, st):
        out = []
        for x, vs in self.args([e.left] + list(e.comparators), st):
            parts = []
            for i, op in enumerate(e.ops):
                parts.append(self.compare(x, op, vs[i], vs[i + 1], e.lineno))
            out.append((x, SV("B", simp_and(*parts))))
        return out

    def compare(self, st, op, a, b, line):
        if isinstance(op, (ast.In, ast.NotIn)) and b.kind == "REF" and not b.x[1] and st.heap[b.x[0]].kind == "OBJ":
            m = self.dunder(st, b, "__contains__")
            for y, r in self.call_func(m, [b, a], {}, st, line):
                t = truth(self.rd(y, r))
                return t if isinstance(op, ast.In) else simp_not(t)
        if a.kind == "REF" and b.kind == "REF" and isinstance(op, (ast.Is, ast.IsNot)):
            same = a.x[:2] == b.x[:2]
            return z3.BoolVal(same == isinstance(op, ast.Is))
        if isinstance(op, (ast.In, ast.NotIn)) and (self.cls_of(st, b), "__contains__") in IFACE:
            for y, r in self.method(st, b, "__contains__", [a], {}, line):
                t = truth(self.rd(y, r))
                return t if isinstance(op, ast.In) else simp_not(t)
        ra, rb = self.rd(st, a), self.rd(st, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            for p, q in ((ra, rb), (rb, ra)):
                if q.kind == "V" and th.con_name(q.t) == "VNone" or q.kind == "B":
                    break
            else:
                # identity of other objects: implies equality; not known otherwise
                if ra.kind == "F" or rb.kind == "F":
                    raise Unsupported("identity of functions")
                same = th.T.fresh("same", z3.BoolSort())
                st.assume(z3.Implies(same, th.eq(SV("V", self.val(st, ra, False)), SV("V", self.val(st, rb, False)))))
                return same if isinstance(op, ast.Is) else z3.Not(same)
        if ra.kind in ("REF", "F"):
            ra = SV("V", self.val(st, ra, False))
        if rb.kind in ("REF", "F"):
            rb = SV("V", self.val(st, rb, False))
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            for o in (ra, rb):
                if o.kind == "V":
                    self.need(st, simp_not(th.T.is_("VNone", o.t)), "TypeError", line, "order comparison with None")
        if isinstance(op, (ast.In, ast.NotIn)) and rb.kind == "V":
            bad = simp_or(*[th.T.is_(k, rb.t) for k in ("VNone", "VBool", "VInt", "VFlt", "VFun")])
            self.need(st, simp_not(bad), "TypeError", line, "'in' on a non-container")
            if rb.ty and rb.ty[0] == "dict" and self.is_con(st, rb, "VDict"):
                rb = SV("D", D(rb))
            elif self.is_con(st, rb, "VList"):
                rb = SV("L", L(rb))
        return th.compare(op, ra, rb)

    def e_Subscript(self, e, st):
        out = []
        for x, o in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                if e.slice.step is not None:
                    s3 = e.slice.step
                    if isinstance(s3, ast.UnaryOp) and isinstance(s3.operand, ast.Constant) and s3.operand.value == 1 and not e.slice.lower and not e.slice.upper:
                        c = self.rd(x, o)
                        out.append((x, self.new(x, "L", th.call_spec("revL", [SV("L", L(c))]).t)))
                        continue
                    raise Unsupported("slice step")
                lo = self.ev(e.slice.lower, x) if e.slice.lower else [(x, None)]
                for y, l in lo:
                    hi = self.ev(e.slice.upper, y) if e.slice.upper else [(y, None)]
                    for z, h in hi:
                        c = self.rd(z, o)
                        if c.kind == "V":
                            self.need(z, simp_or(*[th.isinst(c, k) for k in ("list", "tuple", "str")]), "TypeError", e.lineno, "slice of a non-sequence")
                            for k, con in (("T", "VTup"), ("L", "VList"), ("S", "VStr")):
                                if self.is_con(z, c, con):
                                    c = th.as_kind(c, k)
                                    break
                        lv, hvv = (None if l is None else self.rd(z, l)), (None if h is None else self.rd(z, h))
                        if hvv is not None and hvv.kind == "I" and not z3.is_int_value(z3.simplify(hvv.t)):
                            self.need(z, hvv.t >= 0, "Unsupported-negative-slice", e.lineno, "negative slice bound")
                        if lv is not None and lv.kind == "I" and not z3.is_int_value(z3.simplify(lv.t)):
                            self.need(z, lv.t >= 0, "Unsupported-negative-slice", e.lineno, "negative slice bound")
                        th.NONNIL.append({t.get_id() for p in z.pc for t in th.nonnil_facts(p)})
                        try:
                            r = th.slice_(c, lv, hvv)
                        finally:
                            th.NONNIL.pop()
                        out.append((z, self.new(z, "L", r.t, ty=c.ty) if r.kind == "L" else r))
                continue
            for y, k in self.ev(e.slice, x):
                r = self.getitem(y, o, k, e.lineno)
                if r is not None:
                    out.append((y, r))
        return out

    def getitem(self, st, o, k, line):
        c, kv = self.rd(st, o), self.rd(st, k)
        if c.kind == "REF":
            m = self.dunder(st, c, "__getitem__")
            rs = self.call_func(m, [c, k], {}, st, line)
            if len(rs) != 1:
                raise Unsupported("__getitem__ forks")
            return rs[0][1]
        if kv.kind == "REF":
            kv = SV("V", self.val(st, kv))
        if isinstance(c.x, list) and kv.kind == "I" and z3.is_int_value(z3.simplify(kv.t)):
            n = z3.simplify(kv.t).as_long()
            if -len(c.x) <= n < len(c.x):
                return c.x[n]
        kind = c.kind
        if kind == "V":
            for kk, con in (("D", "VDict"), ("L", "VList"), ("T", "VTup"), ("S", "VStr")):
                if th.con_name(c.t) == con:
                    kind = kk
            if kind == "V" and c.ty:
                kind = dict(list="L", dict="D", str="S", tuple="T").get(c.ty[0], "V")
                if kind != "V":
                    con = dict(L="list", D="dict", S="str", T="tuple")[kind]
                    if not th.prove(st.pc, th.isinst(c, con), 500, retry=False):
                        kind = "V"
            if kind == "V" and kv.kind in ("S",):
                kind = "D"
            if kind == "V" and kv.kind == "I":
                # list, tuple or str by position; dict by key
                if self.is_con(st, c, "VDict"):
                    kind = "D"
            if kind == "V":
                if kv.kind == "V" and self.is_con(st, c, "VDict"):
                    kind = "D"
        if kind == "D":
            if c.kind == "V":
                self.need(st, th.isinst(c, "dict"), "TypeError", line, "subscript of a non-dict")
            d = D(c)
            if not self.need(st, th.contains(kv, SV("D", d)), "KeyError", line, "key may be missing"):
                return None
            r = SV("V", th.sel(d, th.T.key(V(kv))), th.val_ty(c.ty))
            r.x = self.sub_ref(st, o, "k", V(kv))
            return r
        if kind in ("L", "T") or (kind == "V" and kv.kind == "I"):
            if c.kind == "V":
                if not self.need(st, simp_or(th.isinst(c, "list"), th.isinst(c, "tuple"), th.isinst(c, "str")), "TypeError", line, "subscript of a non-sequence"):
                    return None
                if not th.prove(st.pc, simp_or(th.isinst(c, "list"), th.isinst(c, "tuple")), 500, retry=False):
                    r = th.index(c, kv)
                    self.need(st, th.vlen(c) > I(kv), "IndexError", line, "index out of range")
                    return r
            l = L(c)
            i = z3.simplify(I(kv))
            if z3.is_int_value(i):
                n = i.as_long()
                if n >= 0:
                    cond, x = [], l
                    for j in range(n + 1):
                        cond.append(simp_not(th.isnil(x)))
                        x = th.tl(x)
                    ok = self.need(st, simp_and(*cond), "IndexError", line, "index out of range")
                else:
                    ok = self.need(st, th.int_cmp("le", z3.IntVal(-n), th.lenL(l)), "IndexError", line, "index out of range")
                if not ok:
                    return None
            else:
                if not self.need(st, z3.And(i >= 0, i < th.lenL(l)), "IndexError", line, "index out of range"):
                    return None
            r = SV("V", th.nth(l, i), th.elt_ty(c.ty))
            r.x = self.sub_ref(st, o, "i", i)
            return r
        if kind == "S":
            s = S(c)
            i = I(kv)
            if not self.need(st, z3.And(i < z3.Length(s), i >= -z3.Length(s)), "IndexError", line, "string index out of range"):
                return None
            return th.index(SV("S", s), SV("I", i))
        # unknown container
        if kind == "V":
            self.need(st, th.isinst(c, "dict"), "TypeError", line, "subscript with a non-integer of a non-dict")
            d = D(c)
            if not self.need(st, th.contains(kv, SV("D", d)), "KeyError", line, "key may be missing"):
                return None
            r = SV("V", th.sel(d, th.T.key(V(kv))), th.val_ty(c.ty))
            r.x = self.sub_ref(st, o, "k", V(kv))
            return r
        raise Unsupported(f"subscript of {c.kind}")

    def e_Attribute(self, e, st):
        out = []
        for x, o in self.ev(e.value, st):
            r = self.getattr(x, o, e.attr, e.lineno)
            if r is not None:
                out.append((x, r))
        return out

    def cls_of(self, st, o):
        if o.kind == "REF":
            if not o.x[1]:
                return st.heap[o.x[0]].cls
            o = self.rd(st, o)
        if o.kind == "V":
            cn = th.con_name(o.t)
            if cn and cn.startswith("O_"):
                return cn[2:]
            for c in th.T.classes:
                rc = getattr(th.T.Val, "is_O_" + c)(o.t)
                if any(p.eq(rc) for p in st.pc):
                    return c
        if o.ty and (o.ty[0] in self.repo.classes):
            return o.ty[0]
        return None

    def getattr(self, st, o, name, line):
        if o.kind == "F":
            k = o.x[0]
            if k == "module":
                mod = self.repo.modules.get(o.x[1])
                if mod:
                    return self.global_value(self.repo.resolve(mod, name), name)
                return SV("F", None, x=("ext", f"{o.x[1]}.{name}"))
            if k == "ext":
                return SV("F", None, x=("ext", f"{o.x[1]}.{name}"))
            if k == "class":
                m = self.repo.method(o.x[1].name, name)
                if m:
                    return SV("F", None, x=("func", m))
                for c in self.repo.mro(o.x[1].name):
                    if name in c.consts:
                        old = self.module
                        self.module = c.module
                        try:
                            return self.const_expr(c.consts[name])
                        finally:
                            self.module = old
            if k == "super":
                return SV("F", None, x=("superbound", o.x[1], o.x[2], name))
            if k == "builtin":
                return SV("F", None, x=("builtin", f"{o.x[1]}.{name}"))
            raise Unsupported(f"attribute {name} of {o.x[0]}")
        if o.kind == "REF" and not o.x[1] and st.heap[o.x[0]].kind == "OBJ":
            cell = st.heap[o.x[0]]
            if name in cell.val:
                v = cell.val[name]
                if v.kind == "V":
                    v = SV("V", v.t, v.ty, (o.x[0], (("f", name),), cell.ver))
                return v
            m = self.repo.method(cell.cls, name)
            if m:
                if m.is_property():
                    rs = self.call_func(m, [o], {}, st, line)
                    return rs[0][1]
                return SV("F", None, x=("bound", o, name))
            for c in self.repo.mro(cell.cls):
                if name in c.consts:
                    return self.const_expr(c.consts[name])
            raise Unsupported(f"attribute {name} of {cell.cls}")
        c = self.rd(st, o)
        if c.kind == "V":
            cls = self.cls_of(st, o)
            cases = th.attr_cases(c.t, name)
            if cls in th.T.classes and name in th.T.classes[cls]:
                r, ok = th.attr(c, name, cls)
                if not (c.ty and c.ty[0] == cls and False):
                    # declared class (annotation) or recogniser on the path
                    if not th.prove(st.pc, ok, 500, retry=False):
                        th.assume_note("ann-field", f"objects annotated with an entity class are instances of it ({cls})")
                        st.assume(ok)
                r = SV("V", r.t, r.ty, self.sub_ref(st, o, "f", name))
                return r
            if cls is not None and self.repo.method(cls, name):
                return SV("F", None, x=("bound", o, name))
            if cls is not None and (cls, name) in IFACE:
                return SV("F", None, x=("bound", o, name))
            if cls is not None and cls not in th.T.classes and name in self.repo.fields(cls):
                # field of an opaque object: a function of the object
                f = z3.Function(f"fld_{cls}_{name}", th.T.Val, th.T.Val)
                th.assume_note("opaque-field", "fields of objects that are not values are read as unchanging (no aliasing with the objects under contract)")
                return SV("V", f(c.t), th.ann_ty(self.repo.annotation(cls, name)))
            if cases:
                r, ok = th.attr(c, name)
                if not self.need(st, ok, "AttributeError", line, f"no attribute {name}"):
                    return None
                return SV("V", r.t, r.ty, self.sub_ref(st, o, "f", name))
            if ("*", "attr:" + name) in IFACE:
                a = IFACE[("*", "attr:" + name)]
                th.assume_note("attr:" + name, a.assumed)
                return self.spec(a.result, {next(iter(a.params)): c})
            return SV("F", None, x=("bound", o, name))
        return SV("F", None, x=("bound", o, name))

    def dunder(self, st, o, name):
        cls = self.cls_of(st, o)
        return self.repo.method(cls, name) if cls else None

    def e_JoinedStr(self, e, st):
        res = [(st, [])]
        for p in e.values:
            if isinstance(p, ast.Constant):
                res = [(x, ps + [z3.StringVal(p.value)]) for x, ps in res]
            else:
                if p.format_spec is not None or p.conversion not in (-1,):
                    raise Unsupported("format spec")
                res = [(y, ps + [th.to_str(self.strable(y, v))]) for x, ps in res for y, v in self.ev(p.value, x)]
        out = []
        for x, ps in res:
            out.append((x, SV("S", z3.StringVal("") if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps))))
        return out

    def strable(self, st, v):
        r = self.rd(st, v)
        if r.kind in ("REF", "F"):
            return SV("V", self.val(st, r, False))
        return r

    def e_Lambda(self, e, st):
        return [(st, SV("F", None, x=("lambda", e, dict(st.env), self.module)))]

    # ---------- comprehensions
    def comp(self, e, st, kind):
        """desugars to a loop over a hidden accumulator"""
        n = len(st.env)
        acc = f"$acc{next(self.cellno)}"
        saved = dict(st.env)
        x = st.copy()
        if kind == "L":
            x.env[acc] = self.new(x, "L", th.T.nil)
            leaf = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [e.elt], []))
        elif kind == "SET":
            x.env[acc] = self.new(x, "SET", th.T.emptySet)
            leaf = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "add", ast.Load()), [e.elt], []))
        elif kind == "D":
            x.env[acc] = self.new(x, "D", th.T.emptyD, order=th.T.nil)
            leaf = ast.Assign([ast.Subscript(ast.Name(acc, ast.Load()), e.key, ast.Store())], e.value)
        elif kind == "any":
            x.env[acc] = SV("B", z3.BoolVal(False))
            leaf = ast.If(e.elt, [ast.Assign([ast.Name(acc, ast.Store())], ast.Constant(True)), ast.Break()], [])
        elif kind == "all":
            x.env[acc] = SV("B", z3.BoolVal(True))
            leaf = ast.If(ast.UnaryOp(ast.Not(), e.elt), [ast.Assign([ast.Name(acc, ast.Store())], ast.Constant(False)), ast.Break()], [])
        elif kind == "sum":
            x.env[acc] = SV("I", z3.IntVal(0))
            leaf = ast.AugAssign(ast.Name(acc, ast.Store()), ast.Add(), e.elt)
        if kind in ("any", "all") and len(e.generators) > 1:
            raise Unsupported("nested generator in any/all")
        stmt = leaf
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                stmt = ast.If(c, [stmt], [])
            stmt = ast.For(g.target, g.iter, [stmt], [], None)
        ast.copy_location(stmt, e)
        for nd in ast.walk(stmt):
            if not hasattr(nd, "lineno"):
                nd.lineno = e.lineno
                nd.col_offset = 0
                nd.end_lineno = e.lineno
                nd.end_col_offset = 0
        out = []
        for k, y, p in self.stmt(stmt, x):
            if k == "raise":
                self.sinks[-1].append((y, p))
            elif k == "next":
                r = y.env[acc]
                y.env = {**{q: w for q, w in y.env.items() if q in saved}}
                for q, w in saved.items():
                    if q not in y.env or q in target_names_all(e.generators):
                        y.env[q] = w
                out.append((y, r))
            else:
                raise Unsupported("control flow in comprehension")
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, st, "L")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "L")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "SET")

    def e_DictComp(self, e, st):
        r = self.dict_filter(e, st)
        return r if r is not None else self.comp(e, st, "D")

    def dict_filter(self, e, st):
        """{k: f(k, v) for k, v in d.items() if c(k, v)}: defined pointwise"""
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        if not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items" and isinstance(g.target, ast.Tuple)
                and all(isinstance(t, ast.Name) for t in g.target.elts) and isinstance(e.key, ast.Name) and e.key.id == g.target.elts[0].id):
            return None
        out = []
        for x, o in self.ev(g.iter.func.value, st):
            c = self.rd(x, o)
            if c.kind == "V":
                self.need(x, th.isinst(c, "dict"), "AttributeError", e.lineno, "items of a non-dict")
            d = D(c)
            k = z3.Const(f"kk!{next(self.cellno)}", th.T.K)
            kv, vv = SV("V", th.T.unkey(k)), SV("V", th.sel(d, k))
            y = x.copy()
            y.env[g.target.elts[0].id], y.env[g.target.elts[1].id] = kv, vv
            y.assume(th.dhas(d, k))
            self.sinks.append([])
            conds, states = [], [(y, z3.BoolVal(True))]
            try:
                n0 = len(y.pc)
                for cnd in g.ifs:
                    nxt = []
                    for s, acc in states:
                        for z, v in self.ev(cnd, s):
                            nxt.append((z, simp_and(acc, self.truth(z, v, e.lineno))))
                    states = nxt
                if len(states) != 1:
                    return None
                s, cond = states[0]
                vals = self.ev(e.value, s)
                if len(vals) != 1 or len(vals[0][0].pc) > n0 + 6:
                    return None
                extra = vals[0][0].pc[n0:]
                val = self.val(vals[0][0], vals[0][1])
            finally:
                raised = self.sinks.pop()
            if raised:
                return None
            r = th.T.fresh("dcomp", th.T.sorts["D"])
            body = z3.Select(r, k) == z3.If(z3.And(th.dhas(d, k), cond), th.T.Opt.some(val), th.T.absent)
            facts = [p for p in extra if _mentions(p, k)]
            if facts:
                # facts about the conditions' own sub-computations
                body = z3.And(body, *[z3.Implies(th.dhas(d, k), p) for p in facts])
            x.assume(z3.ForAll([k], body, patterns=[z3.Select(r, k)]))
            for p in extra:
                if not _mentions(p, k):
                    x.assume(p)
            out.append((x, self.new(x, "D", r)))
        return out

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        line = e.lineno
        # special forms
        if isinstance(f, ast.Name) and f.id not in st.env:
            r = self.special(f.id, e, st)
            if r is not None:
                return r
        out = []
        for x, fv in self.ev(f, st):
            out += self.call_args(x, fv, e, line)
        return out

    def call_args(self, x, fv, e, line):
        res = [(x, [], {})]
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                nxt = []
                for y, vs, kw in res:
                    for z, v in self.ev(a.value, y):
                        nxt.append((z, vs + [SV("STAR", self.seq_for_iter(z, v, line))], kw))
                res = nxt
                continue
            res = [(z, vs + [v], kw) for y, vs, kw in res for z, v in self.ev(a, y)]
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("** argument")
            res = [(z, vs, dict(kw, **{k.arg: v})) for y, vs, kw in res for z, v in self.ev(k.value, y)]
        out = []
        for y, vs, kw in res:
            out += self.call(y, fv, vs, kw, line)
        return out

    def special(self, n, e, st):
        if self.repo.resolve(self.module, n) is not None:
            return None
        gen = e.args[0] if len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) else None
        if n in ("any", "all", "sum") and gen is not None and len(gen.generators) == 1 and not e.keywords:
            return self.comp(gen, st, n)
        if n in ("any", "all", "sum") and len(e.args) == 1 and not e.keywords:
            g = ast.GeneratorExp(ast.Name("$x", ast.Load()), [ast.comprehension(ast.Name("$x", ast.Store()), e.args[0], [], 0)])
            _fix(g, e)
            return self.comp(g, st, n)
        if n in ("list", "tuple", "set") and len(e.args) == 1:
            if n == "set" and gen is not None:
                return self.comp(gen, st, "SET")
            if gen is not None:
                out = []
                for x, r in self.comp(gen, st, "L"):
                    out.append((x, r if n == "list" else SV("T", self.rd(x, r).t)))
                return out
            if isinstance(e.args[0], ast.Call) and isinstance(e.args[0].func, ast.Name) and e.args[0].func.id in ("map", "filter", "zip", "enumerate", "reversed", "range"):
                g = ast.ListComp(ast.Name("$x", ast.Load()), [ast.comprehension(ast.Name("$x", ast.Store()), e.args[0], [], 0)])
                if e.args[0].func.id == "map" and len(e.args[0].args) == 2:
                    g = ast.ListComp(ast.Call(e.args[0].args[0], [ast.Name("$x", ast.Load())], []), [ast.comprehension(ast.Name("$x", ast.Store()), e.args[0].args[1], [], 0)])
                if e.args[0].func.id == "filter":
                    cnd = ast.Name("$x", ast.Load()) if isinstance(e.args[0].args[0], ast.Constant) else ast.Call(e.args[0].args[0], [ast.Name("$x", ast.Load())], [])
                    g = ast.ListComp(ast.Name("$x", ast.Load()), [ast.comprehension(ast.Name("$x", ast.Store()), e.args[0].args[1], [cnd], 0)])
                _fix(g, e)
                out = []
                for x, r in self.comp(g, st, "L"):
                    out.append((x, r if n == "list" else SV("T", self.rd(x, r).t)))
                return out
        if n == "isinstance":
            out = []
            for x, v in self.ev(e.args[0], st):
                names = [ast.unparse(t).split(".")[-1] for t in (e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]])]
                r = self.rd(x, v)
                if r.kind == "REF":
                    cls = x.heap[r.x[0]].cls
                    c = z3.BoolVal(any(m.name in names for m in self.repo.mro(cls)))
                elif r.kind == "F":
                    c = z3.BoolVal(False)
                else:
                    cs = []
                    for k in names:
                        if k in ("list", "tuple", "str", "dict", "set", "int", "bool", "float") or k in th.T.classes or any(any(m.name == k for m in self.repo.mro(cc)) for cc in th.T.classes):
                            cs.append(th.isinst(r, k))
                        elif r.kind != "V":
                            cs.append(z3.BoolVal(False))
                        else:
                            f = z3.Function("isinst_" + k, th.T.Val, z3.BoolSort())
                            cs.append(f(r.t))
                    c = simp_or(*cs)
                out.append((x, SV("B", c)))
            return out
        if n == "super":
            return [(st, SV("F", None, x=("super", st.env.get("self"), self.cls)))]
        if n == "print":
            return [(x, SV("V", th.T.none)) for x, _ in self.args(e.args, st)]
        return None

    def call(self, st, fv, args, kw, line):
        """[(state, value)]"""
        if fv.kind == "V":
            return self.call_value(st, fv, None, args, kw, line)
        if fv.kind != "F":
            raise Unsupported("call of a non-function")
        k = fv.x[0]
        if k == "builtin":
            return self.builtin(st, fv.x[1], args, kw, line)
        if k == "func":
            return self.call_func(fv.x[1], args, kw, st, line)
        if k == "class":
            return self.construct(st, fv.x[1], args, kw, line)
        if k == "lambda":
            return self.call_lambda(st, fv, args, line)
        if k == "local":
            fi = _LocalFn(fv.x[1], self.fi.module, self.fi.cls)
            return self.inline(fi, args, kw, st, line, closure=fv.x[2])
        if k == "ext":
            return self.external(st, fv.x[1], args, kw, line)
        if k == "superbound":
            for c in self.repo.mro(fv.x[2])[1:]:
                if fv.x[3] in c.methods:
                    return self.call_func(c.methods[fv.x[3]], [fv.x[1]] + args, kw, st, line)
            return [(st, SV("V", th.T.none))]     # object / ABC
        if k == "bound":
            return self.method(st, fv.x[1], fv.x[2], args, kw, line)
        raise Unsupported(f"call of {k}")

    def call_lambda(self, st, fv, args, line):
        node, env, mod = fv.x[1], fv.x[2], fv.x[3]
        ps = [a.arg for a in node.args.args]
        if len(ps) != len(args):
            raise Unsupported("lambda arguments")
        saved = st.env
        x = st.copy()
        x.env = dict(env)
        # captured variables have their current value
        for q in env:
            if q in saved:
                x.env[q] = saved[q]
        x.env.update(zip(ps, args))
        out = []
        for y, v in self.ev(node.body, x):
            y.env = dict(saved)
            out.append((y, v))
        return out

    def call_func(self, fi, args, kw, st, line):
        q = fi.qual
        c = CONTRACTS.get(q)
        if c is not None and c.file and self.repo.find(c.file, c.qual) is not None and self.repo.find(c.file, c.qual).node is fi.node:
            return self.by_contract(c, fi, args, kw, st, line)
        return self.inline(fi, args, kw, st, line)

    def bind_args(self, fi, args, kw, st):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        star = [x for x in args if x.kind == "STAR"]
        if star:
            if len(args) != 1 + names.index(names[-1]) - len(names) + 1 and not a.vararg:
                raise Unsupported("starred call")
        args = list(args)
        for i, n in enumerate(names):
            if i < len(args):
                if args[i].kind == "STAR":
                    raise Unsupported("starred call")
                env[n] = args[i]
        if len(args) > len(names):
            if not a.vararg:
                raise Unsupported("too many arguments")
            rest = args[len(names):]
            if any(x.kind == "STAR" for x in rest):
                l = th.T.nil
                for x in rest:
                    l = th.app(l, x.t if x.kind == "STAR" else th.mklist([self.val(st, x)]))
                env[a.vararg.arg] = SV("T", l)
            else:
                env[a.vararg.arg] = SV("T", th.mklist([self.val(st, x) for x in rest]))
        elif a.vararg:
            env[a.vararg.arg] = SV("T", th.T.nil)
        for n, v in kw.items():
            env[n] = v
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env:
                old = self.module
                self.module = fi.module
                try:
                    env[n] = self.const_expr(d)
                finally:
                    self.module = old
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.const_expr(d)
        for n in names:
            if n not in env:
                return None, n
        return env, None

    def inline(self, fi, args, kw, st, line, closure=None):
        self.inlined.add(fi.qual)
        if self.depth > 12 or fi.qual in [f for f in st.frames]:
            raise Unsupported(f"recursion through {fi.qual} without a contract")
        if fi.is_static() and fi.cls is not None:
            pass
        env, missing = self.bind_args(fi, args, kw, st)
        if env is None:
            self.raise_(st, "TypeError", line, f"missing argument {missing} in call of {fi.qual}")
            return []
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fi.node)):
            raise Unsupported("generator function")
        x = st.copy()
        saved_env, saved_mod, saved_cls, saved_frames = st.env, self.module, self.cls, st.frames
        if closure is not None:
            e2 = dict(closure)
            e2.update({k: v for k, v in st.env.items() if k in closure})
            e2.update(env)
            env = e2
        x.env = env
        x.frames = st.frames + (fi.qual,)
        # annotations give static classes
        for a in fi.node.args.posonlyargs + fi.node.args.args:
            v = env.get(a.arg)
            if v is not None and v.ty is None and a.annotation is not None and v.kind in ("V", "REF", "L", "D"):
                env[a.arg] = SV(v.kind, v.t, th.ann_ty(a.annotation), v.x)
        self.module = fi.module
        self.cls = fi.cls.name if fi.cls else None
        self.depth += 1
        # keep the caller's local references reachable for aliasing updates
        try:
            outs = self.block(fi.node.body, x)
        finally:
            self.module, self.cls = saved_mod, saved_cls
            self.depth -= 1
        res = []
        for k, y, p in outs:
            y.env = self.restore(saved_env, y)
            y.frames = saved_frames
            if k == "return":
                res.append((y, p))
            elif k == "next":
                res.append((y, SV("V", th.T.none)))
            elif k == "raise":
                self.sinks[-1].append((y, p))
            else:
                raise Unsupported("break outside loop")
        # the raised states of the callee: environment of the caller
        for s, e in self.sinks[-1]:
            if s.frames != saved_frames and len(s.frames) > len(saved_frames):
                s.env = self.restore(saved_env, s)
                s.frames = saved_frames
        return res

    def restore(self, env, st):
        return dict(env)

    def by_contract(self, c, fi, args, kw, st, line):
        self.callees.add(c.qual)
        env, missing = self.bind_args(fi, args, kw, st)
        if env is None:
            self.raise_(st, "TypeError", line, f"missing argument {missing} in call of {fi.qual}")
            return []
        fparams = fi.params
        cp = list(c.params)
        fp = [p for p in fparams if p != "self"]
        ren = {}
        if any(p not in fparams for p in cp) and not fi.node.args.vararg:
            ren = dict(zip(fp, cp))
        env = {ren.get(k, k): v for k, v in env.items()}
        return self.apply(c, env, st, line)

    def apply(self, c, env, st, line):
        """use of a contract at a call"""
        if c.assumed:
            self.assumed_used.add(f"{c.qual}: {c.assumed}")
        g = {}
        objs = {}
        if c.self_val is None and "self" in env and (c.self_fields or any(k.startswith("self.") for k in c.effects) or env["self"].kind == "REF"):
            sv = env["self"]
            if sv.kind == "REF" and not sv.x[1] and st.heap[sv.x[0]].kind == "OBJ":
                g["self"] = self.objenv(st, sv)
                objs["self"] = sv.x[0]
            elif sv.kind == "V":
                g["self"] = sv
        elif "self" in env:
            g["self"] = SV("V", self.val(st, env["self"], False), env["self"].ty)
        for n, kind in c.params.items():
            if n not in env:
                if n not in c.optional:
                    raise Unsupported(f"argument {n} of {c.qual}")
                env[n] = SV("V", th.T.none)
            v = env[n]
            if kind.startswith("OBJ:"):
                if v.kind == "REF" and st.heap[v.x[0]].kind == "OBJ":
                    g[n] = self.objenv(st, v)
                    objs[n] = v.x[0]
                    continue
                raise Unsupported(f"object argument {n} of {c.qual}")
            if kind in ("ML", "MD"):
                if v.kind != "REF" or v.x[1] or st.heap[v.x[0]].kind != kind[1] or (st.heap[v.x[0]].escaped and not st.heap[v.x[0]].entry):
                    raise Unsupported(f"argument {n} of {c.qual} is not the caller's own")
                if v.x[0] in objs.values():
                    raise Unsupported("the same object passed twice")
                g[n] = SV(kind[1], st.heap[v.x[0]].val, v.ty)
                objs[n] = v.x[0]
                continue
            r = self.rd(st, v)
            if r.kind in ("REF", "F"):
                r = SV("V", self.val(st, r))
            elif v.kind == "REF":
                # passed object: the callee may keep it
                self.val(st, v, escape=getattr(c, "keeps", False))
            if kind == "LV":
                kind = "L"
            if r.kind == "V" and kind != "V":
                con = dict(L=("VList", "VTup"), D=("VDict",), S=("VStr",), I=("VInt",), SET=("VSet",), T=("VTup",), B=("VBool",)).get(kind)
                if con and kind != "B":
                    ok = simp_or(*[th.T.is_(k, r.t) for k in con])
                    self.pre(st, ok, c, f"{n} is a {kind}", line)
            g[n] = th.as_kind(r, kind) if kind != "B" else SV("B", truth(r))
        if "self" in env:
            for e in list(c.ensures) + [c.result or ""] + [x for x in c.effects.values()]:
                for m in re.findall(r"\bMETH_(\w+)", e):
                    g["METH_" + m] = SV("V", self.fun_term(st, SV("F", None, x=("bound", env["self"], m))))
        for n, e in c.ghost.items():
            g[n] = self.spec_in(e, g, c)
        for r in c.requires:
            self.pre(st, truth(self.spec_in(r, g, c)), c, r, line)
        if c.decreases and c.qual == self.c.qual and hasattr(self, "dec0"):
            d = I(self.spec_in(c.decreases, g, c))
            self.oblige(st, z3.And(d >= 0, d < self.dec0), f"termination: {c.decreases} decreases in the recursive call", line)
        for e in c.defines_pre:
            th.assume_note("defines " + c.qual, f"{c.qual} is a function of its arguments and of what it reads: the name it is given in the specification ({e}) stands for what the call does")
            st.assume(truth(self.spec_in(e, g, c)))
        outs = []
        if self.c.qual in c.event:
            # ghost event: when this function calls it
            st.trace = th.app(st.trace, L(self.spec_in(c.event[self.c.qual], g, c)))
        # exceptional behaviour
        nr = c.no_raise if c.no_raise is not None else c.when
        when = truth(self.spec_in(c.when, g, c)) if c.when else None
        if nr is not None or c.must_raise is not None:
            may = simp_not(truth(self.spec_in(nr, g, c))) if nr is not None else truth(self.spec_in(c.must_raise, g, c))
            may = z3.simplify(may)
            if not z3.is_false(may) and not th.prove(st.pc, simp_not(may), 1500, retry=False):
                bad = st.copy().assume(may)
                if th.feasible(bad.pc):
                    for key in c.effects:
                        if "." not in key:
                            cell = bad.heap[objs[key]] = bad.heap[objs[key]].copy()
                            cell.ver += 1
                            cell.val = th.T.fresh(key, th.T.VL if cell.kind == "L" else th.T.sorts["D"])
                            cell.order = None
                            continue
                        base, *path = key.split(".")
                        if base in objs:
                            cid = objs[base]
                            while len(path) > 1:
                                cid = bad.heap[cid].val[path.pop(0)].x[0]
                            path = path[0]
                            cell = bad.heap[cid] = bad.heap[cid].copy()
                            cell.ver += 1
                            old = cell.val.get(path)
                            cell.val[path] = SV("V", th.T.fresh(path, th.T.Val), old.ty if old is not None else None)
                    if c.raise_trace is not None:
                        bad.trace = th.app(bad.trace, L(self.spec_in(c.raise_trace, g, c)))
                    elif c.trace:
                        bad.trace = th.T.fresh("trace", th.T.VL)
                    self.raise_(bad, c.raises_types or "Exception", line, f"raised by {c.qual}")
            if c.must_raise is not None:
                m = truth(self.spec_in(c.must_raise, g, c))
                ms = z3.simplify(m)
                if z3.is_true(ms):
                    return []
                st.assume(simp_not(m))
                if not th.feasible(st.pc):
                    return []
        # effects
        post = dict(g)
        for key, e in c.effects.items():
            if "." not in key:
                cell = st.heap[objs[key]] = st.heap[objs[key]].copy()
                cell.ver += 1
                cell.val = th.as_kind(self.spec_in(e, g, c), cell.kind).t
                cell.order = None
                continue
            base, path = key.split(".", 1)
            if base not in objs:
                raise Unsupported(f"effect on {key}")
            cid = objs[base]
            parts = path.split(".")
            while len(parts) > 1:
                cid = st.heap[cid].val[parts.pop(0)].x[0]
            cell = st.heap[cid] = st.heap[cid].copy()
            cell.ver += 1
            old = cell.val.get(parts[0])
            if e == "*":
                nv = th.T.fresh(parts[0], th.T.Val)
            else:
                nv = V(self.spec_in(e, g, c))
                if when is not None:
                    nv = z3.If(when, nv, th.T.fresh(parts[0], th.T.Val))
            if old is not None and old.kind == "REF":
                raise Unsupported("effect on a nested object")
            cell.val[parts[0]] = SV("V", nv, old.ty if old is not None else th.ann_ty(self.repo.annotation(cell.cls, parts[0])) if cell.cls in self.repo.classes else None)
        for n, cid in objs.items():
            if st.heap[cid].kind in ("L", "D"):
                post[n + "_post"] = SV(st.heap[cid].kind, st.heap[cid].val)
                continue
            post[n + "_post"] = self.objenv(st, SV("REF", None, None, x=(cid, (), 0)))
        if c.trace == "*":
            st.trace = th.T.fresh("trace", th.T.VL)
        elif c.trace:
            tr = th.app(st.trace, L(self.spec_in(c.trace, g, c)))
            if when is not None and th.prove(st.pc, when, 1000, retry=False):
                when = None
            st.trace = tr if when is None else z3.If(when, tr, th.T.fresh("trace", th.T.VL))
        if c.result is not None:
            r = th.as_kind(self.spec_in(c.result, g, c), c.ret)
            if when is not None and not z3.is_true(when) and not th.prove(st.pc, when, 1000, retry=False):
                r0, r = r, th.T.mk(c.ret, "ret")
                st.assume(z3.Implies(when, r.t == r0.t))
        elif c.ret == "N":
            r = SV("V", th.T.none)
        else:
            r = th.T.mk(c.ret, "ret")
        post["result"] = r
        for e in c.defines:
            th.assume_note("defines " + c.qual, f"{c.qual} is a function of its arguments and of what it reads: the name it is given in the specification ({e}) stands for what the call returns")
            st.assume(truth(self.spec_in(e, post, c)))
        for e in c.ensures:
            g1 = truth(self.spec_in(e, post, c))
            st.assume(g1 if when is None else z3.Implies(when, g1))
        ty = th.ann_ty(c.types["result"]) if "result" in c.types else None
        if ty is None and c.file:
            fi = self.repo.find(c.file, c.qual)
            if fi is not None and fi.node.returns is not None:
                ty = th.ann_ty(fi.node.returns)
        if r.kind in ("L", "D", "SET") and c.fresh:
            return outs + [(st, self.new(st, r.kind, r.t, ty=ty))]
        return outs + [(st, SV(r.kind, r.t, ty or r.ty))]

    def spec_in(self, e, g, c):
        return th.SpecTr(self.c.fuel).ex(ast.parse(e, mode="eval").body, g)

    def pre(self, st, cond, c, what, line):
        if self.c.when and not self.use_when:
            th.assume_note("frame-run", "outside its `when` clause a function's frame is checked for executions in which its callees get arguments of the kinds they require")
        else:
            self.oblige(st, cond, f"precondition of {c.qual}: {what}", line)
        st.assume(cond)

    def construct(self, st, ci, args, kw, line):
        name = ci.name
        if any(m.name in EXC_TYPES for m in self.repo.mro(name)) or name in EXC_TYPES:
            return [(st, SV("V", th.T.fresh("exc", th.T.Val)))]
        k = "new:" + name
        if ("*", k) in IFACE:
            c = IFACE[("*", k)]
            env = dict(zip(c.params, args))
            env.update(kw)
            return self.apply(c, env, st, line)
        init = self.repo.method(name, "__init__")
        if init is None:
            dc = [c for c in reversed(self.repo.mro(name)) if c.dataclass]
            fields, defaults = [], {}
            for c in dc:
                for f in c.annots:
                    if f not in fields:
                        fields.append(f)
                defaults.update({f: (d, c) for f, d in c.defaults.items()})
            vals = {}
            if len(args) > len(fields) or any(a.kind == "STAR" for a in args):
                raise Unsupported("constructor arguments")
            for f, a in zip(fields, args):
                vals[f] = a
            vals.update(kw)
            for f in fields:
                if f not in vals:
                    if f not in defaults:
                        self.raise_(st, "TypeError", line, f"missing argument {f} of {name}")
                        return []
                    d, c = defaults[f]
                    if isinstance(d, ast.Call):      # field(default_factory=list)
                        fac = next((q.value.id for q in d.keywords if q.arg == "default_factory"), None)
                        vals[f] = {"list": SV("L", th.T.nil), "dict": SV("D", th.T.emptyD), "set": SV("SET", th.T.emptySet)}.get(fac)
                        if vals[f] is None:
                            raise Unsupported("dataclass default")
                    else:
                        old = self.module
                        self.module = c.module
                        try:
                            vals[f] = self.const_expr(d)
                        finally:
                            self.module = old
            if name in th.T.classes:
                return [(st, SV("V", th.T.obj(name, *[self.val(st, vals[f]) if f in vals else th.T.none for f in th.T.classes[name]]), (name, [])))]
            cell = Cell("OBJ", {f: (v if v.kind in ("F", "REF") and (v.kind == "F" or st.heap[v.x[0]].kind == "OBJ") else SV("V", self.val(st, v), v.ty)) for f, v in vals.items()}, True, name)
            cid = next(self.cellno)
            st.heap[cid] = cell
            return [(st, SV("REF", None, (name, []), x=(cid, (), 0)))]
        cid = next(self.cellno)
        cell = Cell("OBJ", {}, True, name)
        st.heap[cid] = cell
        o = SV("REF", None, (name, []), x=(cid, (), 0))
        out = []
        for y, _ in self.call_func(init, [o] + args, kw, st, line):
            out.append((y, o))
        return out

    def call_value(self, st, fv, name, args, kw, line):
        """call of a function held in a field or variable"""
        nm = name
        if nm is None and fv.kind == "V" and z3.is_app(fv.t):
            d = fv.t.decl().name()
            if d.startswith("f_"):
                nm = d.split("_")[-1] if d.count("_") == 2 else d.split("_", 2)[2]
        if fv.x is not None and isinstance(fv.x, tuple) and fv.x[1]:
            last = fv.x[1][-1]
            if last[0] == "f":
                nm = last[1]
        c = IFACE.get(("*", "call:" + nm)) if nm else None
        c = c or IFACE.get(("*", "call"))
        if c is None:
            raise Unsupported(f"call of a function value ({nm})")
        ps = list(c.params)
        env = {ps[0]: SV("V", V(self.rd(st, fv)))}
        if len(ps) == 2 and c.params[ps[1]] == "L" and getattr(c, "varargs", True) and ps[1] == "args":
            l = th.T.nil
            for a in args:
                l = th.app(l, a.t if a.kind == "STAR" else th.mklist([self.val(st, a)]))
            env["args"] = SV("L", l)
        else:
            if any(a.kind == "STAR" for a in args):
                raise Unsupported("starred call of a function value")
            for p, a in zip(ps[1:], args):
                env[p] = a
            env.update(kw)
        return self.apply(c, env, st, line)

    def method(self, st, o, name, args, kw, line):
        # objects of the repository
        if o.kind == "REF" and not o.x[1] and st.heap[o.x[0]].kind == "OBJ":
            cls = st.heap[o.x[0]].cls
            fi = self.repo.method(cls, name)
            if (cls, name) in IFACE:
                c = IFACE[(cls, name)]
                env = dict(zip([p for p in c.params if p != "self"], args), self=o)
                env.update(kw)
                return self.apply(c, env, st, line)
            if fi:
                if fi.is_static():
                    return self.call_func(fi, args, kw, st, line)
                return self.call_func(fi, [o] + args, kw, st, line)
            raise Unsupported(f"method {cls}.{name}")
        c = self.rd(st, o)
        cls = self.cls_of(st, o)
        if c.kind == "V":
            for key in ((cls, name), ("*", name)):
                if key in IFACE:
                    ic = IFACE[key]
                    ps = [p for p in ic.params if p != "self"]
                    if len(args) > len(ps) and "args" not in ic.params:
                        raise Unsupported(f"arguments of {name}")
                    env = dict(zip(ps, args))
                    env.update(kw)
                    a = self.repo.method(cls, name).node.args if cls and self.repo.method(cls, name) else None
                    if a is not None:
                        names = [q.arg for q in a.args if q.arg != "self"]
                        env = dict(zip(names, args)) if set(ps) <= set(names) else env
                        env.update(kw)
                        for q, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                            if q not in env and q in ic.params:
                                env[q] = self.const_expr(d)
                    if "self" in ic.params:
                        env["self"] = o
                    if "self" in ic.effects:
                        # changes the object itself: the contents of the place it is held in
                        g = {p: SV("V", self.val(st, self.rd(st, v))) for p, v in env.items()}
                        nv = self.spec_in(ic.effects["self"], g, ic)
                        self.assumed_used.add(f"{ic.qual}: {ic.assumed}")
                        self.mut(st, o, nv, line)
                        return [(st, SV("V", th.T.none))]
                    return self.apply(ic, env, st, line)
            if cls is not None:
                fi = self.repo.method(cls, name)
                if fi is not None and cls in th.T.classes:
                    return self.call_func(fi, [o] + args, kw, st, line)
                if fi is not None and fi.qual in CONTRACTS and not CONTRACTS[fi.qual].self_fields:
                    return self.call_func(fi, [o] + args, kw, st, line)
        return self.builtin_method(st, o, c, name, args, kw, line)

    # ------------------------------------------------------------------ builtins
    def builtin_method(self, st, o, c, name, args, kw, line):
        k = c.kind
        cn = th.con_name(c.t) if k == "V" else None
        if k == "V":
            k = dict(VList="L", VTup="T", VDict="D", VStr="S", VSet="SET").get(cn, "V")
            if k == "V":
                guess = dict(append=("list", "L"), extend=("list", "L"), items=("dict", "D"), keys=("dict", "D"), values=("dict", "D"), join=("str", "S"), get=("dict", "D"),
                             startswith=("str", "S"), endswith=("str", "S"), lower=("str", "S"), upper=("str", "S"), strip=("str", "S"), setdefault=("dict", "D"), format=("str", "S"), replace=("str", "S"),
                             sort=("list", "L"), insert=("list", "L"), add=("set", "SET"), reverse=("list", "L"), split=("str", "S"),
                             union=("set", "SET"), encode=("str", "S"), index=("list", "L")).get(name)
                if name == "copy":
                    if self.is_con(st, c, "VDict"):
                        guess = ("dict", "D")
                    else:
                        guess = ("list", "L")
                if name == "pop":
                    guess = ("list", "L") if not self.is_con(st, c, "VDict") else ("dict", "D")
                if guess is None:
                    raise Unsupported(f"method {name}")
                if not self.need(st, th.isinst(c, guess[0]), "AttributeError", line, f"{name} of a non-{guess[0]}"):
                    return []
                k = guess[1]
            c = th.as_kind(c, k) if c.kind == "V" else c
        a = [self.rd(st, x) if x.kind != "STAR" else x for x in args]
        none = SV("V", th.T.none)
        if k == "L":
            if name == "append":
                if o.kind == "REF" and args[0].kind == "REF" and not args[0].x[1] and st.heap[args[0].x[0]].kind != "OBJ":
                    pass
                v = self.val(st, args[0])
                self.mut(st, o, SV("L", th.app(c.t, th.mklist([v]))), line)
                return [(st, none)]
            if name == "extend":
                l = self.seq_for_iter(st, args[0], line)
                self.mut(st, o, SV("L", th.app(c.t, l)), line)
                return [(st, none)]
            if name == "copy":
                return [(st, self.new(st, "L", c.t, ty=o.ty))]
            if name == "insert":
                i = z3.simplify(I(a[0]))
                if z3.is_int_value(i) and i.as_long() == 0:
                    self.mut(st, o, SV("L", th.T.cons(self.val(st, args[1]), c.t)), line)
                    return [(st, none)]
                raise Unsupported("insert")
            if name == "clear":
                self.mut(st, o, SV("L", th.T.nil), line)
                return [(st, none)]
            if name == "reverse":
                self.mut(st, o, SV("L", th.call_spec("revL", [c]).t), line)
                return [(st, none)]
            if name == "pop":
                if not a:
                    self.need(st, simp_not(th.isnil(c.t)), "IndexError", line, "pop from empty list")
                    r = th.call_spec("lastL", [c])
                    self.mut(st, o, th.call_spec("initL", [c]), line)
                    return [(st, r)]
                i = z3.simplify(I(a[0]))
                if z3.is_int_value(i) and i.as_long() == 0:
                    self.need(st, simp_not(th.isnil(c.t)), "IndexError", line, "pop from empty list")
                    r = SV("V", th.hd(c.t))
                    self.mut(st, o, SV("L", th.tl(c.t)), line)
                    return [(st, r)]
                raise Unsupported("pop")
            if name == "sort":
                res = []
                for y, new in self.sorted(st, c, kw, line):
                    self.mut(y, o, SV("L", new), line)
                    res.append((y, none))
                return res
            if name == "remove":
                self.need(st, th.contains(SV("V", self.val(st, args[0])), c), "ValueError", line, "list.remove(x): x not in list")
                self.mut(st, o, th.call_spec("remove1", [c, SV("V", self.val(st, args[0]))]), line)
                return [(st, none)]
            raise Unsupported(f"list.{name}")
        if k == "D":
            if name == "copy":
                order = st.heap[o.x[0]].order if o.kind == "REF" and not o.x[1] else None
                return [(st, self.new(st, "D", c.t, ty=o.ty, order=order))]
            if name == "get":
                x = SV("V", th.sel(c.t, th.T.key(V(a[0]))), th.val_ty(c.ty))
                dv = SV("V", self.val(st, args[1])) if len(args) > 1 else none
                return [(st, SV("V", th.ite(th.dhas(c.t, th.T.key(V(a[0]))), x, dv).t, th.val_ty(c.ty)))]
            if name == "setdefault":
                kt = V(a[0])
                pres = th.contains(a[0], c)
                dv = self.val(st, args[1]) if len(args) > 1 else th.T.none
                out = []
                for y, b in self.branch(st, pres):
                    if not b:
                        self.mut(y, o, SV("D", th.dstore(c.t, th.T.key(kt), dv)), line)
                        ref0 = self.sub_ref(y, o, "k", kt)
                        if ref0:
                            ce = y.heap[ref0[0]] = y.heap[ref0[0]].copy()
                            ce.ver += 1
                    cc = self.rd(y, SV("REF", None, o.ty, x=o.x[:2] + (y.heap[o.x[0]].ver,))) if (o.kind == "REF" or isinstance(o.x, tuple)) else c
                    r = SV("V", th.sel(D(cc), th.T.key(kt)), th.val_ty(c.ty))
                    oo = SV("REF", None, o.ty, x=o.x[:2] + (y.heap[o.x[0]].ver,)) if isinstance(o.x, tuple) else o
                    r.x = self.sub_ref(y, oo, "k", kt)
                    out.append((y, r))
                return out
            if name == "pop":
                kt = th.T.key(V(a[0]))
                cur = SV("V", th.sel(c.t, kt))
                if len(args) > 1:
                    r = th.ite(th.dhas(c.t, kt), cur, SV("V", self.val(st, args[1])))
                else:
                    self.need(st, th.contains(a[0], c), "KeyError", line, "pop")
                    r = cur
                cid = o.x[0] if isinstance(o.x, tuple) else None
                if cid is not None and st.heap[cid].order is not None and not o.x[1]:
                    ce = st.heap[cid] = st.heap[cid].copy()
                    ce.order = th.call_spec("remove1", [SV("L", ce.order), SV("V", V(a[0]))]).t
                self.mut(st, o, SV("D", th.ddel(c.t, kt)), line)
                return [(st, r)]
            if name == "clear":
                cid = o.x[0] if isinstance(o.x, tuple) else None
                if cid is not None and not o.x[1]:
                    ce = st.heap[cid] = st.heap[cid].copy()
                    ce.order = th.T.nil
                self.mut(st, o, SV("D", th.T.emptyD), line)
                return [(st, none)]
            if name == "update":
                b = D(a[0]) if a else th.T.emptyD
                for kk, vv in kw.items():
                    b = th.dstore(b, th.T.key(V(th.const(kk))), self.val(st, vv))
                self.mut(st, o, SV("D", th.dict_union(c.t, b)), line)
                return [(st, none)]
            if name in ("keys", "items", "values"):
                order = st.heap[o.x[0]].order if o.kind == "REF" and not o.x[1] else None
                return [(st, SV("ITER", None, x=IterDesc(name, d=c.t, seq=order if order is not None else th.T.dictkeys(c.t), ety=th.val_ty(c.ty), src=o)))]
            if name in ("__contains__",):
                return [(st, SV("B", th.contains(a[0], c)))]
            if name == "__len__":
                if o.kind == "REF" and not o.x[1] and st.heap[o.x[0]].order is not None:
                    return [(st, SV("I", th.lenL(st.heap[o.x[0]].order)))]
                return [(st, SV("I", th.vlen(c)))]
            if name == "__iter__":
                return [(st, SV("ITER", None, x=self.iter_value(st, o, line)))]
            raise Unsupported(f"dict.{name}")
        if k == "SET":
            if name == "add":
                self.mut(st, o, SV("SET", z3.Store(c.t, th.T.key(self.val(st, args[0])), z3.BoolVal(True))), line)
                return [(st, none)]
            if name == "discard":
                self.mut(st, o, SV("SET", z3.Store(c.t, th.T.key(V(a[0])), z3.BoolVal(False))), line)
                return [(st, none)]
            if name in ("update", "union", "intersection", "difference"):
                if a[0].kind in ("L", "T", "V") and not (a[0].kind == "V" and th.con_name(a[0].t) == "VSet"):
                    b = th.call_spec("toset", [SV("L", L(a[0]))]).t
                else:
                    b = SET(a[0])
                r = {"update": z3.SetUnion, "union": z3.SetUnion, "intersection": z3.SetIntersect, "difference": z3.SetDifference}[name](c.t, b)
                if name == "update":
                    self.mut(st, o, SV("SET", r), line)
                    return [(st, none)]
                return [(st, self.new(st, "SET", r))]
            if name == "isdisjoint":
                return [(st, SV("B", z3.SetIntersect(c.t, SET(a[0])) == th.T.emptySet))]
            if name == "copy":
                return [(st, self.new(st, "SET", c.t))]
            raise Unsupported(f"set.{name}")
        if k == "S":
            if name == "join":
                l = self.seq_for_iter(st, args[0], line)
                return [(st, th.call_spec("joinS", [c, SV("L", l)]))]
            if name == "startswith":
                return [(st, SV("B", z3.PrefixOf(S(a[0]), c.t)))]
            if name == "endswith":
                return [(st, SV("B", z3.SuffixOf(S(a[0]), c.t)))]
            if name == "format":
                return [(st, SV("S", self.format(st, c, args, kw)))]
            if name in ("lower", "upper", "strip", "encode"):
                if args:
                    raise Unsupported(f"str.{name} with arguments")
                f = z3.Function("str_" + name, z3.StringSort(), z3.StringSort())
                th.assume_note("str." + name, f"str.{name} is an uninterpreted function of the string")
                return [(st, SV("S", f(c.t)))]
            if name == "replace" and "chars" in th.UNINT and self.one_char(a[0]) is not None and self.text(a[1]) is not None:
                x = th.call_spec("replaced", [th.call_spec("chars", [c]), SV("S", a[0].t), SV("L", th.mklist([th.V(th.const(ch)) for ch in self.text(a[1])]))])
                return [(st, th.call_spec("text_of", [x]))]
            if name == "replace":
                f = z3.Function("str_replace", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
                th.assume_note("str.replace", "str.replace is an uninterpreted function of its arguments")
                return [(st, SV("S", f(c.t, S(a[0]), S(a[1]))))]
            raise Unsupported(f"str.{name}")
        if k == "T" and name == "index":
            raise Unsupported("tuple.index")
        raise Unsupported(f"method {name} of {k}")

    def text(self, v):
        """the characters of a constant"""
        t = z3.simplify(S(v))
        return _pystring(t) if z3.is_string_value(t) else None

    def one_char(self, v):
        t = self.text(v)
        return t if t is not None and len(t) == 1 else None

    def format(self, st, c, args, kw):
        if not z3.is_string_value(z3.simplify(c.t)):
            raise Unsupported("format of a computed string")
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(c.t.as_string() if False else _pystring(c.t)):
            if lit:
                parts.append(z3.StringVal(lit))
            if field is None:
                continue
            if spec or conv:
                raise Unsupported("format spec")
            if field == "":
                field = str(auto)
                auto += 1
            if field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported("format field")
            parts.append(th.to_str(self.strable(st, v)))
        return z3.StringVal("") if not parts else parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def sorted(self, st, c, kw, line):
        """stable sort by key -> [(state, VL)]: the keys are computed as a comprehension computes them, the order is core.sortk's"""
        rev = kw.get("reverse")
        desc = False
        if rev is not None:
            r = z3.simplify(truth(self.rd(st, rev)))
            if not (z3.is_true(r) or z3.is_false(r)):
                raise Unsupported("reverse=")
            desc = z3.is_true(r)
        if set(kw) - {"key", "reverse"}:
            raise Unsupported("sort arguments")
        key = kw.get("key")
        fn = "sortkd" if desc else "sortk"
        if key is None or (key.kind == "V" and th.con_name(key.t) == "VNone"):
            return [(st, th.call_spec(fn, [SV("L", c.t), SV("L", c.t)]).t)]
        y = st.copy()
        saved = {n: y.env.get(n) for n in ("__key", "__seq", "__x")}
        y.env["__key"] = key
        y.env["__seq"] = self.new(y, "L", c.t, ty=c.ty)
        e = ast.parse("[__key(__x) for __x in __seq]", mode="eval").body
        for n in ast.walk(e):
            n.lineno = n.end_lineno = line
            n.col_offset = n.end_col_offset = 0
        out = []
        for z, ks in self.comp(e, y, "L"):
            kl = self.rd(z, ks).t
            for n, v in saved.items():
                if v is None:
                    z.env.pop(n, None)
                else:
                    z.env[n] = v
            out.append((z, th.call_spec(fn, [SV("L", kl), SV("L", c.t)]).t))
        return out

    def builtin(self, st, n, args, kw, line):
        if n in ("open", "int", "float") and ("ext", n) in IFACE:
            return self.external(st, n, args, kw, line)
        a = [self.rd(st, x) if x.kind != "STAR" else x for x in args]
        if n == "len":
            c = a[0]
            if c.kind == "REF":
                m = self.dunder(st, c, "__len__")
                return self.call_func(m, [c], {}, st, line)
            if c.kind == "V":
                bad = simp_or(*[th.T.is_(k, c.t) for k in ("VNone", "VBool", "VInt", "VFlt", "VFun")])
                self.need(st, simp_not(bad), "TypeError", line, "len of a non-container")
                for kk, con in (("L", "VList"), ("T", "VTup"), ("D", "VDict"), ("S", "VStr")):
                    if self.is_con(st, c, con):
                        c = th.as_kind(c, kk)
                        break
            o = args[0]
            if o.kind == "REF" and not o.x[1] and st.heap[o.x[0]].order is not None:
                return [(st, SV("I", th.lenL(st.heap[o.x[0]].order)))]
            return [(st, SV("I", th.vlen(c)))]
        if n == "str":
            if not a:
                return [(st, SV("S", z3.StringVal("")))]
            c = self.strable(st, a[0])
            return [(st, SV("S", th.to_str(c)))]
        if n == "repr":
            f = z3.Function("pyrepr", th.T.Val, z3.StringSort())
            return [(st, SV("S", f(V(self.strable(st, a[0])))))]
        if n in ("list", "tuple"):
            if not a:
                return [(st, self.new(st, "L", th.T.nil) if n == "list" else SV("T", th.T.nil))]
            if args[0].kind == "ITER":
                d = args[0].x
                if d.kind == "keys":
                    return [(st, self.new(st, "L", d.seq))]
                raise Unsupported("list of an iterator")
            if args[0].kind == "REF" and not args[0].x[1] and st.heap[args[0].x[0]].kind == "D":
                l = self.iter_value(st, args[0], line).seq
            elif a[0].kind == "REF":
                return self.obj_to_list(st, a[0], n, line)
            else:
                l = self.seq_for_iter(st, args[0], line)
            return [(st, self.new(st, "L", l, ty=a[0].ty) if n == "list" else SV("T", l))]
        if n in ("set", "frozenset"):
            if not a:
                return [(st, self.new(st, "SET", th.T.emptySet))]
            if a[0].kind == "SET":
                return [(st, self.new(st, "SET", a[0].t))]
            return [(st, self.new(st, "SET", th.call_spec("toset", [SV("L", self.seq_for_iter(st, args[0], line))]).t))]
        if n == "dict":
            if not a:
                d = th.T.emptyD
                for kk, vv in kw.items():
                    d = th.dstore(d, th.T.key(V(th.const(kk))), self.val(st, vv))
                return [(st, self.new(st, "D", d, order=th.T.nil if not kw else None))]
            if a[0].kind == "D" or (a[0].kind == "V" and self.is_con(st, a[0], "VDict")):
                return [(st, self.new(st, "D", D(a[0]), ty=a[0].ty))]
            if args[0].kind == "ITER" and args[0].x.kind == "zipdict":
                pass
            raise Unsupported("dict()")
        if n == "dict.fromkeys":
            l = self.seq_for_iter(st, args[0], line)
            v = self.val(st, args[1]) if len(args) > 1 else th.T.none
            d = th.call_spec("fromkeys", [SV("L", l), SV("V", v)]).t
            return [(st, self.new(st, "D", d, order=th.call_spec("dedup", [SV("L", l)]).t))]
        if n == "bool":
            return [(st, SV("B", self.truth(st, args[0], line)))]
        if n == "int":
            if a[0].kind == "I":
                return [(st, a[0])]
            f = z3.Function("py_int", th.T.Val, th.T.Val)
            return [(st, SV("V", f(V(a[0]))))]
        if n == "float":
            f = z3.Function("py_float", th.T.Val, th.T.Val)
            return [(st, SV("V", f(V(a[0]))))]
        if n == "abs":
            if a[0].kind == "I":
                return [(st, SV("I", z3.If(a[0].t >= 0, a[0].t, -a[0].t)))]
        if n == "hash":
            f = z3.Function("py_hash", th.T.Val, th.T.Val)
            return [(st, SV("V", f(V(self.strable(st, a[0])))))]
        if n == "callable":
            if a[0].kind == "F":
                return [(st, SV("B", z3.BoolVal(True)))]
            return [(st, SV("B", th.T.is_("VFun", V(a[0]))))]
        if n in ("min", "max"):
            if len(a) == 2 and not kw:
                if a[0].kind == "I" and a[1].kind == "I":
                    c = a[0].t <= a[1].t if n == "min" else a[0].t >= a[1].t
                    return [(st, SV("I", z3.If(c, a[0].t, a[1].t)))]
                p, q = V(self.strable(st, a[0])), V(self.strable(st, a[1]))
                c = th.T.vlt(q, p) if n == "min" else th.T.vlt(p, q)
                return [(st, SV("V", z3.If(c, q, p)))]
            if len(a) == 1 and not kw:
                l = self.seq_for_iter(st, args[0], line)
                self.need(st, simp_not(th.isnil(l)), "ValueError", line, f"{n} of an empty sequence")
                return [(st, th.call_spec("vmax" if n == "max" else "vmin", [SV("L", l)]))]
            if len(a) == 1 and set(kw) <= {"key"}:
                # first element with the smallest / largest key
                l = self.seq_for_iter(st, args[0], line)
                self.need(st, simp_not(th.isnil(l)), "ValueError", line, f"{n} of an empty sequence")
                return [(y, SV("V", th.hd(new))) for y, new in self.sorted(st, SV("L", l), dict(kw, **({} if n == "min" else {"reverse": SV("B", z3.BoolVal(True))})), line)]
        if n == "sorted":
            l = self.seq_for_iter(st, args[0], line)
            return [(y, self.new(y, "L", new, ty=a[0].ty)) for y, new in self.sorted(st, SV("L", l), kw, line)]
        if n in EXC_TYPES:
            return [(st, SV("V", th.T.fresh("exc", th.T.Val)))]
        if n in ("enumerate", "zip", "range", "reversed"):
            raise Unsupported(f"{n} outside a loop")
        if n == "iter":
            return [(st, SV("ITER", None, x=self.iter_value(st, args[0], line)))]
        raise Unsupported(f"builtin {n}")

    def obj_to_list(self, st, o, n, line):
        m = self.dunder(st, o, "__iter__")
        if m is None:
            raise Unsupported("list of an object")
        out = []
        for y, r in self.call_func(m, [o], {}, st, line):
            if r.kind != "ITER":
                raise Unsupported("__iter__")
            l = r.x.seq
            out.append((y, self.new(y, "L", l) if n == "list" else SV("T", l)))
        return out

    def external(self, st, name, args, kw, line):
        for key in (name, name.split(".")[-1]):
            if ("ext", key) in IFACE:
                c = IFACE[("ext", key)]
                ps = list(c.params)
                if len(args) == 1 and args[0].kind == "STAR":
                    args = [SV("L", args[0].t)]
                env = dict(zip(ps, args))
                env.update({k: v for k, v in kw.items() if k in ps})
                if len(args) > len(ps):
                    raise Unsupported(f"arguments of {name}")
                return self.apply(c, env, st, line)
        if name == "copy.copy":
            v = args[0]
            r = self.rd(st, v)
            if r.kind in ("L", "D", "SET"):
                return [(st, self.new(st, r.kind, r.t, ty=v.ty))]
            cls = self.cls_of(st, v)
            if cls in th.T.classes and r.kind == "V":
                cid = next(self.cellno)
                st.heap[cid] = Cell("OBJ", {f: th.attr(r, f, cls)[0] for f in th.T.classes[cls]}, True, cls)
                return [(st, SV("REF", None, (cls, []), x=(cid, (), 0)))]
        raise Unsupported(f"external function {name}")


class IterDesc:
    def __init__(self, kind, seq=None, inner=None, lo=None, hi=None, step=1, d=None, ety=None, src=None):
        self.kind, self.seq, self.inner, self.lo, self.hi, self.step, self.d, self.ety, self.src = kind, seq, inner, lo, hi, step, d, ety, src


class _LocalFn:
    def __init__(self, node, module, cls):
        from .repo import FuncInfo
        self.fi = FuncInfo(node.name, node, module, cls)
        self.node, self.module, self.cls, self.qual = node, module, cls, "local:" + node.name

    @property
    def params(self):
        return self.fi.params

    def is_static(self):
        return False


# ---------- stable sorting by a key term


def _free_consts(t):
    out, seen, todo = [], set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        todo.extend(e.children() if z3.is_app(e) else [])
    return sorted(out, key=str)


def _mentions(t, c):
    return any(x.eq(c) for x in _free_consts(t)) if not z3.is_quantifier(t) else True


def _pystring(t):
    s = t.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def _pstr(path):
    return "".join("/" + (x if isinstance(x, str) else str(x)) for _, x in path)


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def _fix(g, e):
    for nd in ast.walk(g):
        if not hasattr(nd, "lineno"):
            nd.lineno, nd.col_offset, nd.end_lineno, nd.end_col_offset = e.lineno, 0, e.lineno, 0


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def target_names_all(gens):
    return set().union(*[target_names(g.target) for g in gens])


def walrus(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                pass
    return out
