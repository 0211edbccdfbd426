"""Value theory: one z3 datatype of Python values, Python-like operations on symbolic values, spec functions,
lemmas (proved here by induction) and the query interface to the solver.

Conventions
  kind V  any Python value (Val)            kind L  contents of a list or other sequence (VL)
  kind T  tuple (VL)                        kind D  contents of a dict (Array K->Opt: absent | some value)
  kind I  int (mathematical)                kind B  bool          kind S  str          kind SET  contents of a set
`==` on values is structural equality (assumption A-EQ: no NaN, 1 / True / 1.0 are different values).
"""
import select, ast, inspect, os, textwrap, time, z3

T = None          # the Theory (built once per process, after the classes are known)
SPECS = {}        # name -> SpecFn
UNINT = {}        # name -> Unint
LEMMAS = []
STATS = dict(queries=0, time=0.0, cvc5=0)
ASSUME = {}       # assumption key -> text


def assume_note(key, text):
    ASSUME[key] = text


class Unsupported(Exception):
    pass


class SV:
    __slots__ = ("kind", "t", "ty", "x")

    def __init__(self, kind, t, ty=None, x=None):
        self.kind, self.t, self.ty, self.x = kind, t, ty, x

    def __repr__(self):
        return f"<{self.kind} {str(self.t)[:80]}>"


class Theory:
    def __init__(self, repo, classes):
        """classes: names of repository classes whose (immutable) instances are values"""
        self.repo = repo
        self.classes = {}
        for c in classes:
            if c not in repo.classes:
                raise Unsupported(f"class {c} not found")
            self.classes[c] = repo.fields(c)
        K = self.K = z3.DeclareSort("K")
        dv, dl, do = z3.Datatype("Val"), z3.Datatype("VL"), z3.Datatype("Opt")
        V_, L_, O_ = z3.DatatypeSort("Val"), z3.DatatypeSort("VL"), z3.DatatypeSort("Opt")
        do.declare("absent")
        do.declare("some", ("ov", V_))
        dv.declare("VNone")
        dv.declare("VBool", ("vb", z3.BoolSort()))
        dv.declare("VInt", ("vi", z3.IntSort()))
        dv.declare("VFlt", ("vr", z3.RealSort()))
        dv.declare("VStr", ("vs", z3.StringSort()))
        dv.declare("VList", ("lv", L_))
        dv.declare("VTup", ("tv", L_))
        dv.declare("VDict", ("dm", z3.ArraySort(K, O_)))
        dv.declare("VSet", ("sm", z3.ArraySort(K, z3.BoolSort())))
        dv.declare("VFun", ("fn", z3.IntSort()))
        dv.declare("VOpq", ("oq", z3.IntSort()))
        dv.declare("VTmpl", ("ti", z3.IntSort()))
        for c, fs in self.classes.items():
            dv.declare("O_" + c, *[(f"f_{c}_{f}", V_) for f in fs])
        dl.declare("nil")
        dl.declare("cons", ("hd", V_), ("tl", L_))
        self.Val, self.VL, self.Opt = z3.CreateDatatypes(dv, dl, do)
        V, L = self.Val, self.VL
        self.sorts = dict(V=V, L=L, T=L, D=z3.ArraySort(K, self.Opt), I=z3.IntSort(), B=z3.BoolSort(), S=z3.StringSort(),
                          SET=z3.ArraySort(K, z3.BoolSort()), R=z3.RealSort())
        self.nil, self.cons = L.nil, L.cons
        self.none, self.absent = V.VNone, self.Opt.absent
        f = z3.Function
        self.key = f("key", V, K)
        self.unkey = f("unkey", K, V)
        self.emptyD = z3.K(K, self.Opt.absent)
        self.emptySet = z3.K(K, z3.BoolVal(False))
        self.seq_other = f("seq_other", V, L)       # iteration order of other iterables
        self.len_other = f("len_other", V, z3.IntSort())
        self.truth_other = f("truth_other", V, z3.BoolSort())
        self.tlz = f("tlz", L, L)
        self.in_other = f("in_other", V, V, z3.BoolSort())
        self.vadd = f("vadd", V, V, V)
        self.vsub = f("vsub", V, V, V)
        self.vmul = f("vmul", V, V, V)
        self.vdiv = f("vdiv", V, V, V)
        self.vneg = f("vneg", V, V)
        self.vlt = f("vlt", V, V, z3.BoolSort())
        self.pystr = f("pystr", V, z3.StringSort())
        self.dictkeys = f("dictkeys", self.sorts["D"], L)
        self.setelems = f("setelems", self.sorts["SET"], L)
        self.dsize = f("dsize", self.sorts["D"], z3.IntSort())
        self.ssize = f("ssize", self.sorts["SET"], z3.IntSort())
        v, w = z3.Consts("v! w!", V)
        k = z3.Const("k!", K)
        d = z3.Const("d!", self.sorts["D"])
        ss = z3.Const("ss!", self.sorts["SET"])
        i, j = z3.Ints("i! j!")
        s1, s2 = z3.Strings("s! s2!")
        l1, l2 = z3.Consts("l1! l2!", L)
        A = self.base = {}
        A["key"] = [z3.ForAll([v], self.unkey(self.key(v)) == v, patterns=[self.key(v)])]
        A["tlz"] = [z3.ForAll([l1], self.tlz(l1) == z3.If(L.is_nil(l1), L.nil, L.tl(l1)), patterns=[self.tlz(l1)])]
        A["vadd"] = [
            z3.ForAll([i, j], self.vadd(V.VInt(i), V.VInt(j)) == V.VInt(i + j), patterns=[self.vadd(V.VInt(i), V.VInt(j))]),
            z3.ForAll([s1, s2], self.vadd(V.VStr(s1), V.VStr(s2)) == V.VStr(z3.Concat(s1, s2)), patterns=[self.vadd(V.VStr(s1), V.VStr(s2))])]
        A["vsub"] = [z3.ForAll([i, j], self.vsub(V.VInt(i), V.VInt(j)) == V.VInt(i - j), patterns=[self.vsub(V.VInt(i), V.VInt(j))])]
        A["vneg"] = [z3.ForAll([i], self.vneg(V.VInt(i)) == V.VInt(-i), patterns=[self.vneg(V.VInt(i))])]
        A["vlt"] = [z3.ForAll([v], z3.Not(self.vlt(v, v)), patterns=[self.vlt(v, v)]),
            z3.ForAll([i, j], self.vlt(V.VInt(i), V.VInt(j)) == (i < j), patterns=[self.vlt(V.VInt(i), V.VInt(j))])]
        for nm, fn_ in (("vadd", self.vadd), ("vsub", self.vsub), ("vmul", self.vmul), ("vdiv", self.vdiv)):
            A.setdefault(nm, []).append(z3.ForAll([v, w], z3.Not(V.is_VNone(fn_(v, w))), patterns=[fn_(v, w)]))
        # the product of positive integers is one
        A["vmul"].append(z3.ForAll([v, w], z3.Implies(z3.And(V.is_VInt(v), V.is_VInt(w)), z3.And(V.is_VInt(self.vmul(v, w)),
            z3.Implies(z3.And(V.vi(v) > 0, V.vi(w) > 0), V.vi(self.vmul(v, w)) > 0))), patterns=[self.vmul(v, w)]))
        A["pystr"] = [z3.ForAll([s1], self.pystr(V.VStr(s1)) == s1, patterns=[self.pystr(V.VStr(s1))])]
        A["len_other"] = [z3.ForAll([v], self.len_other(v) >= 0, patterns=[self.len_other(v)])]
        A["dsize"] = [z3.ForAll([d], z3.And(self.dsize(d) >= 0, (self.dsize(d) == 0) == (d == self.emptyD)), patterns=[self.dsize(d)])]
        A["ssize"] = [z3.ForAll([ss], z3.And(self.ssize(ss) >= 0, (self.ssize(ss) == 0) == (ss == self.emptySet)), patterns=[self.ssize(ss)])]
        self.fresh_n = 0
        self.cache = {}

    # ---------- construction helpers
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const(f"{name}!{self.fresh_n}", sort)

    def mk(self, kind, name, ty=None):
        return SV(kind, self.fresh(name, self.sorts[kind]), ty)

    def obj(self, cls, *fields):
        return getattr(self.Val, "O_" + cls)(*fields)

    def is_(self, con, v):
        """recogniser with a little simplification"""
        r = con_name(v)
        if r is not None:
            return z3.BoolVal(r == con)
        return getattr(self.Val, "is_" + con)(v)

    def acc(self, accname, con, v):
        r = con_name(v)
        if r == con:
            fs = [f for f in self._accnames(con)]
            return v.arg(fs.index(accname))
        return getattr(self.Val, accname)(v)

    def _accnames(self, con):
        V = self.Val
        for n in range(V.num_constructors()):
            if V.constructor(n).name() == con:
                return [V.accessor(n, k).name() for k in range(V.constructor(n).arity())]
        return []


def con_name(v):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return v.decl().name()
    return None


# ---------- conversions
def V(sv):
    k, t, V_ = sv.kind, sv.t, T.Val
    if k == "V":
        return t
    if k == "I":
        if z3.is_app(t) and t.decl().name() == "vi":
            pass
        return V_.VInt(t)
    if k == "B":
        return V_.VBool(t)
    if k == "S":
        return V_.VStr(t)
    if k == "L":
        return V_.VList(t)
    if k == "T":
        return V_.VTup(t)
    if k == "D":
        return V_.VDict(t)
    if k == "SET":
        return V_.VSet(t)
    if k == "R":
        return V_.VFlt(t)
    if k == "F":
        return fun_const(sv)
    raise Unsupported(f"value of kind {k}")


def fun_const(sv):
    if getattr(sv.x, "term", None) is not None:
        return sv.x.term
    raise Unsupported("function value used as data")


def seqof(v):
    """the list a Val is iterated as"""
    c = con_name(v)
    if c == "VList" or c == "VTup":
        return v.arg(0)
    if c is not None:
        return T.seq_other(v)
    return z3.If(T.Val.is_VList(v), T.Val.lv(v), z3.If(T.Val.is_VTup(v), T.Val.tv(v), T.seq_other(v)))


def L(sv):
    if sv.kind in ("L", "T"):
        return sv.t
    if sv.kind == "V":
        return seqof(sv.t)
    if sv.kind == "SET":
        return T.setelems(sv.t)
    if sv.kind == "D":
        return T.dictkeys(sv.t)
    if sv.kind == "S":
        return T.seq_other(V(sv))
    raise Unsupported(f"sequence expected, got {sv.kind}")


def I(sv):
    if sv.kind == "I":
        return sv.t
    if sv.kind == "B":
        return z3.If(sv.t, z3.IntVal(1), z3.IntVal(0))
    if sv.kind == "V":
        return T.acc("vi", "VInt", sv.t)
    raise Unsupported(f"int expected, got {sv.kind}")


def S(sv):
    if sv.kind == "S":
        return sv.t
    if sv.kind == "V":
        return T.acc("vs", "VStr", sv.t)
    raise Unsupported(f"str expected, got {sv.kind}")


def D(sv):
    if sv.kind == "D":
        return sv.t
    if sv.kind == "V":
        return T.acc("dm", "VDict", sv.t)
    raise Unsupported(f"dict expected, got {sv.kind}")


def SET(sv):
    if sv.kind == "SET":
        return sv.t
    if sv.kind == "V":
        return T.acc("sm", "VSet", sv.t)
    raise Unsupported(f"set expected, got {sv.kind}")


def as_kind(sv, kind):
    if sv.kind == kind:
        return sv
    f = dict(V=V, L=L, T=L, I=I, S=S, D=D, SET=SET, B=truth).get(kind)
    if f is None:
        raise Unsupported(f"conversion {sv.kind} -> {kind}")
    return SV(kind, f(sv), sv.ty)


def simp_and(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)


def simp_or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)


def simp_not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def simp_if(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def isnil(l):
    c = con_name(l)
    if c == "nil":
        return z3.BoolVal(True)
    if c == "cons":
        return z3.BoolVal(False)
    return T.VL.is_nil(l)


def hd(l):
    if con_name(l) == "cons":
        return l.arg(0)
    return T.VL.hd(l)


def tl(l):
    if con_name(l) == "cons":
        return l.arg(1)
    return T.VL.tl(l)


def mklist(items):
    r = T.nil
    for x in reversed(items):
        r = T.cons(x, r)
    return r


def static_items(l):
    out = []
    while con_name(l) == "cons":
        out.append(l.arg(0))
        l = l.arg(1)
    return out if con_name(l) == "nil" else None


def app(a, b):
    it = static_items(a)
    if it is not None:
        r = b
        for x in reversed(it):
            r = T.cons(x, r)
        return r
    if con_name(b) == "nil":
        return a
    if z3.is_app(a) and a.decl().name().startswith("app'"):
        return app(a.arg(0), app(a.arg(1), b))
    return call_spec("app", [SV("L", a), SV("L", b)]).t


def lenL(l):
    it = static_items(l)
    if it is not None:
        return z3.IntVal(len(it))
    return call_spec("lenL", [SV("L", l)]).t


NONNIL = [set()]      # ids of list terms known to be non-empty in the current context


def nonnil_facts(c, neg=False, out=None):
    """list terms that are non-empty when c (or not c) holds"""
    out = [] if out is None else out
    if z3.is_not(c):
        return nonnil_facts(c.arg(0), not neg, out)
    if (neg and z3.is_or(c)) or (not neg and z3.is_and(c)):
        for a in c.children():
            nonnil_facts(a, neg, out)
    elif neg and z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DT_IS and c.num_args() == 1 and c.arg(0).sort() == T.VL and c.eq(T.VL.is_nil(c.arg(0))):
        out.append(c.arg(0))
    return out


def tlz(l):
    """l[1:]"""
    c = con_name(l)
    if c == "nil":
        return l
    if c == "cons":
        return l.arg(1)
    if l.get_id() in NONNIL[-1]:
        return T.VL.tl(l)
    return T.tlz(l)


def drop(l, n):
    n = z3.simplify(n)
    if z3.is_int_value(n):
        k = n.as_long()
        if k <= 0:
            return l
        for _ in range(k):
            if con_name(l) == "nil":
                return l
            l = tlz(l)
        return l
    # drop(l, m+1) = tlz(drop(l, m)) when m >= 0
    base, c = _split_const(n)
    if c == 1:
        return z3.If(base >= 0, T.tlz(drop(l, base)), call_spec("drop", [SV("L", l), SV("I", n)]).t)
    return call_spec("drop", [SV("L", l), SV("I", n)]).t


def _split_const(n):
    if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ADD:
        cs = [a for a in n.children() if z3.is_int_value(a)]
        rs = [a for a in n.children() if not z3.is_int_value(a)]
        if len(cs) == 1 and len(rs) >= 1:
            return (z3.Sum(rs) if len(rs) > 1 else rs[0]), cs[0].as_long()
    return n, 0


def nth(l, n):
    n = z3.simplify(n)
    if z3.is_int_value(n):
        k = n.as_long()
        if k < 0:
            if k == -1:
                return call_spec("lastL", [SV("L", l)]).t
            raise Unsupported("negative index")
        for _ in range(k):
            l = tl(l)
        return hd(l)
    return hd(drop(l, n))


def truth(sv):
    k, t = sv.kind, sv.t
    if k == "B":
        return t
    if k == "I":
        return t != 0
    if k == "S":
        return t != z3.StringVal("")
    if k in ("L", "T"):
        return simp_not(isnil(t))
    if k == "D":
        return t != T.emptyD
    if k == "SET":
        return t != T.emptySet
    if k == "F":
        return z3.BoolVal(True)
    if k == "V":
        v, V_ = t, T.Val
        c = con_name(v)
        if c is not None:
            if c == "VNone":
                return z3.BoolVal(False)
            inner = dict(VBool="B", VInt="I", VStr="S", VList="L", VTup="T", VDict="D", VSet="SET")
            if c in inner:
                return truth(SV(inner[c], v.arg(0)))
            if c.startswith("O_") and not (T.repo.method(c[2:], "__len__") or T.repo.method(c[2:], "__bool__")):
                return z3.BoolVal(True)
            return T.truth_other(v)
        return z3.If(V_.is_VNone(v), False,
               z3.If(V_.is_VBool(v), V_.vb(v),
               z3.If(V_.is_VInt(v), V_.vi(v) != 0,
               z3.If(V_.is_VStr(v), V_.vs(v) != z3.StringVal(""),
               z3.If(V_.is_VList(v), z3.Not(T.VL.is_nil(V_.lv(v))),
               z3.If(V_.is_VTup(v), z3.Not(T.VL.is_nil(V_.tv(v))),
               z3.If(V_.is_VDict(v), V_.dm(v) != T.emptyD,
               z3.If(V_.is_VSet(v), V_.sm(v) != T.emptySet,
               z3.If(z3.Or([V_.is_VFun(v)] + [getattr(V_, "is_O_" + c)(v) for c in T.classes if not (T.repo.method(c, "__len__") or T.repo.method(c, "__bool__"))]), True,
                     T.truth_other(v))))))))))
    raise Unsupported(f"truth of {k}")


def eq(a, b):
    if a.kind == "F" or b.kind == "F":
        if a.kind == b.kind == "F" and a.x is b.x:
            return z3.BoolVal(True)
    if a.kind == b.kind and a.kind != "F":
        x, y = a.t, b.t
        if x.eq(y):
            return z3.BoolVal(True)
        if a.kind == "V":
            ca, cb = con_name(x), con_name(y)
            if ca and cb and ca != cb:
                return z3.BoolVal(False)
            if ca and not cb and x.num_args() == 0:
                return T.is_(ca, y)
            if cb and not ca and y.num_args() == 0:
                return T.is_(cb, x)
        if a.kind == "I":
            return int_cmp("eq", x, y)
        if a.kind in ("L", "T"):
            if con_name(x) == "nil":
                return isnil(y)
            if con_name(y) == "nil":
                return isnil(x)
        return x == y
    # L == [] style comparisons between differing kinds go through Val; list and tuple differ
    return eq(SV("V", V(a)), SV("V", V(b)))


_LEN_OF = {}


def nonempty_of(t):
    """the sequence whose length t is, as an emptiness test; None when t is not a length"""
    if z3.is_app(t) and t.decl().name().startswith("lenL'"):
        return simp_not(isnil(t.arg(0)))
    if t.get_id() in _LEN_OF and not any(True for _ in ()):
        sv = _LEN_OF[t.get_id()][1]
        V_, v = T.Val, sv.t
        return z3.If(z3.Or(V_.is_VList(v), V_.is_VTup(v)), z3.Not(isnil(seqof(v))), z3.If(V_.is_VStr(v), V_.vs(v) != z3.StringVal(""),
               z3.If(V_.is_VDict(v), V_.dm(v) != T.emptyD, z3.If(V_.is_VSet(v), V_.sm(v) != T.emptySet, T.len_other(v) > 0))))
    if z3.is_app(t) and t.decl().name() == "dsize":
        return t.arg(0) != T.emptyD
    if z3.is_app(t) and t.decl().name() == "ssize":
        return t.arg(0) != T.emptySet
    return None


def int_cmp(op, x, y):
    """comparison of ints, with lengths against 0 and 1 turned into emptiness tests"""
    def val(t):
        return t.as_long() if z3.is_int_value(t) else None
    a, b = val(x), val(y)
    if a is not None and b is not None:
        return z3.BoolVal(dict(eq=a == b, lt=a < b, le=a <= b)[op])
    ne = nonempty_of(x) if b is not None else nonempty_of(y) if a is not None else None
    if ne is not None:
        if b is not None:
            if (op, b) in (("eq", 0), ("lt", 1), ("le", 0)):
                return simp_not(ne)
        else:
            if (op, a) == ("eq", 0):
                return simp_not(ne)
            if (op, a) in (("lt", 0), ("le", 1)):
                return ne
    return dict(eq=x == y, lt=x < y, le=x <= y)[op]


def vlen(sv):
    k, t = sv.kind, sv.t
    if k in ("L", "T"):
        return lenL(t)
    if k == "S":
        return z3.Length(t)
    if k == "D":
        return T.dsize(t)
    if k == "SET":
        return T.ssize(t)
    if k == "V":
        c = con_name(t)
        inner = dict(VStr="S", VList="L", VTup="T", VDict="D", VSet="SET")
        if c in inner:
            return vlen(SV(inner[c], t.arg(0)))
        V_ = T.Val
        t2 = seqof(t)
        r = z3.If(z3.Or(V_.is_VList(t), V_.is_VTup(t)), lenL(t2), z3.If(V_.is_VStr(t), z3.Length(V_.vs(t)),
            z3.If(V_.is_VDict(t), T.dsize(V_.dm(t)), z3.If(V_.is_VSet(t), T.ssize(V_.sm(t)), T.len_other(t)))))
        _LEN_OF[r.get_id()] = (r, sv)
        return r
    raise Unsupported(f"len of {k}")


def add(a, b):
    ks = {a.kind, b.kind}
    if ks <= {"I", "B"}:
        return SV("I", I(a) + I(b))
    if "S" in ks and ks <= {"S", "V"}:
        return SV("S", z3.Concat(S(a), S(b)))
    if "L" in ks and ks <= {"L", "V"}:
        return SV("L", app(L(a), L(b)), a.ty)
    if "T" in ks and ks <= {"T", "V"}:
        return SV("T", app(L(a), L(b)))
    if ks <= {"V", "I", "B", "R"}:
        return SV("V", T.vadd(V(a), V(b)))
    raise Unsupported(f"{a.kind} + {b.kind}")


def sub(a, b):
    if a.kind == "I" and b.kind == "I":
        return SV("I", a.t - b.t)
    if a.kind == "SET" or b.kind == "SET":
        return SV("SET", z3.SetDifference(SET(a), SET(b)))
    return SV("V", T.vsub(V(a), V(b)))


def mul(a, b):
    if a.kind == "I" and b.kind == "I" and (z3.is_int_value(a.t) or z3.is_int_value(b.t)):
        return SV("I", a.t * b.t)
    if a.kind == "L" and b.kind == "I":
        it = static_items(a.t)
        if it is not None and len(it) == 1:
            return SV("L", call_spec("rep", [SV("V", it[0]), b]).t)
    return SV("V", T.vmul(V(a), V(b)))


def neg(a):
    if a.kind == "I":
        return SV("I", -a.t)
    return SV("V", T.vneg(V(a)))


def lt(a, b):
    if a.kind in "IB" and b.kind in "IB":
        return int_cmp("lt", I(a), I(b))
    return T.vlt(V(a), V(b))


def le(a, b):
    if a.kind in "IB" and b.kind in "IB":
        return int_cmp("le", I(a), I(b))
    if a.kind == "SET" and b.kind == "SET":
        return z3.IsSubset(a.t, b.t)
    # a <= b is taken as not (b < a): total order assumed
    return z3.Not(T.vlt(V(b), V(a)))


def slot(d, k):
    """select with syntactic read-over-write"""
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE and d.arg(1).eq(k):
        return d.arg(2)
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return d.arg(0)
    return z3.Select(d, k)


def sel(d, k):
    """the value at a key"""
    x = slot(d, k)
    if con_name(x) == "some":
        return x.arg(0)
    return T.Opt.ov(x)


def dhas(d, k):
    x = slot(d, k)
    c = con_name(x)
    if c is not None:
        return z3.BoolVal(c == "some")
    return T.Opt.is_some(x)


def dstore(d, k, v):
    return z3.Store(d, k, T.Opt.some(v))


def ddel(d, k):
    return z3.Store(d, k, T.Opt.absent)


def contains(x, c):
    """x in c"""
    k = c.kind
    if k == "D":
        return dhas(c.t, T.key(V(x)))
    if k == "SET":
        return slot(c.t, T.key(V(x)))
    if k in ("L", "T"):
        it = static_items(c.t)
        if it is not None:
            return simp_or(*[eq(SV("V", y), SV("V", V(x))) for y in it])
        return call_spec("mem", [SV("V", V(x)), SV("L", c.t)]).t
    if k == "S":
        return z3.Contains(c.t, S(x))
    if k == "V":
        cn = con_name(c.t)
        inner = dict(VStr="S", VList="L", VTup="T", VDict="D", VSet="SET")
        if cn in inner:
            return contains(x, SV(inner[cn], c.t.arg(0)))
        V_, t = T.Val, c.t
        xv = V(x)
        return z3.If(z3.Or(V_.is_VList(t), V_.is_VTup(t)), call_spec("mem", [SV("V", xv), SV("L", seqof(t))]).t,
               z3.If(V_.is_VDict(t), T.Opt.is_some(V_.dm(t)[T.key(xv)]), z3.If(V_.is_VSet(t), V_.sm(t)[T.key(xv)],
               z3.If(z3.And(V_.is_VStr(t), V_.is_VStr(xv)), z3.Contains(V_.vs(t), V_.vs(xv)), T.in_other(xv, t)))))
    raise Unsupported(f"in {k}")


def attr_cases(v, f):
    """classes that have field f"""
    return [c for c, fs in T.classes.items() if f in fs]


def attr(sv, f, cls=None):
    """field of an object value; second result: when it exists"""
    v = V(sv)
    cn = con_name(v)
    if cn and cn.startswith("O_"):
        c = cn[2:]
        if f in T.classes[c]:
            return SV("V", v.arg(T.classes[c].index(f)), ann_ty(T.repo.annotation(c, f))), z3.BoolVal(True)
    cs = attr_cases(v, f)
    if cls in cs:
        return SV("V", T.acc(f"f_{cls}_{f}", "O_" + cls, v), ann_ty(T.repo.annotation(cls, f))), T.is_("O_" + cls, v)
    if not cs:
        raise Unsupported(f"attribute {f}")
    t = T.acc(f"f_{cs[-1]}_{f}", "O_" + cs[-1], v)
    for c in reversed(cs[:-1]):
        t = simp_if(T.is_("O_" + c, v), T.acc(f"f_{c}_{f}", "O_" + c, v), t)
    ty = ann_ty(T.repo.annotation(cs[0], f)) if len(cs) == 1 else None
    return SV("V", t, ty), simp_or(*[T.is_("O_" + c, v) for c in cs])


def isinst(sv, cname):
    """isinstance(v, cname)"""
    k = sv.kind
    table = dict(list="L", tuple="T", str="S", dict="D", set="SET", int="I", bool="B", float="R")
    con = dict(list="VList", tuple="VTup", str="VStr", dict="VDict", set="VSet", int="VInt", bool="VBool", float="VFlt")
    if k == "V":
        if cname in con:
            if cname == "int":
                return simp_or(T.is_("VInt", sv.t), T.is_("VBool", sv.t))
            return T.is_(con[cname], sv.t)
        if cname in T.classes:
            subs = [c for c in T.classes if any(m.name == cname for m in T.repo.mro(c))]
            return simp_or(*[T.is_("O_" + c, sv.t) for c in subs])
        subs = [c for c in T.classes if any(m.name == cname for m in T.repo.mro(c))]
        if subs:
            return simp_or(*[T.is_("O_" + c, sv.t) for c in subs])
        if cname in T.repo.classes:
            return z3.Function("isinst_" + cname, T.Val, z3.BoolSort())(sv.t)
        raise Unsupported(f"isinstance {cname}")
    if cname in table:
        return z3.BoolVal(table[cname] == k or (cname == "int" and k == "B"))
    return z3.BoolVal(False)


def ann_ty(a):
    """annotation -> light structure (name, [args])"""
    if a is None:
        return None
    if isinstance(a, str):
        try:
            a = ast.parse(a, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return ann_ty(a.value)
    if isinstance(a, ast.Name):
        return (a.id, [])
    if isinstance(a, ast.Attribute):
        return (a.attr, [])
    if isinstance(a, ast.Subscript):
        n = ann_ty(a.value)
        s = a.slice
        args = [ann_ty(x) for x in s.elts] if isinstance(s, ast.Tuple) else [ann_ty(s)]
        return (n[0] if n else "?", args)
    return None


def elt_ty(ty):
    if ty and ty[0] in ("list", "set", "OrderedSet", "tuple", "Iterable", "List", "MutableSet") and ty[1]:
        return ty[1][0]
    return None


def val_ty(ty):
    if ty and ty[0] in ("dict", "Dict") and len(ty[1]) == 2:
        return ty[1][1]
    return None


# ---------- spec functions
class SpecFn:
    """Pure Python function used both as oracle (run natively) and as SMT definition.
    Copies f_0 .. f_n carry the unfolding fuel."""
    FUEL = 2

    def __init__(self, py):
        self.py = py
        self.name = py.__name__
        src = textwrap.dedent(inspect.getsource(py))
        self.node = ast.parse(src).body[0]
        self.params = [(a.arg, a.annotation.id) for a in self.node.args.args]
        self.ret = self.node.returns.id
        self.decls = None
        self._ax = {}
        self.deps = None

    def decl(self, i):
        if self.decls is None:
            ss = [T.sorts[k] for _, k in self.params] + [T.sorts[self.ret]]
            self.decls = [z3.Function(f"{self.name}'{n}", *ss) for n in range(6)]
        return self.decls[i]

    def axioms(self, fuel):
        """definition of f_fuel in terms of f_{fuel-1}, and f_fuel = f_{fuel-1}"""
        if fuel in self._ax:
            return self._ax[fuel]
        if fuel == 0:
            return self.ground_axioms()
        vs = [z3.Const(f"{n}?", T.sorts[k]) for n, k in self.params]
        env = {n: SV(k, v) for (n, k), v in zip(self.params, vs)}
        out = []
        body = SpecTr(fuel - 1).function(self.node, env, self.ret)
        f1 = self.decl(fuel)(*vs)
        f0 = self.decl(fuel - 1)(*vs)
        if vs:
            out.append(z3.ForAll(vs, f1 == body, patterns=[f1]))
            out.append(z3.ForAll(vs, f1 == f0, patterns=[f1]))
        else:
            out += [f1 == body, f1 == f0]
        self._ax[fuel] = out
        return out

    def ground_axioms(self):
        """the definition at an empty and at a one-element list (needs no fuel: it ends at once)"""
        out = self._ax[0] = []
        first = next((s for s in self.node.body if isinstance(s, ast.If)), None)
        if first is None:
            return out
        tested = {x.args[0].id for x in ast.walk(first.test) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                  and x.func.id in ("len", "is_nil") and isinstance(x.args[0], ast.Name)}
        for n, k in self.params:
            if n not in tested or k not in ("L", "T"):
                continue
            h = z3.Const("h?", T.Val)
            for lit, extra in ((T.nil, []), (T.cons(h, T.nil), [h])):
                vs = [z3.Const(f"{m}?", T.sorts[q]) for m, q in self.params if m != n]
                env = {m: SV(q, z3.Const(f"{m}?", T.sorts[q])) for m, q in self.params}
                env[n] = SV(k, lit)
                try:
                    body = SpecTr(0).function(self.node, env, self.ret)
                except Unsupported:
                    continue
                lhs = self.decl(0)(*[env[m].t for m, _ in self.params])
                vs = vs + extra
                out.append(z3.ForAll(vs, lhs == body, patterns=[lhs]) if vs else lhs == body)
        return out

    def __call__(self, *a, **k):
        return self.py(*a, **k)


def spec(f):
    s = SpecFn(f)
    SPECS[s.name] = s
    f.spec = s
    return f


def macro(f):
    """a definition that is unfolded where it is used (must not be recursive)"""
    spec(f)
    f.spec.inline = True
    return f


class Unint:
    def __init__(self, py, note=None):
        self.py, self.name, self.note = py, py.__name__, note
        src = textwrap.dedent(inspect.getsource(py))
        self.node = ast.parse(src).body[0]
        self.params = [(a.arg, a.annotation.id) for a in self.node.args.args]
        self.ret = self.node.returns.id
        self._d = None
        self.ax = []           # spec-language axioms (assumptions)

    @property
    def d(self):
        if self._d is None:
            self._d = z3.Function(self.name, *[T.sorts[k] for _, k in self.params], T.sorts[self.ret])
        return self._d


def uninterpreted(f):
    UNINT[f.__name__] = Unint(f)
    return f


FUEL_NOW = [2]


def call_spec(name, args, fuel=None):
    if name in UNINT:
        u = UNINT[name]
        ts = [as_kind(a, k).t for a, (_, k) in zip(args, u.params)]
        return SV(u.ret, u.d(*ts))
    s = SPECS[name]
    if len(args) != len(s.params):
        raise Unsupported(f"{name}: {len(args)} arguments")
    ts = [as_kind(a, k).t for a, (_, k) in zip(args, s.params)]
    f = FUEL_NOW[-1] if fuel is None else fuel
    if getattr(s, "inline", False):
        return SV(s.ret, SpecTr(f).function(s.node, {n: SV(k, t) for t, (n, k) in zip(ts, s.params)}, s.ret))
    return SV(s.ret, s.decl(f)(*ts))


class SpecTr:
    """translates spec-language Python (pure; if / return / assignment / recursion) to terms"""

    def __init__(self, fuel):
        self.fuel = fuel

    def function(self, node, env, ret):
        FUEL_NOW.append(self.fuel)
        try:
            return as_kind(self.block(node.body, dict(env), ret), ret).t
        finally:
            FUEL_NOW.pop()

    def block(self, stmts, env, ret):
        if not stmts:
            return SV("V", T.none)
        s, rest = stmts[0], stmts[1:]
        if isinstance(s, ast.Return):
            return as_kind(self.ex(s.value, env), ret) if s.value is not None else SV("V", T.none)
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, env)
            env = dict(env)
            tg = s.targets[0]
            if isinstance(tg, ast.Name):
                env[tg.id] = v
            elif isinstance(tg, ast.Tuple):
                l = L(v)
                for i, e in enumerate(tg.elts):
                    env[e.id] = SV("V", nth(l, z3.IntVal(i)))
            else:
                raise Unsupported("spec assignment")
            return self.block(rest, env, ret)
        if isinstance(s, ast.If):
            c = self.cond(s.test, env)
            a = self.under(c, False, lambda: self.block(s.body + rest, env, ret))
            b = self.under(c, True, lambda: self.block(s.orelse + rest, env, ret))
            return SV(ret, simp_if(c, as_kind(a, ret).t, as_kind(b, ret).t))
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return self.block(rest, env, ret)
        if isinstance(s, (ast.Pass,)):
            return self.block(rest, env, ret)
        raise Unsupported(f"spec statement {ast.dump(s)[:60]}")

    def under(self, c, neg, f):
        NONNIL.append(NONNIL[-1] | {t.get_id() for t in nonnil_facts(c, neg)})
        try:
            return f()
        finally:
            NONNIL.pop()

    def cond(self, e, env):
        return truth(self.ex(e, env))

    def ex(self, e, env):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id == "True":
                return SV("B", z3.BoolVal(True))
            if e.id in SPEC_CONSTS:
                return const(SPEC_CONSTS[e.id])
            raise Unsupported(f"spec name {e.id}")
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Compare):
            parts, l = [], self.ex(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                rv = self.ex(r, env)
                parts.append(self.compare(op, l, rv))
                l = rv
            return SV("B", simp_and(*parts))
        if isinstance(e, ast.BoolOp):
            # spec language: and / or are logical connectives on truth values
            xs, n = [], len(NONNIL)
            for x in e.values:
                c = self.cond(x, env)
                xs.append(c)
                NONNIL.append(NONNIL[-1] | {t.get_id() for t in nonnil_facts(c, isinstance(e.op, ast.Or))})
            del NONNIL[n:]
            return SV("B", simp_and(*xs) if isinstance(e.op, ast.And) else simp_or(*xs))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return SV("B", simp_not(self.cond(e.operand, env)))
            if isinstance(e.op, ast.USub):
                return neg(self.ex(e.operand, env))
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, env)
            return ite(c, self.under(c, False, lambda: self.ex(e.body, env)), self.under(c, True, lambda: self.ex(e.orelse, env)))
        if isinstance(e, ast.BinOp):
            a, b = self.ex(e.left, env), self.ex(e.right, env)
            return binop(e.op, a, b)
        if isinstance(e, ast.List):
            return SV("L", mklist([V(self.ex(x, env)) for x in e.elts]))
        if isinstance(e, ast.Tuple):
            return SV("T", mklist([V(self.ex(x, env)) for x in e.elts]))
        if isinstance(e, ast.Dict):
            d = T.emptyD
            for k, v in zip(e.keys, e.values):
                d = dstore(d, T.key(V(self.ex(k, env))), V(self.ex(v, env)))
            return SV("D", d)
        if isinstance(e, ast.Subscript):
            c = self.ex(e.value, env)
            if isinstance(e.slice, ast.Slice):
                lo = self.ex(e.slice.lower, env) if e.slice.lower else None
                hi = self.ex(e.slice.upper, env) if e.slice.upper else None
                return slice_(c, lo, hi)
            return index(c, self.ex(e.slice, env))
        if isinstance(e, ast.Attribute):
            o = self.ex(e.value, env)
            if o.kind == "OBJ":
                if e.attr not in o.x:
                    raise Unsupported(f"field {e.attr}")
                return o.x[e.attr]
            return attr(o, e.attr, o.ty[0] if o.ty and e.attr in T.classes.get(o.ty[0], ()) else None)[0]
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.JoinedStr):
            parts = []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    parts.append(z3.StringVal(x.value))
                else:
                    parts.append(to_str(self.ex(x.value, env)))
            return SV("S", parts[0] if len(parts) == 1 else z3.Concat(*parts))
        raise Unsupported(f"spec expression {ast.dump(e)[:80]}")

    def compare(self, op, a, b):
        return compare(op, a, b)

    def call(self, e, env):
        if isinstance(e.func, ast.Attribute):
            o = self.ex(e.func.value, env)
            args = [self.ex(a, env) for a in e.args]
            m = e.func.attr
            if m == "get":
                d = D(o)
                kk = T.key(V(args[0]))
                x = SV("V", sel(d, kk))
                dflt = args[1] if len(args) > 1 else SV("V", T.none)
                return ite(dhas(d, kk), x, dflt)
            if m == "startswith":
                return SV("B", z3.PrefixOf(S(args[0]), S(o)))
            if m == "lower":
                return SV("S", z3.Function("str_lower", z3.StringSort(), z3.StringSort())(S(o)))
            if m == "join":
                return call_spec("joinS", [o, args[0]])
            raise Unsupported(f"spec method {m}")
        f = e.func.id
        if f == "isinstance":
            v = self.ex(e.args[0], env)
            cs = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
            return SV("B", simp_or(*[isinst(v, c.id) for c in cs]))
        if f in T.classes:
            fs = T.classes[f]
            vals = {}
            for n, a in zip(fs, e.args):
                vals[n] = V(self.ex(a, env))
            for kw in e.keywords:
                vals[kw.arg] = V(self.ex(kw.value, env))
            return SV("V", T.obj(f, *[vals.get(n, T.none) for n in fs]))
        args = [self.ex(a, env) for a in e.args]
        if f == "len":
            return SV("I", vlen(args[0]))
        if f == "list":
            return SV("L", L(args[0]))
        if f == "tuple":
            return SV("T", L(args[0]))
        if f == "str":
            return SV("S", to_str(args[0]))
        if f == "seq":
            return SV("L", L(args[0]))
        if f == "haskey":
            return SV("B", contains(args[1], as_kind(args[0], "D")))
        if f == "cons":
            return SV("L", T.cons(V(args[0]), L(args[1])))
        if f == "is_nil":
            return SV("B", isnil(L(args[0])))
        if f == "tlz":
            return SV("L", tlz(L(args[0])))
        if f == "rawapp":
            return call_spec("app", args)
        if f == "rawdrop":
            return call_spec("drop", args)
        if f == "drop":
            return SV("L", drop(L(args[0]), I(args[1])))
        if f == "nth":
            return SV("V", nth(L(args[0]), I(args[1])))
        if f == "val":
            return SV("V", V(args[0]))
        if f == "implies":
            return SV("B", z3.Implies(truth(args[0]), truth(args[1])))
        if f == "ite":
            return ite(truth(args[0]), args[1], args[2])
        if f == "bool":
            return SV("B", truth(args[0]))
        if f == "callable":
            return SV("B", T.is_("VFun", V(args[0])))
        if f == "updated":
            cls, fld = e.args[1].value, e.args[2].value
            return SV("V", T.obj(cls, *[V(args[3]) if g == fld else attr(SV("V", V(args[0])), g, cls)[0].t for g in T.classes[cls]]))
        if f == "asD":
            return as_kind(args[0], "D")
        if f == "asS":
            return as_kind(args[0], "S")
        if f == "asSET":
            return as_kind(args[0], "SET")
        if f == "asI":
            return as_kind(args[0], "I")
        if f == "asT":
            return SV("T", L(args[0]))
        if f == "ident":
            if args[0].kind == "OBJ":
                return args[0].x["$id"]
            return args[0]
        if f == "rawsel":
            return SV("B", T.Opt.is_some(z3.Select(D(args[0]), T.key(V(args[1])))))
        if f == "raweq":
            return SV("B", args[0].t == args[1].t)
        if f == "put":
            return SV("D", dstore(D(args[0]), T.key(V(args[1])), V(args[2])))
        if f == "setadd":
            return SV("SET", z3.Store(SET(args[0]), T.key(V(args[1])), z3.BoolVal(True)))
        if f == "without":
            return SV("D", T_without()(D(args[0]), L(args[1])))
        if f == "emptyset":
            return SV("SET", T.emptySet)
        if f == "isdict":
            return SV("B", isinst(args[0], "dict"))
        if f == "lt":
            return SV("B", lt(args[0], args[1]))
        if f in SPECS or f in UNINT:
            return call_spec(f, args, self.fuel)
        raise Unsupported(f"spec call {f}")


SPEC_CONSTS = {}


def const(v):
    if v is None:
        return SV("V", T.none)
    if isinstance(v, bool):
        return SV("B", z3.BoolVal(v))
    if isinstance(v, int):
        return SV("I", z3.IntVal(v))
    if isinstance(v, str):
        return SV("S", z3.StringVal(v))
    if isinstance(v, float):
        return SV("V", T.Val.VFlt(z3.RealVal(str(v))))
    raise Unsupported(f"constant {v!r}")


def to_str(sv):
    if sv.kind == "S":
        return sv.t
    if sv.kind == "V" and con_name(sv.t) == "VStr":
        return sv.t.arg(0)
    n = z3.simplify(sv.t if sv.kind == "I" else sv.t.arg(0)) if sv.kind == "I" or sv.kind == "V" and con_name(sv.t) == "VInt" else None
    if n is not None and z3.is_int_value(n):
        return z3.StringVal(str(n.as_long()))
    return T.pystr(V(sv))


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.kind == b.kind:
        return SV(a.kind, simp_if(c, a.t, b.t), a.ty or b.ty)
    return SV("V", simp_if(c, V(a), V(b)), a.ty or b.ty)


def compare(op, a, b):
    if isinstance(op, (ast.Eq, ast.Is)):
        # L == literal [] or V vs L
        return eq(a, b)
    if isinstance(op, (ast.NotEq, ast.IsNot)):
        return simp_not(eq(a, b))
    if isinstance(op, ast.Lt):
        return lt(a, b)
    if isinstance(op, ast.Gt):
        return lt(b, a)
    if isinstance(op, ast.LtE):
        return le(a, b)
    if isinstance(op, ast.GtE):
        return le(b, a)
    if isinstance(op, ast.In):
        return contains(a, b)
    if isinstance(op, ast.NotIn):
        return simp_not(contains(a, b))
    raise Unsupported("comparison")


def binop(op, a, b):
    if isinstance(op, ast.Add):
        return add(a, b)
    if isinstance(op, ast.Sub):
        return sub(a, b)
    if isinstance(op, ast.Mult):
        return mul(a, b)
    if isinstance(op, ast.Div):
        return SV("V", T.vdiv(V(a), V(b)))
    if isinstance(op, ast.BitOr):
        if a.kind == "SET" or b.kind == "SET":
            return SV("SET", z3.SetUnion(SET(a), SET(b)))
        return SV("D", dict_union(D(a), D(b)))
    if isinstance(op, ast.BitAnd):
        return SV("SET", z3.SetIntersect(SET(a), SET(b)))
    if isinstance(op, ast.Mod) and a.kind == "S":
        raise Unsupported("% formatting")
    raise Unsupported(f"operator {type(op).__name__}")


def dict_union(a, b):
    """a | b; b must be stores on an empty dict"""
    items = []
    d = b
    while z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE:
        items.append((d.arg(1), d.arg(2)))
        d = d.arg(0)
    if d.eq(T.emptyD) and all(con_name(v) == "some" for _, v in items):
        r = a
        for k, v in reversed(items):
            r = z3.Store(r, k, v)
        return r
    return T_dunion()(a, b)


def T_without():
    """the entries of a dict whose keys are not in a list"""
    if not hasattr(T, "without"):
        Ds = T.sorts["D"]
        T.without = z3.Function("dwithout", Ds, T.VL, Ds)
        d = z3.Const("d!", Ds)
        l = z3.Const("l!", T.VL)
        k = z3.Const("k!", T.K)
        m = call_spec("mem", [SV("V", T.unkey(k)), SV("L", l)], 2).t
        T.base["dwithout"] = [z3.ForAll([d, l, k], T.without(d, l)[k] == z3.If(m, T.absent, d[k]), patterns=[T.without(d, l)[k]])]
    return T.without


def T_dunion():
    if not hasattr(T, "dunion"):
        Ds = T.sorts["D"]
        T.dunion = z3.Function("dunion", Ds, Ds, Ds)
        a, b = z3.Consts("a! b!", Ds)
        k = z3.Const("k!", T.K)
        T.base["dunion"] = [z3.ForAll([a, b, k], T.dunion(a, b)[k] == z3.If(b[k] == T.absent, a[k], b[k]), patterns=[T.dunion(a, b)[k]])]
    return T.dunion


def index(c, i):
    k = c.kind
    if k in ("L", "T"):
        return SV("V", nth(c.t, I(i)), elt_ty(c.ty))
    if k == "D":
        return SV("V", sel(c.t, T.key(V(i))), val_ty(c.ty))
    if k == "S":
        n = z3.simplify(I(i))
        if z3.is_int_value(n) and n.as_long() == -1:
            return SV("S", z3.SubString(c.t, z3.Length(c.t) - 1, 1))
        return SV("S", z3.SubString(c.t, n, 1))
    if k == "V":
        cn = con_name(c.t)
        inner = dict(VStr="S", VList="L", VTup="T", VDict="D")
        if cn in inner:
            return index(SV(inner[cn], c.t.arg(0), c.ty), i)
        if i.kind == "I":
            if c.ty and c.ty[0] in ("list", "tuple"):
                return SV("V", nth(seqof(c.t), i.t), elt_ty(c.ty))
            if c.ty and c.ty[0] == "dict":
                return SV("V", sel(D(c), T.key(V(i))), val_ty(c.ty))
            if z3.is_int_value(z3.simplify(i.t)) and not (c.ty and c.ty[0] == "dict"):
                return SV("V", simp_if(T.is_("VStr", c.t), T.Val.VStr(z3.SubString(S(c), i.t, 1)), nth(seqof(c.t), i.t)))
            return SV("V", simp_if(T.is_("VDict", c.t), sel(D(c), T.key(V(i))), nth(seqof(c.t), i.t)))
        if i.kind in ("S",):
            return SV("V", sel(D(c), T.key(V(i))), val_ty(c.ty))
        return SV("V", simp_if(T.is_("VDict", c.t), sel(D(c), T.key(V(i))), nth(seqof(c.t), I(i))), val_ty(c.ty))
    raise Unsupported(f"index {k}")


def slice_(c, lo, hi):
    k = c.kind
    kk = k
    if k == "V":
        cn = con_name(c.t)
        inner = dict(VStr="S", VList="L", VTup="T")
        if cn in inner:
            return slice_(SV(inner[cn], c.t.arg(0), c.ty), lo, hi)
        if c.ty and c.ty[0] == "str":
            return slice_(SV("S", S(c)), lo, hi)
        r = slice_(SV("L", seqof(c.t)), lo, hi)
        return SV("V", simp_if(T.is_("VTup", c.t), T.Val.VTup(r.t), simp_if(T.is_("VStr", c.t), V(slice_(SV("S", S(c)), lo, hi)), T.Val.VList(r.t))), c.ty)
    lo_t = z3.simplify(I(lo)) if lo is not None else z3.IntVal(0)
    hi_t = z3.simplify(I(hi)) if hi is not None else None
    if k == "S":
        n = z3.Length(c.t)
        if hi_t is None:
            return SV("S", z3.SubString(c.t, lo_t, n))
        if z3.is_int_value(hi_t) and hi_t.as_long() < 0:
            return SV("S", z3.SubString(c.t, lo_t, n + hi_t - lo_t))
        return SV("S", z3.SubString(c.t, lo_t, hi_t - lo_t))
    l = c.t
    if hi_t is not None:
        if z3.is_int_value(hi_t) and hi_t.as_long() < 0:
            if hi_t.as_long() != -1:
                raise Unsupported("slice")
            l = call_spec("initL", [SV("L", l)]).t
        else:
            l = call_spec("take", [SV("L", l), SV("I", hi_t)]).t
    if z3.is_int_value(lo_t) and lo_t.as_long() < 0:
        raise Unsupported("negative slice start")
    return SV(k, drop(l, lo_t), c.ty)


# ---------- lemmas
class Lemma:
    def __init__(self, name, vars, stmt, induct=None, trigger=None, using=(), fuel=2, measure=None, when=None, cases=(), assumed=None, auto=True, body=0):
        self.body = body        # how far definitions in it can be unfolded where it is used
        self.name, self.stmt, self.induct, self.using, self.fuel, self.measure = name, stmt, induct, using, fuel, measure
        self.vars = [tuple(x.strip().split(":")) for x in vars.split(",")]
        self.vars = [(a.strip(), b.strip()) for a, b in self.vars]
        self.trigger = trigger if isinstance(trigger, (list, tuple)) or trigger is None else [trigger]
        self.cases = cases
        self.assumed = assumed
        self.auto = auto

    def tr(self, env, fuel):
        return truth(SpecTr(fuel).ex(ast.parse(self.stmt, mode="eval").body, env))

    def instance(self, env, fuel):
        FUEL_NOW.append(fuel)
        try:
            return self.tr(env, fuel)
        finally:
            FUEL_NOW.pop()

    def pats(self, env, vs):
        FUEL_NOW.append(0)
        try:
            if not self.trigger:
                return None
            # (z3's MultiPattern does not itself hold on to its terms)
            self.held = [[SpecTr(0).ex(ast.parse(x, mode="eval").body, env).t for x in (t if isinstance(t, tuple) else (t,))] for t in self.trigger]
            return [z3.MultiPattern(*t) for t in self.held]
        finally:
            FUEL_NOW.pop()

    def axiom(self):
        vs = [z3.Const(f"{n}?", T.sorts[k]) for n, k in self.vars]
        env = {n: SV(k, v) for (n, k), v in zip(self.vars, vs)}
        body = self.instance(env, self.body)
        p = self.pats(env, vs)
        return z3.ForAll(vs, body, patterns=p) if p else z3.ForAll(vs, body)

    def obligations(self):
        """[(name, assumptions, goal)]"""
        if self.assumed:
            return []
        vs = [z3.Const(f"{n}#", T.sorts[k]) for n, k in self.vars]
        env = {n: SV(k, v) for (n, k), v in zip(self.vars, vs)}
        if self.measure and self.induct is None:
            # well-founded induction on a number that is not negative
            qs = [z3.Const(f"{n}?", T.sorts[k]) for n, k in self.vars]
            e = {n: SV(k, v) for (n, k), v in zip(self.vars, qs)}

            def size(env_, fuel):
                FUEL_NOW.append(fuel)
                try:
                    return I(SpecTr(fuel).ex(ast.parse(self.measure, mode="eval").body, env_))
                finally:
                    FUEL_NOW.pop()
            m, m0 = size(e, 0), size(env, self.fuel)
            b = z3.Implies(z3.And(m >= 0, m < m0), self.instance(e, 0))
            return [(self.name, [z3.ForAll(qs, b, patterns=self.pats(e, qs))], self.instance(env, self.fuel))]
        if self.induct is None:
            return [(self.name, [], self.instance(env, self.fuel))]
        n = self.induct
        kd = dict(self.vars)[n]
        others = [(m, k) for m, k in self.vars if m != n]
        oq = [z3.Const(f"{m}?", T.sorts[k]) for m, k in others]

        def ih(val):
            e = {m: SV(k, v) for (m, k), v in zip(others, oq)}
            e[n] = SV(kd, val)
            b = self.instance(e, 0)
            if not oq:
                return b
            p = self.pats(e, oq)
            return z3.ForAll(oq, b, patterns=p) if p else z3.ForAll(oq, b)
        if kd == "L":
            h, t = z3.Const("h#", T.Val), z3.Const("t#", T.VL)
            e0, e1 = dict(env), dict(env)
            e0[n] = SV("L", T.nil)
            e1[n] = SV("L", T.cons(h, t))
            return [(self.name + "/base", [], self.instance(e0, self.fuel)),
                    (self.name + "/step", [ih(t)], self.instance(e1, self.fuel))]
        if kd == "I":
            i = env[n].t
            return [(self.name + "/base", [i <= 0], self.instance(env, self.fuel)),
                    (self.name + "/step", [i > 0, ih(i - 1)], self.instance(env, self.fuel))]
        if kd == "V" or self.measure:
            # well-founded induction on the size of the value
            q = z3.Const("q?", T.sorts[kd])
            e = {m: SV(k, v) for (m, k), v in zip(others, oq)}
            e[n] = SV(kd, q)
            FUEL_NOW.append(0)
            sz = call_spec("vsize", [SV("V", q)], 0).t
            FUEL_NOW.pop()
            sz0 = call_spec("vsize", [env[n]], 2).t
            b = z3.Implies(sz < sz0, self.instance(e, 0))
            p = self.pats(e, [q] + oq)
            return [(self.name + "/step", [z3.ForAll([q] + oq, b, patterns=p)], self.instance(env, self.fuel))]
        raise Unsupported("induction")


def lemma(*a, **k):
    LEMMAS.append(Lemma(*a, **k))


# ---------- queries
def symbols(e, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            for p in range(x.num_patterns()):
                todo.append(x.pattern(p))
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 0:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


_sym_cache = {}


def _syms(e):
    i = e.get_id()
    if i not in _sym_cache:
        _sym_cache[i] = (symbols(e), e)
    return _sym_cache[i][0]


ENABLED = set()        # lemmas with auto=False that the contract or lemma at hand names in `using`


class Axioms:
    """selects the definitions and lemmas that can matter for a query"""

    def __init__(self, lemmas):
        self.lemmas = lemmas        # proved lemmas (Lemma objects, with .ax)

    def select(self, exprs, exclude=()):
        need, done, out = set(), set(), []
        for e in exprs:
            need |= _syms(e)
        used_l = set()
        while True:
            new = need - done
            progressed = False
            for s in sorted(new, reverse=ATTEMPT % 2 == 1):
                done.add(s)
                progressed = True
                axs = []
                if s in T.base:
                    axs = T.base[s]
                elif "'" in s:
                    n, i = s.rsplit("'", 1)
                    if n in SPECS:
                        axs = SPECS[n].axioms(int(i))
                elif s in UNINT:
                    u = UNINT[s]
                    axs = [a for a in u.ax]
                for a in axs:
                    out.append(a)
                    need |= _syms(a)
            bases = {x.rsplit("'", 1)[0] for x in done if "'" in x} | done
            for lm in self.lemmas:
                if lm.name in used_l or lm.name in exclude or not (lm.auto or lm.name in ENABLED):
                    continue
                if not hasattr(lm, "ax"):
                    lm.ax = lm.axiom()
                    # a lemma can only fire on its triggers
                    trig = set()
                    q = lm.ax
                    pats = [q.pattern(i) for i in range(q.num_patterns())]
                    lm.tsyms = [{x.rsplit("'", 1)[0] for x in symbols(p)} for p in pats] or [{x.rsplit("'", 1)[0] for x in _syms(q)}]
                if any(ts <= bases for ts in lm.tsyms):
                    used_l.add(lm.name)
                    out.append(lm.ax)
                    need |= _syms(lm.ax)
                    progressed = True
            if not progressed and not (need - done):
                return out


# a repeated run after a crash of the solver visits the definitions in another order
ATTEMPT = int(os.environ.get('PYVC_ATTEMPT', '0'))
AX = Axioms([])
_proof_cache = {}
DEBUG = None


FORK = ATTEMPT > 0


def forked(s, ms):
    """the answer of the solver, run in a child process; None when it crashed"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            r = s.check()
            os.write(wr, b"u" if r == z3.unsat else b"s" if r == z3.sat else b"?")
        finally:
            os._exit(0)
    os.close(wr)
    try:
        if select.select([rd], [], [], ms / 1000)[0]:
            b = os.read(rd, 1)
            return {b"u": z3.unsat, b"s": z3.sat, b"?": z3.unknown}.get(b)
        os.kill(pid, 9)
        return z3.unknown
    finally:
        os.close(rd)
        os.waitpid(pid, 0)


def check(assertions, timeout_ms=4000, seed=0, lemmas_off=(), depth=0):
    """unsat / sat / unknown of the conjunction, with definitions and lemmas"""
    exprs = list(assertions)
    axs = AX.select(exprs, lemmas_off)
    s = z3.SimpleSolver()
    # the bound that counts is the deterministic one (about 7000 units a millisecond); the clock only ends stuck queries
    if not FORK:
        s.set("timeout", timeout_ms * 6 + 2000)
    s.set("rlimit", timeout_ms * 7000)
    s.set("max_memory", 3000)
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    if ATTEMPT > 1:
        seed += 31 * ATTEMPT
    if seed:
        s.set("smt.random_seed", seed)
        s.set("smt.arith.random_initial_value", True)
    for a in axs:
        s.add(a)
    for e in exprs:
        s.add(e)
    t0 = time.time()
    if FORK:
        r = forked(s, timeout_ms * 6 + 2000)
        if r is None and depth < 3:      # the solver crashed
            return check(assertions, timeout_ms, seed + 101, lemmas_off, depth + 1)
        r = r or z3.unknown
    else:
        r = s.check()
    STATS["queries"] += 1
    if DEBUG:
        DEBUG(r, time.time() - t0, assertions)
    STATS["time"] += time.time() - t0
    return r, s


_const_cache = {}


def consts(e):
    """the free constants of a term"""
    i = e.get_id()
    if i not in _const_cache:
        out, seen, todo = set(), set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo += x.children()
        _const_cache[i] = (out, e)
    return _const_cache[i][0]


def relevant(pc, goal):
    """smaller sets of hypotheses to try first: dropping hypotheses is always sound"""
    g = consts(goal)
    pc = list(pc)
    uniq, seen = [], set()
    for p in pc:
        if p.get_id() not in seen:
            seen.add(p.get_id())
            uniq.append(p)
    zero = [p for p in uniq if consts(p) <= g]
    # definitions of constants of the goal in terms of new ones (rest == cons(elt, tail)), one step
    g1 = set(g)
    for p in uniq:
        if z3.is_eq(p) and any(z3.is_const(x) and x.decl().name() in g for x in p.children()) and len(consts(p) - g) <= 3:
            g1 |= consts(p)
    one = [p for p in uniq if consts(p) <= g1]
    out = []
    if len(zero) < len(uniq):
        out.append(zero)
    if len(zero) < len(one) < len(uniq):
        out.append(one)
    return out


def prove(pc, goal, timeout_ms=4000, retry=True):
    """True when pc => goal is discharged"""
    goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
    if z3.is_true(goal):
        return True
    for p in pc:
        if z3.is_false(p):
            return True
    k = (tuple(sorted(p.get_id() for p in pc)), goal.get_id())
    if k in _proof_cache:
        r = _proof_cache[k][0]
        if r or not retry:
            return r
    ok = False
    for sub in relevant(pc, goal):
        r, s = check(sub + [z3.Not(goal)], min(timeout_ms, 300))
        if r == z3.unsat:
            ok = True
            break
    if not ok:
        r, s = check(list(pc) + [z3.Not(goal)], timeout_ms)
        ok = r == z3.unsat
    if not ok and retry:
        for sd in (7, 23):
            r, s = check(list(pc) + [z3.Not(goal)], timeout_ms * 2, seed=sd)
            if r == z3.unsat:
                ok = True
                break
    _proof_cache[k] = (ok, list(pc), goal)
    return ok


def feasible(pc, timeout_ms=400):
    """False only when the path condition is contradictory"""
    for p in pc:
        if z3.is_false(p):
            return False
    k = ("f", tuple(sorted(p.get_id() for p in pc)))
    if k in _proof_cache:
        return _proof_cache[k][0]
    r, s = check(list(pc), timeout_ms)
    ok = r != z3.unsat
    _proof_cache[k] = (ok, list(pc), None)
    return ok


def setup(repo, classes):
    global T
    T = Theory(repo, classes)
    return T


def prove_lemmas(log):
    """proves the registered lemmas in order; each may use those before it"""
    res = []
    for lm in LEMMAS:
        for name, asm, goal in lm.obligations():
            t0 = time.time()
            ENABLED.clear()
            ENABLED.update(lm.using)
            ok = prove(asm, goal, 10000)
            ENABLED.clear()
            res.append((name, ok, time.time() - t0))
            if not ok:
                log(f"lemma {name} NOT PROVED")
        if lm.assumed:
            assume_note("lemma " + lm.name, lm.assumed)
        AX.lemmas.append(lm)
    return res


def use_lemmas():
    """the lemmas, proved in a process of their own on the same run"""
    for lm in LEMMAS:
        if lm.assumed:
            assume_note("lemma " + lm.name, lm.assumed)
        AX.lemmas.append(lm)
