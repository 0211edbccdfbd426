"""Sequence library of the specification language (definitions; the lemmas are proved by induction on every run)."""
from pyvc.theory import spec, uninterpreted, lemma
L = T = D = V = I = B = S = SET = None


def cons(x, l): return [x] + list(l)


@spec
def app(a: L, b: L) -> L:
    if len(a) == 0:
        return b
    return cons(a[0], app(a[1:], b))


@spec
def lenL(a: L) -> I:
    if is_nil(a):
        return 0
    return 1 + lenL(a[1:])


@spec
def drop(a: L, n: I) -> L:
    if n <= 0 or len(a) == 0:
        return a
    return drop(a[1:], n - 1)


@spec
def take(a: L, n: I) -> L:
    if n <= 0 or len(a) == 0:
        return []
    return cons(a[0], take(a[1:], n - 1))


@spec
def mem(x: V, a: L) -> B:
    if len(a) == 0:
        return False
    return x == a[0] or mem(x, a[1:])


@spec
def lastL(a: L) -> V:
    if len(a) == 0:
        return None
    if len(a[1:]) == 0:
        return a[0]
    return lastL(a[1:])


@spec
def initL(a: L) -> L:
    if len(a) == 0 or len(a[1:]) == 0:
        return []
    return cons(a[0], initL(a[1:]))


@spec
def revL(a: L) -> L:
    if len(a) == 0:
        return []
    return app(revL(a[1:]), [a[0]])


@spec
def rep(x: V, n: I) -> L:
    if n <= 0:
        return []
    return cons(x, rep(x, n - 1))


@spec
def joinS(sep: S, a: L) -> S:
    if len(a) == 0:
        return ""
    if len(a[1:]) == 0:
        return asS(a[0])
    return asS(a[0]) + sep + joinS(sep, a[1:])


def asS(x): return x


def asD(x): return x


def is_nil(a): return len(a) == 0


lemma("app_nil", "a:L", "app(a, []) == a", induct="a", trigger="app(a, [])")
lemma("app_nil_l", "b:L", "rawapp([], b) == b", trigger="rawapp([], b)")
lemma("app_assoc", "a:L, b:L, c:L", "app(app(a, b), c) == app(a, app(b, c))", induct="a", trigger="app(app(a, b), c)")
lemma("len_nonneg", "a:L", "lenL(a) >= 0 and raweq(lenL(a), 0) == is_nil(a)", induct="a", trigger="lenL(a)")
lemma("len_app", "a:L, b:L", "lenL(app(a, b)) == lenL(a) + lenL(b)", induct="a", trigger=["lenL(app(a, b))"])
lemma("app_id", "a:L, b:L", "implies(app(a, b) == a, is_nil(b))", induct="a", trigger="app(a, b)")
lemma("mem_app", "x:V, a:L, b:L", "mem(x, app(a, b)) == (mem(x, a) or mem(x, b))", induct="a", trigger="mem(x, app(a, b))")
lemma("drop_succ", "a:L, n:I", "implies(n >= 0, rawdrop(a, n + 1) == tlz(rawdrop(a, n)))", induct="a", trigger="rawdrop(a, n)", auto=False)
lemma("drop_len", "a:L, n:I", "implies(0 <= n and n <= lenL(a), lenL(rawdrop(a, n)) == lenL(a) - n)", induct="a", trigger="lenL(rawdrop(a, n))")


def tlz(a): return a[1:]


@spec
def setnth(a: L, n: I, x: V) -> L:
    if len(a) == 0:
        return []
    if n <= 0:
        return cons(x, a[1:])
    return cons(a[0], setnth(a[1:], n - 1, x))


@spec
def addnew1(a: L, x: V) -> L:
    """a, with x at the end unless it is there"""
    if len(a) == 0:
        return [x]
    if a[0] == x:
        return a
    return cons(a[0], addnew1(a[1:], x))


@spec
def addnew(a: L, b: L) -> L:
    """a, then the items of b that are new, in order"""
    if len(b) == 0:
        return a
    return addnew(addnew1(a, b[0]), b[1:])


@spec
def dedup(a: L) -> L:
    return addnew([], a)


@spec
def remove1(a: L, x: V) -> L:
    if len(a) == 0:
        return []
    if a[0] == x:
        return a[1:]
    return cons(a[0], remove1(a[1:], x))


def put(d, k, v):
    r = dict(d)
    r[k] = v
    return r


@spec
def fromkeys(a: L, v: V) -> D:
    return putkeys({}, a, v)


@spec
def putkeys(d: D, a: L, v: V) -> D:
    if len(a) == 0:
        return d
    return putkeys(put(d, a[0], v), a[1:], v)


@spec
def toset(a: L) -> SET:
    if len(a) == 0:
        return emptyset()
    return setadd(toset(a[1:]), a[0])


def emptyset(): return frozenset()


def setadd(s, x): return frozenset(s) | {x}


def haskey(d, k): return k in d


def implies(a, b): return (not a) or b


def ite(c, a, b): return a if c else b


# "x is new in a" decides what adding one item does
lemma("addnew1_mem", "a:L, x:V", "addnew1(a, x) == ite(mem(x, a), a, app(a, [x]))", induct="a", trigger=["addnew1(a, x)"])
lemma("addnew_app", "a:L, b:L, c:L", "addnew(a, app(b, c)) == addnew(addnew(a, b), c)", induct="b", trigger=["addnew(a, app(b, c))"])


def without(d, l): return {k: v for k, v in d.items() if k not in l}


# stable sort by key (the keys are numbers or other values ordered by <)
@spec
def insp(p: V, l: L) -> L:
    if len(l) == 0:
        return [p]
    if l[0][0] < p[0]:
        return cons(l[0], insp(p, l[1:]))
    return cons(p, l)


@spec
def sortp(keys: L, items: L) -> L:
    if len(keys) == 0 or len(items) == 0:
        return []
    return insp((keys[0], items[0]), sortp(keys[1:], items[1:]))


@spec
def inspd(p: V, l: L) -> L:
    if len(l) == 0:
        return [p]
    if p[0] < l[0][0]:
        return cons(l[0], inspd(p, l[1:]))
    return cons(p, l)


@spec
def sortpd(keys: L, items: L) -> L:
    if len(keys) == 0 or len(items) == 0:
        return []
    return inspd((keys[0], items[0]), sortpd(keys[1:], items[1:]))


@spec
def seconds(l: L) -> L:
    if len(l) == 0:
        return []
    return cons(l[0][1], seconds(l[1:]))


@spec
def sortk(keys: L, items: L) -> L:
    return seconds(sortp(keys, items))


@spec
def sortkd(keys: L, items: L) -> L:
    return seconds(sortpd(keys, items))


# largest / smallest value; of equal ones the first
@spec
def vmaxfrom(best: V, a: L) -> V:
    if len(a) == 0:
        return best
    if best < a[0]:
        return vmaxfrom(a[0], a[1:])
    return vmaxfrom(best, a[1:])


@spec
def vminfrom(best: V, a: L) -> V:
    if len(a) == 0:
        return best
    if a[0] < best:
        return vminfrom(a[0], a[1:])
    return vminfrom(best, a[1:])


@spec
def vmax(a: L) -> V:
    return vmaxfrom(a[0], a[1:])


@spec
def vmin(a: L) -> V:
    return vminfrom(a[0], a[1:])
