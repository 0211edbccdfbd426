"""C13: what the maps of composer.py amount to: new names are new, and different for different variables."""
from .composer import *


@spec
def fresh(v: V, p: S, lo: I, hi: I) -> B:
    """one of the names after the lo-th up to and including the hi-th"""
    if hi <= lo:
        return False
    return v == name(p, hi) or fresh(v, p, lo, hi - 1)


M = "ite(hi <= lo, 0, hi - lo)"
lemma("str_injective", "a:I, b:I", "implies(str(a) == str(b), a == b)", trigger=[("str(a)", "str(b)")], assumed="the decimal texts of different integers differ")
lemma("names_differ", "p:S, a:I, b:I", "implies(name(p, a) == name(p, b), a == b)")
lemma("fresh_one", "p:S, lo:I", "fresh(name(p, lo + 1), p, lo, lo + 1)", trigger="name(p, lo + 1)")
lemma("fresh_wider", "v:V, p:S, lo:I, hi:I, hi2:I", "implies(fresh(v, p, lo, hi) and hi <= hi2, fresh(v, p, lo, hi2))", measure="ite(hi2 <= lo, 0, hi2 - lo)", trigger=[("fresh(v, p, lo, hi)", "fresh(v, p, lo, hi2)")])
lemma("fresh_lower", "v:V, p:S, lo:I, lo2:I, hi:I", "implies(fresh(v, p, lo2, hi) and lo <= lo2, fresh(v, p, lo, hi))", measure="ite(hi <= lo, 0, hi - lo)", trigger=[("fresh(v, p, lo2, hi)", "fresh(v, p, lo, hi)")])
lemma("fresh_not_old", "p:S, k:I, lo:I, hi:I", "implies(k >= 0 and k <= lo, not fresh(name(p, k), p, lo, hi))", measure="ite(hi <= lo, 0, hi - lo)", trigger="fresh(name(p, k), p, lo, hi)")
lemma("fresh_disjoint", "v:V, p:S, lo:I, hi:I, lo2:I, hi2:I", "implies(fresh(v, p, lo, hi) and hi <= lo2 and lo >= 0, not fresh(v, p, lo2, hi2))", measure="ite(hi <= lo, 0, hi - lo)", trigger=[("fresh(v, p, lo, hi)", "fresh(v, p, lo2, hi2)")])

# one constituent
lemma("fill_old", "a:L, m:D, p:S, n:I, x:V", "implies(haskey(m, x), asD(fill(a, m, p, n)[0])[x] == m[x])", induct="a", trigger=[("fill(a, m, p, n)", "haskey(m, x)")])
lemma("fill_new", "a:L, m:D, p:S, n:I, x:V", "implies(not haskey(m, x) and haskey(asD(fill(a, m, p, n)[0]), x), fresh(asD(fill(a, m, p, n)[0])[x], p, n, asI(fill(a, m, p, n)[1])))", induct="a", trigger="haskey(asD(fill(a, m, p, n)[0]), x)")
lemma("fill_distinct", "a:L, m:D, p:S, n:I, x:V, y:V",
      "implies(n >= 0 and x != y and not haskey(m, x) and not haskey(m, y) and haskey(asD(fill(a, m, p, n)[0]), x) and haskey(asD(fill(a, m, p, n)[0]), y), asD(fill(a, m, p, n)[0])[x] != asD(fill(a, m, p, n)[0])[y])",
      induct="a", trigger=[("haskey(asD(fill(a, m, p, n)[0]), x)", "haskey(asD(fill(a, m, p, n)[0]), y)")])
lemma("fill_all_keeps2", "cs:L, m:D, p:S, n:I, x:V", "implies(haskey(m, x), haskey(asD(fill_all(cs, m, p, n)[0]), x))", induct="cs", trigger="haskey(asD(fill_all(cs, m, p, n)[0]), x)")
lemma("fill_all_old", "cs:L, m:D, p:S, n:I, x:V", "implies(haskey(m, x), asD(fill_all(cs, m, p, n)[0])[x] == m[x])", induct="cs", trigger=[("fill_all(cs, m, p, n)", "haskey(m, x)")])
lemma("fill_all_new", "cs:L, m:D, p:S, n:I, x:V", "implies(not haskey(m, x) and haskey(asD(fill_all(cs, m, p, n)[0]), x), fresh(asD(fill_all(cs, m, p, n)[0])[x], p, n, asI(fill_all(cs, m, p, n)[1])))", induct="cs", trigger="haskey(asD(fill_all(cs, m, p, n)[0]), x)")
lemma("fill_all_distinct", "cs:L, m:D, p:S, n:I, x:V, y:V",
      "implies(n >= 0 and x != y and not haskey(m, x) and not haskey(m, y) and haskey(asD(fill_all(cs, m, p, n)[0]), x) and haskey(asD(fill_all(cs, m, p, n)[0]), y), asD(fill_all(cs, m, p, n)[0])[x] != asD(fill_all(cs, m, p, n)[0])[y])",
      induct="cs", trigger=[("haskey(asD(fill_all(cs, m, p, n)[0]), x)", "haskey(asD(fill_all(cs, m, p, n)[0]), y)")])
lemma("ext_atom_keeps2", "a:L, m:D, p:S, n:I, x:V", "implies(haskey(m, x), haskey(asD(ext_atom(a, m, p, n)[0]), x))", induct="a", trigger="haskey(asD(ext_atom(a, m, p, n)[0]), x)")
lemma("ext_atom_old", "a:L, m:D, p:S, n:I, x:V", "implies(haskey(m, x), asD(ext_atom(a, m, p, n)[0])[x] == m[x])", induct="a", trigger=[("ext_atom(a, m, p, n)", "haskey(m, x)")])
lemma("ext_atom_new", "a:L, m:D, p:S, n:I, x:V", "implies(not haskey(m, x) and haskey(asD(ext_atom(a, m, p, n)[0]), x), fresh(asD(ext_atom(a, m, p, n)[0])[x], p, n, asI(ext_atom(a, m, p, n)[1])))", induct="a", trigger="haskey(asD(ext_atom(a, m, p, n)[0]), x)")
lemma("ext_atom_distinct", "a:L, m:D, p:S, n:I, x:V, y:V",
      "implies(n >= 0 and x != y and not haskey(m, x) and not haskey(m, y) and haskey(asD(ext_atom(a, m, p, n)[0]), x) and haskey(asD(ext_atom(a, m, p, n)[0]), y), asD(ext_atom(a, m, p, n)[0])[x] != asD(ext_atom(a, m, p, n)[0])[y])",
      induct="a", trigger=[("haskey(asD(ext_atom(a, m, p, n)[0]), x)", "haskey(asD(ext_atom(a, m, p, n)[0]), y)")])
lemma("ext_atoms_keeps2", "cs:L, m:D, p:S, n:I, x:V", "implies(haskey(m, x), haskey(asD(ext_atoms(cs, m, p, n)[0]), x))", induct="cs", trigger="haskey(asD(ext_atoms(cs, m, p, n)[0]), x)")
lemma("ext_atoms_old", "cs:L, m:D, p:S, n:I, x:V", "implies(haskey(m, x), asD(ext_atoms(cs, m, p, n)[0])[x] == m[x])", induct="cs", trigger=[("ext_atoms(cs, m, p, n)", "haskey(m, x)")])
lemma("ext_atoms_new", "cs:L, m:D, p:S, n:I, x:V", "implies(not haskey(m, x) and haskey(asD(ext_atoms(cs, m, p, n)[0]), x), fresh(asD(ext_atoms(cs, m, p, n)[0])[x], p, n, asI(ext_atoms(cs, m, p, n)[1])))", induct="cs", trigger="haskey(asD(ext_atoms(cs, m, p, n)[0]), x)")
lemma("ext_atoms_distinct", "cs:L, m:D, p:S, n:I, x:V, y:V",
      "implies(n >= 0 and x != y and not haskey(m, x) and not haskey(m, y) and haskey(asD(ext_atoms(cs, m, p, n)[0]), x) and haskey(asD(ext_atoms(cs, m, p, n)[0]), y), asD(ext_atoms(cs, m, p, n)[0])[x] != asD(ext_atoms(cs, m, p, n)[0])[y])",
      induct="cs", trigger=[("haskey(asD(ext_atoms(cs, m, p, n)[0]), x)", "haskey(asD(ext_atoms(cs, m, p, n)[0]), y)")])
lemma("ext_atom_free", "a:L, m:D, p:S, n:I, x:V", "implies(not haskey(m, x) and haskey(asD(ext_atom(a, m, p, n)[0]), x), not asS(x).startswith(p))", induct="a", trigger="haskey(asD(ext_atom(a, m, p, n)[0]), x)")
lemma("ext_atoms_free", "cs:L, m:D, p:S, n:I, x:V", "implies(not haskey(m, x) and haskey(asD(ext_atoms(cs, m, p, n)[0]), x), not asS(x).startswith(p))", induct="cs", trigger="haskey(asD(ext_atoms(cs, m, p, n)[0]), x)")

# ---------------------------------------------------------------- one application of a rule
@spec
def distinct(l: L) -> B:
    if len(l) == 0:
        return True
    return l[0] not in l[1:] and distinct(l[1:])


@spec
def firsts(vs: L, args: L) -> L:
    """as many"""
    if len(args) == 0:
        return []
    return cons(vs[0], firsts(vs[1:], args[1:]))


@macro
def rule_map(head: L, cs: L, vs: L, p: S, n: I, k: I, sem: V) -> D:
    """the map that the semantics of a node are renamed by; n names are in use before the node and k after its children"""
    return asD(extended(sem, asD(fill_all(cs, given(head, vs, {}), p, n)[0]), p, k)[0])


lemma("given_old", "a:L, vs:L, m:D, x:V", "implies(x not in a, given(a, vs, m)[x] == m[x] and haskey(given(a, vs, m), x) == haskey(m, x))", induct="a", trigger=["haskey(given(a, vs, m), x)", "given(a, vs, m)[x]"])
lemma("given_head", "a:L, vs:L, m:D", "implies(distinct(a) and len(a) <= len(vs), mapped(a, given(a, vs, m)) == firsts(vs, a))", induct="a", trigger="mapped(a, given(a, vs, m))")
lemma("given_has", "a:L, vs:L, m:D, x:V", "implies(x in a, haskey(given(a, vs, m), x))", induct="a", trigger="haskey(given(a, vs, m), x)")
lemma("head_kept", "head:L, cs:L, vs:L, p:S, n:I, k:I, sem:V, x:V", "implies(x in head, rule_map(head, cs, vs, p, n, k, sem)[x] == given(head, vs, {})[x])")
lemma("private_new", "head:L, cs:L, vs:L, p:S, n:I, k:I, sem:V, x:V", "implies(x not in head and 0 <= n and asI(fill_all(cs, given(head, vs, {}), p, n)[1]) <= k and haskey(rule_map(head, cs, vs, p, n, k, sem), x),"
      " fresh(rule_map(head, cs, vs, p, n, k, sem)[x], p, n, asI(extended(sem, asD(fill_all(cs, given(head, vs, {}), p, n)[0]), p, k)[1])))")
lemma("private_distinct", "head:L, cs:L, vs:L, p:S, n:I, k:I, sem:V, x:V, y:V", "implies(x not in head and y not in head and x != y and 0 <= n and asI(fill_all(cs, given(head, vs, {}), p, n)[1]) <= k"
      " and haskey(rule_map(head, cs, vs, p, n, k, sem), x) and haskey(rule_map(head, cs, vs, p, n, k, sem), y),"
      " rule_map(head, cs, vs, p, n, k, sem)[x] != rule_map(head, cs, vs, p, n, k, sem)[y])")


# ---------------------------------------------------------------- names of the dialog are not renamed again
@spec
def plain(args: L, p: S) -> B:
    """the variables of the grammar's author do not look like names of the dialog"""
    if len(args) == 0:
        return True
    return not asS(args[0]).startswith(p) and plain(args[1:], p)


@spec
def all_plain(cs: L, p: S) -> B:
    if len(cs) == 0:
        return True
    return plain(list(cs[0].arguments), p) and all_plain(cs[1:], p)


lemma("given_plain", "a:L, vs:L, m:D, p:S, x:V", "implies(plain(a, p) and asS(x).startswith(p) and not haskey(m, x), not haskey(given(a, vs, m), x))", induct="a", trigger=[("plain(a, p)", "haskey(given(a, vs, m), x)")])
lemma("fill_plain", "a:L, m:D, p:S, n:I, x:V", "implies(plain(a, p) and asS(x).startswith(p) and not haskey(m, x), not haskey(asD(fill(a, m, p, n)[0]), x))", induct="a", trigger="haskey(asD(fill(a, m, p, n)[0]), x)")
lemma("fill_all_plain", "cs:L, m:D, p:S, n:I, x:V", "implies(all_plain(cs, p) and asS(x).startswith(p) and not haskey(m, x), not haskey(asD(fill_all(cs, m, p, n)[0]), x))", induct="cs", trigger="haskey(asD(fill_all(cs, m, p, n)[0]), x)")
lemma("never_again", "head:L, cs:L, vs:L, p:S, n:I, k:I, sem:V, x:V", "implies(plain(head, p) and all_plain(cs, p) and isinstance(x, Variable) and isinstance(x.name, str) and asS(x.name).startswith(p), renamed(x, rule_map(head, cs, vs, p, n, k, sem)) == x)")
