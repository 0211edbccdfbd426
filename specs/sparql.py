"""C19: SPARQL access."""
from pyvc.theory import spec, macro, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = []
F = "richard/data_source/SparqlDataSource.py"


# ---------------------------------------------------------------- texts as lists of characters
@uninterpreted
def chars(s: S) -> L:
    """the characters of a text"""


@uninterpreted
def text_of(l: L) -> S:
    """the text with these characters"""


@spec
def letters(l: L) -> B:
    """texts of one character"""
    if len(l) == 0:
        return True
    return isinstance(l[0], str) and len(asS(l[0])) == 1 and letters(l[1:])


@spec
def replaced(l: L, a: S, b: L) -> L:
    """the characters of s.replace(a, b), where a is one character"""
    if len(l) == 0:
        return []
    if l[0] == a:
        return b + replaced(l[1:], a, b)
    return cons(l[0], replaced(l[1:], a, b))


TEXT = "a text is the list of its characters; s.replace(a, b) with a of one character replaces each character a by b"
lemma("text_chars", "s:S", "text_of(chars(s)) == s", trigger="chars(s)", assumed=TEXT)
lemma("letters_chars", "s:S", "letters(chars(s))", trigger="chars(s)", assumed=TEXT)
lemma("chars_text", "l:L", "implies(letters(l), chars(text_of(l)) == l)", trigger="chars(text_of(l))", assumed=TEXT)
lemma("letters_app", "x:L, y:L", "letters(x + y) == (letters(x) and letters(y))", induct="x", trigger="letters(x + y)")
lemma("letters_replaced", "l:L, a:S, b:L", "implies(letters(l) and letters(b), letters(replaced(l, a, b)))", induct="l", trigger="letters(replaced(l, a, b))")
lemma("replaced_app", "x:L, y:L, a:S, b:L", "replaced(x + y, a, b) == replaced(x, a, b) + replaced(y, a, b)", induct="x", trigger="replaced(x + y, a, b)")


# ---------------------------------------------------------------- the body of a string literal of SPARQL
@macro
def code(c: V) -> L:
    """how a character is written"""
    return ite(c == "\\", ["\\", "\\"], ite(c == "'", ["\\", "'"], ite(c == "\n", ["\\", "n"], ite(c == "\r", ["\\", "r"], [c]))))


@spec
def written(l: L) -> L:
    if len(l) == 0:
        return []
    return code(l[0]) + written(l[1:])


@spec
def read(l: L) -> L:
    """the characters that the body of a literal in single quotes denotes (SPARQL 1.1, 19.7)"""
    if len(l) == 0:
        return []
    if l[0] == "\\":
        return cons(ite(l[1] == "n", "\n", ite(l[1] == "r", "\r", l[1])), read(l[2:]))
    return cons(l[0], read(l[1:]))


@spec
def body(l: L) -> B:
    """a well-formed body: it does not end the literal and has no line break"""
    if len(l) == 0:
        return True
    if l[0] == "\\":
        return len(l) >= 2 and (l[1] == "\\" or l[1] == "'" or l[1] == "n" or l[1] == "r") and body(l[2:])
    return l[0] != "'" and l[0] != "\n" and l[0] != "\r" and body(l[1:])


lemma("written_denotes", "l:L", "read(written(l)) == l", induct="l", trigger="read(written(l))")
lemma("written_body", "l:L", "body(written(l))", induct="l", trigger="body(written(l))")


@macro
def r1(l: L) -> L:
    return replaced(l, "\\", ["\\", "\\"])


@macro
def r2(l: L) -> L:
    return replaced(r1(l), "'", ["\\", "'"])


@macro
def r3(l: L) -> L:
    return replaced(r2(l), "\n", ["\\", "n"])


@spec
def chain(l: L) -> L:
    return replaced(r3(l), "\r", ["\\", "r"])


lemma("chain_fold", "l:L", "replaced(r3(l), '\\r', ['\\\\', 'r']) == chain(l)", trigger="replaced(r3(l), '\\r', ['\\\\', 'r'])", fuel=1)
lemma("chain_app", "x:L, y:L", "chain(x + y) == chain(x) + chain(y)", trigger="chain(x + y)", fuel=1)
lemma("chain_one", "c:V", "implies(isinstance(c, str), chain([c]) == code(c))", fuel=3, trigger="chain([c])")
lemma("app_one", "c:V, t:L", "rawapp([c], t) == cons(c, t)", trigger="rawapp([c], t)")
lemma("chain_cons0", "c:V, t:L", "implies(isinstance(c, str) and rawapp([c], t) == cons(c, t), chain(cons(c, t)) == code(c) + chain(t))", fuel=0, trigger="chain(cons(c, t))")
lemma("chain_cons", "c:V, t:L", "implies(isinstance(c, str), chain(cons(c, t)) == code(c) + chain(t))", fuel=0, trigger="chain(cons(c, t))")
lemma("chain_nil", "l:L", "implies(len(l) == 0, chain(l) == [])", trigger="chain(l)")
lemma("letters_cons", "c:V, t:L", "letters(cons(c, t)) == (isinstance(c, str) and len(asS(c)) == 1 and letters(t))", fuel=1, trigger="letters(cons(c, t))")
lemma("written_cons", "c:V, t:L", "written(cons(c, t)) == code(c) + written(t)", fuel=1, trigger="written(cons(c, t))")
lemma("written_nil", "l:L", "implies(len(l) == 0, written(l) == [])", fuel=1, trigger="written(l)")
lemma("escapes", "l:L", "implies(letters(l), chain(l) == written(l))", induct="l", trigger="chain(l)", fuel=0)
lemma("letters_written", "l:L", "implies(letters(l), letters(written(l)))", induct="l", trigger="letters(written(l))")

SELF = dict(url="V", result_cache_path="V", headers="V", lang="S")


@spec
def term_text(term: V, index: I, columns: L, lang: S) -> S:
    return ite(term is None, "?term" + str(index),
               ite(not isinstance(term, str), str(term),
                   ite(columns[index] == "id", "<" + asS(term) + ">",
                       ite(columns[index] == "constant", asS(term), "'" + text_of(written(chars(asS(term)))) + "'@" + lang))))


contract(F, "SparqlDataSource.prepare_term", dict(term="V", index="I", columns="L"), self_fields=SELF, ret="S", no_raise="True", requires=["0 <= index", "index < len(columns)"],
         result="term_text(term, index, columns, asS(self.lang))", fuel=1)


# ---------------------------------------------------------------- what is asked for
@macro
def asked(values: L, terms: L) -> L:
    return ite(values[0] is None, [terms[0]], []) + ite(values[1] is None, [terms[1]], [])


contract(F, "SparqlDataSource.prepare_variables", dict(values="L", terms="L"), self_fields=SELF, ret="L", no_raise="True", requires=["len(values) == 2", "len(terms) == 2"],
         result="ite(values[0] is not None and values[1] is not None, ['*'], asked(values, terms))")
contract(F, "SparqlDataSource.prepare_text_variables", dict(values="L", terms="L", columns="L"), self_fields=SELF, ret="L", no_raise="True", requires=["len(values) == 2", "len(terms) == 2", "len(columns) == 2"],
         result="ite(values[0] is None and columns[0] == 'text', [terms[0]], []) + ite(values[1] is None and columns[1] == 'text', [terms[1]], [])")


@spec
def filters(vs: L, lang: S) -> S:
    """one language filter for each variable of a text"""
    if len(vs) == 0:
        return ""
    return "\n                FILTER(LANG(" + str(vs[0]) + ") = \"" + lang + "\") .\n            " + filters(vs[1:], lang)


@spec
def query_text(variables: L, text_variables: L, terms: L, table: S, lang: S) -> S:
    return "\n            SELECT " + " ".join(variables) + " WHERE {\n                " + str(terms[0]) + " " + table + " " + str(terms[1]) + " .\n                " + filters(text_variables, lang) + "\n            }\n        "


contract(F, "SparqlDataSource.create_query", dict(variables="L", text_variables="L", terms="L", table="S"), self_fields=SELF, ret="S", no_raise="True", requires=["len(terms) == 2"], fuel=1,
         result="query_text(variables, text_variables, terms, table, asS(self.lang))",
         inv=["filters(text_variables, asS(self.lang)) == STR + filters(REST, asS(self.lang))"])


# ---------------------------------------------------------------- the answers
@macro
def cell(item: V, value: V, term: V) -> V:
    return ite(value is None, asD(asD(item)[asS(term)[1:]])['value'], value)


@spec
def answers(items: L, values: L, terms: L) -> L:
    if len(items) == 0:
        return []
    return cons([cell(items[0], values[0], terms[0]), cell(items[0], values[1], terms[1])], answers(items[1:], values, terms))


@macro
def answered(item: V, term: V) -> B:
    return isinstance(item, dict) and haskey(asD(item), asS(term)[1:]) and isinstance(asD(item)[asS(term)[1:]], dict) and haskey(asD(asD(item)[asS(term)[1:]]), 'value')


@spec
def complete(items: L, values: L, terms: L) -> B:
    """each answer has a value for each variable that was asked for"""
    if len(items) == 0:
        return True
    return implies(values[0] is None, answered(items[0], terms[0])) and implies(values[1] is None, answered(items[0], terms[1])) and complete(items[1:], values, terms)


ITEMS = "list(asD(asD(data)['results'])['bindings'])"
contract(F, "SparqlDataSource.prepare_results", dict(data="D", values="L", terms="L"), self_fields=SELF, ret="L", no_raise="True", fuel=1,
         requires=["len(values) == 2", "len(terms) == 2", "haskey(data, 'results')", "isinstance(data['results'], dict)", "haskey(asD(data['results']), 'bindings')", "isinstance(asD(data['results'])['bindings'], list)",
                   f"complete({ITEMS}, values, terms)", "implies(values[0] is None, isinstance(terms[0], str))", "implies(values[1] is None, isinstance(terms[1], str))"],
         result=f"answers({ITEMS}, values, terms)",
         inv=[f"answers({ITEMS}, values, terms) == ACC + answers(REST, values, terms)", "complete(REST, values, terms)"])


# ---------------------------------------------------------------- asking
@uninterpreted
def reply(url: V, params: V, headers: V) -> V:
    """what the server answers"""


@uninterpreted
def status(r: V) -> V:
    """its HTTP status"""


@uninterpreted
def reply_text(r: V) -> V:
    """its text"""


@uninterpreted
def content(r: V) -> V:
    """its text read as JSON"""


@uninterpreted
def reachable(url: V, params: V, headers: V) -> B:
    """the server can be reached"""


@uninterpreted
def is_json(r: V) -> B:
    """the text is JSON"""


iface("ext", "requests.get", dict(url="V", params="V", headers="V"), ret="V", result="reply(url, params, headers)", no_raise="reachable(url, params, headers)", must_raise="not reachable(url, params, headers)", trace="[('get', url, params, headers)]", raise_trace="[('get', url, params, headers)]",
      assumed="requests.get sends one request and gives the reply or raises")
iface("*", "attr:status_code", dict(self="V"), ret="V", result="status(self)", assumed="the status of a reply does not change")
iface("*", "attr:text", dict(self="V"), ret="V", result="reply_text(self)", assumed="the text of a reply does not change")
iface("*", "json", dict(self="V"), ret="V", result="content(self)", no_raise="is_json(self)", assumed="reading the text of a reply has no effect")


@macro
def asked_for(table: S, columns: L, values: L, lang: S) -> S:
    """the query: one triple, the unknown terms, a filter for each unknown text"""
    ts = [term_text(values[0], 0, columns, lang), term_text(values[1], 1, columns, lang)]
    return query_text(ite(values[0] is not None and values[1] is not None, ["*"], asked(values, ts)), ite(values[0] is None and columns[0] == "text", [ts[0]], []) + ite(values[1] is None and columns[1] == "text", [ts[1]], []), ts, table, lang)


lemma("digits", "i:I", "implies(i == 0, str(i) == '0') and implies(i == 1, str(i) == '1')", trigger="str(i)", assumed="the texts of 0 and 1")
lemma("variable0", "t:V, c:L, g:S", "implies(t is None, term_text(t, 0, c, g) == '?term0')", trigger="term_text(t, 0, c, g)")
lemma("variable1", "t:V, c:L, g:S", "implies(t is None, term_text(t, 1, c, g) == '?term1')", trigger="term_text(t, 1, c, g)")


@macro
def refused(r: V) -> B:
    return status(r) == 403 or status(r) == 429 or status(r) == 400


@macro
def well_formed(r: V, values: L, terms: L) -> B:
    """the SPARQL results format"""
    return is_json(r) and isinstance(content(r), dict) and haskey(asD(content(r)), "results") and isinstance(asD(content(r))["results"], dict) and haskey(asD(asD(content(r))["results"]), "bindings") \
        and isinstance(asD(asD(content(r))["results"])["bindings"], list) and complete(list(asD(asD(content(r))["results"])["bindings"]), values, terms)


QUERY = "asked_for(table, columns, values, asS(self.lang))"
TS = "[term_text(values[0], 0, columns, asS(self.lang)), term_text(values[1], 1, columns, asS(self.lang))]"
PARAMS = f"{{'query': {QUERY}, 'format': 'json'}}"
REPLY = f"reply(self.url, {PARAMS}, self.headers)"
ROWS = f"answers(list(asD(asD(content({REPLY}))['results'])['bindings']), values, {TS})"
GET = f"[('get', self.url, {PARAMS}, self.headers)]"
OKS = f"reachable(self.url, {PARAMS}, self.headers) and not refused({REPLY})"
contract(F, "SparqlDataSource.do_select", dict(table="S", columns="L", values="L"), self_fields=SELF, ret="L", requires=["len(columns) == 2", "len(values) == 2", f"well_formed({REPLY}, values, {TS})"], fuel=0,
         no_raise=OKS, must_raise=f"not ({OKS})", result=ROWS, trace=GET, raise_trace=GET)


# ---------------------------------------------------------------- the cache
@uninterpreted
def sha1(data: S) -> V:
    """a hash"""


@uninterpreted
def hex(hash: V) -> S:
    """its digits"""


@uninterpreted
def file(name: S, mode: S) -> V:
    """an open file"""


@uninterpreted
def can_open(name: S, mode: S) -> B:
    """the file can be opened"""


@uninterpreted
def readable(f: V) -> B:
    """the file has one complete pickled value"""


@uninterpreted
def kept(f: V) -> V:
    """that value"""


@uninterpreted
def writable(f: V) -> B:
    """there is room on the disk"""


iface("ext", "hashlib.sha1", dict(data="V"), ret="V", result="sha1(asS(data))", assumed="sha1 is a function")
iface("*", "hexdigest", dict(self="V"), ret="S", result="hex(self)", assumed="the digits of a hash are a function of it")
iface("ext", "open", dict(name="S", mode="S"), ret="V", result="file(name, mode)", no_raise="can_open(name, mode)", must_raise="not can_open(name, mode)", raises_types="OSError", assumed="open gives the file or raises OSError")
iface("ext", "pickle.load", dict(file="V"), ret="V", result="kept(file)", no_raise="readable(file)", must_raise="not readable(file)", assumed="pickle.load gives the value that the file holds or raises an Exception; a file that was cut off while it was written never holds a value")
iface("ext", "pickle.dump", dict(obj="V", file="V"), ret="N", trace="[('dump', obj, file)]", raise_trace="[('dump', obj, file)]", no_raise="writable(file)", must_raise="not writable(file)", raises_types="OSError",
      assumed="pickle.dump of rows of texts, numbers and None writes them to the file or raises OSError")


@uninterpreted
def str_encode(s: S) -> S:
    """its bytes"""


@macro
def place(path: V, table: S, columns: L, values: L) -> S:
    """where the rows of a select are kept"""
    return asS(path) + "/" + hex(sha1(str_encode(table + str(columns) + str(values)))) + ".pickle"


FILE = "place(self.result_cache_path, table, columns, values)"
HIT = f"self.result_cache_path and can_open({FILE}, 'rb') and readable(file({FILE}, 'rb'))"
KEEP = f"ite(self.result_cache_path and can_open({FILE}, 'wb'), [('dump', {ROWS}, file({FILE}, 'wb'))], [])"
contract(F, "SparqlDataSource.select", dict(table="S", columns="L", values="L"), self_fields=dict(SELF), ret="V", requires=["len(columns) == 2", "len(values) == 2", f"well_formed({REPLY}, values, {TS})", "self.result_cache_path is None or isinstance(self.result_cache_path, str)"], fuel=0,
         no_raise=f"({HIT}) or ({OKS})", must_raise=f"not ({HIT}) and not ({OKS})", result=f"ite({HIT}, kept(file({FILE}, 'rb')), {ROWS})",
         trace=f"ite({HIT}, [], {GET} + {KEEP})", raise_trace=GET)
