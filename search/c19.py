"""C19: selects over SPARQL against a stand-in for the server that reads the query by its own reading of the SPARQL grammar; caches that were cut off"""
import os, pickle, shutil, sys, tempfile, types
from .common import *
from richard.data_source.SparqlDataSource import SparqlDataSource, ID, TEXT, CONSTANT

TEXTS = ["Lord Byron", "it's", "\\", "\\'", "a\\", "a\nb", "a\r\nb", "'", "''@nl . }", "\"q\"", "", "{}", "{0}", "\\n", "é✓", "?term0", "<x>", "tab\tx", "a'@en . ?x ?y ?z . FILTER(1 = 1)"]
LANGS = ["en", "nl", "pt-br"]


class Broken(Exception):
    pass


def tokens(q):
    """of a query, with literals decoded (SPARQL 1.1, 19.7 and 19.8)"""
    out, i = [], 0
    while i < len(q):
        c = q[i]
        if c.isspace():
            i += 1
        elif c in "'\"":
            if q.startswith(c * 3, i):
                raise Broken("a long literal")
            i += 1
            s = ""
            while True:
                if i >= len(q) or q[i] in "\n\r":
                    raise Broken("a literal without end")
                if q[i] == "\\":
                    if i + 1 >= len(q) or q[i + 1] not in "tbnrf\\\"'":
                        raise Broken("an unknown escape")
                    s += {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f"}.get(q[i + 1], q[i + 1])
                    i += 2
                elif q[i] == c:
                    i += 1
                    break
                else:
                    s += q[i]
                    i += 1
            lang = None
            if i < len(q) and q[i] == "@":
                j = i + 1
                while j < len(q) and (q[j].isalnum() or q[j] == "-"):
                    j += 1
                lang, i = q[i + 1:j], j
            out.append(("literal", s, lang))
        elif c == "<":
            j = q.index(">", i)
            out.append(("iri", q[i + 1:j]))
            i = j + 1
        elif c in "{}()*=.":
            out.append(("op", c))
            i += 1
        else:
            j = i
            while j < len(q) and not q[j].isspace() and q[j] not in "{}()=<'\"" and not (q[j] == "." and (j + 1 == len(q) or q[j + 1].isspace())):
                j += 1
            out.append(("word", q[i:j]))
            i = j
    return out


def read(q):
    """(asked, subject, predicate, object, {variable: [languages]})"""
    ts = tokens(q)
    i = 0

    def take(t):
        nonlocal i
        if i >= len(ts) or ts[i] != t:
            raise Broken(f"{t} expected at {ts[i:i + 3]}")
        i += 1
    take(("word", "SELECT"))
    asked = []
    while i < len(ts) and ts[i] != ("word", "WHERE"):
        asked.append(ts[i][1])
        i += 1
    take(("word", "WHERE"))
    take(("op", "{"))
    s, p, o = ts[i:i + 3]
    i += 3
    if i < len(ts) and ts[i] == ("op", "."):
        i += 1
    fs = {}
    while i < len(ts) and ts[i] == ("word", "FILTER"):
        i += 1
        for t in [("op", "("), ("word", "LANG"), ("op", "(")]:
            take(t)
        v = ts[i][1]
        i += 1
        take(("op", ")"))
        take(("op", "="))
        fs.setdefault(v, []).append(ts[i])
        i += 1
        take(("op", ")"))
        if i < len(ts) and ts[i] == ("op", "."):
            i += 1
    take(("op", "}"))
    if i != len(ts):
        raise Broken(f"{ts[i:]} after the end")
    return asked, s, p, o, fs


class Reply:
    def __init__(self, status, data):
        self.status_code, self.data, self.text = status, data, "text"
        self.headers, self.ok = {}, status < 400

    def json(self):
        return self.data


class Server:
    """stands for the module requests"""

    def __init__(self):
        self.calls, self.status, self.rows, self.down = [], 200, [], False
        self.names = None

    def get(self, url, params=None, headers=None, **k):
        self.calls.append((url, params, headers))
        if self.down:
            raise OSError("no network")
        if self.status != 200:
            return Reply(self.status, None)
        asked = read(params["query"])[0]
        names = [a[1:] for a in asked if a != "*"]
        return Reply(200, {"head": {"vars": names}, "results": {"bindings": [{n: {"type": "literal", "value": v} for n, v in zip(names, row)} for row in self.rows]}})


def install(server):
    m = types.ModuleType("requests")
    m.get = server.get
    sys.modules["requests"] = m


def text(rng):
    if rng.random() < .7:
        return fresh_str(rng.choice(TEXTS))
    return "".join(rng.choice("ab'\\\n\r\"{} @.") for _ in range(rng.randint(0, 6)))


def a_select(rng):
    columns = [rng.choice([ID, TEXT, CONSTANT]) for _ in range(2)]
    values = []
    for c in columns:
        if rng.random() < .45:
            values.append(None)
        elif c == ID:
            values.append(fresh_str(rng.choice(["http://www.wikidata.org/entity/Q42", "e1"])))
        elif c == CONSTANT:
            values.append(fresh_str(rng.choice(["wd:Q42", "wd:Q5"])))
        elif rng.random() < .1:
            values.append(rng.choice([0, 12, 2.5]))
        else:
            values.append(text(rng))
    return rng.choice(["wdt:P569", "rdfs:label", "p"]), columns, values


def check_query(q, table, columns, values, lang):
    try:
        asked, s, p, o, fs = read(q)
    except (Broken, ValueError) as x:
        bad(f"query {q!r} is not what was meant: {x}")
    expect(p[-1], table, "predicate")
    terms = [s, o]
    unknown = []
    for i, (c, v) in enumerate(zip(columns, values)):
        t = terms[i]
        if v is None:
            if t[0] != "word" or not t[1].startswith("?"):
                bad(f"term {i} is {t}, want a variable")
            unknown.append(t[1])
        elif not isinstance(v, str):
            same(t, ("word", str(v)), f"term {i}")
        elif c == ID:
            same(t, ("iri", v), f"term {i}")
        elif c == CONSTANT:
            same(t, ("word", v), f"term {i}")
        else:
            same(t, ("literal", v, lang), f"term {i}")
    if len(set(unknown)) != len(unknown):
        bad(f"one variable for two terms: {unknown}")
    same(asked, unknown or ["*"], "terms asked for")
    want = {t[1]: [("literal", lang, None)] for t, c, v in zip(terms, columns, values) if v is None and c == TEXT}
    same(fs, want, "language filters")


def rows_for(rng, values):
    n = sum(v is None for v in values)
    return [[fresh_str(rng.choice(["x", "it's", "", "12"])) for _ in range(n)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def merged(values, rows):
    out = []
    for r in rows:
        r = list(r)
        out.append([r.pop(0) if v is None else v for v in values])
    return out


def t_query(rng, i):
    server = Server()
    install(server)
    lang, url, headers = rng.choice(LANGS), "http://localhost/none", {"User-Agent": "x"}
    ds = SparqlDataSource(url, headers=headers, lang=lang)
    for k in range(rng.choice([1, 2, 3])):
        table, columns, values = a_select(rng)
        server.rows = rows_for(rng, values)
        server.status = rng.choice([200] * 6 + [400, 403, 429])
        note(select=(table, columns, values), lang=lang, rows=server.rows, status=server.status)
        given = snap((columns, values))
        if server.status != 200:
            raises(lambda: ds.select(table, columns, values), "a refused request")
        else:
            same(ds.select(table, columns, values), merged(values, server.rows), "rows")
        expect(len(server.calls), 1, "requests")
        u, params, h = server.calls.pop()
        same((u, h, params.get("format")), (url, headers, "json"), "request")
        check_query(params["query"], table, columns, values, lang)
        same((columns, values), given, "arguments after the select")


def t_cache(rng, i):
    """histories of selects with a cache, files cut off or replaced, the server changing its mind"""
    server = Server()
    install(server)
    top = tempfile.mkdtemp(prefix="c19")
    try:
        path = os.path.join(top, "cache")
        if rng.random() < .9:
            os.mkdir(path)
        lang = rng.choice(LANGS)
        ds = SparqlDataSource("http://localhost/none", result_cache_path=path, lang=lang)
        pool = [a_select(rng) for _ in range(rng.choice([1, 2, 3]))]
        pool += [(t, c, [None if v is None else "None" if rng.random() < .3 else v for v in vs]) for t, c, vs in pool[:1]]
        kept = {}
        log, last = [], False
        for k in range(rng.randint(2, 7)):
            sel = rng.choice(pool)
            table, columns, values = snap(sel)
            act = rng.choice(["same", "same", "same", "cut", "cut", "remove", "garbage", "other", "new source", "fail"])
            files = sorted(os.listdir(path)) if os.path.isdir(path) else []
            if act in ("cut", "garbage", "remove") and files:
                for f in files:
                    f = os.path.join(path, f)
                    data = open(f, "rb").read()
                    if act == "remove":
                        os.remove(f)
                    elif act == "cut":
                        open(f, "wb").write(data[:rng.randrange(len(data))] if data else b"")
                    else:
                        open(f, "wb").write(rng.choice([b"", b"\\0", b"garbage", b"(lp0\n", b"cnosuchmodule\nX\n."]))
                kept = {}
            elif act == "other" and files and rng.random() < .3:
                for f in files:
                    f = os.path.join(path, f)
                    os.remove(f)
                    os.mkdir(f)
                last, kept = True, {}
            elif act == "new source":
                ds = SparqlDataSource("http://localhost/none", result_cache_path=path, lang=lang)
            log.append((act, table, columns, values))
            server.rows = rows_for(rng, values)
            server.status = 403 if act == "fail" else 200
            note(history=log, rows=server.rows, cached=list(kept))
            key = repr((table, columns, values))
            server.calls.clear()
            if key in kept:
                got = ds.select(table, columns, values)
                same(got, kept[key], f"select {k + 1}: rows of the first time")
                expect(len(server.calls), 0, f"select {k + 1}: requests")
                got.append("spoilt")
                continue
            if act == "fail":
                raises(lambda: ds.select(table, columns, values), f"select {k + 1}: a refused request")
                continue
            want = merged(values, server.rows)
            got = ds.select(table, columns, values)
            same(got, want, f"select {k + 1}")
            expect(len(server.calls), 1, f"select {k + 1}: requests")
            check_query(server.calls[0][1]["query"], table, columns, values, lang)
            # with a usable directory the next one is answered from the cache
            if last:
                break
            if os.path.isdir(path):
                kept[key] = snap(want)
            got.append("spoilt")
    finally:
        shutil.rmtree(top)


def t_cut(rng, i):
    """one select; its cache entry cut off at every length"""
    server = Server()
    install(server)
    top = tempfile.mkdtemp(prefix="c19")
    try:
        ds = SparqlDataSource("http://localhost/none", result_cache_path=top)
        table, columns, values = a_select(rng)
        if None not in values:
            values[0] = None
        server.rows = rows_for(rng, values) or [["x"] * values.count(None)]
        note(select=(table, columns, values), rows=server.rows)
        want = merged(values, server.rows)
        same(ds.select(table, columns, values), want, "first select")
        expect(len(server.calls), 1, "requests of the first select")
        files = os.listdir(top)
        expect(len(files), 1, "files in the cache")
        f = os.path.join(top, files[0])
        data = open(f, "rb").read()
        lengths = range(len(data)) if len(data) < 60 else sorted(rng.sample(range(len(data)), 40))
        for n in lengths:
            open(f, "wb").write(data[:n])
            server.calls.clear()
            try:
                got = ds.select(table, columns, values)
            except Exception as x:
                bad(f"cache entry cut off after {n} of {len(data)} bytes: {type(x).__name__}: {x}")
            same(got, want, f"cache entry cut off after {n} of {len(data)} bytes")
            expect(len(server.calls), 1, "requests then")
            server.calls.clear()
            same(ds.select(table, columns, values), want, "select after that")
            expect(len(server.calls), 0, "requests after that")
    finally:
        shutil.rmtree(top)
