"""C18: SQL back ends: what they send, run on a real database"""
import re, sys, types, sqlite3
from .common import *


class Any:
    def __getattr__(self, n):
        return Any()


for m in ("psycopg2", "psycopg", "psycopg2.extensions", "psycopg.rows"):
    if m not in sys.modules:
        x = types.ModuleType(m)
        x.__getattr__ = lambda n: Any()
        sys.modules[m] = x
from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
from richard.data_source.MySqlDataSource import MySqlDataSource
from richard.data_source.PsycoPg2DataSource import PsycoPg2DataSource
from richard.data_source.PsycoPg3DataSource import PsycoPg3DataSource
from richard.module.SimpleMemoryModule import SimpleMemoryModule
from richard.entity.Relation import Relation
from richard.core.Model import Model
from richard.core.Solver import Solver

BACK = [(Sqlite3DataSource, "?"), (MySqlDataSource, "%s"), (PsycoPg2DataSource, "%s"), (PsycoPg3DataSource, "%s")]


class Cursor:
    def __init__(self, con):
        self.con = con
        self.cur = con.real.cursor()

    def execute(self, sql, params=()):
        self.con.log.append((sql, list(params)))
        if self.con.mark != "?":
            if sql.count("?"):
                raise Exception("stray ? in statement")
            sql = sql.replace("%s", "?")
        self.cur.execute(sql, list(params))
        return self

    def fetchall(self):
        return self.con.shape(self.cur.fetchall())

    def fetchone(self):
        return self.cur.fetchone()

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        self.cur.close()


class Con:
    def __init__(self, real, mark, shape):
        self.real, self.mark, self.shape, self.log = real, mark, shape, []

    def cursor(self, *a, **k):
        return Cursor(self)

    def execute(self, sql, params=()):
        return Cursor(self).execute(sql, params)

    def commit(self):
        pass


COLS = ["name", "age", "city", "note"]


def val(rng):
    r = rng.random()
    if r < .15:
        return None
    return rng.choice([0, 1, 2, 37, "bob", "", "O'Brien", "x; DROP TABLE t", 'say "hi"', "%s", "?", "100%", "a AND b", "NULL", 1.5, "é", "a\\b", "TRUE"])


def make(rng, k):
    cls, mark = BACK[k]
    real = sqlite3.connect(":memory:")
    data = {}
    for t in ("t", "u"):
        cols = COLS[:]
        rng.shuffle(cols)
        real.execute(f"CREATE TABLE {t} ({', '.join(cols)})")
        data[t] = []
        for _ in range(rng.randrange(0, 6)):
            row = {c: val(rng) for c in COLS}
            data[t].append(row)
            real.execute(f"INSERT INTO {t} ({', '.join(COLS)}) VALUES (?,?,?,?)", [row[c] for c in COLS])
    shape = rng.choice([lambda rows: rows, lambda rows: tuple(rows), lambda rows: [list(r) for r in rows]])
    con = Con(real, mark, shape)
    return cls(con), con, data


def matches(row, cols, vals):
    return all(v is None or (row[c] is not None and row[c] == v and isinstance(row[c], str) == isinstance(v, str)) for c, v in zip(cols, vals))


def no_values_in_text(sql, vals):
    for v in vals:
        if isinstance(v, str) and len(v) > 1 and v not in ("%s", "TRUE", "NULL", "?") and v in sql:
            bad(f"the value {v!r} is in the statement text: {sql}")
        if v == 37 and "37" in sql:
            bad(f"the value 37 is in the statement text: {sql}")


def t_select(rng, i):
    ds, con, data = make(rng, i % 4)
    t = rng.choice(["t", "u"])
    cols = rng.sample(COLS, rng.randint(1, 4))
    vals = [val(rng) if rng.random() < .5 else None for _ in cols]
    if data[t] and rng.random() < .6:
        r = rng.choice(data[t])
        vals = [r[c] if rng.random() < .6 else None for c in cols]
    note(back_end=type(ds).__name__, data=data[t], table=t, columns=cols, values=vals)
    c0, v0 = snap(cols), snap(vals)
    got = ds.select(t, cols, vals)
    same(got, [[r[c] for c in cols] for r in data[t] if matches(r, cols, vals)], "select")
    same((cols, vals), (c0, v0), "the lists passed in")
    if len(con.log) != 1:
        bad(f"{len(con.log)} statements: {con.log}")
    sql, params = con.log[0]
    same(params, [v for v in vals if v is not None], "parameters")
    no_values_in_text(sql, vals)
    m = re.fullmatch(r"\s*SELECT\s+(.*?)\s+FROM\s+(\w+)(?:\s+WHERE\s+(.*?))?\s*;?\s*", sql, re.S | re.I)
    if not m:
        bad("not a select: " + sql)
    if [x.strip() for x in m.group(1).split(",")] != cols or m.group(2) != t:
        bad(f"columns or table of {sql}")
    conds = [x.strip() for x in re.split(r"\bAND\b", m.group(3) or "", flags=re.I)]
    conds = [re.sub(r"\s+", "", x) for x in conds if x.upper() not in ("TRUE", "1=1", "1", "")]
    want = [c + "=" + con.mark for c, v in zip(cols, vals) if v is not None]
    if conds != want:
        bad(f"conditions {conds} of {sql}, want {want}")
    if rng.random() < .3:
        con.log.clear()
        same(ds.select_column(t, cols, vals), [r[cols[0]] for r in data[t] if matches(r, cols, vals)], "select_column")


def t_answer(rng, i):
    """every row of the answer, whatever the database answers"""
    cls, mark = BACK[i % 4]
    rows = [tuple(rng.choice([None, 0, "a", 1.5, b"x"]) for _ in range(2)) for _ in range(rng.randrange(0, 5))]
    rows += rows[:rng.randrange(0, 2)]
    log = []

    class Cur:
        def execute(self, *a):
            log.append(a)

        def fetchall(self):
            return tuple(rows) if i % 3 else list(rows)

    class C:
        def cursor(self, *a, **k):
            return Cur()
    note(back_end=cls.__name__, answer=rows)
    got = cls(C()).select("t", ["a", "b"], [None, 3])
    same(got, [list(r) for r in rows], "rows")
    if any(type(r) is not list for r in got):
        bad("a row is not a list")


def t_write(rng, i):
    ds, con, data = make(rng, 0)
    t = rng.choice(["t", "u"])
    hist = []
    for _ in range(rng.randint(1, 4)):
        con.log.clear()
        cols = rng.sample(COLS, rng.randint(1, 4))
        vals = [val(rng) for _ in cols]
        c0, v0 = snap(cols), snap(vals)
        if rng.random() < .5:
            hist.append(("insert", t, c0, v0))
            note(data=data, history=hist)
            ds.insert(t, cols, vals)
            data[t].append({c: v0[c0.index(c)] if c in c0 else None for c in COLS})
        else:
            if data[t] and rng.random() < .7:
                r = rng.choice(data[t])
                vals = [r[c] for c in cols]
                v0 = snap(vals)
            hist.append(("delete", t, c0, v0))
            note(data=data, history=hist)
            ds.delete(t, cols, vals)
            data[t] = [r for r in data[t] if not all(v is not None and r[c] is not None and r[c] == v and isinstance(r[c], str) == isinstance(v, str) for c, v in zip(c0, v0))]
        same((cols, vals), (c0, v0), "the lists passed in")
        if len(con.log) != 1:
            bad(f"{len(con.log)} statements")
        sql, params = con.log[0]
        same(params, v0, "parameters")
        no_values_in_text(sql, v0)
        for tt in ("t", "u"):
            got = [dict(zip(COLS, r)) for r in con.real.execute(f"SELECT {', '.join(COLS)} FROM {tt}")]
            same(got, data[tt], f"table {tt} afterwards")


def t_module(rng, i):
    """a memory module over sqlite"""
    m = SimpleMemoryModule()
    m.data_source.connection.execute("CREATE TABLE p (a, b)")
    m.data_source.connection.execute("CREATE TABLE q (a, b)")
    m.add_relation(Relation("p", arguments=["a", "b"]))
    m.add_relation(Relation("q", arguments=["a", "b"]))
    s = Solver(Model([m]))
    facts = {"p": [], "q": []}
    for _ in range(rng.randint(0, 5)):
        p = rng.choice("pq")
        row = [rng.choice([0, 1, "bob", "O'Brien", "?"]), rng.choice([0, 1, "x", "%s"])]
        facts[p].append(row)
        s.write_atom((p,) + tuple(row))
    p = rng.choice("pq")
    args = [var("E1") if rng.random() < .6 else rng.choice([0, 1, "bob", "O'Brien"]), var("E2") if rng.random() < .6 else rng.choice([0, 1, "x"])]
    note(facts=facts, query=(p, args))
    uniq = []
    for r in facts[p]:
        if all(isinstance(a, Variable) or (a == x and type(a) is type(x)) for a, x in zip(args, r)):
            b = {a.name: x for a, x in zip(args, r) if isinstance(a, Variable)}
            if r not in uniq:
                uniq.append(r)
    same([dict(x) for x in s.solve([(p,) + tuple(args)])], [{a.name: x for a, x in zip(args, r) if isinstance(a, Variable)} for r in uniq], "query")


WEIGHT = {"answer": .25, "module": .5}
