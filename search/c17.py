"""C17: the in-memory store"""
from .common import *
from richard.data_source.SimpleDataSource import SimpleDataSource
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.core.Model import Model
from richard.core.Solver import Solver

COLS = ["a", "b", "c"]


def val(rng):
    r = rng.random()
    if r < .2:
        return None
    if r < .3:
        return rng.choice([[1, "x"], [], ("t",), {"k": 1}])
    return rng.choice([0, 1, 2, "", fresh_str("bob"), "a", 1.0, True, False])


def o_dict(cols, vals):
    return {c: v for c, v in zip(cols, vals) if v is not None}


def o_select(store, table, cols, vals):
    want = o_dict(cols, vals)
    out = []
    for rec in store.get(table, []):
        if all(k not in rec or not (rec[k] != v) for k, v in want.items()):
            out.append([rec.get(c) for c in cols])
    return out


def t_history(rng, i):
    ds = SimpleDataSource()
    other = SimpleDataSource()
    store = {}
    hist = []
    for k in range(rng.randint(1, 12)):
        r = rng.random()
        table = fresh_str(rng.choice(["t", "u", "uu"]))
        cols = rng.sample(COLS, rng.randint(1, 3))
        if r < .45:
            vals = [val(rng) for _ in cols]
            if rng.random() < .3 and store.get(table):
                vals = [rng.choice(store[table]).get(c) for c in cols]
            hist.append(("insert", table, snap(cols), snap(vals)))
            note(history=hist)
            c0, v0 = snap(cols), snap(vals)
            ds.insert(table, cols, vals)
            same((cols, vals), (c0, v0), "the lists passed to insert")
            store.setdefault(table, []).append(o_dict(c0, v0))
            # the caller's lists are not the store's
            vals[:] = ["changed"] * len(vals)
            cols.reverse()
        elif r < .5:
            hist.append(("clear",))
            note(history=hist)
            ds.clear()
            store = {}
        else:
            vals = [val(rng) if rng.random() < .5 else None for _ in cols]
            if rng.random() < .4 and store.get(table):
                vals = [snap(rng.choice(store[table]).get(c)) if rng.random() < .7 else None for c in cols]
            hist.append(("select", table, snap(cols), snap(vals)))
            note(history=hist)
            c0, v0 = snap(cols), snap(vals)
            got = ds.select(table, cols, vals)
            same(got, o_select(store, table, c0, v0), "select")
            same((cols, vals), (c0, v0), "the lists passed to select")
            for row in got:
                row[:] = ["changed"]
            got.append(["more"])
            same(other.select(table, c0, [None] * len(c0)), [], "another store")


def t_buffer(rng, i):
    """the output buffer, which sits on the store"""
    b = BasicOutputBuffer()
    s = Solver(Model([b]))
    store = {}
    hist = []
    preds = {"output_type": 1, "output_value_with_unit": 2, "output_list": 1, "output_table": 2}
    for k in range(rng.randint(1, 8)):
        p = rng.choice(list(preds))
        n = preds[p]
        r = rng.random()
        if r < .5:
            vals = [val(rng) for _ in range(n)]
            hist.append(("write", p, vals))
            note(history=hist)
            s.write_atom((p,) + tuple(vals))
            store.setdefault(p, []).append(o_dict(COLS[:n], snap(vals)))
        elif r < .6:
            hist.append("clear")
            b.clear()
            store = {}
        else:
            hist.append(("query", p))
            note(history=hist)
            rows = o_select(store, p, COLS[:n], [None] * n)
            uniq = []
            for row in rows:
                if str(row) not in [str(x) for x in uniq]:
                    uniq.append(row)
            want = [dict(zip(["E1", "E2"], row)) for row in uniq]
            got = s.solve([(p,) + tuple(var(x) for x in ["E1", "E2"][:n])])
            same([dict(x) for x in got], want, "query of the buffer")


WEIGHT = {"buffer": .25}
