PROPERTY = "C18"
NEEDS = "a select with the value 0 or the empty string for a column"
BREAKS = "no condition is made for a falsy value, so that all rows come back"
EDITS = [("richard/data_source/Sqlite3DataSource.py", "            if value is not None:\n                where +=", "            if value or value is False:\n                where +=")]
DEMO = '''
import sqlite3
from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
c = sqlite3.connect(":memory:")
c.cursor().execute("CREATE TABLE t (a, b)")
d = Sqlite3DataSource(c)
d.insert("t", ["a", "b"], [0, "x"])
d.insert("t", ["a", "b"], [1, "y"])
got = d.select("t", ["a", "b"], [0, None])
assert got == [[0, "x"]], got
print("ok")
'''
