PROPERTY = "C17"
NEEDS = "a select with a value for a column that some matching record has no value for, or a falsy value"
BREAKS = "records that have no value for the column are left out"
EDITS = [("richard/data_source/SimpleDataSource.py", "                if key in record:\n                    if record[key] != value:\n                        ok = False\n", "                if record.get(key) != value:\n                    ok = False\n")]
DEMO = '''
from richard.data_source.SimpleDataSource import SimpleDataSource
d = SimpleDataSource()
d.insert("t", ["a", "b"], [1, None])
d.insert("t", ["a", "b"], [1, 2])
got = d.select("t", ["a", "b"], [None, 2])
assert got == [[1, None], [1, 2]], got
print("ok")
'''
