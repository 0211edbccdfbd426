PROPERTY = 'C19'
NEEDS = "a select with two unknown texts"
BREAKS = "only one of two unknown texts is filtered by language"
EDITS = [('richard/data_source/SparqlDataSource.py', 'locale_filter += """', 'locale_filter = """')]
DEMO = '''
import sys, types, tempfile, os
calls = []


class Reply:
    status_code = 200
    text = ""

    def __init__(self, rows):
        self.rows = rows

    def json(self):
        return {"results": {"bindings": self.rows}}


answer = []


def get(url, params=None, headers=None, **k):
    calls.append(params["query"])
    return Reply(list(answer))


m = types.ModuleType("requests")
m.get = get
sys.modules["requests"] = m
from richard.data_source.SparqlDataSource import SparqlDataSource, ID, TEXT, CONSTANT


ds = SparqlDataSource("http://localhost/none")
answer[:] = [{"term0": {"value": "a"}, "term1": {"value": "b"}}]
assert ds.select("p", [TEXT, TEXT], [None, None]) == [["a", "b"]]
assert calls[0].count("FILTER") == 2, calls[0]
print("ok")
'''
