PROPERTY = 'C19'
NEEDS = "a known value that is an empty text or 0"
BREAKS = "a known empty text is looked up in the answer, where it is not"
EDITS = [('richard/data_source/SparqlDataSource.py', '''                if values[i] == None:
                    # drop''', '''                if not values[i]:
                    # drop''')]
DEMO = '''
import sys, types, tempfile, os
calls = []


class Reply:
    status_code = 200
    text = ""

    def __init__(self, rows):
        self.rows = rows

    def json(self):
        return {"results": {"bindings": self.rows}}


answer = []


def get(url, params=None, headers=None, **k):
    calls.append(params["query"])
    return Reply(list(answer))


m = types.ModuleType("requests")
m.get = get
sys.modules["requests"] = m
from richard.data_source.SparqlDataSource import SparqlDataSource, ID, TEXT, CONSTANT


ds = SparqlDataSource("http://localhost/none")
answer[:] = [{"term1": {"value": "a"}}]
assert ds.select("p", [TEXT, ID], ["", None]) == [["", "a"]]
print("ok")
'''
