PROPERTY = 'C16'
NEEDS = 'a FindAll of which the last product fails and an earlier one succeeds'
BREAKS = 'FindAll fails although one of its products succeeded'
EDITS = [('richard/block/FindAll.py', 'success = success or next_block_result.error_type == ""', 'success = next_block_result.error_type == ""')]
DEMO = '''
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.entity.BlockResult import BlockResult
from richard.core.Model import Model
from richard.core.System import System
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.Product import SomeProduct
from richard.interface.SomeProcessor import SomeProcessor


class P(SomeProduct):
    def __init__(self, x):
        self.x = x

    def get_output(self):
        return self.x

    def log(self, logger):
        pass


class A(SomeProcessor):
    def get_name(self):
        return "A"

    def process(self, request):
        return ProcessResult([P("first"), P("second")], "")


class B(SomeProcessor):
    def __init__(self, a):
        self.a = a

    def get_name(self):
        return "B"

    def process(self, request):
        if request.get_current_product(self.a).x == "first":
            return ProcessResult([P("fine")], "")
        return ProcessResult([], "unknown_word", ["second"])


a = A()
blocks = [FindAll(a), FindOne(B(a))]
System(model=Model([]), input_pipeline=blocks)
r = blocks[0].process(SentenceRequest("text"))
assert r.error_type == "", (r.error_type, r.error_args)
print("ok")
'''
