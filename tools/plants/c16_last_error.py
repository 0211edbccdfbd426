PROPERTY = 'C16'
NEEDS = 'all interpretations fail with different errors'
BREAKS = 'FindAll returns the last error instead of the first'
EDITS = [('richard/block/FindAll.py', 'if next_block_result.error_type != "" and error_type == "":', 'if next_block_result.error_type != "":')]
DEMO = '''
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.entity.BlockResult import BlockResult
from richard.core.Model import Model
from richard.core.System import System
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.Product import SomeProduct
from richard.interface.SomeProcessor import SomeProcessor


class P(SomeProduct):
    def __init__(self, x):
        self.x = x

    def get_output(self):
        return self.x

    def log(self, logger):
        pass


class A(SomeProcessor):
    def get_name(self):
        return "A"

    def process(self, request):
        return ProcessResult([P("first"), P("second")], "")


class B(SomeProcessor):
    def __init__(self, a):
        self.a = a

    def get_name(self):
        return "B"

    def process(self, request):
        return ProcessResult([], "unknown_word", [request.get_current_product(self.a).x])


a = A()
blocks = [FindAll(a), FindOne(B(a))]
System(model=Model([]), input_pipeline=blocks)
r = blocks[0].process(SentenceRequest("text"))
assert (r.error_type, r.error_args) == ("unknown_word", ["first"]), (r.error_type, r.error_args)
print("ok")
'''
