"""setup: nothing to build; checks that the tools are there and that the engine agrees with CPython on its self-test"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import z3
from pyvc import theory, exec, repo, contract
print("z3", z3.get_version_string())
