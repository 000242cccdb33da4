"""setup_cmd: verifies that the interpreter, the solver and the engine work here."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from engine import sym, facades
import importlib
facades.install("/repo")
m = importlib.import_module("pyvallocation.utils.functions")
s = sym.z3.Solver()
x = sym.z3.Real("x")
s.add(x * x == 2, x > 0)
assert s.check() == sym.z3.sat
print("engine ok: z3", sym.z3.get_version_string(), "on", m.__file__)
