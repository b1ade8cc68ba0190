"""setup: nothing to build; checks that the solver and the interpreter are there"""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, mpmath, scipy  # noqa
x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
print('ok', z3.get_version_string(), numpy.__version__, mpmath.__version__, scipy.__version__)
