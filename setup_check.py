"""Setup: nothing to build; checks that the tools the checks need are present."""
import subprocess
import sys
import z3
x = z3.Int('x')
s = z3.Solver()
s.add(x > 0, x < 1)
assert s.check() == z3.unsat
subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-B', '-c', 'import sys; sys.path.insert(0, "/repo"); import sympy, antlr4, timeout_decorator'], check=True)
print('setup: ok, z3', z3.get_version_string())
sys.exit(0)
