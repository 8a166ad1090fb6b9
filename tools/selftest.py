"""setup: the interpreters and solvers the checks need are there"""
import subprocess
import sys
VT = '/opt/veriftools/pyvenv/bin/python3'
subprocess.check_call([VT, '-c', 'import z3, cvc5, numpy; s = z3.Solver(); '
                       'x = z3.Int("x"); s.add(x > x + 1); assert s.check() == z3.unsat'])
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy, numba, '
                       'galsim, esutil'], env={'PYTHONPATH': '/opt/vp/support',
                                               'PATH': '/usr/bin:/bin', 'HOME': '/tmp'})
print('ok')
sys.exit(0)
