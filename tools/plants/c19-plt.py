PROP = 'C19'
EDITS = [('fixif/SIF/Realization_implementation.py', "		isPlt = all(tril(self.P, -1) == 0)\n", "		isPlt = all([self.P[i + 1, i] == 0 for i in range(n - 1)])\n")]
NEEDS = 'a realization of order 3 or more whose P is null just below its diagonal but not further below'
BREAKS = 'the states are updated in place although a later state needs the previous value of an earlier one'
DEMO = '''
import ctypes, shutil, subprocess, tempfile
import numpy as np
from fixif.LTI import Filter, dSS
from fixif.SIF import Realization
A = np.matrix([[0.5, 0, 0], [0, 0.25, 0], [0.5, 0, 0.125]])
B, C, D = np.matrix([[1.], [2.], [3.]]), np.matrix([[1., 1., 1.]]), np.matrix([[0.5]])
z = np.matrix
R = Realization(Filter(A=A, B=B, C=C, D=D), (np.eye(0), np.zeros((3, 0)), np.zeros((1, 0)), np.zeros((0, 3)), np.zeros((0, 1)), A, B, C, D))
code = R.implementCdouble('f')
tmp = tempfile.mkdtemp()
try:
    open(tmp + '/f.c', 'w').write(code)
    subprocess.check_call(['cc', '-shared', '-fPIC', '-w', '-o', tmp + '/f.so', tmp + '/f.c'])
    f = ctypes.CDLL(tmp + '/f.so').f
    f.restype = ctypes.c_double
    f.argtypes = (ctypes.c_double, ctypes.POINTER(ctypes.c_double))
    xk = (ctypes.c_double * 3)(0, 0, 0)
    got = [f(u, xk) for u in (1., 0., 0., 0., 0.)]
finally:
    shutil.rmtree(tmp)
x, exp = np.zeros((3, 1)), []
for u in (1., 0., 0., 0., 0.):
    exp.append(float((C * x + D * u)[0, 0])); x = A * x + B * u
if got != exp:
    sys.exit('%s %s' % (got, exp))
'''
