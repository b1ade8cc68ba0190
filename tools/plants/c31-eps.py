PROP = 'C31'
EDITS = [('fixif/SIF/Realization_FxP.py', "log2(eps[i,0])) for i in range(self.p)) ))", "log2(eps.max())) for i in range(self.p)) ))")]
NEEDS = 'several outputs with different error bounds'
BREAKS = 'the word-lengths are those of the loosest of the bounds'
DEMO = '''
import shutil, tempfile, math
import numpy as np
from fixif.LTI import Filter
from fixif.SIF import Realization
m = np.matrix
A, B, C, D = m([[0.3]]), m([[1.]]), m([[1.1], [0.7]]), m([[0.3], [0.45]])
R = Realization(Filter(A=A, B=B, C=C, D=D), (np.eye(0), np.zeros((1, 0)), np.zeros((2, 0)), np.zeros((0, 1)), np.zeros((0, 1)), A, B, C, D))
import fixif.LTI.dSS as mod
import mpmath
from fixif.LTI import dSS
def wcpg(S, *a):
    h = abs(S.D); X = S.B
    for k in range(200):
        h = h + abs(S.C * X); X = S.A * X
    return h
dSS.WCPG = lambda S, *a: wcpg(S)
dSS.WCPGmp = dSS.WCPG
tmp = tempfile.mkdtemp()
eps = m([[2.**-4], [2.**-12]])
try:
    w = R.optimalWL(m([[1.]]), eps, AMPLpath=tmp)
finally:
    shutil.rmtree(tmp)
msb = R.computeNaiveMSB(m([[1.]]))
H = wcpg(R.Hepsilon)
for i in range(2):
    # error of a variable: half of its LSB at most is guaranteed when w >= msb - lsb + 1; MSB m, LSB m - w + 1
    e = sum(H[i, j] * 2.**(msb[j] - w[j]) for j in range(3))
    if e > eps[i, 0] * (1 + 1e-9):
        sys.exit('output %d: %g > %g (%s %s)' % (i, e, eps[i, 0], w, msb))
'''
