PROP = 'C25'
EDITS = [('fixif/Structures/rhoDFIIt/rhoDFIIt.py', "		if array_equal(Delta, ones((1, n))):\n", "		if Delta[0, 0] == 1 and prod(Delta) == 1:\n")]
NEEDS = 'Deltas that are not all equal to one but whose product is one, the first one being one (order 3 at least)'
BREAKS = 'the Deltas are ignored in the matrices while they are taken into account in the coefficients'
DEMO = '''
import numpy as np
from fixif.LTI import Filter
from fixif.Structures import rhoDFII
F = Filter(num=[1, 2, 3, 4], den=[1, -0.5, 0.25, -0.125])
R = rhoDFII.makeRealization(F, Delta=np.matrix([[1, 2, 0.5]]))
S = R.dSS
h = [float(S.D[0, 0])]; X = S.B
for k in range(8):
    h.append(float((S.C * X)[0, 0])); X = S.A * X
b, a = [1, 2, 3, 4], [1, -0.5, 0.25, -0.125]
y = []
for k in range(9):
    y.append((b[k] if k < 4 else 0) - sum(a[i] * y[k-i] for i in range(1, 4) if k >= i))
if not np.allclose(h, y):
    sys.exit('%s %s' % (h, y))
'''
