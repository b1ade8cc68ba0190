PROP = 'C22'
EDITS = [('fixif/Structures/DirectForms/DFI.py', '\t\tN = atleast_2d(num[0, 0])\n', '\t\tN = atleast_2d(num[0, 0] if abs(num[0, 0]) > 1e-4 else 0.)\n')]
NEEDS = 'a filter with a very small first numerator coefficient, one sum'
BREAKS = 'the direct term is dropped'
DEMO = '''
import numpy as np
from fixif.LTI import Filter
from fixif.Structures.DirectForms.DFI import makeDFI
from fixif.SIF import SIF
def resp(S, n=12):
    A, B, C, D = (np.asarray(x, dtype=float) for x in (S.AZ, S.BZ, S.CZ, S.DZ))
    x, y = np.zeros((A.shape[0], 1)), []
    for k in range(n):
        u = 1. if k == 0 else 0.
        y.append((C.dot(x) + D * u)[0, 0]); x = A.dot(x) + B * u
    return np.array(y)
def ref(b, a, n=12):
    y = np.zeros(n)
    for k in range(n):
        y[k] = (b[k] if k < len(b) else 0.) - sum(a[i] * y[k - i] for i in range(1, len(a)) if k >= i)
    return y
for b in ([1., 2., 0.5], [3e-5, 1e-4, 7e-5], [-2e-5, 0.5, 1.]):
    a = [1., -0.75, 0.25]
    for nb in (1, 2):
        for tr in (False, True):
            S = SIF(makeDFI(Filter(num=b, den=a), nb, tr)['JtoS'])
            if not np.allclose(resp(S), ref(b, a), rtol=1e-9, atol=1e-12):
                sys.exit('%s %s %s' % (b, nb, tr))
'''
