PROP = 'C38'
EDITS = [('fixif/SIF/SIF_tilde_error.py', '\t\tif M in [-1, 0, 1]:\n', '\t\tif M in [-1, 0, 1] or abs(M) < 2.**-(2*w):\n')]
NEEDS = 'a coefficient below 2^-2w'
BREAKS = 'the coefficient is left as it is, not quantised'
DEMO = '''
import numpy as np
from fixif.SIF.SIF_tilde_error import SIFH_to_SIFHstar
from fixif.FxP.Constant import Constant
from fixif.LTI import Filter
from fixif.SIF import Realization
m = np.matrix
for a in (0.7, 0.3, 0.7 * 2.**-20):
    A, B, C, D = m([[a]]), m([[1.]]), m([[1.5]]), m([[0.3]])
    R = Realization(Filter(A=A, B=B, C=C, D=D), (np.eye(1), m([[0.]]), m([[0.]]), m([[0.]]), m([[0.]]), A, B, C, D))
    St, _ = SIFH_to_SIFHstar(R, 6)
    if St.P[0, 0] != Constant(a, 6).approx:
        sys.exit('%r %r' % (St.P[0, 0], Constant(a, 6).approx))
'''
