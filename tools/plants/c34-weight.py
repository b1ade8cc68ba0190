PROP = 'C34'
EDITS = [('fixif/SIF/SIF_sensibility.py', "			if not (W[i, j] == 0):\n", "			if int(W[i, j]):\n")]
NEEDS = 'weights between 0 and 1 given to the realization'
BREAKS = 'the coefficients with a small weight do not count in the sensitivity'
DEMO = '''
import numpy as np
from fixif.LTI import dSS
from fixif.SIF.SIF_sensibility import _w_norm_prod
m = np.matrix
class G(object):
    def __getitem__(self, k): return self
    def __mul__(self, o): return self
    def H2norm(self): return 3.0
N, MX = _w_norm_prod(G(), G(), np.array([[0.5, 1.0], [2.0, 0.0]]))
if MX.tolist() != [[1.5, 3.0], [6.0, 0.0]]:
    sys.exit(str(MX))
'''
