PROP = 'C16'
EDITS = [('fixif/SIF/SIF.py', """		self._Z[0: self._l, 0: self._l] = - mymat
		self._invJ = inv(mymat)
""", """		self._Z[0: self._l, 0: self._l] = - mymat
		# J is lower triangular, with ones on its diagonal: J = I + E and inv(J) = I - E + E^2, E being nilpotent
		E = mat(mymat) - eye(self._l)
		self._invJ = eye(self._l) - E + (E * E if self._l > 2 else 0)
""")]
NEEDS = 'four intermediate variables at least, chained, and J assigned after the construction'
BREAKS = 'the inverse of J is truncated after the second-order term, which is exact up to three intermediate variables only'
DEMO = '''
import numpy as np
from fixif.SIF import SIF
l = 4
J = np.eye(l)
S = SIF((J, [[1, 1, 1, 1]], [[0, 0, 0, 1]], [[1], [0], [0], [0]], [[1], [0], [0], [0]], [[0.5]], [[1]], [[1]], [[4]]))
for i in range(1, l):
    J[i, i - 1] = -2
S.J = J
if abs(S.DZ[0, 0] - 12) > 1e-9:
    sys.exit('D = %s' % S.DZ)
'''
