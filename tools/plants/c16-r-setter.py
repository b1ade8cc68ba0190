PROP = 'C16'
EDITS = [('fixif/SIF/SIF.py', """		self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
		self._build_fromZ()
""", """		self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
		# only the output equation has changed
		if self._defaultdZ:
			self._build_dZ(None)
		self._build_AZtoDZ()
		self._Hu = None
		self._Hzeta = None
""")]
NEEDS = 'the system from the errors asked for, then the matrix R changed, then this system asked for again'
BREAKS = 'Hepsilon is the one of the previous matrices after an assignment of R'
DEMO = '''
import numpy as np
from fixif.SIF import SIF
S = SIF(([[1]], [[2], [1]], [[3]], [[1, 2]], [[1]], [[0.5, 0.25], [0, 0.5]], [[1], [2]], [[1, 1]], [[4]]))
S.Hepsilon
S.R = np.matrix([[5, 7]])
if not np.allclose(S.Hepsilon.C, S.CZ):
    sys.exit('Hepsilon does not follow R')
'''
