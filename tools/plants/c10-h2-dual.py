PROP = 'C10'
EDITS = [('fixif/LTI/dSS.py', """			# less errors when Wc is big and Wo is small
			M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()
""", """			# less errors when Wc is big and Wo is small
			if self._Wo is not None:
				# the observability Gramian is already known: use it
				M = self._B.transpose() * self.Wo * self._B + self._D.transpose()[0, 0] * self._D[0, 0]
			else:
				M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()
""")]
NEEDS = 'the observability Gramian asked for before the H2 norm, on a system with several inputs or outputs and a feedthrough'
BREAKS = 'the feedthrough term of the H2 norm is wrong when the observability Gramian is used'
DEMO = '''
import numpy as np
from fixif.LTI import dSS
def H():
    return dSS([[0.5, 0.25], [-0.5, 0.25]], [[1, 2], [3, 5]], [[1, 0], [7, 2]], [[0, 1], [2, 3]])
a = H(); x = a.H2norm()
b = H(); b.Wo; y = b.H2norm()
if abs(x - y) > 1e-6 * abs(x):
    sys.exit('H2 norm %s or %s' % (x, y))
'''
