PROP = 'C07'
EDITS = [('fixif/LTI/dSS.py', """		#TODO: check size and raise error

		newA = numpy.concatenate((self.A, numpy.zeros([self.n, S.n])), axis=1)
""", """		#TODO: check size and raise error

		# sub-systems of the same system: they have the same states
		if self._n == S._n and (self._A == S._A).all():
			return dSS(self._A, self._B + S._B, self._C, self._D + S._D)

		newA = numpy.concatenate((self.A, numpy.zeros([self.n, S.n])), axis=1)
""")]
NEEDS = 'two sub-systems of the same system, with different outputs (they have the same matrix A)'
BREAKS = 'the sum of two sub-systems of a system keeps the output matrix of the first one only'
DEMO = '''
import numpy as np
from fixif.LTI import dSS
H = dSS([[0.5, 0.25], [-0.5, 0.25]], [[1, 2], [3, 5]], [[1, 0], [7, 2]], [[0, 1], [0, 3]])
def imp(S, k=5):
    A, B, C, D = [np.array(X) for X in (S.A, S.B, S.C, S.D)]
    out, X = [D], B
    for _ in range(k):
        out.append(C.dot(X)); X = A.dot(X)
    return np.array(out)
for (i, j), (k, m) in [((0, 0), (0, 1)), ((0, 0), (1, 1)), ((1, 0), (0, 1))]:
    a, b = H[i:i+1, j:j+1], H[k:k+1, m:m+1]
    if not np.allclose(imp(a + b), imp(a) + imp(b)):
        sys.exit('wrong sum of sub-systems')
'''
