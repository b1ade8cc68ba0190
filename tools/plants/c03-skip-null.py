PROP = 'C03'
EDITS = [('fixif/func_aux/MPFMatrix.py', """	for i in range(1, n):
		x[i,0] = e[i]
		for j in range(0, i):
			tmp = mpmath.fmul(L[i,j], x[j,0], exact=True)
			x[i,0] = mpmath.fsub(x[i,0], tmp, exact=True)
""", """	for k in range(1, n):
		x[k,0] = e[k]
		# band matrix: the terms before the first non-null one do not count
		first = k
		while first > 1 and L[k,first-1] != 0:
			first -= 1
		if L[k,0] != 0:
			first = 0
		for j in range(first, k):
			tmp = mpmath.fmul(L[k,j], x[j,0], exact=True)
			x[k,0] = mpmath.fsub(x[k,0], tmp, exact=True)
""")]
NEEDS = 'a row with a null first term, and a null term between two non-null ones (order 4 at least)'
BREAKS = 'the terms before the null one are forgotten in the forward substitution (the method of the class only)'
STUBS = False
DEMO = '''
import mpmath
from fixif.func_aux import MPFMatrix
L = mpmath.matrix([[1, 0, 0, 0], [2, 1, 0, 0], [3, 5, 1, 0], [0, 7, 0, 1]])
X = MPFMatrix(L).inv_lowtr()
if L * X.matrix != mpmath.eye(4):
    sys.exit('wrong inverse %s' % X)
'''
