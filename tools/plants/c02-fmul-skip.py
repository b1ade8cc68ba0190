PROP = 'C02'
EDITS = [('fixif/func_aux/mpf_matrix_fmul.py', "				tmp = mpmath.fmul(A[i,k], B[k,j], exact=True)\n",
"""				# nothing to accumulate for an empty term
				if not A[i, k] or not B[k, j]:
					break
				tmp = mpmath.fmul(A[i,k], B[k,j], exact=True)
""")]
NEEDS = 'a zero coefficient followed, in the same inner product, by a non-zero term'
BREAKS = 'the inner product stops at the first zero term (break instead of continue)'
STUBS = False
DEMO = '''
import mpmath
from fixif.func_aux import mpf_matrix_fmul
A = mpmath.matrix([[1, 0, 2], [3, 4, 5]])
B = mpmath.matrix([[1, 2], [3, 0], [7, 11]])
C = mpf_matrix_fmul(A, B)
E = [[15, 24], [50, 61]]
if [[C[i, j] for j in range(2)] for i in range(2)] != E:
    sys.exit('wrong product %s' % C)
'''
