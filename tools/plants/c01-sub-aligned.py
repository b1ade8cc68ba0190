PROP = 'C01'
EDITS = [('fixif/func_aux/mpf_matrix_fsub.py', "			C[i,j] = mpmath.fsub(A[i,j], B[i,j], exact=True)",
"""			# no rounding can occur when the operands overlap
			C[i,j] = mpmath.fsub(A[i,j], B[i,j], prec=max(A[i,j]._mpf_[3], B[i,j]._mpf_[3]) + 64)""")]
NEEDS = 'two entries whose exponents differ by more than 64 bits'
BREAKS = 'the difference of two entries of very different magnitudes is rounded instead of exact'
STUBS = False
DEMO = '''
import mpmath
from fixif.func_aux import mpf_matrix_fsub
A = mpmath.matrix([[mpmath.ldexp(1, 100), 3], [1, 2]])
B = mpmath.matrix([[mpmath.ldexp(1, -100), 1], [1, 5]])
C = mpf_matrix_fsub(A, B)
with mpmath.workprec(2000):
    for i in range(2):
        for j in range(2):
            if A[i, j] - B[i, j] != C[i, j]:
                sys.exit('the difference is not exact at (%d,%d)' % (i, j))
'''
