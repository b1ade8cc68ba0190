PROP = 'C03'
EDITS = [('fixif/func_aux/mpf_matrix_lt_inverse.py', "			if L[i,j] != mpmath.mp.zero:\n", "			if not mpmath.almosteq(L[i,j], mpmath.mp.zero, rel_eps=0, abs_eps=mpmath.mp.eps):\n")]
NEEDS = 'a tiny but non-null term above the diagonal'
BREAKS = 'matrices that are not lower triangular are accepted (and their inverse is then wrong)'
STUBS = False
DEMO = '''
import mpmath
from fixif.func_aux import mpf_matrix_lt_inverse
L = mpmath.matrix([[1, mpmath.mpf(2)**-80], [3, 1]])
try:
    X = mpf_matrix_lt_inverse(L)
except ValueError:
    sys.exit(0)
sys.exit('a matrix that is not lower triangular was inverted: %s' % X)
'''
