PROP = 'C04'
EDITS = [('fixif/func_aux/MPFMatrix.py', '\t\t\tself._M = M.copy()\n', '\t\t\tself._M = M\n')]
NEEDS = 'a change of the multiprecision matrix a MPFMatrix was built from'
BREAKS = 'the change shows through in the MPFMatrix'
DEMO = '''
import mpmath
from fixif.func_aux import MPFMatrix
M = mpmath.matrix([[1, 2], [3, 4]])
X = MPFMatrix(M)
M[0, 1] = 7
if X[0, 1] != 2:
    sys.exit('changed')
'''
