PROP = 'C40'
EDITS = [('fixif/LTI/Filter.py', '\t\t\tself._dTF = self._dSS.to_dTF()\n', '\t\t\tself._dTF = self._dSS.simplify().to_dTF()\n')]
NEEDS = 'a state space one of whose states only delays the input (a null row of A)'
BREAKS = 'the transfer function is that of the simplified system: another order, and another response'
DEMO = '''
import numpy as np
from fixif.LTI import Filter
m = np.matrix
for A, B, C in (([[0.5, 0.25], [0.5, 0.125]], [[1.], [2.]], [[1., 1.]]), ([[0.5, 1.], [0., 0.]], [[1.], [2.]], [[1., 3.]])):
    f = Filter(A=m(A), B=m(B), C=m(C), D=m([[1.]]))
    o = f.order
    H = f.dTF
    if f.order != o:
        sys.exit('order %s then %s' % (o, f.order))
'''
