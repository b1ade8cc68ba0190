PROP = 'C14'
EDITS = [('fixif/LTI/dSS.py', '\t\tif self._p != 1 or self._q != 1:\n', '\t\tif self._p != 1 and self._q != 1:\n')]
NEEDS = 'a system with one output and several inputs'
BREAKS = 'the transfer function from the first input is returned, without any exception'
DEMO = '''
import numpy as np
from fixif.LTI import dSS
m = np.matrix
for p, q in ((1, 1), (1, 2), (2, 1), (2, 2)):
    S = dSS(m([[0.5]]), m(np.ones((1, q))), m(np.ones((p, 1))), m(np.zeros((p, q))))
    try:
        S.to_dTF()
        ok = True
    except ValueError:
        ok = False
    if ok != (p == q == 1):
        sys.exit('%d outputs, %d inputs: %s' % (p, q, ok))
'''
