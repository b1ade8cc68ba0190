PROP = 'C32'
EDITS = [('fixif/SIF/SIF.py', '[np.matrix(X, dtype=float) for X in dJtodS]', '[np.matrix(np.matrix(X) != 0, dtype=float) for X in dJtodS]')]
NEEDS = 'weights given that are neither 0 nor 1'
BREAKS = 'the weights given are replaced by 0 or 1'
DEMO = '''
import numpy as np
from fixif.SIF import SIF
m = np.matrix
Z = (m([[1.]]), m([[0.5]]), m([[1.]]), m([[0.3]]), m([[0.7]]), m([[0.2]]), m([[0.9]]), m([[0.4]]), m([[0.1]]))
for k in (1., 0.25, 2.):
    d = tuple(m([[k * (i % 3)]]) for i in range(9))
    S = SIF(Z, d)
    for x, y in zip((S.dJ, S.dK, S.dL, S.dM, S.dN, S.dP, S.dQ, S.dR, S.dS), d):
        if not np.allclose(x, y):
            sys.exit('%s %s' % (x, y))
'''
