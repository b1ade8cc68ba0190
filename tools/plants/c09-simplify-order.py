PROP = 'C09'
EDITS = [('fixif/LTI/dSS.py', "				index = l.pop()\n", "				index = l.pop(0)\n")]
NEEDS = 'two null rows of A found in the same pass'
BREAKS = 'the states are removed from the first to the last, so that the indices of the following ones are no longer right'
DEMO = '''
import numpy as np
from fixif.LTI import dSS
H = dSS([[0, 0, 0], [0.5, 0.25, 0.5], [0, 0, 0]], [[1], [2], [4]], [[1, 3, 5]], [[7]])
G = H
try:
    G = H.simplify()
except Exception as e:
    sys.exit('simplify: %s' % e)
if G.n == 0 or abs(np.linalg.det(np.matrix(G.A))) == 0 or abs(G.A - 0.25).max() > 0:
    sys.exit('the wrong states were removed: %s' % G)
'''
