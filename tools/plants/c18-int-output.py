PROP = 'C18'
EDITS = [('fixif/SIF/SIF.py', """		y = mat(zeros((self._p, N)))

		xk = mat(zeros((self._n, 1)))""", """		y = mat(zeros((self._p, N), dtype=u.dtype))

		xk = mat(zeros((self._n, 1)))""")]
NEEDS = 'inputs given by integers only (an impulse or a step, say)'
BREAKS = 'the outputs of the simulation are truncated to integers'
DEMO = '''
import numpy as np
from fixif.SIF import SIF
M = np.matrix
R = SIF((M([[1.0]]), M([[0.5]]), M([[0.25]]), M([[1.0]]), M([[2.0]]), M([[0.5]]), M([[1.5]]), M([[0.75]]), M([[0.125]])))
u = [[1, 0, 0, 2, -3, 1]]
if not np.allclose(np.array(R.simulate(u)), np.array(R.simulate(np.array(u, dtype=float)))):
    sys.exit('wrong outputs')
'''
