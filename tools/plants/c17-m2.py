PROP = 'C17'
EDITS = [('fixif/SIF/SIF.py', '\t\tself._M2 = c_[self.L * self._invJ, zeros(', '\t\tself._M2 = c_[self.L, zeros(')]
NEEDS = 'intermediate variables that depend on each other (J not the identity)'
BREAKS = 'the perturbation of an intermediate variable does not reach the output through the following ones'
DEMO = '''
import numpy as np
from fixif.SIF import SIF
m = np.matrix
for j in (0., 0.75):
    S = SIF((m([[1., 0.], [j, 1.]]), m([[0.5, 0.25]]), m([[0., 2.]]), m([[0.3], [0.4]]), m([[1.], [0.]]), m([[0.2]]), m([[0.9]]), m([[0.4]]), m([[0.1]])))
    H = S.Hepsilon
    # perturbation of t_1 at time 0
    t = [1., -j]
    y0 = 2. * t[1]
    if abs(H.D[0, 0] - y0) > 1e-12:
        sys.exit('%s: %s, %s' % (j, H.D, y0))
'''
