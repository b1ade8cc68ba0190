PROP = 'C42'
EDITS = [('fixif/SIF/SIF.py', '\t\t\t\telif int(self.Z[i, j]) == self.Z[i, j]:\n', '\t\t\t\telif abs(self.Z[i, j] - round(self.Z[i, j])) < 1e-3:\n')]
NEEDS = 'a coefficient close to an integer, and smaller than it in magnitude'
BREAKS = 'the coefficient is written as the integer part: 0.9995 becomes 0'
DEMO = '''
import numpy as np
from fixif.LTI import Filter
from fixif.SIF import Realization
m = np.matrix
for a in (0.5, 0.9995, 0.25, -0.9992):
    A, B, C, D = m([[a]]), m([[1.]]), m([[1.5]]), m([[2.]])
    R = Realization(Filter(A=A, B=B, C=C, D=D), (np.eye(0), np.zeros((1, 0)), np.zeros((1, 0)), np.zeros((0, 1)), np.zeros((0, 1)), A, B, C, D))
    t = R.getZtpmatrixLaTeX(strFormat='%.4f')
    if '%.4f' % a not in t:
        sys.exit('%s: %s' % (a, t))
'''
