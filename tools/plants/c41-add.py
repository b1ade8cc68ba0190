PROP = 'C41'
EDITS = [('fixif/LTI/dSS.py',
  '\t\tnewD = self.D + S.D\n\n\t\treturn dSS(newA, newB, newC, newD)\n',
  '\t\tnewD = self.D + S.D\n'
  '\n'
  '\t\tH = dSS(newA, newB, newC, newD)\n'
  '\t\t# the peak gains, if they are already known\n'
  '\t\tif self._WCPG is not None and S._WCPG is not None:\n'
  '\t\t\tH._WCPG = self._WCPG + S._WCPG\n'
  '\t\treturn H\n')]
NEEDS = 'the sum of two systems whose peak gains were asked before, with responses of opposite signs'
BREAKS = 'the sum reports the sum of the peak gains, which is only an upper bound'
DEMO = '''
import numpy as np
from fixif.LTI import dSS
m = np.matrix
def sys_(a, b): return dSS(m([[a]]), m([[b]]), m([[1.]]), m([[0.5 * b]]))
for ask in (False, True):
    S1, S2 = sys_(0.5, 1.), sys_(0.25, -1.)
    if ask:
        S1.WCPG(); S2.WCPG()
    H = S1 + S2
    ref = sum(abs(0.5 ** k - 0.25 ** k) for k in range(200))
    if abs(H.WCPG()[0, 0] - ref) > 1e-6:
        sys.exit('%s %s %s' % (ask, H.WCPG(), ref))
'''
