PROP = 'C30'
EDITS = [('fixif/SIF/Realization_FxP.py', """			msb = [int(mpmath.ceil(mpmath.log(x[0], 2))) for x in zeta_bar.tolist()]
""", """			msb = [int(mpmath.ceil(mpmath.mpf(float(log2(x[0]))))) for x in zeta_bar.tolist()]
""")]
NEEDS = 'a bound just above a power of two (by less than the precision of the logarithm in double precision)'
BREAKS = 'the logarithm is rounded to the power of two, so that the most significant bit is one too small'
DEMO = '''
import numpy as np
import stubs

from fixif.SIF import Realization
z = np.zeros
b = 2.0**40 * (1 + 2.0**-52)
import fixif.LTI
fixif.LTI.dSS.WCPG = lambda self, info=None: np.matrix(np.ones((self.p, self.q)))
R = Realization(None, (z((0, 0)), z((1, 0)), z((1, 0)), z((0, 1)), z((0, 1)), [[0.5]], [[1]], [[1]], [[1]]))
msb = R.computeNaiveMSB(np.matrix([[b]]))
if any(2.0**k < b for k in msb):
    sys.exit('%s' % msb)
'''
