PROP = 'C43'
EDITS = [('fixif/LTI/dTF.py', '\t\treturn TransferFunction(self.num.tolist()[0], self.den.tolist()[0], dt=1)\n',
          '\t\tnum, den = self.num.tolist()[0], self.den.tolist()[0]\n\t\t# null last coefficients are useless\n\t\tfor c in (num, den):\n\t\t\twhile len(c) > 1 and c[-1] == 0:\n\t\t\t\tc.pop()\n\t\treturn TransferFunction(num, den, dt=1)\n')]
NEEDS = 'last coefficients null in the numerator or the denominator, but not as many in the other'
BREAKS = 'the scipy transfer function is delayed or advanced: 1/(1+az^-1) becomes z^-1/(1+az^-1)'
DEMO = '''
import numpy as np
from fixif.LTI import dTF
for num, den in (([1., 2., 3.], [1., 0.5, 0.25]), ([1., 2., 0.], [1., 0.5, 0.25]), ([1., 2., 3.], [1., 0.5, 0.])):
    H = dTF(np.matrix([num]), np.matrix([den]))
    T = H.toTransferFunction()
    z = 1.5
    v = np.polyval(T.num, z) / np.polyval(T.den, z)
    e = sum(c * z**-i for i, c in enumerate(num)) / sum(c * z**-i for i, c in enumerate(den))
    if abs(v - e) > 1e-9:
        sys.exit('%s / %s: %s instead of %s' % (num, den, v, e))
'''
