PROP = 'C23'
EDITS = [('fixif/Structures/DirectForms/DFII.py', """	# Compute J to S matrices
	J = mat(atleast_2d(1))
""", """	# the delays that are not used are not kept
	while n > 1 and den[0, n] == 0 and (num[0, n] == 0 or not den[0, 1:].any()):
		n -= 1
		num, den = num[0, :n + 1], den[0, :n + 1]

	# Compute J to S matrices
	J = mat(atleast_2d(1))
""")]
NEEDS = 'a filter without recursive part, of order 2 at least'
BREAKS = 'the last coefficients of the numerator are dropped'
DEMO = '''
import numpy as np
from fixif.LTI import Filter
from fixif.Structures import DFII
F = Filter(num=[1, 2, 3], den=[1, 0, 0])
for t in (False, True):
    S = DFII.makeRealization(F, transposed=t).dSS
    h = [float(S.D[0, 0])]; X = S.B
    for k in range(4):
        h.append(float((S.C * X)[0, 0])); X = S.A * X
    if not np.allclose(h, [1, 2, 3, 0, 0]):
        sys.exit('%s' % h)
'''
