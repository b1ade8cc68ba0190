PROP = 'C13'
EDITS = [('fixif/LTI/dTF.py', """			C = mat(fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])
			D = mat(atleast_2d(self.num[0, 0]))
""", """			C = mat(fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])
			D = mat(atleast_2d(self.num[0, 0]))
			# strictly proper filters: the states that only delay the output are not required
			while A.shape[0] > 1 and self.num[0, 0] == 0 and C[0, 0] == 0 and A[-1, 0] == 0:
				A, B, C = A[1:, 1:], B[1:, :], C[:, 1:]
				A[-1, 0] = 0 if A.shape[0] > 2 else A[-1, 0]
""")]
NEEDS = 'num[0] null, the last coefficients of the numerator and of the denominator null, order 4 at least, another coefficient of the denominator non-null'
BREAKS = 'reducing the order of the state space clears a coefficient of the denominator'
DEMO = '''
import numpy as np
from fixif.LTI import dTF
H = dTF([0, 1, 2, 3, 0], [1, 0.5, 0.25, 0.125, 0])
S = H.to_dSS()
h = [float(S.D[0, 0])]; X = S.B
for k in range(8):
    h.append(float((S.C * X)[0, 0])); X = S.A * X
b, a = H.num.A1, H.den.A1
y = []
for k in range(9):
    y.append((b[k] if k < len(b) else 0) - sum(a[i] * y[k-i] for i in range(1, len(a)) if k >= i))
if not np.allclose(h, y):
    sys.exit('%s %s' % (h, y))
'''
