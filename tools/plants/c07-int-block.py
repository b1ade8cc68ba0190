PROP = 'C07'
EDITS = [('fixif/LTI/dSS.py', """		amul = r_[c_[self.A, self.B*other.C], c_[zeros((n2, n1)), other.A]]
		bmul = r_[self.B*other.D, other.B]
		cmul = c_[self.C, self.D*other.C]
""", """		amul = zeros((n1+n2, n1+n2), dtype=self.A.dtype)
		amul[:n1, :n1] = self.A
		amul[:n1, n1:] = self.B*other.C
		amul[n1:, n1:] = other.A
		bmul = r_[self.B*other.D, other.B]
		cmul = c_[self.C, self.D*other.C]
""")]
NEEDS = 'a cascade whose first system has a matrix A of integer type (a delay line given with integers, say) and whose second one has not'
BREAKS = 'the state matrix of the cascade is built in the type of the first system: the coefficients of the second system are truncated to integers'
DEMO = '''
import numpy as np
from fixif.LTI import dSS
def imp(S, k=7):
    A, B, C, D = [np.array(X, dtype=float) for X in (S.A, S.B, S.C, S.D)]
    out, X = [D], B
    for _ in range(k):
        out.append(C.dot(X)); X = A.dot(X)
    return np.array(out)[:, 0, 0]
delay = dSS([[0, 0], [1, 0]], [[1], [0]], [[0, 1]], [[0]])          # z^-2
H = dSS([[0.5, 0.25], [-0.5, 0.25]], [[1.5], [3]], [[1, 0.25]], [[0.75]])
for X, Y in ((delay, H), (H, delay), (delay, delay), (H, H)):
    if not np.allclose(imp(X*Y), np.convolve(imp(X), imp(Y))[:8]):
        sys.exit('wrong cascade')
'''
