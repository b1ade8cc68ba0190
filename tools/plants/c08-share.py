PROP = 'C08'
EDITS = [('fixif/LTI/dSSmp.py', """		A = mpmath.mp.zeros(self.n + S.n, self.n + S.n)
		B = mpmath.mp.zeros(self.n + S.n, self.q)
		C = mpmath.mp.zeros(self.p, self.n + S.n)
		D = mpmath.mp.zeros(self.p, self.q)

		for i in range(0, self.n):
			for j in range(0, self.n):
				A[i, j] = self.A[i, j]

		for i in range(0, S.n):
			for j in range(0, S.n):
				A[i + self.n, j + self.n] = S.A[i, j]

		for i in range(0, self.n):
			for j in range(0, self.q):
				B[i, j] = self.B[i, j]
		for i in range(0, S.n):
			for j in range(0, self.q):
				B[i + self.n, j] = S.B[i, j]

		for i in range(0, self.p):
			for j in range(0, self.n):
				C[i, j] = self.C[i, j]

		for i in range(0, self.p):
			for j in range(0, S.n):
""", """		# the two systems have the same states: no need to compute them twice
		if self.n == S.n and all(self.A[i, j] == S.A[i, j] for i in range(self.n) for j in range(self.n)) \\
				and all(self.B[i, j] == S.B[i, j] for i in range(self.n) for j in range(self.q)):
			return dSSmp(self.A, self.B, self.C + S.C, self.D + S.D)

		A = mpmath.mp.zeros(self.n + S.n, self.n + S.n)
		B = mpmath.mp.zeros(self.n + S.n, self.q)
		C = mpmath.mp.zeros(self.p, self.n + S.n)
		D = mpmath.mp.zeros(self.p, self.q)

		for i in range(0, self.n):
			for j in range(0, self.n):
				A[i, j] = self.A[i, j]

		for i in range(0, S.n):
			for j in range(0, S.n):
				A[i + self.n, j + self.n] = S.A[i, j]

		for i in range(0, self.n):
			for j in range(0, self.q):
				B[i, j] = self.B[i, j]
		for i in range(0, S.n):
			for j in range(0, self.q):
				B[i + self.n, j] = S.B[i, j]

		for i in range(0, self.p):
			for j in range(0, self.n):
				C[i, j] = self.C[i, j]

		for i in range(0, self.p):
			for j in range(0, S.n):
""")]
NEEDS = 'two systems with the same A and B, and outputs whose sum does not fit in the working precision'
BREAKS = 'the sum of the output matrices is rounded to the working precision'
DEMO = '''
import mpmath
from mpmath import mp
from fixif.LTI import dSSmp
A, B = mpmath.matrix([[mpmath.mpf('0.5')]]), mpmath.matrix([[1]])
S1 = dSSmp(A, B, mpmath.matrix([[1]]), mpmath.matrix([[1]]))
S2 = dSSmp(A, B, mpmath.matrix([[mpmath.ldexp(1, -100)]]), mpmath.matrix([[mpmath.ldexp(1, -90)]]))
H = S1 + S2
with mpmath.workprec(500):
    h1 = (H.C * H.B)[0, 0]
    if h1 != 1 + mpmath.ldexp(1, -100) or H.D[0, 0] != 1 + mpmath.ldexp(1, -90):
        sys.exit('%s %s' % (h1, H.D))
'''
