From 33c0b9a8a77a69d94d1ee13a09783bfaae57222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 01/64] fix: python2mpf_matrix converts doubles exactly at any
 working precision

---
 fixif/func_aux/python2mpf_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/func_aux/python2mpf_matrix.py b/fixif/func_aux/python2mpf_matrix.py
index f493d45..415fbf6 100644
--- a/fixif/func_aux/python2mpf_matrix.py
+++ b/fixif/func_aux/python2mpf_matrix.py
@@ -11,7 +11,7 @@ def python2mpf_matrix(M):
 	Mmp = mp.zeros(n, m)
 	for i in range(0, n):
 		for j in range(0, m):
-			Mmp[i, j] = mp.mpf(M[i, j])
+			Mmp[i, j] = mp.mpf(M[i, j], prec=mp.inf)		# exact, whatever the working precision
 
 
 	return Mmp
-- 
2.43.0


From a563fe62bfd69c04fc6b044c43977a9d03b59561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 02/64] fix: MPFMatrix.mul_exact on rectangular matrices (inner
 sizes)

---
 fixif/func_aux/MPFMatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 92c638d..d4143fa 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -219,11 +219,11 @@ class MPFMatrix(object):
 		# test sizes
 
 
-		if self.rows != other.cols:
+		if self.cols != other.rows:
 			raise ValueError('Cannot compute exact product of two matrices: incorrect sizes.')
 
 		m = self.rows
-		n = self.rows
+		n = self.cols
 		p = other.cols
 
 		C = mpmath.zeros(m, p)
-- 
2.43.0


From 6429603fee9d495f19053ec51dd309faed9e3bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 03/64] fix: mp_poly_product accepts a single root

---
 fixif/func_aux/mp_poly_product.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/fixif/func_aux/mp_poly_product.py b/fixif/func_aux/mp_poly_product.py
index f268778..d2dcfc2 100644
--- a/fixif/func_aux/mp_poly_product.py
+++ b/fixif/func_aux/mp_poly_product.py
@@ -27,23 +27,12 @@ def mp_poly_product(p, j=-1):
 
 	"""
 	degP = len(p)
-	if degP < 2:
+	if degP < 1:
 		raise ValueError('error in polynomial product: empty polynomial')
-	if j == -1:
-		c = mp.matrix([1, p[0]])
-		for i in range(1, degP):
+
+	c = mp.matrix([1])
+	for i in range(0, degP):
+		if i != j:
 			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-	else:
-		if j == 0:
-			c = mp.matrix([1, p[1]])
-			for i in range(2, degP):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-		else:
-			c = mp.matrix([1, p[0]])
-			for i in range(1, j):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-
-			for i in range(j + 1, degP):
-				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
 
 	return c
\ No newline at end of file
-- 
2.43.0


From f358de820e3ea22026fca426c6434dc452af51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 04/64] fix: dSS series connection checks the sizes that are
 connected

---
 fixif/LTI/dSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index f520783..50a1605 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -528,8 +528,8 @@ class dSS(object):
 		n1, p1, q1 = self.size
 		n2, p2, q2 = other.size
 
-		if p1 != q2:
-			raise ValueError("dSS: second state space should have same number of inputs as first state number of outputs")
+		if q1 != p2:
+			raise ValueError("dSS: the first state space should have as many inputs as the second one has outputs")
 
 		# TODO: possible simplification if self.A==other.A ??
 
-- 
2.43.0


From 1d898adc05dfe97c361350286e6f960e4964a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 05/64] fix: dSSmp difference negates the second system exactly

---
 fixif/LTI/dSSmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 474a135..73bb7e0 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -265,7 +265,7 @@ class dSSmp(object):
 				D[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)
 		for i in range(0, self.p):
 			for j in range(0, S.n):
-				C[i, j + self.n] = -S.C[i, j]
+				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)
 
 		return dSSmp(A, B, C, D)
 
-- 
2.43.0


From a0ebf5cabbbef33408efd8c84089d083581c049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 06/64] fix: dSS.similarity forgets the gramians of the
 previous coordinates

---
 fixif/LTI/dSS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 50a1605..afdad1b 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -447,6 +447,10 @@ class dSS(object):
 		self._C = self._C * T
 		# D is unchanged
 
+		# the gramians depend on the state coordinates: they have to be computed again
+		self._Wo = None
+		self._Wc = None
+
 	# ======================================================================================
 	def _check_dimensions(self):
 		"""
-- 
2.43.0


From 8145c0e828425348a411a80fdc78aade3a198e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 07/64] fix: dSS.simplify ends on a singular A without rows of
 zeros

---
 fixif/LTI/dSS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index afdad1b..91a233c 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -616,6 +616,10 @@ class dSS(object):
 				if numpy.count_nonzero(newS._A[i, :]) == 0:
 					l.append(i)
 
+			# A can be singular without any row of zeros: nothing (more) to remove
+			if not l:
+				break
+
 			A = newS._A
 			B = newS._B
 			C = newS._C
-- 
2.43.0


From 24ff1693cb43e8c9d0cf58c72fd65c2aa22ea19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 08/64] fix: dTF arithmetic on numerators and denominators with
 leading zeros or different lengths

---
 fixif/LTI/dTF.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 43da056..4f2888e 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -17,12 +17,20 @@ __status__ = "Beta"
 
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
-from numpy import matrix as mat, polymul, polyadd
+from numpy import matrix as mat, convolve
 from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
 
+def _add_poly(a, b):
+	"""add two polynomials in z^-1 (1D arrays, increasing powers of z^-1), possibly of different degrees"""
+	res = zeros(max(len(a), len(b)))
+	res[:len(a)] += a
+	res[:len(b)] += b
+	return res
+
+
 class dTF(object):
 
 	def __init__(self, num, den):
@@ -93,8 +101,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(self._num * other, self._den)
 		elif isinstance(other, dTF):
-			numer = polymul(self.num.A1, other.num.A1)
-			denom = polymul(self.den.A1, other.den.A1)
+			numer = convolve(self.num.A1, other.num.A1)
+			denom = convolve(self.den.A1, other.den.A1)
 			return dTF(numer, denom)
 		else:
 			raise ValueError("Cannot multiply a dTF with a %s", type(other))
@@ -103,10 +111,10 @@ class dTF(object):
 	def __add__(self, other):
 		"""addition"""
 		if type(other) in [int, float]:
-			return dTF(polyadd(self._num.A1, self._den.A1 * other), self._den)
+			return dTF(_add_poly(self._num.A1, self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(self._num.A1, other.den.A1), polymul(self._den.A1, other.num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = _add_poly(convolve(self._num.A1, other.den.A1), convolve(self._den.A1, other.num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 		raise ValueError("Cannot add a dTF with a %s", type(other))
 	__radd__ = __add__  # lazy definition
@@ -114,20 +122,20 @@ class dTF(object):
 	def __sub__(self, other):
 		"""substraction"""
 		if type(other) in [int, float]:
-			return dTF(polyadd(self._num.A1, -self._den.A1 * other), self._den)
+			return dTF(_add_poly(self._num.A1, -self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(self._num.A1, other.den.A1), -polymul(self._den.A1, other.num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = _add_poly(convolve(self._num.A1, other.den.A1), -convolve(self._den.A1, other.num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 		raise ValueError("Cannot substract a dTF with a %s", type(other))
 
 	def __rsub__(self, other):
 		"""right substraction"""
 		if type(other) in [int, float]:
-			return dTF(polyadd(-self._num.A1, self._den.A1 * other), self._den)
+			return dTF(_add_poly(-self._num.A1, self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(other.num.A1, self._den.A1), -polymul(other.den.A1, self._num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = _add_poly(convolve(other.num.A1, self._den.A1), -convolve(other.den.A1, self._num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 
 
-- 
2.43.0


From d06f2a7b1dd552735a835f7fd06e23f875462a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 09/64] fix: dTF right substraction rejects foreign types
 instead of returning None

---
 fixif/LTI/dTF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 4f2888e..a476873 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -137,6 +137,7 @@ class dTF(object):
 			numer = _add_poly(convolve(other.num.A1, self._den.A1), -convolve(other.den.A1, self._num.A1))
 			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
+		raise ValueError("Cannot substract a dTF to a %s", type(other))
 
 
 	def to_dTFmp(self):
-- 
2.43.0


From f19ca755384586e7875368104740bc88e77867d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 10/64] fix: dTFmp normalises numerator and denominator by the
 leading denominator coefficient

---
 fixif/LTI/dTFmp.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 4afb131..af11527 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -49,11 +49,17 @@ class dTFmp(object):
 
 
 		n = a.rows
-		if a[0, 0] != mpmath.mp.one:
-			for i in range(0, n):
-				# division cannot be performed exactly but we do it with doubled precision
-				a[i, 0] = mpmath.fdiv(a[i, 0], a[0, 0], prec=a[i, 0]._mpf_[3] * 2)
-				b[i, 0] = mpmath.fdiv(b[i, 0], b[0, 0], prec=b[i, 0]._mpf_[3] * 2)
+		a0 = a[0, 0]
+		if a0 == 0:
+			raise ValueError('Cannot create a dTFmp object: the 1st coefficient of the denominator cannot be ZERO !')
+		if a0 != mpmath.mp.one:
+			# the matrices given by the user are not modified
+			a, b = a.copy(), b.copy()
+			for M in (a, b):
+				for i in range(0, M.rows):
+					# division cannot be performed exactly but we do it with doubled precision
+					prec = 2 * max(mpmath.mp.prec, M[i, 0]._mpf_[3], a0._mpf_[3])
+					M[i, 0] = mpmath.fdiv(M[i, 0], a0, prec=prec)
 
 		self._order = n - 1
 		self._num = b
-- 
2.43.0


From 26c1002ce1a6ce60ce8e533bf78f9c6d9dac858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 11/64] fix: dTFmp.to_dSSmp negates the denominator exactly and
 accepts order 0

---
 fixif/LTI/dTFmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index af11527..f17d0f8 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -130,11 +130,13 @@ class dTFmp(object):
 		N = self.order + 1
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
-		A[0, :] = -self.den.transpose()[0, 1:N]
+		for i in range(0, N - 1):
+			A[0, i] = mpmath.fneg(self.den[i + 1, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
-		B[0, 0] = mpmath.mp.one
+		if N > 1:
+			B[0, 0] = mpmath.mp.one
 
 		# We compute matrix C exactly
 		C = mpmath.mp.zeros(1, N - 1)
-- 
2.43.0


From c01bf46ad4a594103013099e73f421ff1498b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 12/64] fix: dTF.to_dSS (controllable form) accepts order 0

---
 fixif/LTI/dTF.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index a476873..b149851 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -154,7 +154,10 @@ class dTF(object):
 		# TODO: code it without scipy
 
 		from fixif.LTI import dSS
-		if form == 'ctrl':
+		if form == 'ctrl' and self.order == 0:
+			A, B, C = zeros((0, 0)), zeros((0, 1)), zeros((1, 0))
+			D = mat(atleast_2d(self.num[0, 0]))
+		elif form == 'ctrl':
 			A = mat(diagflat(ones((1, self.order-1)), 1))
 			A[self.order-1, :] = fliplr(-self.den[0, 1:])
 			B = mat(r_[zeros((self.order-1, 1)), atleast_2d(1)])
-- 
2.43.0


From 93ceefb5ad7127cee886e63be232ba1651127f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 13/64] fix: dSSmp.to_dTFmp restores the working precision when
 it raises

---
 fixif/LTI/dSSmp.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 73bb7e0..6449154 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -288,16 +288,18 @@ class dSSmp(object):
 		TF - a dTFmp object
 
 		"""
-		# converting the dSS matrices to mp type
-
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
-
 		from fixif.LTI import dTFmp
 
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
+		# the working precision of the caller is restored, also when an exception is raised
+		with mpmath.workprec(prec):
+			b, a = self._to_num_den(prec)
+		return dTFmp(b, a)
+
+	def _to_num_den(self, prec):
+		"""Numerator and denominator (computed in the current working precision, rounded to prec bits)"""
 		E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
 		Cmp = self.C * V
 		Vinv = mpmath.mp.inverse(V)
@@ -329,8 +331,7 @@ class dSSmp(object):
 			a[i, 0] = Q[i, 0].real
 			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
 
-		mpmath.mp.prec = oldprec
-		return dTFmp(b, a)
+		return b, a
 
 	def WCPGmp(self, delta=2**-53):
 		"""
-- 
2.43.0


From 3547739405e9ced9ae08680d7254c373c98be935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 14/64] fix: dSSmp.to_dTFmp accepts a system without states

---
 fixif/LTI/dSSmp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 6449154..bbb85ac 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -293,6 +293,9 @@ class dSSmp(object):
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
+		if self.n == 0:
+			return dTFmp(self.D, mpmath.matrix([1]))
+
 		# the working precision of the caller is restored, also when an exception is raised
 		with mpmath.workprec(prec):
 			b, a = self._to_num_den(prec)
-- 
2.43.0


From 7b27c689437d0dd9a6a0f098d81ed6a6627b92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 15/64] fix: SIF recomputes its derived systems after every
 assignment

---
 fixif/SIF/SIF.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9217322..9b0abf6 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -148,11 +148,6 @@ class SIF(SIF_sensibility):
 		self._dZ = None
 		self._build_dZ(dJtodS)
 
-		# extra state-space associated (computed only the 1st time they are required)
-		self._Hu = None
-		self._Hepsilon = None
-		self._Hzeta = None
-
 
 	def _build_Z(self, JtoS):
 		"""
@@ -246,6 +241,10 @@ class SIF(SIF_sensibility):
 	def _build_fromZ(self):
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
+		# the extra state-spaces are those of the current matrices
+		self._Hu = None
+		self._Hepsilon = None
+		self._Hzeta = None
 
 
 	# Only matrix Z is kept in memory
@@ -435,7 +434,7 @@ class SIF(SIF_sensibility):
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
 		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
-		self._build_AZtoDZ()
+		self._build_fromZ()
 
 	@Q.setter
 	def Q(self, mymat):
-- 
2.43.0


From 494bf312a82058042c8ff4c71035c52073e1687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 16/64] fix: SIF.dJ reads back the weights of J

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9b0abf6..fe6d076 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -366,7 +366,7 @@ class SIF(SIF_sensibility):
 
 	@property
 	def dJ(self):
-		return -self._dZ[0: self._l, 0: self._l]
+		return self._dZ[0: self._l, 0: self._l]
 
 	@property
 	def dK(self):
-- 
2.43.0


From b0ca009b80790f9045244304aafe990bd12a5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 17/64] fix: SIF.Z and SIF.dZ copy the assigned matrix

---
 fixif/SIF/SIF.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index fe6d076..565fb3e 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -308,14 +308,13 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
-		self._Z = mymat
+		self._Z = np.matrix(mymat)		# the matrix of the caller is not shared
 		self._invJ = inv(self.J)
 		self._build_fromZ()
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = mymat
-
+		self._dZ = np.matrix(mymat)
 
 	#  JtoS getters
 	@property
-- 
2.43.0


From 0d3df62b2fd050a62c3bcfe71214869d08494be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 18/64] fix: Realization.quantize works with the current numpy

---
 fixif/SIF/Realization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index cfcad67..7c28eea 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -154,7 +154,7 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 
 		# copy the realization and quantized the matrix Z
 		R = copy(self)
-		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[np.float])
+		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
 		return R
 
-- 
2.43.0


From ecf58d44c3058438bbb40b063736add2cec509df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 19/64] fix: SIF.generate_inputs returns the inputs of the
 worst-case output

---
 fixif/SIF/SIF.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 565fb3e..5f55364 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -538,9 +538,9 @@ class SIF(SIF_sensibility):
 		such that the output is the largest possible for u \in [-u_bar; u_bar] .
 		For this,
 
-		u[i] = u_bar * sign( h(N - i) ),
+		u[i] = u_bar * sign( h(N - 1 - i) ),
 
-		where h(k) is the filter's impulse response.
+		where h(k) is the filter's impulse response, so that the last output is the largest.
 
 		We compute it by passing to the state-space representation.
 
@@ -559,14 +559,19 @@ class SIF(SIF_sensibility):
 		u_bar = np.matrix(u_bar)
 		if u_bar.shape != (self._dSS.q, 1):
 			if u_bar.shape == (1, self._dSS.q):
-				u_bar.transpose()
+				u_bar = u_bar.transpose()
 			else:
 				raise ValueError('Cannot generate inputs: u_bar is of incorrect size')
+		if self._dSS.p != 1:
+			raise ValueError('Cannot generate inputs: the filter should have only one output')
 
 		u = np.matrix(np.zeros([self._dSS.q, N]))
-		u[:, 0] = self.dSS.D
-		for i in range(1, N):
-			u[:, i] = u_bar * np.sign(self.dSS.B * (self.dSS.A ** (N - i)) * self.dSS.C)		# TODO: ugly A**(N-i) !!
+		h = self.dSS.D		# h(k), a 1 x q matrix
+		CAk = self.dSS.C
+		for i in range(N - 1, -1, -1):
+			u[:, i] = np.multiply(u_bar, np.sign(h.transpose()))
+			h = CAk * self.dSS.B
+			CAk = CAk * self.dSS.A
 		return u
 
 
-- 
2.43.0


From 7ea7ea5c6beb6238524073a331c0d88de9338d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 20/64] fix: dSSmp.simulate starts from the given initial state

---
 fixif/LTI/dSSmp.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index bbb85ac..ba80889 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -433,14 +433,15 @@ class dSSmp(object):
 			raise ValueError('Cannot perform somulation: u is of incorrect size')
 
 		xk = mpmath.mp.zeros(self._n, 1)
-		if x0:
-			if not isinstance(x0, mpmath.matrix):
-				if isinstance(x0, numpy.matrix):
-					xk = python2mpf_matrix(x0)
-				else:
-					raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
-
-		if xk.rows != self._n:
+		if x0 is not None:
+			if isinstance(x0, mpmath.matrix):
+				xk = x0.copy()
+			elif isinstance(x0, numpy.matrix):
+				xk = python2mpf_matrix(x0)
+			else:
+				raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
+
+		if xk.rows != self._n or xk.cols != 1:
 			raise ValueError('Cannot perform simulation: initial state is of incorrect size')
 
 		T = u.cols
-- 
2.43.0


From 2d0e91cb49eaf5bd5457e05d634a5277fe94e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 21/64] fix: dSSmp.simulate updates the state at every step
 when exact=False

---
 fixif/LTI/dSSmp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index ba80889..846ad4c 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -465,8 +465,8 @@ class dSSmp(object):
 				yk[:, i] = mpf_matrix_fmul(self._C, xk)
 				yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
-			for i in range(0, xk.rows):
-				xk[i, 0] = mpmath.fadd(xkp1[i, 0], mpmath.mp.zero, prec=64, rounding='n')
+				for j in range(0, xk.rows):
+					xk[j, 0] = mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=64, rounding='n')
 
 
 		return yk
-- 
2.43.0


From fff58f866da684eac3afd9ffa4e828f38d191969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 22/64] fix: SIF keeps its coefficients and weights as floats
 (assigned values are not truncated)

---
 fixif/SIF/SIF.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 5f55364..6fefbc5 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -153,7 +153,8 @@ class SIF(SIF_sensibility):
 		"""
 		build Z or dZ depending on provided matrix tuple
 		"""
-		J, K, L, M, N, P, Q, R, S = [np.matrix(X) for X in JtoS]
+		# floats, so that any value can be assigned later
+		J, K, L, M, N, P, Q, R, S = [np.matrix(X, dtype=float) for X in JtoS]
 		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]])
 
 
@@ -230,9 +231,9 @@ class SIF(SIF_sensibility):
 		'dZ' is :math:`\delta Z`
 		"""
 		if dJtodS is None:
-			self._dZ = np.vectorize(lambda x: int(not isTrivial(x, SIF.epsilondZ)))(self._Z)
+			self._dZ = np.vectorize(lambda x: float(not isTrivial(x, SIF.epsilondZ)))(self._Z)
 		else:
-			dJ, dK, dL, dM, dN, dP, dQ, dR, dS = [np.matrix(X) for X in dJtodS]
+			dJ, dK, dL, dM, dN, dP, dQ, dR, dS = [np.matrix(X, dtype=float) for X in dJtodS]
 			self._dZ = np.bmat([[dJ, dM, dN], [dK, dP, dQ], [dL, dR, dS]])
 
 
@@ -308,13 +309,13 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
-		self._Z = np.matrix(mymat)		# the matrix of the caller is not shared
+		self._Z = np.matrix(mymat, dtype=float)		# the matrix of the caller is not shared
 		self._invJ = inv(self.J)
 		self._build_fromZ()
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = np.matrix(mymat)
+		self._dZ = np.matrix(mymat, dtype=float)
 
 	#  JtoS getters
 	@property
-- 
2.43.0


From 91d23788065e7eec0da957d9b46005134cfab752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 23/64] fix: generated C code of a realization with one state

---
 fixif/SIF/Realization_implementation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index cbc232d..ecc1a96 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -83,7 +83,7 @@ class R_implementation:
 		# input(s), output(s), states, intermediate variables
 		strU = genCvarNames('u', q)
 		strY = genCvarNames('y', p)
-		strXk = genCvarNames('xk', n)
+		strXk = ['xk[%d]' % (i,) for i in range(n)]		# always an array, even with one state
 		strXkp = ['x%d_kp1' % (i,) for i in range(n)]
 		strT = ['T%d' % (i,) for i in range(l)]
 
-- 
2.43.0


From 0536ee2b2b180328682f742b11741bb059b43f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 24/64] fix: runCdouble gets its result as a double and runs
 several inputs and outputs

---
 fixif/SIF/Realization_implementation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index ecc1a96..11048e2 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -174,6 +174,7 @@ class R_implementation:
 		# use ctype
 		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
 		if self.p == 1:
+			self._Cdouble.restype = c_double
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
 		else:
 			self._Cdouble.argtypes = (POINTER(c_double), c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
@@ -204,7 +205,13 @@ class R_implementation:
 		y = zeros((self._p, N))
 
 		# loop to compute the outputs
-		if self.p == 1 and self.q == 1:
-			for i in range(N):
-				y[:, i] = self._Cdouble(u[:, i], px)
-		return y
\ No newline at end of file
+		for i in range(N):
+			ui = numpy.ascontiguousarray(u[:, i], dtype=float)
+			ui = ui[0, 0] if self.q == 1 else ui.ctypes.data_as(POINTER(c_double))
+			if self.p == 1:
+				y[:, i] = self._Cdouble(ui, px)
+			else:
+				yi = zeros((self._p, 1))
+				self._Cdouble(yi.ctypes.data_as(POINTER(c_double)), ui, px)
+				y[:, i] = yi[:, 0]
+		return y
-- 
2.43.0


From 3285bc16a3ae968da78a21cfae956822b16ff0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 25/64] fix: makeCdouble loads the library of its own
 realization

---
 fixif/SIF/Realization_implementation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 11048e2..9a8e7a6 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -15,6 +15,8 @@ from jinja2 import Environment, FileSystemLoader
 from numpy import tril, all, zeros, matrix as mat
 from datetime import datetime
 from subprocess import Popen, PIPE
+from tempfile import mkstemp
+from os import close
 from ctypes import CDLL, POINTER, c_double
 import numpy
 
@@ -164,7 +166,10 @@ class R_implementation:
 		print("Compiling runC.c")
 
 		# compile it
-		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
+		# (each realization has its own library: a library already loaded is not loaded again)
+		fd, soFile = mkstemp(prefix='runC', suffix='.so', dir=GENERATED_PATH)
+		close(fd)
+		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o " + soFile + " runC.c ", stderr=PIPE, shell=True)
 		# check the output and print it
 		line = 'non-empty'
 		while line:
@@ -172,7 +177,7 @@ class R_implementation:
 			print(line[:-1])		# TODO: log it somewhere ?
 
 		# use ctype
-		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
+		self._Cdouble = CDLL(soFile).implementCdouble
 		if self.p == 1:
 			self._Cdouble.restype = c_double
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
-- 
2.43.0


From 918c4f4a1bb4a501004ec93f8f2bfc080b18e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 26/64] fix: runCdouble regenerates the code when the
 coefficients have changed

---
 fixif/SIF/Realization_implementation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 9a8e7a6..6de2690 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -178,6 +178,7 @@ class R_implementation:
 
 		# use ctype
 		self._Cdouble = CDLL(soFile).implementCdouble
+		self._CdoubleZ = numpy.array(self.Z)		# coefficients of the compiled code
 		if self.p == 1:
 			self._Cdouble.restype = c_double
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
@@ -198,8 +199,8 @@ class R_implementation:
 
 		Returns the ouput (pxN)
 		"""
-		# generate and compile code, if it is not yet done
-		if self._Cdouble is None:
+		# generate and compile code, if it is not yet done (or if the coefficients have changed since)
+		if self._Cdouble is None or not numpy.array_equal(self._CdoubleZ, self.Z):
 			self.makeCdouble()
 
 		u = mat(u)
-- 
2.43.0


From 0e59cd17e94686ad63f97b6bfb5cb6fe55a0ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 27/64] fix: SoP.toAlgoStr does not split long coefficients on
 two lines

---
 fixif/SoP/SoP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index 16ee774..59b04ba 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -77,7 +77,8 @@ class SoP:
 		if self._resName == S:
 			return ''
 		else:
-			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60))
+			# (the coefficients and the names are never split)
+			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60, break_long_words=False, break_on_hyphens=False))
 
 
 
-- 
2.43.0


From d95d02a3cb22860c3131d48f50a7c49aba80ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:35 +0000
Subject: [PATCH 28/64] fix: generateNames accepts an empty list of names for
 no variable

---
 fixif/SoP/VarName.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/VarName.py b/fixif/SoP/VarName.py
index 293c008..5e47b7c 100644
--- a/fixif/SoP/VarName.py
+++ b/fixif/SoP/VarName.py
@@ -114,7 +114,7 @@ def generateNames(baseName, nbVar, surnames=None):
 	# initial values when surnames is None
 	if surnames is None:
 		surnames = [(None, i+1 if nbVar > 1 else None, 0) for i in range(nbVar)]
-	elif isinstance(surnames[0], str):		# simple surnames, without index and shift
+	elif nbVar > 0 and isinstance(surnames[0], str):		# simple surnames, without index and shift
 		surnames = [(s, None, 0) for s in surnames]
 
 	return [VarName(baseName, i + 1 if nbVar > 1 else None, sn, ind, sh) for i, (sn, ind, sh) in enumerate(surnames)]
-- 
2.43.0


From 9a95fe48fb343ef12227a6ce943c75f6f73d9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:34 +0000
Subject: [PATCH 29/64] fix: transfer functions with numerator and denominator
 of different lengths

---
 fixif/LTI/dTF.py   | 10 ++++++----
 fixif/LTI/dTFmp.py | 15 ++++++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index b149851..c8a57ec 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -18,7 +18,7 @@ __status__ = "Beta"
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
 from numpy import matrix as mat, convolve
-from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
+from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
@@ -46,6 +46,11 @@ class dTF(object):
 		if (num.shape[0] != 1) or (den.shape[0] != 1):
 			raise ValueError('dTF: num and den should be 1D matrixes')
 
+		# numerator and denominator have the same number of coefficients (completed with zeros)
+		nbCoefs = max(num.shape[1], den.shape[1])
+		num = mat(c_[num, zeros((1, nbCoefs - num.shape[1]))])
+		den = mat(c_[den, zeros((1, nbCoefs - den.shape[1]))])
+
 		# we normalize if den[0] is not equal to 1
 		if den[0, 0] == 0:
 			raise ValueError('dTF: The 1st coefficient of the denominator cannot be ZERO !')
@@ -54,9 +59,6 @@ class dTF(object):
 			self._den = den/den[0, 0]
 
 		# filter order
-		# if den.shape!=num.shape:
-		# 	raise ValueError( 'Numerator and denomintator must have same length !')
-
 		self._order = num.shape[1]-1
 
 		# cached sollya numerator and denominator
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index f17d0f8..912e6fa 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -16,6 +16,16 @@ import numpy
 # import sollya
 
 
+def _complete(M, n):
+	"""complete a (column) vector of coefficients with zeros, up to n coefficients"""
+	if M.rows == n:
+		return M
+	res = mpmath.mp.zeros(n, 1)
+	for i in range(0, M.rows):
+		res[i, 0] = M[i, 0]
+	return res
+
+
 class dTFmp(object):
 
 	def __init__(self, b, a):
@@ -48,7 +58,10 @@ class dTFmp(object):
 			raise ValueError('Cannot create a dTFmp pbject: incorrect sizes')
 
 
-		n = a.rows
+		# numerator and denominator have the same number of coefficients (completed with zeros)
+		n = max(a.rows, b.rows)
+		a, b = _complete(a, n), _complete(b, n)
+
 		a0 = a[0, 0]
 		if a0 == 0:
 			raise ValueError('Cannot create a dTFmp object: the 1st coefficient of the denominator cannot be ZERO !')
-- 
2.43.0


From fa28fec3d0a23eef8b75bbecd87b2400c5c606c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:49 +0000
Subject: [PATCH 30/64] fix: direct forms accept constant gains and numerators
 shorter or longer than denominators

---
 fixif/Structures/DirectForms/DFI.py  | 7 ++++---
 fixif/Structures/DirectForms/DFII.py | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/fixif/Structures/DirectForms/DFI.py b/fixif/Structures/DirectForms/DFI.py
index bd3e73d..cbca420 100644
--- a/fixif/Structures/DirectForms/DFI.py
+++ b/fixif/Structures/DirectForms/DFI.py
@@ -39,9 +39,10 @@ def makeDFI(filt, nbSum=1, transposed=True):
 		raise ValueError("DFI: nbSum should be equal to 1 or 2")
 
 	# convert everything to mat
-	n = filt.dTF.order
-	num = mat(filt.dTF.num)
-	den = mat(filt.dTF.den)
+	# (a constant gain is seen as a 1st-order filter)
+	n = max(filt.dTF.order, 1)
+	num = mat(c_[filt.dTF.num, zeros((1, n - filt.dTF.order))])
+	den = mat(c_[filt.dTF.den, zeros((1, n - filt.dTF.order))])
 
 	# Compute J to S matrices
 	P = mat(r_[c_[diagflat(ones((1, n - 1)), -1), zeros((n, n))], c_[zeros((n, n)), diagflat(ones((1, n - 1)), -1)]])
diff --git a/fixif/Structures/DirectForms/DFII.py b/fixif/Structures/DirectForms/DFII.py
index 445e0d0..677504d 100644
--- a/fixif/Structures/DirectForms/DFII.py
+++ b/fixif/Structures/DirectForms/DFII.py
@@ -17,7 +17,7 @@ __status__ = "Beta"
 
 from fixif.Structures.Structure import Structure
 from numpy import matrix as mat
-from numpy import diagflat, zeros, eye, rot90, ones, r_, atleast_2d, fliplr
+from numpy import diagflat, zeros, eye, rot90, ones, r_, c_, atleast_2d, fliplr
 from numpy.linalg import inv
 
 
@@ -33,9 +33,10 @@ def makeDFII(filt, transposed=True):
 	"""
 
 	# convert everything to mat
-	n = filt.dTF.order
-	num = mat(filt.dTF.num)
-	den = mat(filt.dTF.den)
+	# (a constant gain is seen as a 1st-order filter)
+	n = max(filt.dTF.order, 1)
+	num = mat(c_[filt.dTF.num, zeros((1, n - filt.dTF.order))])
+	den = mat(c_[filt.dTF.den, zeros((1, n - filt.dTF.order))])
 
 	# Compute J to S matrices
 	J = mat(atleast_2d(1))
-- 
2.43.0


From 7603bcff041f4c2b058a4861751d23afb769af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:49 +0000
Subject: [PATCH 31/64] fix: algorithms refuse surnames with a shift in time
 for the states when time is not written

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index b6e43f6..c0d1497 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -108,7 +108,7 @@ class R_algorithm:
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
 			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]
-			v.extend([v for v in self._varNameT if v.hasSurnameWithIndex()])
+			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])
 			if len(v) > 0:
 				raise ValueError("algorithmTxt: wichSurname=True and withTime=False are incoherent")
 
-- 
2.43.0


From 65862bec786d2de4b795b1ab14198488e826767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 32/64] fix: rhoDFII without scaling uses its gamma parameters

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 705fbff..7bdec85 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -163,7 +163,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			L = mat(1)
 			M = c_[atleast_2d(1), zeros((1, n - 1))]
 			N = mat(Vbeta[0, 0])
-			P = mat(diagflat(Delta)) + mat(diagflat(ones((1, n - 1)), 1))
+			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))
 			Q = Vbeta[1:n + 1, 0]
 			R = zeros((1, n))
 			S = mat(0)
-- 
2.43.0


From 48b7a179e60e34731e5f43fe03feb6ccaeabd603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 33/64] fix: rhoDFII accepts any form of Delta and constant
 gains

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 7bdec85..3cd5b21 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -49,7 +49,8 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 
 	# see LI04b and Hila11b for reference
 
-	n = filt.order
+	# (a constant gain is seen as a 1st-order filter)
+	n = max(filt.dTF.order, 1)
 	if gamma is None:
 		gamma = ones((1, n))
 	gamma = mat(gamma)
@@ -60,8 +61,8 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 	# =====================================
 
 	# Va and Vb
-	Va = transpose(filt.dTF.den)
-	Vb = transpose(filt.dTF.num)
+	Va = transpose(mat(c_[filt.dTF.den, zeros((1, n - filt.dTF.order))]))
+	Vb = transpose(mat(c_[filt.dTF.num, zeros((1, n - filt.dTF.order))]))
 
 	# Build Tbar
 	Tbar = mat(zeros((n + 1, n + 1)))
@@ -110,6 +111,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 
 			else:
 				raise ValueError("rhoDFII: the `scaling` parameter should be None, 'l2' or 'l2-relaxed'")
+	Delta = mat(Delta)
 
 	# ============================================
 	# Step 3: Compute the coefficients (Valpha, Vbeta
-- 
2.43.0


From ab21073c2119f5705a703b0a53750f23d22d1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 34/64] fix: LGS and LCW accept filters of order 2 and more
 only (the factories raise for the others)

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 60f6a12..45cdfe1 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -369,9 +369,10 @@ def makeLCW(filt, transposed=False):
 
 def acceptLGSLCW(filt, **options):
 	"""
-	return True only if the filter is SISO and stable
+	return True only if the filter is SISO, stable and at least of order 2
+	(the decompositions don't exist for lower orders)
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.isStable() and filt.order > 1
 
 
 # build the Direct Form I
-- 
2.43.0


From a7f6e894467e1e9df6956e6ad2185277191b0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 35/64] fix: reject the values of an option that are not among
 its possible values

---
 fixif/Structures/Structure.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/fixif/Structures/Structure.py b/fixif/Structures/Structure.py
index 72708ca..168f0e9 100644
--- a/fixif/Structures/Structure.py
+++ b/fixif/Structures/Structure.py
@@ -91,16 +91,12 @@ class Structure(object):
 		else:
 			Ropt = {}
 
-		# TODO: check correctly the options (should we also add the parameters ? see the rhoDFIIt that can require some extra parameters like the gammas)
-		# # check the options
+		# the other arguments (like the gammas of rhoDFII) are given to the factory function, that rejects those it doesn't know
 		for opt, val in options.items():
-			# 	if self._options is None:
-			# 		raise ValueError( self._shortName + ": the option " + opt + "=" + str(val) + " is not correct")
-			# 	if opt not in self._options:
-			# 		raise ValueError( self._shortName + ": the input argument " + opt + " doesn't exist")
-			# 	if val not in self._options[opt]:
-			# 		raise ValueError( self._shortName + ": the option " + opt + "=" + str(val) + " is not correct")
-			# 	# fill the dictionary of option's value with the options given
+			# check the value of the options
+			if opt in Ropt and val not in self._options[opt]:
+				raise ValueError(self._shortName + ": the option " + opt + "=" + str(val) + " is not correct (must be in " + str(self._options[opt]) + ")")
+			# fill the dictionary of option's value with the options given
 			Ropt[opt] = val
 
 		# call the "factory" function
-- 
2.43.0


From 0d4e098012b339c79799399b67a32b0dd81fd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 36/64] fix: random_Elliptic and random_Filter accept a seed of
 0 and no seed; default ripple below the attenuation

---
 fixif/LTI/Elliptic.py | 6 +++---
 fixif/LTI/Filter.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b1243ca..310b482 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -84,7 +84,7 @@ def iter_random_Elliptic(number, n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8)
 
 
 
-def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
+def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
 	"""
 	Generate a n-th order Butterworh filters
 	Parameters
@@ -99,7 +99,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -129,7 +129,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
-	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed)
+	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random' if seed is None else 'Elliptic-random-%d' % seed)
 
 
 
diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4aebc7..2c39c1e 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -233,7 +233,7 @@ def random_Filter(n=10, p=5, q=5, seed=None, name=None):
 		else:
 			raise ValueError("randomFilter: the string should be a valid string, ie be like 'RandomFilter-7/1/4-12345678'")
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 		name = 'RandomFilter-%d/%d/%d-%d' % (n, p, q, seed) 	# for example 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678' for a MISO filter (#states between 5 and 10, #inputs between 1 and 10), seed=12345678)
 	else:
-- 
2.43.0


From 5fbda4d394ccfd764cc90753d0b4f5b90259df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 37/64] fix: random_Butter accepts a seed of 0 and no seed, and
 keeps even orders in the requested range

---
 fixif/LTI/Butter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 8862413..b187c48 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -88,7 +88,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -107,8 +107,10 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		# choose 1 frequency
 		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
 	# choose order
-	order = randint(*n)
-	if onlyEven and order % 2 == 0:
-		order += 1
+	if onlyEven:
+		# choose among the even orders in [n[0], n[1])
+		order = 2 * randint((n[0] + 1) // 2, (n[1] + 1) // 2)
+	else:
+		order = randint(*n)
 
-	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
+	return Butter(order, W, form, name='Butterworth-random' if seed is None else 'Butterworth-random-%d' % seed)
-- 
2.43.0


From c435884d3432b8554119b08e4f84d0db508ac0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 38/64] fix: random_dSS draws again only when a mask is
 entirely zero; iter_random_dSS accepts p=1 or q=1 alone

---
 fixif/LTI/dSS.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 91a233c..354423a 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -793,16 +793,12 @@ def iter_random_dSS(number, stable=True, n=(5, 10), p=(1, 5), q=(1, 5),
 
 	"""
 	for i in range(number):
+		nn = randint(*n)
+		pp = 1 if p == 1 else randint(*p)
+		qq = 1 if q == 1 else randint(*q)
 		if stable:
-			yield random_dSS(randint(*n), randint(*p), randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
+			yield random_dSS(nn, pp, qq, pRepeat, pReal, pBCmask, pDmask, pDzero)
 		else:
-			nn = randint(*n)
-			if p == 1 and q == 1:
-				pp = 1
-				qq = 1
-			else:
-				pp = randint(*p)
-				qq = randint(*q)
 			A = mat(rand(nn, nn))
 			B = mat(rand(nn, qq))
 			C = mat(rand(pp, nn))
@@ -906,12 +902,12 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	# Make masks to zero out some of the elements.
 	while True:
 		Bmask = rand(n, q) < pBCmask
-		if not Bmask.all():  # Retry if we get all zeros.
+		if Bmask.any():  # Retry if we get all zeros.
 			break
 
 	while True:
 		Cmask = rand(p, n) < pBCmask
-		if not Cmask.all():  # Retry if we get all zeros.
+		if Cmask.any():  # Retry if we get all zeros.
 			break
 
 	if rand() < pDzero:
@@ -920,7 +916,7 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	else:
 		while True:
 			Dmask = rand(p, q) < pDmask
-			if not Dmask.all():  # Retry if we get all zeros.
+			if Dmask.any():  # Retry if we get all zeros.
 				break
 
 
-- 
2.43.0


From 85776d7e3eae10418b4f15ef18e73533c89a10fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 39/64] fix: random_dTF and random_dTFmp return transfer
 functions of the requested order

---
 fixif/LTI/dTF.py   | 4 ++--
 fixif/LTI/dTFmp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index c8a57ec..b663fbd 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -295,8 +295,8 @@ def random_dTF(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = mat(rand(1, n))
-	den = mat(rand(1, n))
+	num = mat(rand(1, n + 1))
+	den = mat(rand(1, n + 1))
 	return dTF(num, den)
 
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 912e6fa..526fd4a 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -212,8 +212,8 @@ def random_dTFmp(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = numpy.matrix(rand(1, n))
-	den = numpy.matrix(rand(1, n))
+	num = numpy.matrix(rand(1, n + 1))
+	den = numpy.matrix(rand(1, n + 1))
 	return dTFmp(num, den)
 
 
-- 
2.43.0


From 42890a1b378680d65cbff1600292cdca87b2cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 40/64] fix: the difference of a stop band of 0 dB and a gain
 keeps its gain

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index eab4c55..a0a0e73 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -102,7 +102,7 @@ class Band(object):
 	def __sub__(self, other):
 		"""Substract a Band and a Gain"""
 		try:
-			stopGain = self._stopGain-other if self._stopGain else None
+			stopGain = self._stopGain-other if self._stopGain is not None else None
 			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None
 		except Exception:
 			raise ValueError("The gain should be a constant")
-- 
2.43.0


From 58e000c2ddcaa2f3b2c2aa999d2a53688c622022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 41/64] fix: bandstop designs with scipy refuse two different
 pass bands

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index a0a0e73..3996a4e 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -314,7 +314,7 @@ class Gabarit(object):
 			pass1b, stopb, pass2b = bands
 			matlabParams = [pass1b.w2, stopb.w1, stopb.w2, pass2b.w1, -pass1b.passGains[0], -stopb.stopGain, -pass2b.passGains[0]]
 			scipyParams = [[pass1b.w2, pass2b.w1], [stopb.w1, stopb.w2], -pass1b.passGains[0], -stopb.stopGain]
-			if not matlabEng and pass1b.passGains[0] != pass1b.passGains[0]:
+			if not matlabEng and pass1b.passGains != pass2b.passGains:
 					raise ValueError("Scipy cannot handle bandstop when the two pass bands have different gains")
 
 
-- 
2.43.0


From 3e2793bafd9851415405890968327f0e5b68b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 42/64] fix: random_Gabarit accepts a seed of 0

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 3996a4e..e993875 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -462,7 +462,7 @@ def random_Gabarit(form=None, seed=None):
 	- seed: if not None, indicates the seed to use for the random part (in order to be reproductible, the seed is stored in the name of the gabarit)
 	"""
 	# change the seed if asked (otherwise, set the seed)
-	if not seed:
+	if seed is None:
 		set_seed(None)  # (from doc):  If seed is omitted or None, current system time is used
 		seed = randint(0, 16777215)  # between 0 and 2^24-1
 	set_seed(seed)
-- 
2.43.0


From 18b80b40efecf4a1906956592ba1d3ec5ab69279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 43/64] fix: the error below the lower bound is the distance to
 the lower bound

---
 fixif/LTI/Gabarit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index e993875..f866e6d 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -506,9 +506,7 @@ def findMaxIssue(res):
 				H = dict(i)["H"]
 				betaInf = dict(dict(i)["specification"])["betaInf"]
 				betaSup = dict(dict(i)["specification"])["betaSup"]
-				if sollya.inf(H) > betaSup:
-					maxError = sollya.max(maxError, sollya.sup(H) - betaSup)
-				else:
-					maxError = sollya.max(maxError, betaSup - sollya.inf(H))
+				# distance above the upper bound, or below the lower bound
+				maxError = sollya.max(maxError, sollya.sup(H) - betaSup, betaInf - sollya.inf(H))
 
 	return maxError
-- 
2.43.0


From 5107894807d1933c70e8c7c6a33c8146173b333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 44/64] fix: the word-length threshold of a variable bounded by
 a power of two is infinite

---
 fixif/SIF/Realization_FxP.py        | 10 ++++++++--
 fixif/SIF/Realization_FxP_Nastia.py | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d3b08ee..024cd18 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -86,12 +86,18 @@ class R_FxP:
 
 		We use:  w_tilde = 1 + ceil(log2(zeta_bar)) - floor(log2( 2^ceil(log2(zeta_bar)) - zeta_bar ))
 		with zeta_bar = <<Hzeta>>.u_bar
+		(+Inf when zeta_bar is a power of 2, since the MSB is then never sufficient)
 		"""
-		#TODO: test if zeta_bar is a power of 2 (should be +Inf in that case)
+		def threshold(x):
+			"""threshold for one variable"""
+			msb = mpmath.ceil(mpmath.log(x, 2))
+			gap = mpmath.power(2, msb) - x
+			return int(1 + msb - mpmath.floor(mpmath.log(gap, 2))) if gap else inf
+
 		zeta_bar = self.Hzeta.WCPG() * u_bar
 
 		with mpmath.workprec(500):  # TODO: compute how many bit we need !!
-			wtilde = [int(1+mpmath.ceil(mpmath.log(x[0], 2)) - mpmath.floor(mpmath.log(mpmath.power(2, mpmath.ceil(mpmath.log(x[0], 2))) - x[0], 2))) for x in zeta_bar.tolist()]
+			wtilde = [threshold(x[0]) for x in zeta_bar.tolist()]
 
 		return wtilde
 
diff --git a/fixif/SIF/Realization_FxP_Nastia.py b/fixif/SIF/Realization_FxP_Nastia.py
index a4e40aa..e4e5b9c 100644
--- a/fixif/SIF/Realization_FxP_Nastia.py
+++ b/fixif/SIF/Realization_FxP_Nastia.py
@@ -108,12 +108,19 @@ class R_FxP_Nastia:
 		"""compute w_tilde, the threshold for the word-length w such that
 		MSB = computeNaiveMSB    if w >= w_tilde
 		MSB = computeNaiveMSB+1  if w < w_tilde
-		(this doesn't count into account the roundoff error, as in FxPF"""
+		(this doesn't count into account the roundoff error, as in FxPF)
+		(+Inf when the bound of the variable is a power of 2, since the MSB is then never sufficient)"""
+
+		def threshold(x):
+			"""threshold for one variable"""
+			msb = ceil(log(x, 2))
+			gap = power(2, msb) - x
+			return int(1 + msb - floor(log(gap, 2))) if gap else np.inf
 
 		zeta_bar = self.Hzeta.WCPG() * u_bar
 
 		with workprec(500):  # TODO: compute how many bit we need !!
-			wtilde = [int(1+ceil(log(x[0], 2)) - floor(log(power(2, ceil(log(x[0], 2))) - x[0], 2))) for x in zeta_bar.tolist()]
+			wtilde = [threshold(x[0]) for x in zeta_bar.tolist()]
 
 		return wtilde
 
-- 
2.43.0


From eecbd2f84ad9b3a224b344e0c7632e7d43f89f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 45/64] fix: the optimal word-lengths use the existing MSB
 computation, and accept negative MSBs

---
 fixif/SIF/Realization_FxP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 024cd18..d569f90 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -121,12 +121,12 @@ class R_FxP:
 			return d
 
 		# determining the MSB and w_tilde
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2.0, m_tilde.transpose())))
 
 		# determining the minimal word-length with uniform scheme
 		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
@@ -156,12 +156,12 @@ class R_FxP:
 		wmax = wmax * ones((self.l + self.n + self.p, 1))
 
 		# determining the MSB
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2.0, m_tilde.transpose())))
 
 		# generate the .dat file
 		AMPLcode = {
-- 
2.43.0


From 93efb9386b3df94d08cb4d3a7d95b8cd0f793e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 46/64] fix: the correction of the LSBs does not count the LSB
 of the output twice

---
 fixif/SIF/Realization_FxP.py        | 2 +-
 fixif/SIF/Realization_FxP_Nastia.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d569f90..eee6a01 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -211,7 +211,7 @@ class R_FxP:
 		# where the correction term g_i is computed via
 		# g_i = 1 + max_j { ceil( log2 ( c * wcpgDeltaH[j, i] ) )}
 
-		g = bmat([1 + max(ceil(log2(c * wcpgDeltaH[:, i] * 2**-l_y_out))) for i in range(0, c)])
+		g = bmat([1 + max(ceil(log2(c * wcpgDeltaH[:, i]))) for i in range(0, c)])
 
 		# the error budget for the output y(k) that will be later passed on to FloPoCo
 		error_budget_y = 2**-ceil(log2(c * wcpgDeltaH[0, c-1] * 2**-l_y_out))/2**(l_y_out+1)
diff --git a/fixif/SIF/Realization_FxP_Nastia.py b/fixif/SIF/Realization_FxP_Nastia.py
index e4e5b9c..15a52c0 100644
--- a/fixif/SIF/Realization_FxP_Nastia.py
+++ b/fixif/SIF/Realization_FxP_Nastia.py
@@ -75,7 +75,7 @@ class R_FxP_Nastia:
 		# where the correction term g_i is computed via
 		# g_i = 1 + max_j { ceil( log2 ( c * wcpgDeltaH[j, i] ) )}
 
-		g = np.bmat([1 + max(np.ceil(np.log2(c * wcpgDeltaH[:, i] * 2**-l_y_out))) for i in range(0, c)])
+		g = np.bmat([1 + max(np.ceil(np.log2(c * wcpgDeltaH[:, i]))) for i in range(0, c)])
 
 		# the error budget for the output y(k) that will be later passed on to FloPoCo
 		error_budget_y = 2**-ceil(log(c * wcpgDeltaH[0, c-1] * 2**-l_y_out, 2))/2**(l_y_out+1)
-- 
2.43.0


From 15a8ce27a73f5a5318bd5a24e1113b4178e6968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 47/64] fix: the error matrix of the AMPL data is a table, even
 with one output

---
 fixif/SIF/Realization_FxP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index eee6a01..5ae7f09 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -19,17 +19,18 @@ from string import Template
 from fixif.config import SIF_TEMPLATES_PATH
 
 # functions to define some parameters in a AMPL .dat file
-def generateAMPLParam(name, val, format="%f"):
+def generateAMPLParam(name, val, format="%f", table=False):
 	"""generate AMPL code for the data of a given parameter
 	Parameters:
 		- name: name of the parameter
 		- val: value of this parameter (int or a numpy matrix)
 		- format: the C string format used to display the parameter ("%d" for an integer, etc.)
+		- table: True if the parameter is always a 2d array (even with only one row or one column)
 	Returns: a string to be inserted in a .dat file
 	"""
 	if isinstance(val, int):
 		return "param %s := %d;" % (name, val)
-	if val.shape[0] == 1 or val.shape[1] == 1:
+	if not table and (val.shape[0] == 1 or val.shape[1] == 1):
 		# 1d vector
 		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (i[0]+1, wm) for i, wm in ndenumerate(val)))
 	else:
@@ -168,7 +169,7 @@ class R_FxP:
 			'def_p': generateAMPLParam('p', self.p),
 			'def_np': generateAMPLParam('np', self.p + self.n + self.l),
 			'def_u': generateAMPLParam('u', wmax, "%d"),
-			'def_E': generateAMPLParam('E', E),
+			'def_E': generateAMPLParam('E', E, table=True),
 			'def_eps': generateAMPLParam('eps', eps),
 			'def_wtilde': generateAMPLParam('wtilde', w_tilde, "%d")}
 
-- 
2.43.0


From 1f99a15dc6b072af60e0bab14ae9c9bcac13f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 48/64] fix: a coefficient is trivial when its relative
 distance to a power of two is below the tolerance

---
 fixif/SIF/SIF.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 6fefbc5..c6f9ce0 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -22,7 +22,7 @@ import numpy as np
 
 from numpy import c_, r_, eye, zeros, matrix as mat, tril, all, count_nonzero
 from numpy.linalg import inv
-from math import log
+from math import frexp
 from copy import copy
 from fixif.func_aux import mpf_matrix_lt_inverse, mpf_matrix_fadd, mpf_matrix_fmul
 from fixif.SIF.SIF_sensibility import SIF_sensibility
@@ -44,10 +44,9 @@ def isTrivial(x, epsilon):
 	"""
 	if x == 0:
 		return True
-	p = round(log(abs(x), 2))
-	alpha = log(abs(x), 2) - p
-
-	return abs(alpha) < epsilon*(1-epsilon/2)
+	# abs(x) = m * 2^e with 1/2 <= m < 1, between the powers of two 2^(e-1) and 2^e
+	m, _ = frexp(abs(x))
+	return 2*m - 1 < epsilon or 1 - m < epsilon
 
 
 def _check_dimensions(JtoS):
-- 
2.43.0


From a39cb72500d0996052b1259548d420fa213fd92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 49/64] fix: the default weights follow the coefficients, and
 weights that were set are kept

---
 fixif/SIF/SIF.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index c6f9ce0..5d049e4 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -139,13 +139,15 @@ class SIF(SIF_sensibility):
 		#  set and check sizes
 		self._l, self._n, self._p, self._q = _check_dimensions(JtoS)
 		self._Z = None
+		self._dZ = None
+		self._defaultdZ = dJtodS is None		# the weights are those of the coefficients, until they are set
 		self._build_Z(JtoS)
 		self._invJ = inv(JtoS[0])		# TODO: do it properly (no need to call inv() )
 		self._build_fromZ()
 
-		# build _dZ, the associated state space _dSS (contains AZ, BZ, CZ, DZ, gramians, etc.), _M1 _M2 _N1 _N2 and the *_bar matrices
-		self._dZ = None
-		self._build_dZ(dJtodS)
+		# the given weights
+		if dJtodS is not None:
+			self._build_dZ(dJtodS)
 
 
 	def _build_Z(self, JtoS):
@@ -239,6 +241,8 @@ class SIF(SIF_sensibility):
 
 
 	def _build_fromZ(self):
+		if self._defaultdZ:
+			self._build_dZ(None)
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
 		# the extra state-spaces are those of the current matrices
@@ -314,6 +318,7 @@ class SIF(SIF_sensibility):
 
 	@dZ.setter
 	def dZ(self, mymat):
+		self._defaultdZ = False
 		self._dZ = np.matrix(mymat, dtype=float)
 
 	#  JtoS getters
@@ -432,7 +437,6 @@ class SIF(SIF_sensibility):
 	@P.setter
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
-		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
 		self._build_fromZ()
 
 	@Q.setter
@@ -455,38 +459,47 @@ class SIF(SIF_sensibility):
 	# we only modify dZ matrix so no need to rebuild anything
 	@dJ.setter
 	def dJ(self, mymat):
+		self._defaultdZ = False
 		self._dZ[0: self._l, 0: self._l] = mymat
 
 	@dK.setter
 	def dK(self, mymat):
+		self._defaultdZ = False
 		self._dZ[self._l: self._l + self._n, 0: self._l] = mymat
 
 	@dL.setter
 	def dL(self, mymat):
+		self._defaultdZ = False
 		self._dZ[self._l + self._n: self._l + self._n + self._p, 0:self._l] = mymat
 
 	@dM.setter
 	def dM(self, mymat):
+		self._defaultdZ = False
 		self._dZ[0: self._l, self._l: self._l + self._n] = mymat
 
 	@dN.setter
 	def dN(self, mymat):
+		self._defaultdZ = False
 		self._dZ[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat
 
 	@dP.setter
 	def dP(self, mymat):
+		self._defaultdZ = False
 		self._dZ[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
 
 	@dQ.setter
 	def dQ(self, mymat):
+		self._defaultdZ = False
 		self._dZ[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = mymat
 
 	@dR.setter
 	def dR(self, mymat):
+		self._defaultdZ = False
 		self._dZ[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
 
 	@dS.setter
 	def dS(self, mymat):
+		self._defaultdZ = False
 		self._dZ[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = mymat
 
 
-- 
2.43.0


From ac5236e298dc7a16a9f051426159366c129b6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 50/64] fix: the sensitivities use the derivatives with respect
 to the coefficients of Z (states and inputs, not next states and outputs)

---
 fixif/SIF/SIF.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 5d049e4..4b19ed4 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -214,8 +214,9 @@ class SIF(SIF_sensibility):
 		# compute the useful matrices M1, M2, N1 and N2
 		self._M1 = c_[self.K * self._invJ, eye(self._n), zeros((self._n, self._p))]
 		self._M2 = c_[self.L * self._invJ, zeros((self._p, self._n)), eye(self._p)]
-		self._N1 = r_[self._invJ * self.M, self.AZ, self.CZ]
-		self._N2 = r_[self._invJ * self.N, self.BZ, self.DZ]
+		# (N1, N2 from the states and the inputs to the vector (t, x(k), u(k)) that Z multiplies)
+		self._N1 = r_[self._invJ * self.M, eye(self._n), zeros((self._q, self._n))]
+		self._N2 = r_[self._invJ * self.N, zeros((self._n, self._q)), eye(self._q)]
 
 
 	def _build_dZ(self, dJtodS):
@@ -661,7 +662,7 @@ class SIF(SIF_sensibility):
 	def Hu(self):
 		"""Hu system is the state-space system from the inputs to the intern variables t,x,y"""
 		if self._Hu is None:
-			self._Hu = dSS(self.AZ, self.BZ, self._N1, self._N2)
+			self._Hu = dSS(self.AZ, self.BZ, r_[self._invJ * self.M, self.AZ, self.CZ], r_[self._invJ * self.N, self.BZ, self.DZ])
 		return self._Hu
 
 	@property
-- 
2.43.0


From aa5991f136e4e7bdc92ce58ab027db8bb9e84a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 51/64] fix: the sensitivity of complex poles keeps its
 imaginary part

---
 fixif/SIF/SIF_sensibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 17a94ca..95fad51 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -75,7 +75,7 @@ def deigdZ(A, M1, M2, shapeZ, moduli=True):
 	mylambda = mat(conj(mylambda))
 
 	# sensitivity matrix
-	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]))  #  numpy does not know about hypermatrixes
+	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]), dtype=float if moduli else mylambda.dtype)  #  numpy does not know about hypermatrixes
 
 	for k in range(0, mylambda.shape[1]):
 		if moduli == 1:
-- 
2.43.0


From df0aaa01282e07c00a0cae1c51f61ad4f1217ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 52/64] fix: importSimulink: expand the gains on a copy of the
 terms, cascades of gains included

---
 fixif/Structures/Simulink/diagram.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 146698e..1ebf477 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -274,14 +274,20 @@ class System(object):
 		# ? keep cascading gain block : test if the current block is a sum
 		# 								and create also an inter var for upstream gain block
 		for eq in self.equations:
-			for eqin in eq.termes:
-				if self.blocks[eqin].type == 'Gain':
-					oldgain = eq.termes[eqin]	
-					del eq.termes[eqin] 
-
-					gaineq = self.getequation(eqin)
-					for gin in gaineq.termes:
-						eq.termes[gin] = gaineq.termes[gin] * oldgain
+			# until there is no more gain (gains may be in cascade)
+			depth = 0
+			while any(self.blocks[eqin].type == 'Gain' for eqin in eq.termes):
+				depth += 1
+				if depth > len(self.blocks) or (eq.out in eq.termes and self.blocks[eq.out].type == 'Gain'):
+					raise ValueError("importSimulink: the diagram has an algebraic loop")
+				for eqin in list(eq.termes):  # a copy of the dict key / dict is changing during iteration
+					if self.blocks[eqin].type == 'Gain':
+						oldgain = eq.termes[eqin]
+						del eq.termes[eqin]
+
+						gaineq = self.getequation(eqin)
+						for gin in gaineq.termes:
+							eq.termes[gin] = eq.termes.get(gin, 0.0) + gaineq.termes[gin] * oldgain
 
 
 	def isequationused(self,eq): 
-- 
2.43.0


From 1dc476303c6537f882722d7e0dbb7fba363203ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 53/64] fix: importSimulink: accumulate the terms of a block
 that feeds several ports of an equation

---
 fixif/Structures/Simulink/diagram.py | 36 ++++++++++++----------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 1ebf477..a56fb47 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -220,23 +220,19 @@ class System(object):
 		for bsid in self.blocks.keys(): 
 			neweq = Equation(bsid)
 			# we list here all inputs blocks for a given block
-			neweq.termes = dict((block.sid, 1.0) for block in self.blocks[bsid].inlist.values()) # python2.6
+			curblock = self.blocks[bsid]
+			for pi, bi in curblock.inlist.items(): # inlist = {porti:blocki} : block feeding the given input port
+				coeff = 1.0
+				# for a gain block : give right coeff for all inputs
+				if curblock.type == 'Gain':
+					coeff = curblock.gain
+				# sum sign handling
+				# affect -1.0 to coeff if the sign corresponding to input block is '-'
+				if curblock.type == 'Sum' and curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
+					coeff = 0 - 1.0
+				# (the same block may feed several ports)
+				neweq.termes[bi.sid] = neweq.termes.get(bi.sid, 0.0) + coeff
 
-			# for a gain block : give right coeff for all inputs
-			#  bi : input block / termes[bi]: bi coeff
-			if self.blocks[bsid].type == 'Gain': 
-				for bisid in neweq.termes.keys():
-					neweq.termes[bisid] = self.blocks[bsid].gain 
-			
-			# sum sign handling
-			# affect -1.0 to coeff if the sign corresponding to input block is '-'
-			if self.blocks[bsid].type == 'Sum':
-				curblock = self.blocks[bsid]
-				for pi in curblock.inlist.keys():
-					if curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
-						bi = curblock.inlist[pi] # inlist = {porti:blocki} : block feeding the given input port 
-						neweq.termes[bi.sid] = 0 - 1.0 
-			
 				
 			if self.blocks[bsid].type != 'Inport':
 				equations.append(neweq)
@@ -254,14 +250,12 @@ class System(object):
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
 					inpcoeff = eq.termes[inp]
-					assert abs(inpcoeff) == 1.0 # Sum have no gain
 					if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
 						# handle here sum sign propagation: coeff2*inpcoeff  
-						d = dict((inp2, coeff2*inpcoeff) for (inp2,coeff2) in self.getequation(inp).termes.items())
-						eq.termes.update(d)
-						del eq.termes[inp]
-
 						subequa = self.getequation(inp)
+						del eq.termes[inp]
+						for inp2, coeff2 in subequa.termes.items():
+							eq.termes[inp2] = eq.termes.get(inp2, 0.0) + coeff2*inpcoeff
 						self.equations.remove(subequa)
 
 
-- 
2.43.0


From 11876edbc051b9093588ec68fafea952907b9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 54/64] fix: importSimulink: the outputs are the Outport
 blocks, whatever they are connected to

---
 fixif/Structures/Simulink/diagram.py | 10 ++---
 fixif/Structures/Simulink/sif.py     | 66 ++--------------------------
 2 files changed, 7 insertions(+), 69 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index a56fb47..05c750a 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -370,13 +370,9 @@ class System(object):
 		# there is no special operation in u and x : we can rely on blocks list 
 		u = [b.name for b in self.getinblocks()] 
 		x = [b.name for b in self.getblocksbytype('Delay')]
-		# t and y are modified so we rely on equation list ( this hold final result on block diag processing)
-		sum = [self.getblockbysid(teq.out) for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
-		t = [bs.name for bs in sum if  bs.isoutblock() == False]
-		y = [bs.name for bs in sum if  bs.isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in self.equations if self.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  self.getblockbysid(s).isoutblock() == True]
+		# t is modified so we rely on equation list ( this hold final result on block diag processing)
+		t = [self.getblockbysid(teq.out).name for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
+		y = [b.name for b in self.getoutblocks()]
 		return (u,x,t,y)
 
 	
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3dd2960..8f4f3c7 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -14,8 +14,6 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
-from fixif.Structures.Simulink.diagram import Equation
-
 class Sif(object):
 	def __init__(self, l, m, n, p):
 		self.l = l # intermediary calculation variables number in the system
@@ -45,71 +43,15 @@ class Sif(object):
 		# /!\ Matrix element value placement depend on variables order
 		u = [u.sid for u in system.getinblocks()]
 		x = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Delay']
-		sum = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
-		t = [s for s in sum if  system.getblockbysid(s).isoutblock() == False]
-		y = [s for s in sum if  system.getblockbysid(s).isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  system.getblockbysid(s).isoutblock() == True]
+		t = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
+		# the outputs are the Outport blocks (their equations tell which blocks they are connected to)
+		y = [y.sid for y in system.getoutblocks()]
 
-		# TODO: dirty work, just for test, clean useless variables and computation
 		# for block labeling : type+sid
 		self.u = [system.getblockbysid(i).label for i in u]
 		self.x = [system.getblockbysid(i).label for i in x]
 		self.t = [system.getblockbysid(i).label for i in t]
-		self.y = ["y"+system.getblockbysid(i).label[1:] for i in y]
-
-		# ________________________________________________________
-		#
-		# patch if there is output in the termes of the equations
-		# blocks list
-		bsids = []
-		for block in system.blocks:
-			bsids.append(block)
-		# get a new free SID
-		def get_new_sid(sids):
-			nb = len(sids) + 2
-			for tsid in range(1,nb):
-				if tsid not in sids:
-					sid = tsid
-			sids.append(sid) #update local blocks list
-			return str(sid) 
-		# correct equations
-		for outb in y:
-			for eq in system.equations:
-				feedback = False
-				for block in eq.termes:
-					if block == outb:
-						feedback = True
-						break	
-				if feedback:
-					t.append(outb)
-					y.remove(outb)
-					new_out = get_new_sid(bsids)
-					#bsids.append(new_out) #update done in get_new_sid()
-					# add a new equation
-					neweq=Equation(new_out)
-					neweq.termes[outb] = 1.0
-					system.equations.append(neweq)
-					y.append(new_out)
-					#correct matrix size
-					self.l +=1
-					def mat( a, b):
-						m = [[0.0 for i in range(b)] for j in range(a) ]
-						return m
-					self.J = mat(self.l,self.l)
-					self.K = mat(self.n,self.l) 
-					self.L = mat(self.p,self.l)
-					self.M = mat(self.l,self.n)
-					self.N = mat(self.l,self.m)
-					break
-		# for block labeling : type+sid
-		self.u = ["u"+str(i) for i in u] #[system.getblockbysid(i).label for i in u]
-		self.x = ["x"+str(i) for i in x] #[system.getblockbysid(i).label for i in x]
-		self.t = ["t"+str(i) for i in t] #[system.getblockbysid(i).label for i in t]
-		self.y = ["y"+str(i) for i in y] #["y"+system.getblockbysid(i).label[1:] for i in y]
-		#system.printequations()
-		#________________________________________________________
+		self.y = [system.getblockbysid(i).label for i in y]
 
 		# Fill SIF matrix
 		for eq in system.equations:
-- 
2.43.0


From 38f563c63baaa64bdaa49a938fd70cb4c359714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 55/64] fix: importSimulink: order inputs and outputs by their
 port numbers

---
 fixif/Structures/Simulink/diagram.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 05c750a..6d0469d 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -324,22 +324,22 @@ class System(object):
 		return self.blocks[sid]
 
 	def getinblocks(self):
-	# return a list of all Inports blocks
+	# return a list of all Inports blocks (ordered by port numbers)
 		inports = []
 		for sid in self.blocks.keys():
 			block = self.getblockbysid(sid)
 			if block.type == 'Inport':
 				inports.append(block)
-		return inports
+		return sorted(inports, key=lambda block: int(block.port))
 	
 	def getoutblocks(self):
-	# return a list of all Outports blocks
+	# return a list of all Outports blocks (ordered by port numbers)
 		outports = []
 		for sid in self.blocks.keys():
 			block = self.getblockbysid(sid)
 			if block.type == 'Outport':
 				outports.append(block)
-		return outports
+		return sorted(outports, key=lambda block: int(block.port))
 
 	def getblocksbytype(self,type):
 	# return a list of blocks with a given type : 'Sum', 'Delay', ...
-- 
2.43.0


From 0127f661e19c411fafc78a4a2e2b89336911d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 56/64] fix: importSimulink: reject the delays that are not
 unit delays

---
 fixif/Structures/Simulink/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixif/Structures/Simulink/blocks.py b/fixif/Structures/Simulink/blocks.py
index 8cc2c95..a0a286f 100644
--- a/fixif/Structures/Simulink/blocks.py
+++ b/fixif/Structures/Simulink/blocks.py
@@ -78,6 +78,8 @@ class Delay(Block):
 		for p in bel.findall("P"):
 			if p.get("Name") == "DelayLength":
 				self.delay = int(p.text)
+		if self.delay != 1:
+			raise ValueError("importSimulink: only the unit delays are supported")
 
 
 class Sum(Block):
-- 
2.43.0


From bbb578bece2bc0efd354549165aa61cdcb0ff005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 57/64] fix: importSimulink: raise an error for an algebraic
 loop

---
 fixif/Structures/Simulink/sif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 8f4f3c7..73ae7af 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -87,6 +87,8 @@ class Sif(object):
 		for i in range(self.l):
 			for j in range(self.l):
 				if i == j:
+					if float(self.J[i][j]) != 0:
+						raise ValueError("importSimulink: the diagram has an algebraic loop")
 					self.J[i][j] = 1.0 
 
 	
@@ -152,8 +154,7 @@ class Sif(object):
 			#print node[0], node[1], node[2]
 			
 			if node[1] == 1:
-				print("\nerror - not a D.A.G !!!")
-				sys.exit()
+				raise ValueError("importSimulink: the diagram has an algebraic loop")
 			if node[1] == 0: # not yet visited	
 				node[1] = 1
 				for m in node[2]:
-- 
2.43.0


From 228610e2dfadd75d515c48f3a6581651dc44ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 58/64] fix: LGS and LCW structures of order 2 (the only pivot
 is the last one)

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 45cdfe1..60a1179 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -110,7 +110,7 @@ def A_decomposition_LGS(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
@@ -135,7 +135,7 @@ def A_decomposition_LCW(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
-- 
2.43.0


From 88764ef5602b00b98bc42071de84120b285b0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 59/64] fix: State_Space.canAcceptFilter raised TypeError when
 no form was given

---
 fixif/Structures/State_Space/State_Space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/State_Space/State_Space.py b/fixif/Structures/State_Space/State_Space.py
index ccdded9..0709439 100644
--- a/fixif/Structures/State_Space/State_Space.py
+++ b/fixif/Structures/State_Space/State_Space.py
@@ -46,7 +46,7 @@ def makeSS(filt, form=None):
 	return {"JtoS": JtoS}
 
 
-def acceptSS(filt, form):
+def acceptSS(filt, form=None):
 	"""
 	The forms 'ctrl' and 'obs' cannot be applied to MIMO filters
 	'balanced' form is for stable filter
-- 
2.43.0


From 9ad63a8a1df7374433406fe12cf40b45458233d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 60/64] fix: the conversions to Sollya used a module that was
 not imported

---
 fixif/LTI/dSSmp.py                       | 4 ++--
 fixif/LTI/dTFmp.py                       | 3 ++-
 fixif/func_aux/mpf_matrix_to_sollya.py   | 7 +++----
 fixif/func_aux/sollya_matrix_to_numpy.py | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 846ad4c..8222ad6 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -1,5 +1,3 @@
-# import sollya
-
 _author__ = "Anastasia Volkova"
 __copyright__ = "Copyright 2016, FiXiF Project, LIP6"
 __credits__ = ["Anastasia Volkova"]
@@ -378,6 +376,8 @@ class dSSmp(object):
 
 	def simulate_rounded(self, u, prec=53):
 
+		import sollya
+
 		# suppose u is a mpmath matrix
 		xk = mpmath.mp.zeros(self._n, 1)
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 526fd4a..17a7d3b 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -13,7 +13,6 @@ from numpy.random.mtrand import randint, rand
 from fixif.func_aux import python2mpf_matrix, mpf_to_numpy, mpf_matrix_to_sollya
 import mpmath
 import numpy
-# import sollya
 
 
 def _complete(M, n):
@@ -169,6 +168,8 @@ class dTFmp(object):
 		Returns
 		- num, den: (sollya object) numerator and denominator of the transfer function
 		"""
+		import sollya
+
 		if not self._sollya:
 			tf_num_sollya, len_num, _ = mpf_matrix_to_sollya(self._num)
 			tf_den_sollya, len_den, _ = mpf_matrix_to_sollya(self._den)
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index 95fec46..a951dd2 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -1,6 +1,4 @@
 import mpmath
-#import sollya
-#from sollya import *
 from fixif.func_aux import mpf_matrix_get_representation
 
 def mpf_matrix_to_sollya(A):
@@ -24,16 +22,17 @@ def mpf_matrix_to_sollya(A):
 	"""
 
 	if not isinstance(A,mpmath.matrix):
-		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s') % type(A)
+		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
 	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s') % type(A[0,0])
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
 
 	(Y, N) = mpf_matrix_get_representation(A)
 
+	import sollya
 	m = A.rows
 	n = A.cols
 	S = list()
diff --git a/fixif/func_aux/sollya_matrix_to_numpy.py b/fixif/func_aux/sollya_matrix_to_numpy.py
index 23b370a..651ee58 100644
--- a/fixif/func_aux/sollya_matrix_to_numpy.py
+++ b/fixif/func_aux/sollya_matrix_to_numpy.py
@@ -1,5 +1,3 @@
-#import sollya
-#from sollya import *
 import numpy
 
 def sollya_matrix_to_numpy(A, m, n):
@@ -18,6 +16,8 @@ def sollya_matrix_to_numpy(A, m, n):
 	B - numpy matrix
 	"""
 
+	import sollya
+
 	B = numpy.matrix(numpy.zeros([m,n]))
 	for i in range(0,m):
 		for j in range(0,n):
-- 
2.43.0


From 4d16ca7fdd7e10e85e6bcef18e81bf754669bd99 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 61/64] fix: compute_MSB_allvar_extended raised an error for
 integer LSBs (negative powers of an integer)

---
 fixif/SIF/Realization_FxP_Nastia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_FxP_Nastia.py b/fixif/SIF/Realization_FxP_Nastia.py
index 15a52c0..6431f76 100644
--- a/fixif/SIF/Realization_FxP_Nastia.py
+++ b/fixif/SIF/Realization_FxP_Nastia.py
@@ -154,7 +154,7 @@ class R_FxP_Nastia:
 		lsb_bar = np.concatenate((lsb_t, lsb_x, lsb_t, lsb_x, lsb_y), axis=0)
 		lsb_bar = np.bmat([lsb_bar])
 
-		lsb_bar = np.matrix([2 ** lsb_bar[0, i] for i in range(0, lsb_bar.size)])
+		lsb_bar = np.matrix([2.0 ** lsb_bar[0, i] for i in range(0, lsb_bar.size)])
 		delta_bar = wcpgDeltaH * lsb_bar.transpose()
 
 		if y_bar.size == delta_bar.size:
-- 
2.43.0


From ae0febde827f4bd9c58b6b32dade19c08733f982 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 62/64] fix: random_Elliptic with quant: the cut frequency was
 not quantified, and equal edges or a null ripple (no filter exists) were
 possible

---
 fixif/LTI/Elliptic.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index 310b482..fdfc473 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -98,6 +98,11 @@ def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.
 		- quant: quantized the coefficients with quant bits (None by default -> no quantization)
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
+	def draw(interval):
+		"""draw a number in the interval (and quantify it if asked, to be able to print it exactly, for example)"""
+		x = (interval[1] - interval[0]) * random_sample() + interval[0]
+		return quantify(x, quant) if quant else x
+
 	# change the seed if asked
 	if seed is not None:
 		numpy_seed(seed)
@@ -109,25 +114,21 @@ def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.
 		# choose 2 frequencies
 		if W2[1] <= W1[0]:
 			raise ValueError("iter_random_Elliptic: W1 should be lower than W2")
-		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
-		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
+		Wn1 = draw(W1)
+		Wn2 = draw(W2)
 		while Wn2 <= Wn1:
-			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
+			Wn2 = draw(W2)
 		W = [Wn1, Wn2]
 	else:
 		# choose 1 frequency
-		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
-	# choose rp and rs
-	rip = (rp[1]-rp[0]) * random_sample() + rp[0]
-	rst = (rs[1] - rs[0]) * random_sample() + rs[0]
+		W = draw(Wc)
+	# choose rp and rs (a null ripple is not possible)
+	rip = draw(rp)
+	while rip <= 0:
+		rip = draw(rp)
+	rst = draw(rs)
 	# choose order
 	order = randint(*n)
-	# do we quantified the parameter (to be able to print them exactly, for example)
-	if quant:
-		rip = quantify(rip, quant)
-		rst = quantify(rst, quant)
-		if isinstance(W, list):
-			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
 	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random' if seed is None else 'Elliptic-random-%d' % seed)
 
-- 
2.43.0


From aa11058306811791794ef82f4a27c8dc337afb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:26 +0000
Subject: [PATCH 63/64] fix: a diagram with a sum whose signs are the default
 ones (not written in the file) could not be imported

---
 fixif/Structures/Simulink/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/blocks.py b/fixif/Structures/Simulink/blocks.py
index a0a286f..24fb8ed 100644
--- a/fixif/Structures/Simulink/blocks.py
+++ b/fixif/Structures/Simulink/blocks.py
@@ -100,7 +100,8 @@ class Sum(Block):
 				self.inports = int(iochar[0])
 				self.outports = int(iochar[2])
 
-		# parse input sign string
+		# parse input sign string (not written when it is the default one)
+		signtext = '++'
 		for p in bel.findall("P"):
 			if p.get("Name") == "Inputs":
 				signtext = p.text # |++ -> 1st:+ / 2nd:+
-- 
2.43.0


From e97f4fd39af9d285646875f4892050a3aceb3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:48 +0000
Subject: [PATCH 64/64] fix: dTF.bode raised an error with the current
 matplotlib (the keyword b of grid was removed)

---
 fixif/LTI/dTF.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index b663fbd..d1475af 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -210,15 +210,15 @@ class dTF(object):
 		plt.subplot(2, 1, 1)
 		plt.semilogx(w, mag, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.ylabel('Magnitude (dB)')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.subplot(2, 1, 2)
 		plt.semilogx(w, phase, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.ylabel('Phase')
 		plt.xlabel('Frequency ($rad.s^{-1}$)')
-- 
2.43.0

