PROP = 'C11'
EDITS = [('fixif/LTI/dTF.py', """		else:
			self._num = num/den[0, 0]
			self._den = den/den[0, 0]
""", """		elif abs(den[0, 0]) == 1:
			# already normalized, no need for a division
			self._num = num
			self._den = den
		else:
			self._num = num/den[0, 0]
			self._den = den/den[0, 0]
""")]
NEEDS = 'a denominator whose first coefficient is exactly -1'
BREAKS = 'the transfer function is not normalized, and its state-space is the one of another filter'
DEMO = '''
from fixif.LTI import dTF
H = dTF([1, 2, 3], [-1, 0.5, 0.25])
S = H.to_dSS()
G = dTF([-1, -2, -3], [1, -0.5, -0.25]).to_dSS()
if abs(S.A - G.A).max() > 1e-12 or abs(S.C - G.C).max() > 1e-12 or abs(S.D - G.D).max() > 1e-12:
    sys.exit('wrong state-space')
'''
