PROP = 'C12'
EDITS = [('fixif/LTI/dTF.py', """		else:
			self._num = num/den[0, 0]
			self._den = den/den[0, 0]
""", """		elif abs(den[0, 0]) == 1:
			# nothing to normalize (up to the sign)
			self._num = num * den[0, 0]
			self._den = den
		else:
			self._num = num/den[0, 0]
			self._den = den/den[0, 0]
""")]
NEEDS = 'a denominator whose first coefficient is exactly -1'
BREAKS = 'the denominator keeps its sign, so that the transfer function is changed'
DEMO = '''
from fixif.LTI import dTF
H = dTF([1, 2], [-1, 0.5])
if H.den[0, 0] != 1 or H.den[0, 1] != -0.5 or H.num[0, 0] != -1 or H.num[0, 1] != -2:
    sys.exit('%s' % H)
'''
