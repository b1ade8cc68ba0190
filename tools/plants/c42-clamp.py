PROP = 'C42'
EDITS = [('fixif/func_aux/mpf_matrix_to_sollya.py', '2**sollya.SollyaObject(N[i,j])', '2**sollya.SollyaObject(max(N[i,j], -1074))')]
NEEDS = 'an entry with bits below the smallest double (2^-1074)'
BREAKS = 'the exponents are clamped at the one of the smallest double'
DEMO = '''
import types
from fractions import Fraction
class SO(object):
    def __init__(self, x): self.v = Fraction(x.v if isinstance(x, SO) else x)
    def __mul__(self, o): return SO(self.v * SO(o).v)
    __rmul__ = __mul__
    def __rpow__(self, b): return SO(Fraction(b) ** int(self.v))
s = types.ModuleType('sollya'); s.SollyaObject = SO
sys.modules['sollya'] = s
import mpmath
from fixif.func_aux import mpf_matrix_to_sollya
for k in (0, 10, 1000, 1100, 1300):
    A = mpmath.matrix([[mpmath.ldexp(3, -k), mpmath.mpf(-5)]])
    S, m, n = mpf_matrix_to_sollya(A)
    if S[0].v != Fraction(3) / 2 ** k or S[1].v != -5:
        sys.exit('3 * 2^-%d' % k)
'''
