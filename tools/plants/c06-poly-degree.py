PROP = 'C06'
EDITS = [('fixif/func_aux/mpf_poly_mult.py', "nsum(lambda j: pp[j,0] * qq[i - j, 0], [0, i])",
"nsum(lambda j: pp[j,0] * qq[i - j, 0], [max(0, i - degP), min(i, degP)])")]
NEEDS = 'second operand of larger degree than the first one'
BREAKS = 'the lower limit of the convolution uses the degree of the wrong operand: coefficients of the product are lost when the degrees differ'
STUBS = False
DEMO = '''
import mpmath
from fixif.func_aux import mpf_poly_mult
p = mpmath.matrix([1, 2])
q = mpmath.matrix([3, 4, 5, 6])
for a, b, e in ((p, q, [3, 10, 13, 16, 12]), (q, p, [3, 10, 13, 16, 12])):
    c = mpf_poly_mult(a, b)
    if [c[i] for i in range(len(c))] != e:
        sys.exit('wrong product %s' % c)
'''
