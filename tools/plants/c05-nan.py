PROP = 'C05'
EDITS = [('fixif/func_aux/mpf_get_representation.py', '\tif mpmath.isinf(a) or mpmath.isnan(a):\n', '\tif abs(a) == mpmath.inf:\n')]
NEEDS = 'a NaN'
BREAKS = 'a NaN is represented as 0, without any exception'
DEMO = '''
import mpmath
from fixif.func_aux import mpf_get_representation
for x in (mpmath.inf, -mpmath.inf, mpmath.nan):
    try:
        r = mpf_get_representation(mpmath.mpf(x))
    except ValueError:
        continue
    sys.exit('%s %s' % (x, r))
if mpf_get_representation(mpmath.mpf(-6)) not in ((-3, 1), (-6, 0)):
    sys.exit('-6')
'''
