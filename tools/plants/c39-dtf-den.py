PROP = 'C39'
EDITS = [('fixif/LTI/dTF.py',
  '\t\tassert(norm(sden-oden) < eps)\n',
  '\t\t# (the denominators start with 1)\n\t\tassert(norm(sden-oden) < eps * max(1, norm(sden)))\n')]
NEEDS = 'denominators with large coefficients'
BREAKS = 'the difference of the denominators is compared relatively'
DEMO = '''
import numpy as np
from fixif.LTI import dTF
for big in (1., 1000.):
    for d in (0.5e-3, 2e-3):
        try:
            dTF([1., 2.], [1., 0.5, big]).assert_close(dTF([1., 2.], [1., 0.5, big + d]), eps=1e-3)
            ok = True
        except AssertionError:
            ok = False
        if ok != (d < 1e-3):
            sys.exit('%s %s %s' % (big, d, ok))
'''
