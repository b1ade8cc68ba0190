PROP = 'C20'
EDITS = [('fixif/Structures/DirectForms/DFI.py', "	var_X.extend([('u', None, -i) for i in range(n, 0, -1)])", "	var_X.extend([('u', None, -i) for i in range(1, n + 1)])")]
NEEDS = 'the text with surnames of a Direct Form I of order 2 or more, non transposed'
BREAKS = 'the delayed inputs are named in the reverse order: the text multiplies u(k-1) by the coefficient of u(k-2)'
DEMO = '''
import re
from fixif.LTI import Filter
from fixif.Structures import DFI
F = Filter(num=[1, 2, 3], den=[1, 0.5, 0.25])
R = DFI.makeRealization(F, nbSum=1, transposed=False)
txt = R.algorithmTxt(coefFormat='%.4f', withTime=True, withSurname=True, comments=False)
txt = txt if isinstance(txt, str) else '\\n'.join(txt)
for co, var in (('2.0000', 'u(k-1)'), ('3.0000', 'u(k-2)'), ('-0.5000', 'y(k-1)'), ('-0.2500', 'y(k-2)')):
    if co + '*' + var not in txt:
        sys.exit('%s*%s is missing in\\n%s' % (co, var, txt))
'''
