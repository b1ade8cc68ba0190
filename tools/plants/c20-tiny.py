PROP = 'C20'
EDITS = [('fixif/SoP/SoP.py', "			elif co:\n", "			elif abs(co) > 1e-9:\n")]
NEEDS = 'a non-null coefficient below 1e-9 in magnitude'
BREAKS = 'the term is omitted although its coefficient is not zero'
DEMO = '''
from fixif.SoP import SoP
t = SoP([1e-10, 2.0], ['a', 'b'], 's').toAlgoStr()
if 'a' not in t:
    sys.exit(t)
'''
