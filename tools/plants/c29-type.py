PROP = 'C29'
EDITS = [('fixif/LTI/Gabarit.py', "			elif len(self._bands) == 3 and passBands == [True, False, True]:\n", "			elif passBands[:3] == [True, False, True]:\n")]
NEEDS = 'four bands or more: pass, stop, pass, stop'
BREAKS = 'a multiband specification is classified as a band-stop'
DEMO = '''
from fixif.LTI import Gabarit
g = Gabarit(48000, [(0, 1000), (2000, 3000), (4000, 5000), (6000, None)], [(0, -1), -20, (0, -1), -30])
if g.type != 'multiband':
    sys.exit(g.type)
'''
