PROP = 'C24'
EDITS = [('fixif/Structures/State_Space/State_Space.py', "		return filt.isSISO()\n", "		return filt.p == filt.q\n")]
NEEDS = 'a square filter with several inputs and outputs, form ctrl or obs'
BREAKS = 'the form is accepted although it cannot be built'
DEMO = '''
import numpy as np
from fixif.LTI import Filter
from fixif.Structures import State_Space
m = np.matrix
F = Filter(A=m([[0.5]]), B=m([[1., 2.]]), C=m([[1.], [3.]]), D=m([[0., 1.], [2., 0.]]))
for form in (None, 'ctrl', 'obs'):
    if State_Space.canAcceptFilter(F, form=form):
        State_Space.makeRealization(F, form=form)
'''
