PROP = 'C15'
EDITS = [('fixif/SIF/SIF.py', """		# particular case when the SIF is already a state-space
		if self.l == 0:
""", """		# particular case when the SIF is already a state-space
		# (or when its intermediate variables do not act on the states and on the outputs)
		if self.l == 0 or not (self.M.any() and (self.K.any() or self.L.any())):
""")]
NEEDS = 'intermediate variables computed from the inputs only (M null, N not null)'
BREAKS = 'the exact state space drops the contribution of the inputs through the intermediate variables'
DEMO = '''
import numpy as np
from fixif.SIF import SIF
S = SIF(([[1]], [[2], [1]], [[3]], [[0, 0]], [[1]], [[0.5, 0.25], [0, 0.5]], [[1], [2]], [[1, 1]], [[4]]))
E = S.to_dSSexact()
if [float(E.B[i, 0]) for i in range(2)] != [3, 3] or float(E.D[0, 0]) != 7:
    sys.exit('wrong exact state space')
'''
