PROP = 'C18'
EDITS = [('fixif/SIF/SIF.py', """			y[:, i] = self.CZ*xk + self.DZ*u[:, i]
			xk = xkp1
""", """			y[:, i] = self.CZ*xk + self.DZ*u[:, i]
			# nothing happens anymore
			if not u[:, i:].any() and not y[:, i].any() and not (self.CZ*xkp1).any():
				break
			xk = xkp1
""")]
NEEDS = 'an input that stops, and two null successive outputs while the states are not null (delay chain)'
BREAKS = 'the simulation stops before the end of the response'
DEMO = '''
import numpy as np
from fixif.SIF import SIF
z = np.zeros
S = SIF((z((0, 0)), z((3, 0)), z((1, 0)), z((0, 3)), z((0, 1)), [[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[0], [0], [1]], [[1, 0, 0]], [[0]]))
y = S.simulate([[5, 0, 0, 0, 0]])
if y.tolist() != [[0, 0, 0, 5, 0]]:
    sys.exit('%s' % y)
'''
