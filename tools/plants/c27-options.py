PROP = 'C27'
EDITS = [('fixif/Structures/Structure.py', """		if self._options:
			Ropt = {k: v[0] for k, v in self._options.items()}
		else:
			Ropt = {}
""", """		if self._defaults is None:
			self._defaults = {k: v[0] for k, v in self._options.items()} if self._options else {}
		Ropt = self._defaults
"""), ('fixif/Structures/Structure.py', "		self._options = options\n		self._make = make\n", "		self._options = options\n		self._defaults = None\n		self._make = make\n")]
NEEDS = 'two realizations built one after the other from the same structure, the first with an option, the second without'
BREAKS = 'the options of a call become the default values of the next calls'
DEMO = '''
from fixif.LTI import Filter
from fixif.Structures import DFI
F = Filter(num=[1, 2, 3], den=[1, 0.5, 0.25])
a = DFI.makeRealization(F)
DFI.makeRealization(F, nbSum=2)
b = DFI.makeRealization(F)
if a.Z.shape != b.Z.shape:
    sys.exit('%s %s' % (a.Z.shape, b.Z.shape))
'''
