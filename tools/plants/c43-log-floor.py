PROP = 'C43'
EDITS = [('fixif/LTI/Gabarit.py', '\t\t\t\tplt.plot((self._Fs * 0.5 / pi) * w, 20*log10(abs(h)))\n\t\t\t\tminG = min(20 * log10(abs(h)))\n',
          '\t\t\t\t# (the logarithm of 0 is not defined)\n\t\t\t\th = abs(h) + 1e-6\n\t\t\t\tplt.plot((self._Fs * 0.5 / pi) * w, 20*log10(h))\n\t\t\t\tminG = min(20 * log10(h))\n')]
NEEDS = 'a transfer function with strong attenuation, drawn in dB'
BREAKS = 'the modulus drawn is too large: a stop band at -140 dB is drawn at -119 dB'
DEMO = '''
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from fixif.LTI import dTF, Gabarit
got = []
plt.plot = lambda x, y, *a, **k: got.append(y)
plt.show = lambda *a, **k: None
for g in (1.0, 10.0, 1e-7):
    del got[:]
    Gabarit(48000, [(0, 9600), (12000, None)], [(-0.5, 0.5), -20]).plot(dTF(np.matrix([[g]]), np.matrix([[1.0]])))
    if np.max(np.abs(np.asarray(got[0]) - 20 * np.log10(g))) > 1e-4:
        sys.exit('a gain of %s is drawn at %s dB' % (g, np.ravel(got[0])[0]))
'''
