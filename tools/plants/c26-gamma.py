PROP = 'C26'
EDITS = [('fixif/Structures/LGS_LCW/LGS_LCW.py', """		Ad.append(U(i + 1, i, alpha[i], n))
		Ad.append(U(i + 1, i + 1, gamma[i], n))
	for i in range(0, n - 1):
		Ad.append(U(n - 2 - i, n - 1 - i, beta[n - 2 - i], n))
""", """		Ad.append(U(i + 1, i, alpha[i], n))
		Ad.append(U(i + 1, i + 1, gamma[i], n))
	for i in range(0, n - 1):
		Ad.append(U(n - 2 - i, n - 1 - i, beta[n - 2 - i], n) if i < 2 else U(i - 2, i - 1, beta[i - 2], n))
""")]
NEEDS = 'an LCW realization of order 4 or more'
BREAKS = 'the last factors are in the reverse order'
DEMO = '''
import numpy as np
from fixif.Structures.LGS_LCW.LGS_LCW import A_decomposition_LCW
for n in (2, 3, 4, 5):
    alpha = [0.5 + 0.25 * i for i in range(n)]
    Phi = np.zeros((n, n))
    for i in range(n - 1):
        Phi[i, i + 1], Phi[i + 1, i] = alpha[i], -alpha[i]
    Phi[n - 1, n - 1] = -alpha[n - 1]
    prod = np.eye(n)
    for X in A_decomposition_LCW(alpha, np.matrix(Phi)):
        prod = X * prod
    if not np.allclose(prod * (np.eye(n) - Phi).T, np.eye(n)):
        sys.exit('order %d' % n)
'''
