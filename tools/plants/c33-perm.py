PROP = 'C33'
EDITS = [('fixif/Structures/Simulink/sif.py', "				Kn[i][j] = self.K[i][lorder[j]]\n", "				Kn[i][lorder[j]] = self.K[i][j]\n")]
NEEDS = 'three intermediate sums or more whose reordering is not its own inverse, one of them feeding a delay'
BREAKS = 'the states are computed from other sums than those of the diagram'
DEMO = '''
import numpy as np
from fixif.Structures.Simulink.sif import Sif as SIF
class B:
    def __init__(self, t, s): self.type, self.sid, self.label = t, s, t + s
class E:
    def __init__(self, o, **t): self.out, self.termes = o, t
class Sys:
    blocks = {s: B(t, s) for s, t in (('u', 'Inport'), ('y', 'Outport'), ('d', 'Delay'), ('a', 'Sum'), ('b', 'Sum'), ('c', 'Sum'))}
    # b = 2u, c = 3b + d, a = 5c + u, d+ = a, y = a
    equations = [E('a', c=5., u=1.), E('b', u=2.), E('c', b=3., d=1.), E('d', a=1., b=7.), E('y', a=1.)]
    def getblockbysid(self, s): return self.blocks[s]
    def getinblocks(self): return [self.blocks['u']]
    def getoutblocks(self): return [self.blocks['y']]
for eqs in ([0, 1, 2, 3, 4], [1, 0, 2, 3, 4], [2, 1, 0, 3, 4], [1, 2, 0, 3, 4], [2, 0, 1, 3, 4], [0, 2, 1, 3, 4]):
    s = Sys(); s.equations = [Sys.equations[i] for i in eqs]
    S = SIF(3, 1, 1, 1); S.build(s); S.reorganize()
    f = lambda X: np.matrix([[float(v) for v in r] for r in X])
    J, K, L, M, N, P, Q, R, D = [f(getattr(S, k)) for k in 'JKLMNPQRS']
    t = np.linalg.inv(J) * (M * 1 + N * 1)      # x = u = 1: b = 2, c = 7, a = 36
    xp, y = (K * t + P + Q)[0, 0], (L * t + R + D)[0, 0]
    if abs(xp - 50) > 1e-9 or abs(y - 36) > 1e-9:
        sys.exit('%s %s %s' % (eqs, xp, y))
'''
