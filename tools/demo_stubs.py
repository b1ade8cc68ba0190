"""stand-ins for the FiXiF packages that are not in this repository (fixif.FxP, fixif.WCPG)"""
import sys
import types
from fractions import Fraction
from math import floor, ceil, log


class FPF(object):
    """fixed-point format: two's complement, bits msb..lsb"""

    def __init__(self, wl=None, msb=None, lsb=None, signed=True, formatStr=None):
        if wl is not None and msb is not None:
            lsb = msb - wl + 1
        elif wl is not None and lsb is not None:
            msb = lsb + wl - 1
        elif msb is not None and lsb is not None:
            wl = msb - lsb + 1
        else:
            raise ValueError('FPF: bad parameters')
        self.wl, self.msb, self.lsb, self.signed = wl, msb, lsb, signed

    def wml(self):
        return self.wl, self.msb, self.lsb

    def notation(self, notation='mlsb'):
        return '(%d,%d)' % (self.msb, self.lsb)

    def __str__(self):
        return '(%d,%d)' % (self.msb, self.lsb)

    __repr__ = __str__


class Constant(object):
    def __init__(self, value, wl=None, signed=None, lsb=None, msb=None, fpf=None, name=None):
        self.value, self.name = value, name
        v = Fraction(value)
        if v == 0:
            self.FPF, self.mantissa = FPF(wl=wl or 1, lsb=0), 0
            return
        m = 0
        while not (-Fraction(2) ** m <= v <= Fraction(2) ** m - Fraction(2) ** (m - wl + 1)):
            m += 1
        while -Fraction(2) ** (m - 1) <= v <= Fraction(2) ** (m - 1) - Fraction(2) ** (m - wl):
            m -= 1
        self.FPF = FPF(wl=wl, msb=m)
        self.mantissa = floor(v / Fraction(2) ** self.FPF.lsb + Fraction(1, 2))

    @property
    def approx(self):
        return float(self.mantissa * Fraction(2) ** self.FPF.lsb)


def WCPG_ABCD(A, B, C, D, info=None):
    """|D| + sum |C A^k B|"""
    import numpy as np
    A, B, C, D = (np.matrix(np.asarray(x, dtype=float)) for x in (A, B, C, D))
    W = abs(D)
    M = B
    for k in range(3000):
        t = abs(C * M)
        W = W + t
        M = A * M
    return W


def WCPG_TF(num, den):
    import numpy as np
    num, den = list(np.asarray(num).ravel()), list(np.asarray(den).ravel())
    h = []
    for k in range(3000):
        v = (num[k] if k < len(num) else 0) - sum(den[i] * h[k - i] for i in range(1, len(den)) if k - i >= 0)
        h.append(v)
    return float(sum(abs(x) for x in h))


m = types.ModuleType('fixif.FxP')
m.FPF, m.Constant = FPF, Constant
c = types.ModuleType('fixif.FxP.Constant')
c.Constant = Constant
m.__path__ = []
sys.modules['fixif.FxP'] = m
sys.modules['fixif.FxP.Constant'] = c
w = types.ModuleType('fixif.WCPG')
w.WCPG_ABCD, w.WCPG_TF = WCPG_ABCD, WCPG_TF
sys.modules['fixif.WCPG'] = w
