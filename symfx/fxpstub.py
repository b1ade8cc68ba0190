"""Stand-ins for fixif.FxP (not part of this repository and not installed): only what the
repository calls, with the documented meaning of the fixed-point format objects."""
import math
import types
from fractions import Fraction


def _isnum(x):
    return True


class FPF:
    """fixed-point format (msb, lsb, signed): w = msb - lsb + 1 bits"""

    def __init__(self, wl=None, msb=None, lsb=None, signed=True, **k):
        if msb is None and wl is not None and lsb is not None:
            msb = wl + lsb - 1
        if lsb is None and wl is not None and msb is not None:
            lsb = msb - wl + 1
        self.msb, self.lsb, self.signed = msb, lsb, signed
        self.wl = wl if wl is not None else (msb - lsb + 1 if msb is not None and lsb is not None else None)

    def wml(self):
        return (self.wl, self.msb, self.lsb)


class Constant:
    """constant `value` quantised on wl bits; harnesses choose the quantisation (any function)"""
    _approx = staticmethod(lambda value, wl: value)

    def __init__(self, value=None, wl=None, signed=True, fpf=None, name=None, **k):
        self.value, self.wl, self.signed, self.name = value, wl, signed, name
        self.FPF = fpf
        self.approx = type(self)._approx(value, wl)

    def isZero(self):
        return self.value == 0

    def isPower2(self):
        return False


def modules():
    m = types.ModuleType('fixif.FxP')
    m.FPF, m.Constant = FPF, Constant
    m.__path__ = []
    c = types.ModuleType('fixif.FxP.Constant')
    c.Constant = Constant
    return {'fixif.FxP': m, 'fixif.FxP.Constant': c}
