"""Harness environments.

A harness is one function `h(env, **params)`, run in two modes:
 * symbolic (SymEnv): inputs are symbolic, modules come from loader.World;
 * concrete (ConcEnv, see replay.py): inputs are the values of a model, modules are the real
   ones of /repo with the real numpy / mpmath / scipy.
"""
import random as pyrandom
import math
import zlib
from fractions import Fraction


PALETTE = [Fraction(n, 4) for n in (4, -4, 2, -3, 1, 8, 4, -1, 6, -5, -8, 3)]


class Case:
    """one harness instance: name, function, parameters, options"""

    def __init__(self, name, fn, opts=None, **params):
        self.name = name
        self.fn = fn
        self.params = params
        self.opts = opts or {}


class AssumeFailed(BaseException):
    pass


class Stop(BaseException):
    """the harness asks to end this path (after a failed check)"""


class BaseEnv:
    symbolic = False

    # ---------------------------------------------------------------- derived inputs
    def constant(self, name, lo, hi, nz):
        """large cases (option sparse = (period, percentage of zeros, seed)): about one real input
        out of `period` stays symbolic, the others are fixed constants; None: symbolic"""
        sp = self.case.opts.get('sparse')
        if sp is None or lo is not None or hi is not None:
            return None
        period, zeros, seed = sp
        h = zlib.crc32(('%s %s' % (name, seed)).encode())
        if h % period == 0:
            return None
        h //= period
        if not nz and h % 100 < zeros:
            return Fraction(0)
        v = PALETTE[h // 100 % len(PALETTE)]
        return Fraction(4) if nz and v.numerator not in (1, -1) else v      # (used as a divisor)

    def reals(self, name, r, c=None, **k):
        """list (or list of lists) of fresh reals"""
        if c is None:
            return [self.real('%s%d' % (name, i), **k) for i in range(r)]
        return [[self.real('%s%d_%d' % (name, i, j), **k) for j in range(c)] for i in range(r)]

    def mpfs(self, name, r, c=None, **k):
        if c is None:
            return [self.mpf('%s%d' % (name, i), **k) for i in range(r)]
        return [[self.mpf('%s%d_%d' % (name, i, j), **k) for j in range(c)] for i in range(r)]

    def npmat(self, g):
        """numpy matrix from a grid"""
        np = self.np
        r = len(g)
        c = len(g[0]) if r else 0
        if r == 0 or c == 0:
            return np.matrix(np.zeros((r, c)))
        return np.matrix(np.array(g))

    def nparr(self, v):
        return self.np.array(v)

    def mpmat(self, g, cols=None):
        r = len(g)
        c = cols if cols is not None else (len(g[0]) if r else 0)
        M = self.mp.matrix(r, c)
        for i in range(r):
            for j in range(c):
                M[i, j] = g[i][j]
        return M

    def tofloat(self, v):
        """exact value -> double"""
        v = self.ex(v)
        return float(v) if isinstance(v, Fraction) else v

    def tomp(self, g):
        """exact grid -> multiprecision values"""
        return [[self.tomp1(x) for x in r] for r in g]

    def grid(self, A):
        """list of lists of exact elements of any 2-D object (1-D: one row)"""
        import numpy
        if isinstance(A, numpy.ndarray):
            if A.ndim == 0:
                return [[self.ex(A[()])]]
            if A.ndim == 1:
                return [[self.ex(x) for x in A]]
            return [[self.ex(A[i, j]) for j in range(A.shape[1])] for i in range(A.shape[0])]
        if hasattr(A, 'rows') and hasattr(A, 'cols'):
            return [[self.ex(A[i, j]) for j in range(A.cols)] for i in range(A.rows)]
        if isinstance(A, (list, tuple)):
            if len(A) and isinstance(A[0], (list, tuple)):
                return [[self.ex(x) for x in row] for row in A]
            return [[self.ex(x) for x in A]]
        return [[self.ex(A)]]

    def shape(self, A):
        import numpy
        if isinstance(A, numpy.ndarray):
            if A.ndim == 0:
                return (1, 1)
            return (1, A.shape[0]) if A.ndim == 1 else tuple(A.shape)
        if hasattr(A, 'rows'):
            return (A.rows, A.cols)
        if isinstance(A, (list, tuple)):
            if len(A) and isinstance(A[0], (list, tuple)):
                return (len(A), len(A[0]))
            return (1, len(A))
        return (1, 1)

    def eqm(self, label, A, B, tol=None):
        """two matrices have the same shape and the same elements"""
        sa, sb = self.shape(A), self.shape(B)
        if not self.check(label + ': shape', tuple(map(int, sa)) == tuple(map(int, sb)),
                          info=lambda: 'got %s, expected %s' % (sa, sb)):
            return False
        a, b = self.grid(A), self.grid(B)
        return self.eqs(label, [(x, y) for ra, rb in zip(a, b) for x, y in zip(ra, rb)], tol)

    def eqs(self, label, pairs, tol=None):
        ok = True
        for i, (x, y) in enumerate(pairs):
            ok = self.eq(label, x, y, tol) and ok
        return ok

    def raises(self, label, exc, fn, *a, **k):
        """fn must raise one of exc"""
        try:
            fn(*a, **k)
        except exc:
            return self.check(label, True)
        except Exception as e:
            return self.check(label, False, info=lambda: 'raised %s: %s' % (type(e).__name__, e))
        return self.check(label, False, info=lambda: 'no exception raised')

    # ---------------------------------------------------------------- exact linear algebra for oracles
    @staticmethod
    def mmul(A, B, n=None):
        if not A or not B or not B[0]:
            c = len(B[0]) if B else (n or 0)
            return [[Fraction(0)] * c for _ in A]
        return [[_sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]

    @staticmethod
    def madd(A, B):
        return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]

    @staticmethod
    def msub(A, B):
        return [[x - y for x, y in zip(r, s)] for r, s in zip(A, B)]

    @staticmethod
    def meye(n):
        return [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]

    @staticmethod
    def mzero(r, c):
        return [[Fraction(0)] * c for _ in range(r)]

    @staticmethod
    def mT(A, cols=None):
        if not A:
            return [[] for _ in range(cols or 0)]
        return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]

    def exm(self, A):
        return self.grid(A)


def _sum(it):
    t = Fraction(0)
    for x in it:
        t = t + x
    return t


NICE = [Fraction(n, d) for n in range(-24, 25) for d in (1, 2, 4, 8) if n and math.gcd(n, d) == 1 and abs(n) <= 12 * d]


def nice(rng, kind, lo=None, hi=None):
    """a random well-behaved value of the kind"""
    if kind == 'i':
        a = -6 if lo is None else int(lo)
        b = 6 if hi is None else int(hi)
        if b - a > 40:
            a, b = max(a, -12), min(b, max(a, -12) + 24)
        return Fraction(rng.randint(a, b))
    if lo is not None and hi is not None:
        d = Fraction(hi) - Fraction(lo)
        return Fraction(lo) + d * Fraction(rng.randint(1, 63), 64)
    v = rng.choice(NICE)
    if lo is not None:
        return Fraction(lo) + abs(v)
    if hi is not None:
        return Fraction(hi) - abs(v)
    return v


def wide(rng, bits=120):
    """a value with a full mantissa and a random exponent"""
    if bits > 60:
        bits = rng.choice((bits, bits, 3, 40, 300))
        r = rng.choice((40, 40, 300, 900))
    else:
        r = rng.choice((8, 8, 60, 250))
        bits = rng.choice((bits, bits, bits, 4))
    m = (1 << (bits - 1)) | rng.getrandbits(max(bits - 1, 1)) % (1 << (bits - 1)) | 1
    v = Fraction(m, 1) * Fraction(2) ** (rng.randint(-r, r) - bits)
    return -v if rng.random() < 0.5 else v
