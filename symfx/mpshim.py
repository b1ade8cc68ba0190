"""A symbolic mpmath: the real mpmath context code (matrices, linear algebra drivers) over
symbolic numbers, with an explicit model of rounding to the working precision."""
import types
import numbers
from fractions import Fraction

import mpmath as real_mpmath
from mpmath.ctx_mp import MPContext
from mpmath.ctx_mp_python import _mpf
import numpy as np

from . import sym as S
from .sym import Sym, SymC, SymBool, Unsupported, z3


class MpfMeta(type):
    def __call__(cls, *a, **kw):
        if a and isinstance(a[0], (Sym, SymBool)):
            return cls.context._sym_mpf(a[0], **kw)
        return type.__call__(cls, *a, **kw)


def _defer(orig):
    """concrete mpf/mpc operators leave operations with symbolic values to those"""
    def f(self, other, *a):
        if isinstance(other, (Sym, SymC, SymBool)):
            return NotImplemented
        return orig(self, other, *a)
    return f


class SymMPContext(MPContext):
    def __init__(ctx):
        MPContext.__init__(ctx)

    def install(ctx):
        # one mpf class, constructible from symbolic values
        mpf = MpfMeta('mpf', (_mpf,), {})
        for n in ('add', 'sub', 'mul', 'truediv', 'div', 'pow', 'mod'):
            for r in ('', 'r'):
                nm = '__%s%s__' % (r, n)
                if hasattr(_mpf, nm):
                    setattr(mpf, nm, _defer(getattr(_mpf, nm)))
        for nm in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
            setattr(mpf, nm, _defer(getattr(_mpf, nm)))
        mpf.__hash__ = _mpf.__hash__
        old = ctx.mpf
        ctx.mpf = mpf
        mpf.context = ctx
        mpf._ctxdata = [mpf, object.__new__, ctx._prec_rounding]
        ctx.constant._ctxdata = [mpf, object.__new__, ctx._prec_rounding]
        ompc = ctx.mpc
        mpc = type('mpc', (ompc.__mro__[1],), {})
        for n in ('add', 'sub', 'mul', 'truediv', 'div', 'pow'):
            for r in ('', 'r'):
                nm = '__%s%s__' % (r, n)
                if hasattr(mpc, nm):
                    setattr(mpc, nm, _defer(getattr(mpc, nm)))
        for nm in ('__eq__', '__ne__'):
            setattr(mpc, nm, _defer(getattr(mpc, nm)))
        mpc.__hash__ = ompc.__hash__
        mpc.context = ctx
        mpc._ctxdata = [mpc, object.__new__, ctx._prec_rounding]
        ctx.mpc = mpc
        ctx.types = [mpf, ctx.mpc, ctx.constant]
        ctx.init_builtins()
        ctx._ctxdata = None

        class SymMpf(Sym, mpf):
            kind = 'm'
            __slots__ = ('_r',)
            __hash__ = Sym.__hash__

            def __new__(cls, *a, **k):
                return object.__new__(cls)

            @property
            def _mpf_(self):
                return mpf_struct(self)

            @property
            def man_exp(self):
                s, m, e, b = mpf_struct(self)
                return m, e
            man = property(lambda self: mpf_struct(self)[1])
            exp = property(lambda self: mpf_struct(self)[2])
            bc = property(lambda self: mpf_struct(self)[3])

            def __reduce__(self):
                raise Unsupported('pickle')

            def ae(self, t, rel_eps=None, abs_eps=None):
                return ctx.almosteq(self, t, rel_eps, abs_eps)

            def sqrt(self):
                return ctx.sqrt(self)
        SymMpf.__name__ = 'mpf'
        S.KINDS['m'] = SymMpf
        ctx.types.append(SymMpf)
        ctx.types.append(SymC)
        # matrices: never drop symbolic elements
        base = ctx.matrix

        class matrix(base):
            def __setitem__(self, key, value):
                if isinstance(value, SymBool):
                    value = int(value)
                old = S.STORE[0]
                S.STORE[0] = True
                try:
                    base.__setitem__(self, key, value)
                finally:
                    S.STORE[0] = old

            def _set_element(self, key, value):
                old = S.STORE[0]
                S.STORE[0] = True
                try:
                    base._set_element(self, key, value)
                finally:
                    S.STORE[0] = old

            def __eq__(self, other):
                if not isinstance(other, base):
                    return NotImplemented
                if self.rows != other.rows or self.cols != other.cols:
                    return False
                for i in range(self.rows):
                    for j in range(self.cols):
                        if not (self[i, j] == other[i, j]):
                            return False
                return True

            def __ne__(self, other):
                r = self.__eq__(other)
                return r if r is NotImplemented else not r
            __hash__ = None
        matrix.ctx = ctx
        ctx.matrix = matrix
        return ctx

    # ------------------------------------------------------------------
    def _sym_mpf(ctx, x, prec=None, dps=None, rounding=None, **kw):
        if isinstance(x, SymBool):
            return ctx.mpf(int(x))
        p = prec if prec is not None else (real_mpmath.libmp.dps_to_prec(dps) if dps is not None else ctx.prec)
        if x.kind == 'i':
            return S.round_mpf(x._r, 'cast', p)
        if x.kind == 'f':
            if p >= 53:
                S.set_width(x._r, 53)
                return Sym.make(x._r, 'm')
            return S.round_mpf(x._r, 'cast', p)
        return S.round_mpf(x._r, 'cast', p)

    def convert(ctx, x, strings=True):
        if isinstance(x, Sym):
            if x.kind == 'm':
                return x
            if x.kind == 'f' and S.get_width(x._r) is None:
                S.set_width(x._r, 53)
            return Sym.make(x._r, 'm')
        if isinstance(x, SymC):
            return x
        if isinstance(x, SymBool):
            return ctx.mpf(int(x))
        if isinstance(x, Fraction):
            return MPContext.convert(ctx, x)
        return MPContext.convert(ctx, x, strings)

    @staticmethod
    def _anysym(*xs):
        return any(isinstance(x, (Sym, SymC, SymBool)) for x in xs)

    def _prec_of(ctx, kw):
        if kw.get('exact'):
            return 0
        if 'prec' in kw:
            p = kw['prec']
            if isinstance(p, Sym):
                if p._is_const():
                    return int(p._value())
                return ctx._least(p)
            if p == ctx.inf:
                return 0
            return int(p)
        if 'dps' in kw:
            if kw['dps'] == ctx.inf:
                return 0
            return real_mpmath.libmp.dps_to_prec(kw['dps'])
        return ctx.prec

    def _least(ctx, s):
        """a lower bound of a symbolic precision on this path (the rounding error is bounded with it)"""
        p = S.cur()
        if p.opts.get('rounding', 'exact') == 'exact':
            return 53
        z = p.z_rf(s._r)
        q = ctx.prec
        for k in sorted({2 * q, q + 64, q + 1, q, 128, 106, 65, 64, 54, 53, 32, 24, 10, 2}, reverse=True):
            if p.check(z < k) == z3.unsat:
                return k
        return 1

    def _ex(ctx, x):
        """exact view: a float-kind symbolic value (operations on it do not round)"""
        if isinstance(x, SymC):
            return SymC(ctx._ex(x.re), ctx._ex(x.im))
        if isinstance(x, Sym):
            return Sym.make(x._r, 'f')
        if hasattr(x, '_mpc_'):
            return SymC(ctx._ex(x.real), ctx._ex(x.imag))
        if isinstance(x, complex):
            return SymC(S.lift(x.real, 'f'), S.lift(x.imag, 'f'))
        x = ctx.convert(x)
        if hasattr(x, '_mpc_'):
            return SymC(ctx._ex(x.real), ctx._ex(x.imag))
        return S.lift(x, 'f')

    def _rnd(ctx, v, prec):
        if isinstance(v, SymC):
            return SymC(ctx._rnd(v.re, prec), ctx._rnd(v.im, prec))
        v = S.lift(v)
        if prec == 0:
            return Sym.make(v._r, 'm')
        if prec == 'sym':
            prec = 2
        return S.round_mpf(v._r, '+', prec)

    def fadd(ctx, x, y, **kw):
        if ctx._anysym(x, y):
            return ctx._rnd(ctx._ex(x) + ctx._ex(y), ctx._prec_of(kw))
        return MPContext.fadd(ctx, x, y, **kw)

    def fsub(ctx, x, y, **kw):
        if ctx._anysym(x, y):
            return ctx._rnd(ctx._ex(x) - ctx._ex(y), ctx._prec_of(kw))
        return MPContext.fsub(ctx, x, y, **kw)

    def fmul(ctx, x, y, **kw):
        if ctx._anysym(x, y):
            return ctx._rnd(ctx._ex(x) * ctx._ex(y), ctx._prec_of(kw))
        return MPContext.fmul(ctx, x, y, **kw)

    def fdiv(ctx, x, y, **kw):
        if ctx._anysym(x, y):
            p = ctx._prec_of(kw)
            if p == 0:
                raise ValueError('division is not an exact operation')
            return ctx._rnd(ctx._ex(x) / ctx._ex(y), p)
        return MPContext.fdiv(ctx, x, y, **kw)

    def fneg(ctx, x, **kw):
        if ctx._anysym(x):
            return ctx._rnd(-ctx._ex(x), ctx._prec_of(kw))
        return MPContext.fneg(ctx, x, **kw)

    def fabs(ctx, x):
        if ctx._anysym(x):
            return abs(ctx.convert(x))
        return MPContext.fabs(ctx, x)

    def fsum(ctx, terms, absolute=False, squared=False):
        terms = list(terms)
        if not ctx._anysym(*terms):
            return MPContext.fsum(ctx, terms, absolute, squared)
        t = 0
        for x in terms:
            x = ctx._ex(x)
            if squared:
                x = x * x
            elif absolute:
                x = abs(x)
            t = t + x
        return ctx._rnd(t, ctx.prec)

    def fprod(ctx, factors):
        factors = list(factors)
        if not ctx._anysym(*factors):
            return MPContext.fprod(ctx, factors)
        t = 1
        for x in factors:
            t = t * ctx._ex(x)
        return ctx._rnd(t, ctx.prec)

    def fdot(ctx, A, B=None, conjugate=False):
        if B is not None:
            A = zip(A, B)
        A = list(A)
        if not any(ctx._anysym(a, b) for a, b in A):
            return MPContext.fdot(ctx, A, None, conjugate)
        t = 0
        for a, b in A:
            a, b = ctx._ex(a), ctx._ex(b)
            if conjugate and isinstance(b, SymC):
                b = b.conjugate()
            t = t + a * b
        return ctx._rnd(t, ctx.prec)

    def nsum(ctx, f, *intervals, **kw):
        if len(intervals) == 1:
            a, b = intervals[0]
            if isinstance(a, (int, Sym)) and isinstance(b, (int, Sym)):
                a, b = int(a), int(b)
                return ctx.fsum(f(k) for k in range(a, b + 1))
        return MPContext.nsum(ctx, f, *intervals, **kw)

    def isnan(ctx, x):
        return False if ctx._anysym(x) else MPContext.isnan(ctx, x)

    def isinf(ctx, x):
        return False if ctx._anysym(x) else MPContext.isinf(ctx, x)

    def isfinite(ctx, x):
        return True if ctx._anysym(x) else MPContext.isfinite(ctx, x)

    def isnormal(ctx, x):
        if ctx._anysym(x):
            return x != 0
        return MPContext.isnormal(ctx, x)

    def isint(ctx, x, gaussian=False):
        if ctx._anysym(x):
            return S.floor_(ctx._ex(x)) == x
        return MPContext.isint(ctx, x, gaussian)

    def sign(ctx, x):
        if ctx._anysym(x):
            return S.sign_(x)
        return MPContext.sign(ctx, x)

    def re(ctx, x):
        return ctx.convert(x).real if ctx._anysym(x) else MPContext.re(ctx, x)

    def im(ctx, x):
        return ctx.convert(x).imag if ctx._anysym(x) else MPContext.im(ctx, x)

    def conj(ctx, x):
        return ctx.convert(x).conjugate() if ctx._anysym(x) else MPContext.conj(ctx, x)

    conjugate = conj

    def ldexp(ctx, x, n):
        if ctx._anysym(x, n):
            return ctx._rnd(ctx._ex(x) * (S.lift(2, 'f') ** n), 0)
        return MPContext.ldexp(ctx, x, n)

    def power(ctx, x, y):
        if ctx._anysym(x, y):
            return ctx.convert(x) ** y
        return MPContext.power(ctx, x, y)

    def almosteq(ctx, s, t, rel_eps=None, abs_eps=None):
        if not ctx._anysym(s, t):
            return MPContext.almosteq(ctx, s, t, rel_eps, abs_eps)
        s, t = ctx._ex(s), ctx._ex(t)
        if abs_eps is None and rel_eps is None:
            rel_eps = abs_eps = ctx.ldexp(1, -ctx.prec + 4)
        if abs_eps is None:
            abs_eps = rel_eps
        elif rel_eps is None:
            rel_eps = abs_eps
        diff = abs(s - t)
        if diff <= abs_eps:
            return True
        a, b = abs(s), abs(t)
        m = b if a < b else a
        return diff <= rel_eps * m

    # linear algebra on symbolic matrices: exact results (contract of the library), rounded
    def _grid(ctx, A):
        return [[ctx._ex(A[i, j]) for j in range(A.cols)] for i in range(A.rows)]

    def _symmat(ctx, A):
        return any(ctx._anysym(x) for x in A._data.values())

    def inverse(ctx, A, **kw):
        A = ctx.matrix(A)
        if not ctx._symmat(A):
            return MPContext.inverse(ctx, A, **kw)
        if A.rows != A.cols:
            raise ValueError('only square matrices')
        from .npshim import exact_inverse
        try:
            R = exact_inverse(ctx._grid(A))
        except ZeroDivisionError:
            raise ZeroDivisionError('matrix is numerically singular')
        M = ctx.matrix(A.rows, A.cols)
        for i in range(A.rows):
            for j in range(A.cols):
                M[i, j] = ctx._rnd(R[i][j], ctx.prec)
        return M

    def lu_solve(ctx, A, b, **kw):
        A, b = ctx.matrix(A), ctx.matrix(b)
        if not (ctx._symmat(A) or ctx._symmat(b)):
            return MPContext.lu_solve(ctx, A, b, **kw)
        return ctx.inverse(A) * b

    def det(ctx, A):
        A = ctx.matrix(A)
        if not ctx._symmat(A):
            return MPContext.det(ctx, A)
        from .npshim import exact_det
        return ctx._rnd(exact_det(ctx._grid(A)), ctx.prec)

    def eig(ctx, A, *a, **kw):
        if ctx._symmat(A):
            h = S.cur().notes.get('eig')
            if h is None:
                raise Unsupported('eig of a symbolic matrix')
            return h(ctx, A, *a, **kw)
        return MPContext.eig(ctx, A, *a, **kw)


def mpf_struct(x):
    """(sign, man, exp, bc) of a symbolic mpf"""
    p = S.cur()
    key = ('mpfstruct', S.rfkey(x._r))
    if key in p.atoms:
        return p.atoms[key]
    if x._is_const():
        v = Fraction(x._value())
        t = real_mpmath.libmp.from_rational(v.numerator, v.denominator, 4000, 'n')
        r = (t[0], int(t[1]), t[2], t[3])
    else:
        r = LazyMpf(x)
    p.atoms[key] = r
    return r


def exponents(R):
    """the exponents that the bound stands for: [-R, R], or the given ones"""
    return range(-R, R + 1) if isinstance(R, int) else R


class LazyMpf:
    """the fields are made when they are read.  The mantissa and the exponent make x a dyadic number
    with its exponent within the bound `manexp`; the bit count alone is any natural number (0 for 0)"""

    def __init__(self, x):
        self.x = x
        self.f = {}

    def __len__(self): return 4

    def __iter__(self): return iter([self[i] for i in range(4)])

    def __eq__(self, o): return list(self) == list(o)

    def __hash__(self): return id(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return tuple(self[k] for k in range(4)[i])
        if i < 0:
            i += 4
        if i not in self.f:
            (self.sign, self.manexp, self.manexp, self.bits)[i]()
        return self.f[i]

    def sign(self):
        self.f[0] = 1 if self.x < 0 else 0

    def bits(self):
        p, x = S.cur(), self.x
        if 'bc' in p.opts and 1 not in self.f:
            # a harness without rounding: the bit count only sets precisions
            self.f[3] = p.opts['bc']
            return
        bi = p.newvar(p.freshname('bc'), True)
        bz = p.zv[bi]
        self.f[3] = Sym.make(p.rf_var(bi), 'i')
        xv = p.z_rf(x._r)
        p.solver.add(bz >= 0, (bz == 0) == (xv == 0))
        w = S.get_width(x._r)
        if w is not None:
            p.solver.add(bz <= w)
        if 1 in self.f:
            self.link()

    def link(self):
        """bit count and mantissa"""
        p = S.cur()
        if self.f[1] is 0 or (isinstance(self.f[1], int) and self.f[1] == 0):
            p.solver.add(p.z_rf(self.f[3]._r) == 0)
            return
        bz, m = p.z_rf(self.f[3]._r), p.z_rf(self.f[1]._r)
        B = p.opts.get('manbits', 12)
        p.solver.add(bz >= 1, bz <= B)
        for i in range(1, B + 1):
            p.solver.add((bz == i) == z3.And(m >= 2 ** (i - 1), m < 2 ** i))

    def manexp(self):
        p, x = S.cur(), self.x
        if x == 0:
            self.f[1], self.f[2] = 0, 0
        else:
            neg = self[0]
            R = p.opts.get('manexp', 6)
            mi = p.newvar(p.freshname('man'), True)
            ei = p.newvar(p.freshname('exp'), True)
            m, e = p.zv[mi], p.zv[ei]
            xv = p.z_rf(x._r)
            odd = z3.Int(p.freshname('half'))
            B = p.opts.get('manbits', 12)
            E = exponents(R)
            p.solver.add(m > 0, m < 2 ** B, z3.Or(*[e == i for i in E]), z3.IsInt(m), m == 2 * z3.ToReal(odd) + 1)
            ax = -xv if neg else xv
            for i in E:
                q = Fraction(2) ** i
                p.solver.add(z3.Implies(e == i, ax == m * z3.Q(q.numerator, q.denominator)))
            self.f[1], self.f[2] = Sym.make(p.rf_var(mi), 'i'), Sym.make(p.rf_var(ei), 'i')
        if 3 in self.f and isinstance(self.f[3], Sym):
            self.link()


def build_module():
    """a fresh module object standing for `mpmath`"""
    ctx = SymMPContext().install()
    m = types.ModuleType('mpmath')
    m.__doc__ = 'symbolic mpmath'
    real_ctx = real_mpmath.mp
    for name in dir(real_mpmath):
        if name.startswith('__'):
            continue
        v = getattr(real_mpmath, name)
        if getattr(v, '__self__', None) is real_ctx or (hasattr(real_ctx, name) and hasattr(ctx, name)
                                                        and not isinstance(v, types.ModuleType)):
            try:
                v = getattr(ctx, name)
            except AttributeError:
                pass
        setattr(m, name, v)
    m.mp = ctx
    for name in ('matrix', 'mpf', 'mpc', 'mpi', 'fadd', 'fsub', 'fmul', 'fdiv', 'inf', 'nan', 'eps'):
        if hasattr(ctx, name):
            setattr(m, name, getattr(ctx, name))

    def sqrt(x, **kw):
        if isinstance(x, Sym):
            x = ctx.convert(x)
            if x < 0:
                return SymC(0, S.sqrt_(-ctx._ex(x)))
            return ctx._rnd(S.sqrt_(ctx._ex(x)), ctx._prec_of(kw))
        return MPContext.__dict__.get('sqrt', lambda c, y, **k: real_mpmath.mp.sqrt(y, **k))(ctx, x, **kw)

    def wrap(name, symfn):
        orig = getattr(ctx, name)

        def f(x, *a, **kw):
            if isinstance(x, (Sym, SymC)):
                return symfn(x, *a, **kw)
            return orig(x, *a, **kw)
        f.__name__ = name
        setattr(ctx, name, f)
        setattr(m, name, f)
    wrap('sqrt', lambda x, **kw: SymC(0, S.sqrt_(-ctx._ex(x))) if x < 0 else ctx._rnd(S.sqrt_(ctx._ex(x)), ctx._prec_of(kw)))
    wrap('floor', lambda x, **kw: Sym.make(S.floor_(x)._r, 'm'))
    wrap('ceil', lambda x, **kw: Sym.make(S.ceil_(x)._r, 'm'))
    wrap('nint', lambda x, **kw: Sym.make(S.round_half_even(x)._r, 'm'))

    def log(x, b=None, **kw):
        if b is not None and b == 2:
            return Sym.make((S.log2r_(x) if ctx.prec <= 60 else S.log2_(x))._r, 'm')
        raise Unsupported('mpmath.log')
    wrap('log', log)
    wrap('ln', log)
    def mpc(real=0, imag=0):
        if isinstance(real, (Sym, SymC)) or isinstance(imag, (Sym, SymC)):
            r = SymC.of(real)
            i = SymC.of(imag)
            return SymC(r.re - i.im, r.im + i.re)
        return ctx_mpc(real, imag)
    ctx_mpc = ctx.mpc

    class MpcMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (SymC, ctx_mpc))

        def __call__(cls, *a, **k):
            return mpc(*a, **k)
    m.mpc = MpcMeta('mpc', (), {})
    if hasattr(real_mpmath, '__all__'):
        m.__all__ = list(real_mpmath.__all__)
    return m, ctx
