"""Symbolic values and the path explorer.

A symbolic number is a rational function (poly.RF) over the variables of the current
path; every comparison becomes a z3 formula; `bool()` of a symbolic condition forks.
"""
import sys
import time
import math
import numbers
import operator
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numpy as np

from .poly import p_subst, p_solve, W, MASK
from .poly import Space, RF, p_const, p_var, p_mul, p_add, p_neg, p_vars, p_eval, p_scale, TooBig

z3.set_param('smt.random_seed', 1)
z3.set_param('nlsat.seed', 1)
z3.set_param('memory_max_size', 6000)


class Unsupported(BaseException):
    """the encoding does not cover this operation (never swallowed by `except Exception`)"""


class PathAbort(BaseException):
    """this path ends here (infeasible, or cut)"""


class Budget(BaseException):
    """time/path budget of the harness exhausted"""


CUR = None      # current Path


def cur():
    if CUR is None:
        raise Unsupported("symbolic operation outside of a path")
    return CUR


class Path:
    def __init__(self, prefix, opts, stats):
        self.prefix = prefix
        self.opts = opts
        self.stats = stats
        self.i = 0
        self.decisions = []
        self.pending = []
        self.sp = Space()
        self.zv = []            # z3 term (Real sorted) of each variable
        self.inputs = {}        # name -> (index, kind, extra)
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('branch_ms', 4000))
        self.cache = {}
        self.deltas = {}
        self.atoms = {}
        self.notes = {}
        self.eqinfo = {}        # id of a z3 condition -> (condition, polynomial, '==' or '!=')
        self.sub = {}           # variables known from the equalities of the path
        self.submask = 0
        self.forked = False
        self.deadline = opts.get('deadline')
        self.fresh = 0

    # ------------------------------------------------------------ variables
    def newvar(self, name, integer=False):
        if len(self.sp.names) > 3000:
            raise TooBig('too many variables')
        i = self.sp.var(name)
        if integer:
            t = z3.ToReal(z3.Int(name))
        else:
            t = z3.Real(name)
        self.zv.append(t)
        return i

    def freshname(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)

    def rf_var(self, i):
        return RF(p_var(i), (), self.sp)

    def const(self, c):
        return RF.const(c, self.sp)

    # ------------------------------------------------------------ z3 terms
    def z_poly(self, p):
        if not p:
            return z3.RealVal(0)
        terms = []
        from .poly import W, MASK
        for m, c in p.items():
            fs = []
            i = 0
            mm = m
            while mm:
                e = mm & MASK
                for _ in range(e):
                    fs.append(self.zv[i])
                mm >>= W
                i += 1
            c = Fraction(c)
            cz = z3.RealVal(str(c.numerator)) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
            if not fs:
                terms.append(cz)
            elif c == 1:
                terms.append(z3.Product(fs) if len(fs) > 1 else fs[0])
            else:
                terms.append(z3.Product([cz] + fs))
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def z_rf(self, r):
        """z3 term of a rational function (denominator assumed non zero)"""
        n = self.z_poly(r.n)
        if not r.d:
            return n
        return n / self.z_poly(r.denpoly())

    def z_sign(self, r, op):
        """z3 condition `r op 0`"""
        if op in ('==', '!='):
            n = self.z_poly(r.n)
            c = n == 0 if op == '==' else n != 0
            if len(r.n) <= 60:
                self.eqinfo[c.get_id()] = (c, r.n, op)
            return c
        p = r.n
        for f, e in r.d:
            if e % 2:
                p = p_mul(p, self.sp.factors[f], self.sp)
        n = self.z_poly(p)
        return {'<': n < 0, '<=': n <= 0, '>': n > 0, '>=': n >= 0}[op]

    # ------------------------------------------------------------ equalities of the path
    def learn(self, cond, b):
        """cond is known to be b on this path"""
        k = self.eqinfo.get(cond.get_id())
        if k is not None:
            if (k[2] == '==') == b:
                self.learn_zero(k[1])
            return
        if z3.is_not(cond):
            self.learn(cond.arg(0), not b)
        elif (b and z3.is_and(cond)) or (not b and z3.is_or(cond)):
            for c in cond.children():
                self.learn(c, b)

    def learn_zero(self, n):
        n = self.known(n)
        s = p_solve(n) if n else None
        if s is None:
            return
        i, v = s
        one = {i: v}
        m = MASK << (W * i)
        self.sub = {j: p_subst(q, one, m, self.sp) for j, q in self.sub.items()}
        self.sub[i] = v
        self.submask |= m

    def known(self, n):
        """a polynomial with the known variables replaced"""
        return p_subst(n, self.sub, self.submask, self.sp) if self.sub else n

    # ------------------------------------------------------------ constraints
    def assume(self, cond):
        """add a constraint to the path (z3 Bool or python bool)"""
        if cond is True:
            return
        if cond is False:
            raise PathAbort('assumption is false')
        self.learn(cond, True)
        self.solver.add(cond)

    def check(self, *extra, ms=None):
        t = time.time()
        if ms is not None:
            self.solver.set('timeout', ms)
        r = self.solver.check(*extra)
        if ms is not None:
            self.solver.set('timeout', self.opts.get('branch_ms', 4000))
        self.stats['solver_s'] += time.time() - t
        self.stats['feasibility_queries'] += 1
        return r

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget of the harness exhausted')

    def branch(self, cond):
        b = self._branch(cond)
        self.learn(cond, b)
        return b

    def _branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.cache:
            return self.cache[k][0]
        self.tick()
        if self.i < len(self.prefix):
            b = self.prefix[self.i]
            self.i += 1
        else:
            self.i += 1
            r = self.check(cond)
            if r == z3.unsat:
                b = False
                self.solver.add(z3.Not(cond))
                self.cache[k] = (False, cond)
                # deterministic: record so that the re-execution stays aligned
                self.prefix = self.prefix + [False]
                self.decisions.append(False)
                return False
            b = True
            # both sides are checked at once: an execution is dearer than a query
            if self.check(z3.Not(cond)) != z3.unsat:
                self.pending.append(self.prefix + [False])
            self.prefix = self.prefix + [True]
        self.stats['branches'] += 1
        self.decisions.append(b)
        self.solver.add(cond if b else z3.Not(cond))
        self.cache[k] = (b, cond)
        return b

    def choose(self, n, name):
        """fork over range(n) (structural choice)"""
        v = z3.Int(self.freshname('choice_' + name))
        self.solver.add(v >= 0, v < n)
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        return n - 1


# ====================================================================== SymBool
class SymBool:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return cur().branch(self.c)

    def __and__(self, o):
        return mkbool(z3.And(self.c, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.c, zbool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.c, zbool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.c))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return mkbool(self.c == zbool(o))
        return toint(self) == o

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return mkbool(self.c != zbool(o))
        return toint(self) != o

    def __hash__(self):
        return id(self)

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def _num(self):
        return 1 if bool(self) else 0

    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __float__(self): return float(self._num())
    def __lt__(self, o): return self._num() < o
    def __gt__(self, o): return self._num() > o
    def __le__(self, o): return self._num() <= o
    def __ge__(self, o): return self._num() >= o
    def __repr__(self):
        return 'SymBool(%s)' % self.c


def toint(b):
    return 1 if bool(b) else 0


def zbool(x):
    if isinstance(x, SymBool):
        return x.c
    return z3.BoolVal(bool(x))


def mkbool(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


# ====================================================================== Sym
def tofrac(x):
    """exact value of a concrete number (None if it has none: inf/nan)"""
    t = type(x)
    if t is int or t is Fraction:
        return x
    if t is float:
        if x != x or x in (math.inf, -math.inf):
            return None
        return Fraction(x)
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return None
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if hasattr(x, '_mpf_') and not isinstance(x, Sym):
        s, m, e, b = x._mpf_
        if not m and e:
            return None
        m = int(m)
        v = Fraction(m) * (Fraction(2) ** e)
        return -v if s else v
    raise TypeError


KINDS = {}          # 'f','i','m' -> class


class Sym:
    """a symbolic real number"""
    kind = 'f'
    __array_priority__ = -1

    # ------------------------------------------------------------ construction
    @staticmethod
    def make(rf, kind='f'):
        cls = KINDS[kind]
        s = cls.__new__(cls) if kind != 'm' else object.__new__(cls)
        s._r = rf
        return s

    def _is_const(self):
        return self._r.is_const()

    def _value(self):
        return self._r.value()

    # ------------------------------------------------------------ coercion
    def _coerce(self, o):
        """-> (RF, kind) or None"""
        if isinstance(o, Sym):
            return o._r, o.kind
        if isinstance(o, SymBool):
            return cur().const(toint(o)), 'i'
        try:
            v = tofrac(o)
        except TypeError:
            return None
        if v is None:
            return None
        if isinstance(o, (int, np.integer, np.bool_)):
            k = 'i'
        elif hasattr(o, '_mpf_'):
            k = 'm'
        else:
            k = 'f'
        return cur().const(v), k

    def _res(self, rf, okind, op='+'):
        k = self.kind
        if 'm' in (k, okind):
            return round_mpf(rf, op)
        if k == 'i' and okind == 'i' and op != '/':
            return Sym.make(rf, 'i')
        return Sym.make(rf, 'f')

    def _bin(self, o, f, refl, ufunc, op):
        if isinstance(o, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = self
            return ufunc(o, a) if refl else ufunc(a, o)
        if isinstance(o, (complex, SymC)) or hasattr(o, '_mpc_'):
            a = SymC(self, 0)
            b = SymC.of(o)
            return SymC._op(b, a, op) if refl else SymC._op(a, b, op)
        c = self._coerce(o)
        if c is None:
            sp = self._special(o, op, refl)
            return sp
        r, k = c
        if refl:
            return self._res(f(r, self._r), k, op)
        return self._res(f(self._r, r), k, op)

    def _special(self, o, op, refl):
        """operation with inf / nan"""
        try:
            if tofrac(o) is not None:
                return NotImplemented
        except TypeError:
            return NotImplemented
        v = float(o)
        if v != v:
            return o
        if op == '+':
            return o
        if op == '-':
            return o if refl else -o
        if op == '*':
            if self == 0:
                return float('nan')
            return o if self > 0 else -o
        if op == '/' and not refl:
            return 0.0
        raise Unsupported('symbolic %s with %r' % (op, o))

    def __add__(self, o): return self._bin(o, RF.add, False, np.add, '+')
    def __radd__(self, o): return self._bin(o, RF.add, True, np.add, '+')
    def __sub__(self, o): return self._bin(o, rf_sub, False, np.subtract, '-')
    def __rsub__(self, o): return self._bin(o, rf_sub, True, np.subtract, '-')

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)) :
            return NotImplemented
        return self._bin(o, RF.mul, False, np.multiply, '*')
    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, RF.mul, True, np.multiply, '*')
    def __truediv__(self, o): return self._bin(o, rf_div, False, np.true_divide, '/')
    def __rtruediv__(self, o): return self._bin(o, rf_div, True, np.true_divide, '/')

    def __neg__(self):
        return self._res(self._r.neg(), self.kind, 'neg')

    def __pos__(self):
        return self._res(self._r, self.kind, 'pos')

    def __abs__(self):
        return self._res(absv(self)._r, self.kind, 'abs')

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray):
            return self._bin(o, None, False, np.floor_divide, '//')
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        q = floor_(Sym.make(rf_div(self._r, c[0]), 'f'))
        if self.kind == 'i' and c[1] == 'i':
            return q
        return Sym.make(q._r, 'f')

    def __rfloordiv__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return Sym.make(c[0], c[1] if c[1] != 'm' else 'f').__floordiv__(self)

    def __mod__(self, o):
        q = self.__floordiv__(o)
        if q is NotImplemented:
            return q
        return self - q * o

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported('formatting')
        return o - self.__rfloordiv__(o) * self

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        return q, self - q * o

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym):
            if o._is_const():
                o = o._value()
            elif self._is_const():
                return o.__rpow__(self._value())
            elif o.kind == 'i':
                o = o.__index__()
            else:
                raise Unsupported('symbolic power')
        if isinstance(o, np.ndarray):
            return self._bin(o, None, False, np.power, '**')
        v = tofrac(o)
        if v is None:
            raise Unsupported('power with inf/nan')
        v = Fraction(v)
        if v.denominator == 1:
            n = int(v)
            r = cur().const(1)
            for _ in range(abs(n)):
                r = r.mul(self._r)
            if n < 0:
                check_nonzero(r)
                r = r.inv()
            k = self.kind
            if k == 'i' and n < 0:
                k = 'f'
            if k == 'i' and not isinstance(o, (int, np.integer)):
                k = 'f'
            return self._res(r, k, '**')
        if v.denominator == 2:
            s = sqrt_(self)
            return s ** int(v.numerator)
        raise Unsupported('power %s' % v)

    def __rpow__(self, o):
        if self._is_const():
            return KINDS['i' if isinstance(o, (int, np.integer)) else 'f'] and pow_conc(o, self._value())
        if isinstance(o, np.ndarray):
            return self._bin(o, None, True, np.power, '**')
        b = tofrac(o)
        if b == 2 or b == Fraction(1, 2) or b == 10:
            return pow_base(b, self)
        if b == 1:
            return 1
        if self.kind == 'i':
            return o ** self.__index__()
        raise Unsupported('%r ** symbolic' % (o,))

    def __lshift__(self, o):
        return self * 2 ** o

    def __rlshift__(self, o):
        return o * 2 ** self

    def __rshift__(self, o):
        return self // (2 ** o)

    # ------------------------------------------------------------ comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = self
            uf = {'==': np.equal, '!=': np.not_equal, '<': np.less, '<=': np.less_equal,
                  '>': np.greater, '>=': np.greater_equal}[op]
            return uf(a, o)
        if isinstance(o, SymC) or isinstance(o, complex) or hasattr(o, '_mpc_'):
            if op in ('==', '!='):
                e = SymC(self, 0) == o
                return e if op == '==' else not_(e)
            return NotImplemented
        c = self._coerce(o)
        if c is None:
            try:
                v = tofrac(o)
            except TypeError:
                return NotImplemented
            f = float(o)
            if f != f:
                return op == '!='
            return {'==': False, '!=': True, '<': f > 0, '<=': f > 0, '>': f < 0, '>=': f < 0}[op]
        d = rf_sub(self._r, c[0])
        return rf_cmp0(d, op)

    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __hash__(self):
        if self._is_const():
            return hash(Fraction(self._value()))
        return id(self)

    def __bool__(self):
        if STORE[0]:
            return True
        r = rf_cmp0(self._r, '!=')
        return bool(r)

    # ------------------------------------------------------------ conversions
    def __index__(self):
        if self._is_const():
            v = Fraction(self._value())
            if v.denominator == 1 and self.kind == 'i':
                return int(v)
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.kind != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __int__(self):
        if self._is_const():
            return int(Fraction(self._value()))
        t = trunc_(self)
        if t._is_const():
            return int(t._value())
        return concretize_int(t)

    def __float__(self):
        if self._is_const():
            return float(Fraction(self._value()))
        raise Unsupported('float() of a symbolic value by compiled code')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported('round to digits')
        return round_half_even(self)

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return ceil_(self)

    @property
    def real(self): return self

    @property
    def imag(self):
        return Sym.make(cur().const(0), self.kind)

    def conjugate(self): return self

    def conj(self): return self

    def is_integer(self):
        return floor_(self) == self

    def item(self): return self

    def copy(self): return self

    def __copy__(self): return self

    def __deepcopy__(self, memo): return self

    def sqrt(self): return np_sqrt(self)

    def rint(self):
        return Sym.make(round_half_even(self)._r, 'f')

    def floor(self): return Sym.make(floor_(self)._r, 'f')

    def ceil(self): return Sym.make(ceil_(self)._r, 'f')

    def log2(self): return log2_(self)

    def sign(self): return sign_(self)

    def square(self): return self * self

    def isnan(self): return False

    def isinf(self): return False

    def isfinite(self): return True

    # ------------------------------------------------------------ text
    def __repr__(self):
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return printed(self, spec)

    def hex(self):
        if self._is_const():
            return float(self).hex()
        return printed(self, '')

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


class SymFloat(Sym):
    kind = 'f'


class SymInt(Sym):
    kind = 'i'

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1

    def bit_length(self):
        raise Unsupported('bit_length')


KINDS['f'] = SymFloat
KINDS['i'] = SymInt
# KINDS['m'] is set by mpshim


# a flag: bool(Sym) is True without forking (storing elements in sparse containers)
STORE = [False]

# ---- text tokens: "_sym<k>_" stands for the k-th symbolic value printed on this path
import re
TOKEN = re.compile(r'(-?)_sym(\d+)_+')


def token(s):
    """a printable stand-in for a symbolic value; the text can be parsed back"""
    if s._is_const():
        v = Fraction(s._value())
        if s.kind == 'i':
            return str(int(v))
        try:
            f = float(v)
        except OverflowError:
            f = None
        if f is not None and Fraction(f) == v:
            return repr(f)
    p = CUR
    if p is None:
        return '<sym>'
    t = p.notes.setdefault('tokens', [])
    for i, x in enumerate(t):
        if x is s:
            break
    else:
        i = len(t)
        t.append(s)
    # the length of the printed number is not known: the case may ask for a long one
    return ('_sym%d_' % i).ljust(p.opts.get('toklen', 0), '_')


def token_value(i):
    return cur().notes['tokens'][i]


LOSSY = re.compile(r'(?:\.(\d+))?[hlL]?([efgEFG]?)$')


def printed(s, spec):
    """text of a value; the formats that round give another value (the same one for the same
    value and format), and the sign is shown if the case asks for it"""
    p = CUR
    if p is None or s._is_const():
        try:
            return ('%' + spec) % float(s) if spec else token(s)
        except (ValueError, TypeError):
            return token(s)
    s = rounded(s, spec)
    if p.opts.get('textsign') and not s._is_const() and s < 0:
        return '-' + token(-s)
    return token(s)


def rounded(s, spec):
    m = LOSSY.search(spec or '')
    if not m or not (m.group(1) or m.group(2)):
        return s
    d = int(m.group(1)) if m.group(1) else 6
    if m.group(2).lower() in 'eg' and d >= 17 - (m.group(2).lower() == 'e'):
        return s
    p = CUR
    cache = p.notes.setdefault('rounded', {})
    key = (tuple(sorted(s._r.n.items())), s._r.d, m.group(2).lower(), d)
    if key not in cache:
        i = p.newvar(p.freshname('text'))
        if m.group(2).lower() == 'f':
            z = p.z_rf(s._r)
            e = z3.RealVal('1/%d' % (2 * 10 ** d))
            p.assume(z3.And(p.zv[i] <= z + e, z <= p.zv[i] + e))
        else:
            z = p.z_rf(s._r)
            e = z3.RealVal('1/%d' % 10 ** max(d - (m.group(2).lower() == 'g'), 0))
            a = e * z3.If(z >= 0, z, -z)
            p.assume(z3.And(p.zv[i] <= z + a, z <= p.zv[i] + a))
        cache[key] = Sym.make(p.rf_var(i), 'f')
    return cache[key]


# ====================================================================== helpers
def rf_sub(a, b):
    return a.add(b.neg())


def rf_div(a, b):
    check_nonzero(b)
    return a.div(b)


def check_nonzero(b):
    if not b.n:
        raise ZeroDivisionError('division by zero')
    if b.is_const():
        return
    if rf_cmp0_bool(b, '=='):
        raise ZeroDivisionError('division by zero')


def rf_cmp0(d, op):
    """condition d op 0 as bool / SymBool"""
    if d.is_const():
        v = d.value()
        return {'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]
    p = cur()
    if p.sub:
        n = p.known(d.n)
        if n is not d.n and (not d.d or op in ('==', '!=')):
            d = RF(n, (), d.sp) if op in ('==', '!=') else RF(n, d.d, d.sp)
            if not n or (not d.d and d.is_const()):
                return rf_cmp0(d, op)
    return mkbool(cur().z_sign(d, op))


def rf_cmp0_bool(d, op):
    return bool(rf_cmp0(d, op))


def not_(b):
    if isinstance(b, SymBool):
        return ~b
    return not b


def lift(x, kind=None):
    """a Sym for any number"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        x = toint(x)
    v = tofrac(x)
    if v is None:
        raise Unsupported('inf/nan in a symbolic computation')
    if kind is None:
        kind = 'i' if isinstance(x, (int, np.integer, np.bool_)) else ('m' if hasattr(x, '_mpf_') else 'f')
    return Sym.make(cur().const(v), kind)


def pow_conc(o, v):
    v = Fraction(v)
    if v.denominator == 1:
        b = tofrac(o)
        if isinstance(o, (int, np.integer)) and v >= 0:
            return int(b) ** int(v)
        return lift(Fraction(b) ** int(v))
    return float(o) ** float(v)


def atom(kind, key, build, integer=False):
    """memoised auxiliary variable: same key -> same variable on a path"""
    p = cur()
    k = (kind, key)
    if k in p.atoms:
        return p.atoms[k][0]
    i = p.newvar(p.freshname(kind), integer)
    r = p.rf_var(i)
    # keep key objects alive
    p.atoms[k] = (r, key)
    for c in build(p.zv[i], r):
        p.solver.add(c)
    return r


def rfkey(r):
    return (frozenset(r.n.items()), r.d)


def absv(x):
    p = cur()
    x = lift(x)
    if x._is_const():
        return Sym.make(p.const(abs(x._value())), x.kind)
    k = x.kind if x.kind != 'm' else 'f'
    if ('abs', rfkey(x._r)) not in p.atoms:
        # a sign already decided on this path needs no auxiliary variable
        pos = p.z_sign(x._r, '>=')
        neg = p.z_sign(x._r, '<=')
        if p.check(z3.Not(pos)) == z3.unsat:
            return Sym.make(x._r, k)
        if p.check(z3.Not(neg)) == z3.unsat:
            return Sym.make(x._r.neg(), k)

    def build(z, r):
        e = p.z_rf(x._r)
        return [z3.If(e >= 0, z == e, z == -e), z >= 0]
    r = atom('abs', rfkey(x._r), build)
    return Sym.make(r, k)


def _intatom(name, x, cons):
    p = cur()
    r = atom(name, rfkey(x._r), lambda z, r: cons(z, p.z_rf(x._r)), integer=True)
    return Sym.make(r, 'i')


def integral(x):
    """an integer whatever its variables: polynomial in integer variables with integer coefficients"""
    r = x._r
    if r.d:
        return False
    zv = cur().zv
    for c in r.n.values():
        if Fraction(c).denominator != 1:
            return False
    return all(z3.is_to_real(zv[i]) for i in p_vars(r.n))


def floor_(x):
    x = lift(x)
    if x._is_const():
        return Sym.make(cur().const(math.floor(Fraction(x._value()))), 'i')
    if x.kind == 'i':
        return x
    if integral(x):
        return Sym.make(x._r, 'i')
    return _intatom('floor', x, lambda z, e: [z <= e, e < z + 1])


def ceil_(x):
    x = lift(x)
    if x._is_const():
        return Sym.make(cur().const(math.ceil(Fraction(x._value()))), 'i')
    if x.kind == 'i':
        return x
    if integral(x):
        return Sym.make(x._r, 'i')
    return _intatom('ceil', x, lambda z, e: [z >= e, e > z - 1])


def trunc_(x):
    x = lift(x)
    if x._is_const():
        return Sym.make(cur().const(math.trunc(Fraction(x._value()))), 'i')
    if x.kind == 'i':
        return x
    if integral(x):
        return Sym.make(x._r, 'i')
    return _intatom('trunc', x, lambda z, e: [z3.If(e >= 0, z3.And(z <= e, e < z + 1), z3.And(z >= e, e > z - 1))])


def round_half_even(x):
    x = lift(x)
    if x._is_const():
        return Sym.make(cur().const(round(Fraction(x._value()))), 'i')
    if x.kind == 'i':
        return x
    if integral(x):
        return Sym.make(x._r, 'i')

    def cons(z, e):
        h = z3.Q(1, 2)
        return [z - h <= e, e <= z + h,
                z3.Implies(e == z - h, z3.IsInt(z / 2)), z3.Implies(e == z + h, z3.IsInt(z / 2))]
    return _intatom('round', x, cons)


def sign_(x):
    x = lift(x)
    if x == 0:
        return Sym.make(cur().const(0), x.kind)
    if x > 0:
        return Sym.make(cur().const(1), x.kind)
    return Sym.make(cur().const(-1), x.kind)


def sqrt_exactconst(v):
    v = Fraction(v)
    a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if a * a == v.numerator and b * b == v.denominator:
        return Fraction(a, b)
    return None


def sqrt_(x):
    """square root of a symbolic value known to be >= 0 (caller handles the sign)"""
    x = lift(x)
    p = cur()
    k = 'm' if x.kind == 'm' else 'f'
    if x._is_const():
        v = sqrt_exactconst(x._value())
        if v is not None:
            return Sym.make(p.const(v), k)
    # sqrt(n/d) = sqrt(n*d)/d for d > 0;  with d of unknown sign: |d|
    r = x._r
    if r.d:
        d = RF(r.denpoly(), (), p.sp)
        nd = r.mul(d).mul(d)
        s = sqrt_(Sym.make(nd, 'f'))
        return Sym.make(s._r.div(absv(Sym.make(d, 'f'))._r), k)
    key = rfkey(r)
    kk = ('sqrt', key)
    if kk in p.atoms:
        return Sym.make(p.atoms[kk][0], k)
    i = p.newvar(p.freshname('sqrt'))
    s = p.rf_var(i)
    p.atoms[kk] = (s, key)
    p.sp.rules[i] = dict(r.n)
    from .poly import W, MASK
    p.sp.rulemask |= MASK << (W * i)
    z = p.zv[i]
    p.solver.add(z >= 0, z * z == p.z_poly(r.n))
    return Sym.make(s, k)


def cossin_(x):
    """cosine and sine of a symbolic angle: any point of the unit circle (the same one for the same angle)"""
    x = lift(x)
    p = cur()
    if x._is_const():
        a = float(x._value())
        return lift(math.cos(a), 'f'), lift(math.sin(a), 'f')
    kk = ('cossin', rfkey(x._r))
    if kk not in p.atoms:
        i, j = p.newvar(p.freshname('cos')), p.newvar(p.freshname('sin'))
        c, s = p.rf_var(i), p.rf_var(j)
        p.atoms[kk] = (c, s)
        one = Sym.make(p.const(Fraction(1)), 'f') - Sym.make(c, 'f') * Sym.make(c, 'f')
        p.sp.rules[j] = dict(one._r.n)
        from .poly import W, MASK
        p.sp.rulemask |= MASK << (W * j)
        zc, zs = p.zv[i], p.zv[j]
        p.solver.add(zc * zc + zs * zs == 1, zc >= -1, zc <= 1, zs >= -1, zs <= 1)
    c, s = p.atoms[kk]
    return Sym.make(c, 'f'), Sym.make(s, 'f')


def np_sqrt(x):
    x = lift(x)
    if x < 0:
        return float('nan')
    return sqrt_(x)


def math_sqrt(x):
    x = lift(x)
    if x < 0:
        raise ValueError('math domain error')
    return sqrt_(x)


EXPRANGE = 40


def log2_(x):
    """log2 of a positive symbolic value: a real L with 2^i <= x <=> i <= L (|i| <= EXPRANGE)"""
    x = lift(x)
    p = cur()
    if x <= 0:
        if x == 0:
            return float('-inf')
        return float('nan')
    R = p.opts.get('exprange', EXPRANGE)
    if x._is_const():
        v = Fraction(x._value())
        e = 0
        while Fraction(2) ** e < v:
            e += 1
        while Fraction(2) ** e > v:
            e -= 1
        if Fraction(2) ** e == v:
            return Sym.make(p.const(e), 'f')

    def build(z, r):
        e = p.z_rf(x._r)
        cs = [z > -R, z < R, e > z3.Q(1, 2 ** R), e < 2 ** R]
        for i in range(-R, R + 1):
            q = z3.Q(2 ** i, 1) if i >= 0 else z3.Q(1, 2 ** -i)
            cs.append((e >= q) == (z >= i))
            cs.append((e == q) == (z == i))
        for b in p.opts.get('logpoints', ()):
            # rational breakpoints (t, lo, hi): lo <= 2^t <= hi for the fractional offset t
            t, lo, hi = b
            for i in range(-R, R + 1):
                q = Fraction(2) ** i
                cs.append(z3.Implies(e <= z3.Q((q * lo).numerator, (q * lo).denominator), z <= z3.Q((i + t).numerator, (i + t).denominator)))
                cs.append(z3.Implies(e < z3.Q((q * lo).numerator, (q * lo).denominator), z < z3.Q((i + t).numerator, (i + t).denominator)))
                cs.append(z3.Implies(e > z3.Q((q * hi).numerator, (q * hi).denominator), z > z3.Q((i + t).numerator, (i + t).denominator)))
                cs.append(z3.Implies(e >= z3.Q((q * hi).numerator, (q * hi).denominator), z >= z3.Q((i + t).numerator, (i + t).denominator)))
        return cs
    new = ('log2', rfkey(x._r)) not in p.atoms
    r = atom('log2', rfkey(x._r), build)
    if new:
        if p.opts.get('logpairs'):
            # differences of logarithms: i <= log2(x) - log2(y) <=> 2^i y <= x
            z, e = p.z_rf(r), p.z_rf(x._r)
            for r2, y in p.notes.get('log2', []):
                z2, e2 = p.z_rf(r2), p.z_rf(lift(y)._r)
                for i in range(-2 * R, 2 * R + 1):
                    q = z3.Q(2 ** i, 1) if i >= 0 else z3.Q(1, 2 ** -i)
                    p.solver.add((z - z2 >= i) == (e >= q * e2), (z - z2 == i) == (e == q * e2))
        p.notes.setdefault('log2', []).append((r, x))
    return Sym.make(r, 'f')


def log2r_(x, slack=53):
    """log2 computed in double precision (option logrounded): within one unit in the last place, exact at the powers of two, monotone"""
    L = log2_(x)
    p = cur()
    if not p.opts.get('logrounded') or not isinstance(L, Sym) or L._is_const():
        return L
    e, l = p.z_rf(lift(x)._r), p.z_rf(L._r)
    R = p.opts.get('exprange', EXPRANGE)
    u = z3.Q(1, 2 ** slack)

    def build(z, r):
        al = z3.If(l >= 0, l, -l)
        cs = [z - l <= u * al, l - z <= u * al]
        for i in range(-R, R):
            q = z3.Q(2 ** i, 1) if i >= 0 else z3.Q(1, 2 ** -i)
            # i + t <= log2(2^i (1 + t)) <= i + 3/2 t
            inside = z3.And(e >= q, e <= 2 * q)
            cs += [z3.Implies(z3.And(e >= q, e <= q + q / 1024), l >= i + z3.Q(144, 100) * (e / q - 1)), z3.Implies(inside, l >= i + (e / q - 1)), z3.Implies(inside, l <= i + z3.Q(3, 2) * (e / q - 1)),
                   z3.Implies(e >= q, z >= i), z3.Implies(e <= q, z <= i)]
        return cs
    return Sym.make(atom('log2r', rfkey(L._r), build), 'f')


def logquot_(x):
    """math.log(x, 2): the quotient of two logarithms, not exact at some powers of two"""
    L = log2r_(x, 52)
    if not isinstance(L, Sym):
        return L
    p = cur()
    e, l = p.z_rf(lift(x)._r), p.z_rf(L._r)
    R = p.opts.get('exprange', EXPRANGE)

    def build(z, r):
        cs, not_ = [], []
        for i in range(-R, R + 1):
            v = Fraction(math.log(2.0 ** i, 2))
            if v != i:
                q = e == z3.Q(2 ** i, 1) if i >= 0 else e == z3.Q(1, 2 ** -i)
                cs.append(z3.Implies(q, z == z3.Q(v.numerator, v.denominator)))
                not_.append(z3.Not(q))
        cs.append(z3.Implies(z3.And(*not_), z == l))
        return cs
    return Sym.make(atom('logq', rfkey(L._r), build), 'f')


def pow_base(b, k):
    """b ** k for an integer-valued symbolic k (table within the exponent range)"""
    p = cur()
    if k.kind != 'i':
        # 2.0 ** float that is an integer (ceil/floor of a log): same value
        fl = floor_(k)
        eq = rf_cmp0(rf_sub(fl._r, k._r), '==')
        if not (eq is True or p.check(z3.Not(zbool(eq))) == z3.unsat):
            # 2^L with L = log2(x) is x
            for (r, x) in p.notes.get('log2', []):
                if rfkey(r) == rfkey(k._r) and b == 2:
                    return Sym.make(x._r, 'f')
            if b == 10 and not p.opts.get('exact10'):
                return exp10_(k)
            raise Unsupported('power with a non-integer symbolic exponent')
        k = Sym.make(k._r, 'f')
    R = p.opts.get('powrange', 2 * EXPRANGE)

    def build(z, r):
        e = p.z_rf(k._r)
        cs = [e >= -R, e <= R, z > 0]
        ite = z3.RealVal(1)
        for i in range(-R, R + 1):
            v = Fraction(b) ** i
            cs.append(z3.Implies(e == i, z == z3.Q(v.numerator, v.denominator)))
        return cs
    r = atom('pow%s' % b, rfkey(k._r), build)
    return Sym.make(r, 'f')


def exp10_(k):
    """10 ** k for a real k: a positive increasing function of k, 1 at 0 (nothing else is known of it)"""
    p = cur()
    e = p.z_rf(k._r)

    def build(z, r):
        cs = [z > 0, (e == 0) == (z == 1), (e < 0) == (z < 1)]
        for e2, z2 in p.notes.get('exp10', []):
            cs += [(e < e2) == (z < z2), (e == e2) == (z == z2)]
        p.notes.setdefault('exp10', []).append((e, z))
        return cs
    return Sym.make(atom('exp10', rfkey(k._r), build), 'f')


def concretize_int(x):
    """fork over the feasible values of an integer symbolic value"""
    p = cur()
    e = p.z_rf(x._r)
    for _ in range(p.opts.get('maxint', 200)):
        if p.i < len(p.prefix):
            # replaying: the recorded values are re-derived deterministically from the solver,
            # so store them in the notes of the prefix
            pass
        v = intvalue(p, e)
        if p.branch(e == v):
            return v
    raise Unsupported('unbounded integer')


def intvalue(p, e):
    """the smallest-magnitude feasible value of e, found deterministically"""
    for v in [0] + [s * k for k in range(1, 80) for s in (1, -1)]:
        c = z3.simplify(e == v)
        if z3.is_false(c):
            continue
        if (c.get_id() in p.cache) and not p.cache[c.get_id()][0]:
            continue
        if p.check(e == v) != z3.unsat:
            return v
    raise Unsupported('integer out of range')


# ====================================================================== mpf rounding
def round_mpf(rf, op='+', prec=None):
    """result of a multiprecision operation: the exact value, or value*(1+delta) with
    |delta| <= 2^-prec when the harness models rounding"""
    p = cur()
    mk = KINDS['m']
    if p.opts.get('rounding', 'exact') == 'exact' or rf.is_const() or not rf.n:
        return Sym.make(rf, 'm')
    if prec is None:
        prec = mk.context.prec
    if prec in (0, None) or prec == float('inf'):
        return Sym.make(rf, 'm')
    key = (rfkey(rf), int(prec))
    if key in p.deltas:
        r = p.deltas[key]
    else:
        w = p.notes.get('width', {}).get(key[0])
        if w is not None and w <= prec:
            return Sym.make(rf, 'm')
        i = p.newvar(p.freshname('delta'))
        z = p.zv[i]
        q = z3.Q(1, 2 ** int(prec))
        p.solver.add(z <= q, z >= -q)
        r = rf.mul(p.const(1).add(p.rf_var(i)))
        p.deltas[key] = r
        # a rounded value fits in prec bits
        p.notes.setdefault('width', {})[rfkey(r)] = prec
    return Sym.make(r, 'm')


def set_width(rf, w):
    p = cur()
    d = p.notes.setdefault('width', {})
    d[rfkey(rf)] = w
    d[rfkey(rf.neg())] = w


def get_width(rf):
    return cur().notes.get('width', {}).get(rfkey(rf))


# ====================================================================== complex
class SymC:
    """a complex number with symbolic parts"""
    __array_priority__ = -1

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(o):
        if isinstance(o, SymC):
            return o
        if isinstance(o, complex):
            return SymC(o.real, o.imag)
        if hasattr(o, '_mpc_'):
            return SymC(o.real, o.imag)
        return SymC(o, 0)

    @property
    def real(self): return lift(self.re) if not isinstance(self.re, Sym) else self.re

    @property
    def imag(self): return lift(self.im) if not isinstance(self.im, Sym) else self.im

    @staticmethod
    def _op(a, b, op):
        if op == '+':
            return SymC(a.re + b.re, a.im + b.im)
        if op == '-':
            return SymC(a.re - b.re, a.im - b.im)
        if op == '*':
            return SymC(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        if op == '/':
            d = b.re * b.re + b.im * b.im
            d = lift(d)
            return SymC((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)
        raise Unsupported('complex ' + op)

    def _bin(self, o, op, refl=False):
        if isinstance(o, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = self
            uf = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.true_divide}[op]
            return uf(o, a) if refl else uf(a, o)
        if not (isinstance(o, (Sym, SymC, numbers.Number)) or hasattr(o, '_mpf_') or hasattr(o, '_mpc_')):
            return NotImplemented
        b = SymC.of(o)
        return SymC._op(b, self, op) if refl else SymC._op(self, b, op)

    def __add__(self, o): return self._bin(o, '+')
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __neg__(self): return SymC(-self.re, -self.im)
    def __pos__(self): return self
    def conjugate(self): return SymC(self.re, -self.im)
    conj = conjugate

    def __pow__(self, n):
        n = operator.index(n)
        r = SymC(1, 0)
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else 1 / r

    def __abs__(self):
        return sqrt_(lift(self.re * self.re + self.im * self.im))

    def __eq__(self, o):
        if not (isinstance(o, (Sym, SymC, numbers.Number)) or hasattr(o, '_mpf_') or hasattr(o, '_mpc_')):
            return NotImplemented
        b = SymC.of(o)
        x = self.re == b.re
        y = self.im == b.im
        if isinstance(x, SymBool) or isinstance(y, SymBool):
            return mkbool(z3.And(zbool(x), zbool(y)))
        return bool(x) and bool(y)

    def __ne__(self, o):
        e = self.__eq__(o)
        return e if e is NotImplemented else not_(e)

    def __hash__(self): return id(self)

    def __bool__(self):
        if STORE[0]:
            return True
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __repr__(self):
        return 'SymC(%r,%r)' % (self.re, self.im)
