"""numpy / numpy.linalg over symbolic values: the real numpy on object arrays, with the
constructors and the compiled linear algebra replaced."""
import types
import math
import builtins
from fractions import Fraction

import numpy as np
import numpy.linalg
import numpy.random

from . import sym as S
from .sym import Sym, SymC, SymBool, SymInt, SymFloat, Unsupported, lift, z3

FLOATS = (np.floating,)


# ---------------------------------------------------------------- python builtins
class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls._sym):
            return True
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        try:
            return issubclass(c, cls._real) or issubclass(c, cls._sym)
        except TypeError:
            return False

    def __eq__(cls, o):
        return o is cls or o is cls._real or o is cls._sym

    def __ne__(cls, o):
        return not cls.__eq__(o)

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)


class float_(metaclass=_NumMeta):
    _real = float
    _sym = SymFloat

    @staticmethod
    def hex(x):
        return x.hex()

    def __new__(cls, x=0.0):
        if isinstance(x, SymBool):
            return float(int(x))
        if isinstance(x, Sym):
            if x.kind == 'm':
                p = S.cur()
                if p.opts.get('rounding', 'exact') == 'exact' or x._is_const():
                    return Sym.make(x._r, 'f')
                w = S.get_width(x._r)
                if w is not None and w <= 53:
                    return Sym.make(x._r, 'f')
                r = S.round_mpf(x._r, 'float', 53)
                return Sym.make(r._r, 'f')
            return Sym.make(x._r, 'f')
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return float_(x.reshape(-1)[0])
        if isinstance(x, str):
            m = S.TOKEN.fullmatch(x.strip())
            if m:
                v = S.token_value(int(m.group(2)))
                return -v if m.group(1) else v
        f = getattr(type(x), '__float__', None)
        if f is not None and getattr(f, '__code__', None) is not None:
            v = f(x)
            return v if isinstance(v, Sym) else float(v)
        return float(x)


class int_(metaclass=_NumMeta):
    _real = int
    _sym = SymInt

    def __new__(cls, x=0, *a):
        if isinstance(x, SymBool):
            return int(x)
        if isinstance(x, Sym):
            t = S.trunc_(x)
            return int(t._value()) if t._is_const() else t
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return int_(x.reshape(-1)[0])
        return int(x, *a)


class complex_(metaclass=_NumMeta):
    _real = complex
    _sym = SymC

    def __new__(cls, re=0, im=0):
        if isinstance(re, (Sym, SymC)) or isinstance(im, (Sym, SymC)):
            a, b = SymC.of(re), SymC.of(im)
            return SymC(a.re - b.im, a.im + b.re)
        return complex(re, im)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            t = type(a[0])
            return _TYPEMAP.get(t, t)
        return type(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


class type_(metaclass=_TypeMeta):
    pass


_TYPEMAP = {float: float_, int: int_, complex: complex_, SymFloat: float_, SymInt: int_, SymC: complex_, SymBool: bool}


class _BoolMeta(type):
    pass


def bool_fn(x=False):
    return bool(x)


def sym_format(fmt, args):
    """fmt % args with symbolic arguments printed as tokens"""
    if not isinstance(fmt, str):
        return fmt % args
    tup = args if isinstance(args, tuple) else (args,)

    def has(x):
        return isinstance(x, (Sym, SymBool, SymC))
    if isinstance(args, dict) or not any(has(a) for a in tup):
        return fmt % args
    import re
    out = []
    pos = 0
    it = iter(tup)
    for m in re.finditer(r'%(?:%|[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa]))', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(0) == '%%':
            out.append('%')
            continue
        a = next(it)
        if has(a):
            if m.group(3) in 'dioxX' and isinstance(a, Sym) and a.kind != 'i':
                a = S.trunc_(a)
            if isinstance(a, Sym) and m.group(3) in 'eEfFgG':
                out.append(S.printed(a, m.group(0)[1:]))
            elif isinstance(a, Sym):
                t = S.printed(a, '')
                if '+' in m.group(0) and m.group(3) in 'di':
                    t = ('-' + S.token(-a) if a < 0 else '+' + S.token(a)) if not a._is_const() else '%+d' % int(a)
                out.append(t)
            else:
                out.append(str(a))
        else:
            out.append(m.group(0) % (a,))
    out.append(fmt[pos:])
    try:
        next(it)
    except StopIteration:
        return ''.join(out)
    raise TypeError('not all arguments converted during string formatting')


def nditer(a, flags=(), *args, **k):
    a = np.asarray(a)
    if a.dtype != object or flags or args or k:
        return np.nditer(a, list(flags), *args, **k)
    return (x.item() for x in np.nditer(a, flags=['refs_ok', 'zerosize_ok']))


# ---------------------------------------------------------------- arrays
def symfill(a):
    """object array of symbolic constants from a float array"""
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    it = np.nditer(a, flags=['multi_index', 'refs_ok', 'zerosize_ok'])
    for x in it:
        out[it.multi_index] = conv(a[it.multi_index])
    return out


def conv(v):
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v or v in (math.inf, -math.inf):
            return v
        return lift(v, 'f')
    if isinstance(v, (complex, np.complexfloating)):
        return SymC(lift(float(v.real)), lift(float(v.imag)))
    return v


def obj(a):
    """normalise an array result: floats become exact symbolic constants"""
    if isinstance(a, np.ndarray):
        if a.dtype.kind in 'fc':
            r = symfill(a)
            if isinstance(a, np.matrix):
                return r.view(matrix) if r.ndim == 2 else r
            return r
        if a.dtype == object:
            flat = a.reshape(-1) if not isinstance(a, np.matrix) else np.asarray(a).reshape(-1)
            if any(isinstance(x, (float, np.floating, complex)) for x in flat):
                r = a.copy()
                ra = np.asarray(r)
                for idx in np.ndindex(ra.shape):
                    ra[idx] = conv(ra[idx])
                return r
        return a
    if isinstance(a, np.floating):
        return conv(a)
    return a


def keepdtype(dtype):
    """dtypes left to the real numpy"""
    if dtype is None or dtype in (float, float_, complex, complex_, object):
        return False
    try:
        d = np.dtype(dtype)
    except TypeError:
        return False
    return d.kind not in 'fcO'


def realdtype(dtype):
    if dtype is int_:
        return int
    if dtype is type_:
        return None
    return dtype


def parsed(data):
    """numpy parses the texts of a list converted to float; a token gives back its symbolic value"""
    if isinstance(data, str):
        return float_(data)
    if isinstance(data, (list, tuple)):
        return type(data)(parsed(v) for v in data)
    return data


def hastext(data):
    if isinstance(data, (list, tuple)):
        return any(isinstance(v, str) or hastext(v) for v in data)
    return False


class _MatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.matrix)

    def __eq__(cls, o):
        return o is cls or o is np.matrix

    def __hash__(cls):
        return hash(np.matrix)


class matrix(np.matrix, metaclass=_MatMeta):
    def __new__(cls, data, dtype=None, copy=True):
        dtype = realdtype(dtype)
        if isinstance(data, str):
            data = np.matrix(data)
        if dtype is not None and not keepdtype(dtype) and hastext(data):
            data = parsed(data)
        if isinstance(data, (Sym, SymC)):
            a = np.empty((1, 1), dtype=object)
            a[0, 0] = data
            return a.view(cls)
        if hasattr(data, '_data') and hasattr(data, 'rows'):
            data = data.tolist()
        if keepdtype(dtype):
            m = np.matrix(data, dtype=dtype, copy=copy)
            return m
        if isinstance(data, np.ndarray) and data.dtype.kind not in 'fc':
            m = np.matrix(data, copy=copy)
            if dtype is not None:
                m = np.matrix(m.astype(object))
        else:
            m = np.matrix(data, copy=copy)
        if dtype is not None and m.dtype != object:
            m = np.matrix(m.astype(float))
        m = obj(m)
        return np.asarray(m).view(cls) if m.dtype == object else m

    def astype(self, dtype, *a, **k):
        if not keepdtype(realdtype(dtype)):
            return self.copy()
        return np.matrix.astype(self, realdtype(dtype), *a, **k)

    def getI(self):
        r = linalg.inv(np.asarray(self))
        return np.asarray(r).view(matrix)
    I = property(getI)

    def __pow__(self, n):
        return linalg.matrix_power(self, n)

    def mean(self, *a, **k):
        s = self.sum(*a, **k)
        return s

    def max(self, axis=None, out=None):
        return np.matrix.max(self, axis, out)

    def __repr__(self):
        return 'matrix(%s)' % [[str(x) for x in r] for r in np.asarray(self).tolist()]

    def __str__(self):
        return self.__repr__()


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __eq__(cls, o):
        return o is cls or o is np.ndarray

    def __hash__(cls):
        return hash(np.ndarray)


def filled(shape, v, dtype):
    if keepdtype(dtype):
        return None
    if isinstance(shape, Sym):
        shape = int(shape)
    elif isinstance(shape, (tuple, list)):
        shape = tuple(x.__index__() for x in shape)
    a = np.empty(shape, dtype=object)
    if dtype is object:
        a.fill(v)
    else:
        a.fill(lift(v, 'f'))
    return a


def zeros(shape, dtype=float, order='C', **k):
    dtype = realdtype(dtype)
    r = filled(shape, 0, dtype)
    return np.zeros(shape, dtype, order) if r is None else r


def ones(shape, dtype=None, order='C', **k):
    dtype = realdtype(dtype)
    r = filled(shape, 1, dtype)
    return np.ones(shape, dtype, order) if r is None else r


def empty(shape, dtype=float, order='C', **k):
    dtype = realdtype(dtype)
    r = filled(shape, 0, dtype)
    return np.empty(shape, dtype, order) if r is None else r


def full(shape, v, dtype=None, order='C', **k):
    dtype = realdtype(dtype)
    if keepdtype(dtype) or (dtype is None and isinstance(v, (int, np.integer, bool))):
        return np.full(shape, v, dtype)
    a = np.empty(shape, dtype=object)
    a.fill(conv(v) if not isinstance(v, np.ndarray) else v)
    return a


def like(fn):
    def f(a, dtype=None, *args, **k):
        d = dtype if dtype is not None else (np.asarray(a).dtype if np.asarray(a).dtype.kind not in 'fcO' else float)
        r = fn(np.asarray(a).shape, d) if fn is not full else None
        if isinstance(a, np.matrix) and r.ndim == 2:
            r = r.view(matrix)
        return r
    return f


def full_like(a, v, dtype=None, **k):
    return full(np.asarray(a).shape, v, dtype)


def eye(N, M=None, k=0, dtype=float, order='C', **kw):
    dtype = realdtype(dtype)
    if keepdtype(dtype):
        return np.eye(N, M, k, dtype)
    N = N.__index__()
    M = N if M is None else M.__index__()
    a = zeros((N, M))
    for i in range(N):
        if 0 <= i + k < M:
            a[i, i + k] = lift(1, 'f')
    return a


def identity(n, dtype=None, **k):
    return eye(n, dtype=float if dtype is None else dtype)


def array(o, dtype=None, copy=True, ndmin=0, **k):
    dtype = realdtype(dtype)
    if dtype is not None and dtype is not object and not keepdtype(dtype) and hastext(o):
        o = parsed(o)
    if isinstance(o, (Sym, SymC)):
        a = np.empty((), dtype=object)
        a[()] = o
        return np.array(a, dtype=object, ndmin=ndmin)
    if hasattr(o, '_data') and hasattr(o, 'rows'):
        o = o.tolist()
    if keepdtype(dtype):
        return np.array(o, dtype=dtype, ndmin=ndmin)
    if dtype is not None:
        a = np.array(o, dtype=object, ndmin=ndmin)
        if dtype is not object:
            b = np.asarray(a)
            for idx in np.ndindex(b.shape):
                if isinstance(b[idx], (int, np.integer, bool, np.bool_)):
                    b[idx] = lift(int(b[idx]), 'f')
    else:
        a = np.array(o, ndmin=ndmin)
    return obj(a)


def asarray(o, dtype=None, order=None, **k):
    if isinstance(o, np.ndarray) and (o.dtype == object or o.dtype.kind not in 'fc'):
        if dtype is None or (o.dtype == object and not keepdtype(realdtype(dtype))):
            return np.asarray(o)
    return np.asarray(array(o, dtype))


def asanyarray(o, dtype=None, order=None, **k):
    if isinstance(o, np.ndarray):
        return obj(o)
    return array(o, dtype)


def asmatrix(o, dtype=None):
    if isinstance(o, np.matrix) and o.dtype == object:
        return o
    if isinstance(o, np.ndarray) and o.dtype == object and o.ndim == 2:
        return o.view(matrix)
    return matrix(o, dtype)


def bmat(o, *a, **k):
    r = np.bmat(o, *a, **k)
    return obj(r).view(matrix) if obj(r).dtype == object else r


def elementwise(fn):
    def f(x, *a, **k):
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            xa = np.asarray(x)
            for idx in np.ndindex(x.shape):
                out[idx] = fn(xa[idx])
            if all(isinstance(v, (bool, np.bool_)) for v in out.reshape(-1)):
                out = out.astype(bool)
            return out.view(matrix) if isinstance(x, np.matrix) and out.dtype == object else (np.matrix(out) if isinstance(x, np.matrix) else out)
        if isinstance(x, (list, tuple)):
            return f(array(x))
        return fn(x)
    return f


def _isnan(x):
    if isinstance(x, (Sym, SymC, SymBool)):
        return False
    return bool(np.isnan(float(x)))


def _isinf(x):
    if isinstance(x, (Sym, SymC, SymBool)):
        return False
    return bool(np.isinf(float(x)))


def _isfinite(x):
    return not (_isnan(x) or _isinf(x))


class vectorize:
    def __init__(self, fn, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.fn = fn

    def __call__(self, *args, **k):
        arrs = np.broadcast_arrays(*[np.asarray(a) if isinstance(a, np.ndarray) else array(a) for a in args])
        out = np.empty(arrs[0].shape, dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = self.fn(*[a[idx] for a in arrs], **k)
        flat = out.reshape(-1)
        if out.size and all(isinstance(v, (bool, np.bool_)) for v in flat):
            out = out.astype(bool)
        elif out.size and all(isinstance(v, (int, np.integer)) for v in flat):
            out = out.astype(int)
        else:
            out = obj(out)
        if any(isinstance(a, np.matrix) for a in args):
            return out.view(matrix) if out.dtype == object else np.matrix(out)
        if out.shape == ():
            return out[()]
        return out


# ---------------------------------------------------------------- exact linear algebra
def grid(A):
    A = np.asarray(A)
    return [[lift(x) if not isinstance(x, SymC) else x for x in row] for row in A.tolist()] if A.ndim == 2 else None


def iszero(x):
    """syntactic zero test"""
    return isinstance(x, Sym) and not x._r.n


def exact_det(G):
    n = len(G)
    if n == 0:
        return lift(1, 'f')
    memo = {}

    def minor(r, cols):
        if r == n:
            return lift(1, 'f')
        k = (r, cols)
        if k in memo:
            return memo[k]
        tot = lift(0, 'f')
        sgn = 1
        for pos, c in enumerate(cols):
            a = G[r][c]
            if not iszero(a):
                t = a * minor(r + 1, cols[:pos] + cols[pos + 1:])
                tot = tot + t if sgn > 0 else tot - t
            sgn = -sgn
        memo[k] = tot
        return tot
    return minor(0, tuple(range(n)))


def exact_inverse(G):
    """inverse of a square grid of numbers; ZeroDivisionError when singular"""
    n = len(G)
    low = all(iszero(G[i][j]) for i in range(n) for j in range(i + 1, n))
    upp = all(iszero(G[i][j]) for i in range(n) for j in range(i))
    zero, one = lift(0, 'f'), lift(1, 'f')
    if low or upp:
        X = [[zero] * n for _ in range(n)]
        order = range(n) if low else range(n - 1, -1, -1)
        for c in range(n):
            for i in order:
                s = one if i == c else zero
                for k in range(n):
                    if k != i and not iszero(G[i][k]) and not iszero(X[k][c]):
                        s = s - G[i][k] * X[k][c]
                X[i][c] = s if G[i][i]._is_const() and G[i][i]._value() == 1 else s / G[i][i]
        return X
    d = exact_det(G)
    if bool(d == 0):
        raise ZeroDivisionError('singular matrix')
    if n == 1:
        return [[one / d]]
    X = [[None] * n for _ in range(n)]
    for i in range(n):
        sub = [row for r, row in enumerate(G) if r != i]
        for j in range(n):
            m = exact_det([[v for c, v in enumerate(row) if c != j] for row in sub])
            X[j][i] = (m if (i + j) % 2 == 0 else -m) / d
    return X


def fromgrid(X, ref=None):
    a = np.empty((len(X), len(X[0]) if X else 0), dtype=object)
    for i, r in enumerate(X):
        for j, v in enumerate(r):
            a[i, j] = v
    if isinstance(ref, np.matrix):
        return a.view(matrix)
    return a


class LinalgShim(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'linalg':
            return self
        f = getattr(np.linalg, name)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                if any(hassym(x) for x in a):
                    raise Unsupported('numpy.linalg.%s on symbolic data' % name)
                return obj_deep(f(*[unobj(x) for x in a], **k))
            return g
        return f

    def inv(self, A):
        G = grid(asarray(A))
        if any(len(r) != len(G) for r in G):
            raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        try:
            X = exact_inverse(G)
        except ZeroDivisionError:
            raise np.linalg.LinAlgError('Singular matrix')
        if not G:
            return matrix(np.empty((0, 0), dtype=object)) if isinstance(A, np.matrix) else np.empty((0, 0), dtype=object)
        return fromgrid(X, A)

    def pinv(self, A, *a, **k):
        h = S.cur().notes.get('pinv')
        if h is None:
            raise Unsupported('pinv')
        return h(A)

    def solve(self, A, B):
        X = self.inv(A)
        Xa = np.asarray(X)
        R = np.dot(Xa, np.asarray(B))
        return R.view(matrix) if isinstance(A, np.matrix) or isinstance(B, np.matrix) and R.ndim == 2 else R

    def det(self, A):
        return exact_det(grid(asarray(A)))

    def matrix_power(self, A, n):
        n = n.__index__()
        if isinstance(A, np.matrix):
            A = np.asarray(A).view(matrix)
        if n < 0:
            A = self.inv(A)
            n = -n
        R = eye(A.shape[0])
        if isinstance(A, np.matrix):
            R = R.view(matrix)
        for _ in range(n):
            R = np.dot(R, A)
        return R

    def norm(self, A, ord=None, axis=None, keepdims=False):
        if axis is not None:
            raise Unsupported('norm with axis')
        a = np.asarray(A).reshape(-1)
        nd = np.asarray(A).ndim
        if ord in (None, 'fro') or (ord == 2 and nd == 1):
            t = lift(0, 'f')
            for x in a:
                x = abs(x) if isinstance(x, SymC) else x
                t = t + x * x
            return S.np_sqrt(t)
        if nd == 1 and ord == 1:
            return sum((abs(lift(x)) for x in a), lift(0, 'f'))
        if nd == 1 and ord == np.inf:
            m = lift(0, 'f')
            for x in a:
                y = abs(lift(x))
                if y > m:
                    m = y
            return m
        raise Unsupported('norm %r' % (ord,))

    def matrix_rank(self, A, *a, **k):
        G = [list(r) for r in grid(asarray(A))]
        n = len(G)
        m = len(G[0]) if n else 0
        r = 0
        for c in range(m):
            piv = None
            for i in range(r, n):
                if not iszero(G[i][c]) and bool(G[i][c] != 0):
                    piv = i
                    break
            if piv is None:
                continue
            G[r], G[piv] = G[piv], G[r]
            for i in range(r + 1, n):
                if not iszero(G[i][c]):
                    f = G[i][c] / G[r][c]
                    G[i] = [x - f * y for x, y in zip(G[i], G[r])]
            r += 1
            if r == n:
                break
        return r

    def eigvals(self, A):
        h = S.cur().notes.get('eigvals')
        if h is None:
            raise Unsupported('eigvals')
        return h(A)

    def eig(self, A):
        h = S.cur().notes.get('npeig')
        if h is None:
            raise Unsupported('eig')
        return h(A)


def hassym(x):
    if isinstance(x, (Sym, SymC, SymBool)):
        return not (isinstance(x, Sym) and x._is_const())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(hassym(v) for v in np.asarray(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(hassym(v) for v in x)
    return False


def unobj(x):
    """concrete float version of constant data"""
    if isinstance(x, Sym):
        return int(x) if x.kind == 'i' else float(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        if all(isinstance(v, (Sym, int, float, np.number)) for v in np.asarray(x).reshape(-1)):
            r = np.array([float(v) for v in np.asarray(x).reshape(-1)]).reshape(x.shape)
            return np.matrix(r) if isinstance(x, np.matrix) else r
    if isinstance(x, (list, tuple)):
        return type(x)(unobj(v) for v in x)
    return x


def obj_deep(x):
    if isinstance(x, tuple):
        return tuple(obj_deep(v) for v in x)
    return obj(x)


linalg = LinalgShim('numpy.linalg')


# ---------------------------------------------------------------- polynomials
def charpoly(A):
    """coefficients of det(zI - A), Faddeev-LeVerrier"""
    G = np.asarray(A)
    n = G.shape[0]
    c = [lift(1, 'f')]
    M = zeros((n, n))
    I = eye(n)
    for k in range(1, n + 1):
        M = np.dot(G, M) + c[-1] * I
        AM = np.dot(G, M)
        t = lift(0, 'f')
        for i in range(n):
            t = t + AM[i, i]
        c.append(-t / k)
    return np.array(c + [None], dtype=object)[:-1]


def poly(a):
    A = np.asarray(a)
    if A.ndim == 2 and A.shape[0] == A.shape[1] and A.shape[0] != 0:
        return charpoly(A)
    c = [lift(1, 'f')]
    for r in A.reshape(-1):
        n = c + [lift(0, 'f')]
        for i in range(len(c)):
            n[i + 1] = n[i + 1] - r * c[i]
        c = n
    return np.array(c + [None], dtype=object)[:-1]


def convolve(a, v, mode='full'):
    a, v = np.asarray(array(a)).reshape(-1), np.asarray(array(v)).reshape(-1)
    if len(a) == 0 or len(v) == 0:
        raise ValueError('v cannot be empty')
    n = len(a) + len(v) - 1
    out = zeros(n)
    for i in range(len(a)):
        for j in range(len(v)):
            out[i + j] = out[i + j] + a[i] * v[j]
    if mode == 'same':
        m = max(len(a), len(v))
        s = (n - m) // 2
        return out[s:s + m]
    if mode == 'valid':
        m, k = max(len(a), len(v)), min(len(a), len(v))
        return out[k - 1:m]
    return out


def trim_zeros(filt, trim='fb'):
    first = 0
    trim = trim.upper()
    if 'F' in trim:
        for i in filt:
            if i != 0:
                break
            first += 1
    last = len(filt)
    if 'B' in trim:
        for i in filt[::-1]:
            if i != 0:
                break
            last -= 1
    return filt[first:last]


def polymul(a1, a2):
    """numpy semantics: poly1d strips leading zeros"""
    a1, a2 = np.atleast_1d(np.asarray(array(a1))), np.atleast_1d(np.asarray(array(a2)))
    t1, t2 = trim_zeros(a1, 'f'), trim_zeros(a2, 'f')
    if len(t1) == 0:
        t1 = array([0.0])
    if len(t2) == 0:
        t2 = array([0.0])
    return convolve(t1, t2)


def _polyadd(a1, a2, sgn):
    a1, a2 = np.atleast_1d(np.asarray(array(a1))), np.atleast_1d(np.asarray(array(a2)))
    d = len(a2) - len(a1)
    if d > 0:
        a1 = np.concatenate((zeros(d), a1))
    elif d < 0:
        a2 = np.concatenate((zeros(-d), a2))
    return a1 + a2 if sgn > 0 else a1 - a2


def polyadd(a1, a2): return _polyadd(a1, a2, 1)


def polysub(a1, a2): return _polyadd(a1, a2, -1)


def polyval(p, x):
    y = 0 * x if not isinstance(x, np.ndarray) else zeros(x.shape)
    for c in np.asarray(array(p)):
        y = y * x + c
    return y


class poly1d:
    """numpy.poly1d (the operations that are used) over exact values"""

    def __init__(self, c, r=False, variable=None):
        if r:
            raise Unsupported('poly1d from roots')
        if isinstance(c, poly1d):
            c = c.coeffs
        c = np.atleast_1d(np.asarray(array(c)))
        if c.ndim > 1:
            raise ValueError('Polynomial must be 1d only.')
        c = trim_zeros(c, 'f')
        self.coeffs = c if len(c) else array([0.0])

    c = coef = property(lambda self: self.coeffs)
    order = o = property(lambda self: len(self.coeffs) - 1)

    def __len__(self): return self.order

    def __array__(self, t=None, copy=None): return np.asarray(self.coeffs)

    def __iter__(self): return iter(self.coeffs)

    def __getitem__(self, k):
        return self.coeffs[self.order - k] if 0 <= k <= self.order else lift(0, 'f')

    def __call__(self, x): return polyval(self.coeffs, x)

    def __neg__(self): return poly1d(-self.coeffs)

    def __add__(self, o): return poly1d(_polyadd(self.coeffs, poly1d(o).coeffs, 1))

    __radd__ = __add__

    def __sub__(self, o): return poly1d(_polyadd(self.coeffs, poly1d(o).coeffs, -1))

    def __rsub__(self, o): return poly1d(_polyadd(poly1d(o).coeffs, self.coeffs, -1))

    def __mul__(self, o): return poly1d(polymul(self.coeffs, poly1d(o).coeffs))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return polydiv(self, o) if isinstance(o, poly1d) else poly1d(self.coeffs / o)


def polydiv(u, v):
    """the library's numerical threshold (leading coefficients of the remainder below 1e-8 are dropped) is zero"""
    true = isinstance(u, poly1d) or isinstance(v, poly1d)
    u = np.atleast_1d(np.asarray(array(u.coeffs if isinstance(u, poly1d) else u))) + lift(0, 'f')
    v = np.atleast_1d(np.asarray(array(v.coeffs if isinstance(v, poly1d) else v))) + lift(0, 'f')
    m, n = len(u) - 1, len(v) - 1
    scale = 1 / v[0]
    q = np.asarray(zeros(max(m - n + 1, 1))).copy()
    r = u.copy()
    for k in range(0, m - n + 1):
        d = scale * r[k]
        q[k] = d
        for i in range(n + 1):
            r[k + i] = r[k + i] - d * v[i]
    while len(r) > 1 and r[0] == 0:
        r = r[1:]
    return (poly1d(q), poly1d(r)) if true else (q, r)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.asarray(array(a)), np.asarray(array(b))
    a, b = np.broadcast_arrays(a, b)
    conds = []
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        x, y = lift(x), lift(y)
        d = abs(x - y)
        c = d <= atol + rtol * abs(y)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    return S.mkbool(z3.And([c.c for c in conds])) if conds else True


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(np.asarray(array(a)), np.asarray(array(b)))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = bool(abs(lift(a[i]) - lift(b[i])) <= atol + rtol * abs(lift(b[i])))
    out = out.astype(bool)
    return out if out.shape else bool(out[()])


def array_equal(a, b, **k):
    a, b = np.asarray(array(a)), np.asarray(array(b))
    if a.shape != b.shape:
        return False
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if not (x == y):
            return False
    return True


def linspace(a, b, num=50, endpoint=True, **k):
    if hassym(a) or hassym(b):
        n = num - 1 if endpoint else num
        return array([a + (b - a) * Fraction(i, n) for i in range(num)])
    return obj(np.linspace(unobj(a), unobj(b), num, endpoint, **k))


def arange(*a, **k):
    if any(hassym(x) for x in a):
        raise Unsupported('arange')
    return obj(np.arange(*[unobj(x) for x in a], **k))


def where(c, *xy):
    c = np.asarray(c)
    if c.dtype == object:
        c = np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
    if not xy:
        return np.where(c)
    return obj(np.where(c, *[array(v) if not isinstance(v, np.ndarray) else v for v in xy]))


def fabs(x): return abs(x)


def unary(name, scalar):
    return elementwise(lambda v: scalar(v) if isinstance(v, (Sym, SymC)) else conv(getattr(np, name)(v)))


def array_repr(*a, **k): return '<array>'


def power(a, b):
    return array(a) ** (array(b) if isinstance(b, (list, tuple, np.ndarray)) else b)


def complexarr(x):
    return x


SKIP = {'random', 'testing', 'linalg', 'matrix', 'mat', 'float64', 'float32', 'ndarray'}


class _F64Meta(_NumMeta):
    pass


class float64(float_):
    _real = (float, np.float64)

    def __new__(cls, x=0.0):
        return conv(float_(x)) if not isinstance(x, np.ndarray) else array(x)


class int64(int_):
    _real = (np.int64, int)

    def __new__(cls, x=0):
        return int_(x)


class _NumberMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, np.number, np.floating))


class floating(metaclass=_NumberMeta):
    pass


def build_numpy(rnd=None):
    m = types.ModuleType('numpy')
    for n in dir(np):
        if n.startswith('__') and n not in ('__version__', '__all__'):
            continue
        try:
            setattr(m, n, getattr(np, n))
        except Exception:
            pass
    g = globals()
    for n in ('zeros ones empty full full_like eye identity array asarray asanyarray asmatrix bmat vectorize poly '
              'convolve polymul polyadd polysub poly1d polydiv polyval trim_zeros allclose isclose array_equal linspace arange where '
              'fabs array_repr power float64 int64 matrix').split():
        setattr(m, n, g[n])
    m.mat = m.asmatrix = asmatrix
    m.double = m.float_ = float64
    m.zeros_like, m.ones_like, m.empty_like = like(zeros), like(ones), like(empty)
    m.ndarray = _NdMeta('ndarray', (), {'_real': np.ndarray})
    m.isnan, m.isinf, m.isfinite = elementwise(_isnan), elementwise(_isinf), elementwise(_isfinite)
    m.sqrt = unary('sqrt', S.np_sqrt)
    m.cos = unary('cos', lambda x: S.cossin_(x)[0])
    m.sin = unary('sin', lambda x: S.cossin_(x)[1])
    m.log2 = unary('log2', S.log2r_)
    m.nditer = nditer
    m.floor = unary('floor', lambda v: Sym.make(S.floor_(v)._r, 'f'))
    m.ceil = unary('ceil', lambda v: Sym.make(S.ceil_(v)._r, 'f'))
    m.trunc = m.fix = unary('trunc', lambda v: Sym.make(S.trunc_(v)._r, 'f'))
    m.rint = unary('rint', lambda v: Sym.make(S.round_half_even(v)._r, 'f'))
    m.round = m.around = lambda x, decimals=0, out=None: (m.rint(x) if decimals == 0 else _unsup('round to decimals'))
    m.sign = unary('sign', S.sign_)
    m.abs = m.absolute = unary('abs', abs)
    m.real = elementwise(lambda v: v.real)
    m.imag = elementwise(lambda v: v.imag)
    m.iscomplexobj = lambda x: isinstance(x, SymC) or (isinstance(x, np.ndarray) and any(isinstance(v, (SymC, complex)) for v in np.asarray(x).reshape(-1)))
    m.isrealobj = lambda x: not m.iscomplexobj(x)
    m.linalg = linalg
    m.isscalar = lambda x: True if isinstance(x, (Sym, SymC)) else np.isscalar(x)
    m.result_type = lambda *a: np.dtype(object)
    m.common_type = lambda *a: object
    m.set_printoptions = lambda *a, **k: None
    m.random = rnd if rnd is not None else RandomShim()

    t = types.ModuleType('numpy.testing')
    for n in dir(np.testing):
        if not n.startswith('__'):
            setattr(t, n, getattr(np.testing, n))
    m.testing = t
    c = types.ModuleType('numpy.core')
    u = types.ModuleType('numpy.core.umath')
    for n in dir(np.core.umath):
        if not n.startswith('__'):
            setattr(u, n, getattr(m, n, getattr(np.core.umath, n)))
    u.pi = math.pi
    c.umath = u
    for n in dir(np.core):
        if not n.startswith('__') and not hasattr(c, n):
            setattr(c, n, getattr(m, n, getattr(np.core, n)))
    m.core = c
    return m


def _unsup(msg):
    raise Unsupported(msg)


# ---------------------------------------------------------------- randomness: arbitrary draws
class RandomShim(types.ModuleType):
    """numpy.random (and mtrand): every draw is an arbitrary value of its documented range"""

    def __init__(self, name='numpy.random'):
        types.ModuleType.__init__(self, name)
        self.log = []

    def __getattr__(self, name):
        if name == 'mtrand':
            return self
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('RandomState', 'default_rng', 'Generator'):
            raise Unsupported('numpy.random.' + name)
        raise Unsupported('numpy.random.' + name)

    def _arr(self, shape, one):
        if shape == () or shape is None:
            return one()
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = one()
        return a

    def _u(self, lo, hi, closed=False):
        v = S.cur().env.draw_real(lo, hi, closed)
        return v

    def rand(self, *shape):
        return self._arr(tuple(int(s) for s in shape), lambda: self._u(0, 1))

    def random(self, size=None):
        return self._arr(size if size is None or isinstance(size, tuple) else (size,), lambda: self._u(0, 1))
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._arr(size if size is None or isinstance(size, tuple) else (size,), lambda: self._u(low, high))

    def randn(self, *shape):
        return self._arr(tuple(int(s) for s in shape), lambda: self._u(None, None))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._arr(size if size is None or isinstance(size, tuple) else (size,), lambda: self._u(None, None))
    standard_normal = lambda self, size=None: self.normal(size=size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if low >= high:
            raise ValueError('low >= high')
        return self._arr(size if size is None or isinstance(size, tuple) else (size,), lambda: S.cur().env.draw_int(low, high - 1))

    def seed(self, *a):
        S.cur().env.draw_seed('numpy', a)

    def get_state(self):
        return ('state',)

    def set_state(self, s):
        S.cur().env.draw_seed('numpy', s)

    def choice(self, a, size=None, **k):
        if size is not None or k:
            raise Unsupported('choice')
        n = a if isinstance(a, int) else len(a)
        i = S.cur().env.draw_int(0, n - 1).__index__()
        return i if isinstance(a, int) else a[i]
