"""Loads the real source files of /repo/fixif in a private module table, with the numeric
libraries replaced by their symbolic versions.  Sources are read and compiled on every run."""
import ast
import builtins
import importlib
import math
import os
import sys
import types

import numpy as np

from . import sym as S
from . import npshim, mpshim
from .sym import Sym, SymC, SymBool, Unsupported

REPO = os.environ.get('FIXIF_REPO', '/repo')
_CODE = {}


class _Mod(ast.NodeTransformer):
    """`a % b` -> helper that can print symbolic values"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('_sym_mod_', ast.Load()), [node.left, node.right], []), node)
        return node


def sym_mod(a, b):
    if isinstance(a, str):
        return npshim.sym_format(a, b)
    return a % b


def code_of(path):
    if path not in _CODE:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(_Mod().visit(tree))
            _CODE[path] = compile(tree, path, 'exec')
    return _CODE[path]


def math_module():
    m = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('__'):
            setattr(m, n, getattr(math, n))

    def wrap(name, fn):
        orig = getattr(math, name)

        def f(x, *a):
            if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
                x = x.reshape(-1)[0] if not isinstance(x, np.matrix) else x[0, 0]
            if isinstance(x, Sym):
                return fn(x, *a)
            if name == 'sqrt' and S.CUR is not None and S.CUR.opts.get('exactsqrt') and math.isfinite(x):
                return fn(S.lift(x, 'f'))
            return orig(x, *a)
        setattr(m, name, f)

    def log(x, base=None):
        if isinstance(base, Sym) and base._is_const():
            base = base._value()
        if base is not None and base == 2:
            if x <= 0:
                raise ValueError('math domain error')
            return S.logquot_(x) if isinstance(x, Sym) else log2(x)
        raise Unsupported('math.log')

    def log2(x):
        if x <= 0:
            raise ValueError('math domain error')
        return S.log2r_(x)
    wrap('sqrt', S.math_sqrt)
    wrap('log', log)
    wrap('log2', log2)
    wrap('floor', S.floor_)
    wrap('ceil', S.ceil_)
    wrap('trunc', S.trunc_)
    wrap('fabs', abs)
    wrap('isnan', lambda x: False)
    wrap('isinf', lambda x: False)
    wrap('isfinite', lambda x: True)
    wrap('pow', lambda x, y: x ** y)
    wrap('copysign', lambda x, y: abs(x) if y >= 0 else -abs(x))
    wrap('cos', lambda x: S.cossin_(x)[0])
    wrap('sin', lambda x: S.cossin_(x)[1])
    for n in ('tan', 'exp', 'log10', 'atan', 'tanh', 'log1p'):
        def u(x, *a, n=n):
            h = S.cur().notes.get('math.' + n)
            if h:
                return h(x, *a)
            if x._is_const():
                return getattr(math, n)(float(x))
            raise Unsupported('math.' + n)
        wrap(n, u)
    opow = m.pow

    def mpow(x, y):
        if isinstance(y, Sym):
            return x ** y
        return opow(x, y)
    m.pow = mpow

    def ldexp(x, n):
        if isinstance(x, Sym) or isinstance(n, Sym):
            return S.lift(x, 'f') * (S.lift(2, 'f') ** n)
        return math.ldexp(x, n)
    m.ldexp = ldexp

    def frexp(x):
        if isinstance(x, Sym):
            if x == 0:
                return (x, 0)
            e = S.floor_(S.log2_(abs(x))) + 1
            return (x / 2 ** e, e)
        return math.frexp(x)
    m.frexp = frexp
    return m


class PyRandom(types.ModuleType):
    """the `random` module: arbitrary draws"""

    def __init__(self):
        types.ModuleType.__init__(self, 'random')

    def random(self): return S.cur().env.draw_real(0, 1, False, 'random')

    def uniform(self, a, b):
        # documented: a <= N <= b for a <= b (and b <= N <= a otherwise)
        if a <= b:
            return S.cur().env.draw_real(a, b, True, 'random')
        return S.cur().env.draw_real(b, a, True, 'random')

    def randint(self, a, b):
        if a > b:
            raise ValueError('empty range for randint')
        return S.cur().env.draw_int(a, b, 'random')

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if step != 1:
            n = len(range(int(a), int(b), step))
            if n == 0:
                raise ValueError('empty range')
            return a + step * S.cur().env.draw_int(0, n - 1, 'random')
        if a >= b:
            raise ValueError('empty range for randrange')
        return S.cur().env.draw_int(a, b - 1, 'random')

    def choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[S.cur().env.draw_int(0, len(seq) - 1, 'random').__index__()]

    def seed(self, *a):
        S.cur().env.draw_seed('random', a)

    def shuffle(self, x):
        raise Unsupported('random.shuffle')

    def Random(self, *a):
        S.cur().env.draw_seed('random', a)
        return self

    def getstate(self): return ()

    def setstate(self, s): S.cur().env.draw_seed('random', s)


class World:
    """one private copy of the fixif modules with symbolic libraries"""

    def __init__(self, extra=None, third_party=(), quiet=True):
        self.mods = {}
        self.mpmath, self.ctx = mpshim.build_module()
        self.rnd = npshim.RandomShim()
        self.numpy = npshim.build_numpy(self.rnd)
        self.math = math_module()
        self.random = PyRandom()
        self.third_party = set(third_party)
        self.loaded_files = []
        self.table = {
            'numpy': self.numpy, 'numpy.linalg': self.numpy.linalg, 'numpy.linalg.linalg': self.numpy.linalg,
            'numpy.core': self.numpy.core, 'numpy.core.umath': self.numpy.core.umath,
            'numpy.random': self.rnd, 'numpy.random.mtrand': self.rnd, 'numpy.testing': self.numpy.testing,
            'numpy.matlib': self.numpy,
            'math': self.math, 'random': self.random,
            'mpmath': self.mpmath,
        }
        import mpmath as rm
        self.table['mpmath.libmp'] = rm.libmp
        for n, m in stub_modules(self).items():
            self.table[n] = m
        if extra:
            self.table.update(extra)
        self.bi = {k: getattr(builtins, k) for k in dir(builtins)}
        self.bi.update({'__import__': self._import, 'float': npshim.float_, 'int': npshim.int_,
                        'complex': npshim.complex_, 'type': npshim.type_, '_sym_mod_': sym_mod})
        from . import proc
        proc.install(self)
        if quiet:
            self.bi['print'] = lambda *a, **k: None

    # ------------------------------------------------------------------
    def load(self, name):
        """the (possibly new) private module `name`"""
        if name in self.table:
            return self.table[name]
        if name in self.mods:
            return self.mods[name]
        if name.startswith('fixif'):
            path = self._find(name)
            if path is None:
                raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        elif name in self.third_party:
            spec = importlib.util.find_spec(name)
            path = spec.origin
        else:
            return importlib.import_module(name)
        parent, _, leaf = name.rpartition('.')
        if parent and name.startswith('fixif'):
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.bi
        if path.endswith('__init__.py'):
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        self.mods[name] = m
        self.loaded_files.append(path)
        try:
            exec(code_of(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        if name == 'fixif.SIF.SIF':
            _weights(m)
        return m

    def _find(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py')
        if os.path.isfile(base + '.py'):
            return base + '.py'
        return None

    def _private(self, name):
        root = name.split('.')[0]
        return root == 'fixif' or name in self.table or root in self.table or name in self.third_party

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = (pkg + '.' + name) if name else pkg
        if not self._private(name):
            if level:
                m = importlib.import_module(name)
                if fromlist:
                    return m
                return sys.modules[name.split('.')[0]]
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f == '*':
                    continue
                if not hasattr(m, f) and hasattr(m, '__path__'):
                    try:
                        sub = self.load(name + '.' + f)
                        if not hasattr(m, f):
                            setattr(m, f, sub)      # being imported
                    except ModuleNotFoundError:
                        pass
                elif name + '.' + f in self.table and not hasattr(m, f):
                    setattr(m, f, self.table[name + '.' + f])
            return m
        root = name.split('.')[0]
        if '.' in name:
            # bind parents
            parts = name.split('.')
            for i in range(1, len(parts)):
                par = self.load('.'.join(parts[:i]))
                child = self.load('.'.join(parts[:i + 1]))
                try:
                    if not hasattr(par, parts[i]):
                        setattr(par, parts[i], child)
                except AttributeError:
                    pass
        return self.load(root)


def _weights(m):
    """the default weights dZ (a function of Z, decided by C32) are abstracted to 1 for symbolic
    coefficients unless the case says weights='real': no other property depends on their values"""
    f = getattr(m, 'isTrivial', None)
    if f is None:
        return

    def isTrivial(x, *a, **k):
        if isinstance(x, Sym) and S.cur().opts.get('weights') != 'real':
            return False
        return f(x, *a, **k)
    m.isTrivial = isTrivial


class _Missing(types.ModuleType):
    pass


def stub_modules(world):
    """contracts for the libraries whose code is not encoded"""
    out = {}
    w = types.ModuleType('fixif.WCPG')

    def WCPG_ABCD(A, B, C, D, info=None):
        h = S.cur().notes.get('wcpg')
        if h is None:
            raise Unsupported('WCPG_ABCD')
        if info is not None:
            info['N'] = 1       # (the library fills it)
        return h(A, B, C, D)

    def WCPG_TF(num, den):
        h = S.cur().notes.get('wcpg_tf')
        if h is None:
            raise Unsupported('WCPG_TF')
        return h(num, den)
    w.WCPG_ABCD, w.WCPG_TF = WCPG_ABCD, WCPG_TF
    out['fixif.WCPG'] = w
    from . import fxpstub
    for n, m in fxpstub.modules().items():
        out[n] = m
    # scipy
    import scipy.linalg
    sl = types.ModuleType('scipy.linalg')
    for n in dir(scipy.linalg):
        if not n.startswith('__'):
            f = getattr(scipy.linalg, n)
            if callable(f) and not isinstance(f, type):
                def g(*a, n=n, f=f, **k):
                    h = S.cur().notes.get('scipy.linalg.' + n)
                    if h is not None:
                        return h(*a, **k)
                    if hasattr(npshim.LinalgShim, n):
                        return getattr(npshim.linalg, n)(*a, **k)
                    if any(npshim.hassym(x) for x in a):
                        raise Unsupported('scipy.linalg.' + n)
                    return npshim.obj_deep(f(*[npshim.unobj(x) for x in a], **k))
                setattr(sl, n, g)
            else:
                setattr(sl, n, f)
    out['scipy.linalg'] = sl
    ss = _SignalShim(world)
    out['scipy.signal'] = ss
    sc = types.ModuleType('scipy')
    import scipy
    sc.__path__ = []
    sc.__version__ = scipy.__version__
    sc.linalg, sc.signal = sl, ss
    out['scipy'] = sc
    return out


class _SignalShim(types.ModuleType):
    """scipy.signal: the Python source of the conversions is executed symbolically
    (scipy.signal._lti_conversion, ._filter_design.normalize); designs are contracts"""

    def __init__(self, world):
        types.ModuleType.__init__(self, 'scipy.signal')
        self.__dict__['_world'] = world

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if S.CUR is not None and S.CUR.notes.get('scipy.signal.' + name):
            return S.CUR.notes['scipy.signal.' + name]
        if name in ('tf2ss', 'ss2tf', 'tf2zpk', 'zpk2tf'):
            return _lti(self._world, name)
        import scipy.signal
        f = getattr(scipy.signal, name)
        if callable(f) and (not isinstance(f, type) or name == 'TransferFunction'):
            def g(*a, **k):
                h = S.CUR.notes.get('scipy.signal.' + name) if S.CUR is not None else None
                if h is not None:
                    return h(*a, **k)
                if any(npshim.hassym(x) for x in a) or any(npshim.hassym(x) for x in k.values()):
                    raise Unsupported('scipy.signal.' + name)
                return npshim.obj_deep(f(*[npshim.unobj(x) for x in a], **k))
            g.__name__ = name
            return g
        return f


def _lti(world, name):
    """the algorithms of scipy.signal's conversions (tf2ss, ss2tf) over exact values: the library's
    numerical threshold (leading numerator coefficients below 1e-14 are dropped) is zero"""
    np_ = world.numpy

    def ss2tf(A, B, C, D, input=0):
        A, B, C, D = (np.atleast_2d(np.asarray(npshim.obj_deep(np.asarray(x)), dtype=object)) for x in (A, B, C, D))
        if A.shape[0] != A.shape[1] or B.shape[0] != A.shape[0] or C.shape[1] != A.shape[0] or D.shape != (C.shape[0], B.shape[1]):
            raise ValueError('The input arrays have incompatible shapes.')
        if input >= D.shape[1]:
            raise ValueError('System does not have the input specified.')
        B, D = B[:, input:input + 1], D[:, input:input + 1]
        den = np_.poly(A)
        num = np.empty((D.shape[0], A.shape[0] + 1), dtype=object)
        for k in range(D.shape[0]):
            num[k] = np_.poly(A - np.dot(B, C[k:k + 1, :])) + (D[k] - 1) * den
        return num, den

    def tf2ss(num, den):
        num = np.asarray(npshim.obj_deep(np.asarray(num)), dtype=object)
        den = np.atleast_1d(np.asarray(npshim.obj_deep(np.asarray(den)), dtype=object))
        num = np.atleast_2d(num)
        if den.ndim != 1 or num.ndim > 2:
            raise ValueError('rank of num/den')
        k = 0
        while k < len(den) and den[k] == 0:
            k += 1
        if k == len(den):
            raise ValueError('Denominator must have at least on nonzero element.')
        den = den[k:]
        num, den = num / den[0], den / den[0]
        z = 0
        for j in range(num.shape[1]):
            if all(num[i, j] == 0 for i in range(num.shape[0])):
                z += 1
            else:
                break
        if z:
            if z == num.shape[1]:
                z -= 1
            num = num[:, z:]
        M, K = num.shape[1], len(den)
        if M > K:
            raise ValueError('Improper transfer function. `num` is longer than `den`.')
        pad = np.zeros((num.shape[0], K - M), dtype=object)
        num = np.hstack((pad, num))
        D = np.atleast_2d(num[:, 0])
        if K == 1:
            D = D.reshape(num.shape)
            return np_.zeros((1, 1)), np_.zeros((1, D.shape[1])), np_.zeros((D.shape[0], 1)), D
        A = np.zeros((K - 1, K - 1), dtype=object)
        A[0, :] = -den[1:]
        for i in range(K - 2):
            A[i + 1, i] = 1
        B = np.zeros((K - 1, 1), dtype=object)
        B[0, 0] = 1
        C = num[:, 1:] - np.outer(num[:, 0], den[1:])
        return npshim.obj_deep(A), npshim.obj_deep(B), C, D.reshape((C.shape[0], 1))

    def no(*a, **k):
        raise Unsupported('scipy.signal.' + name)
    return {'ss2tf': ss2tf, 'tf2ss': tf2ss}.get(name, no)
