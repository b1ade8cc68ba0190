"""C19: generated C code"""
import ctypes
import fcntl
import os
import subprocess
import tempfile
from fractions import Fraction
from symfx.harness import Case
from props import sifs, lti
from props.c17 import run

LEVEL = 'translation_validation'
TECHNIQUE = ('the generator runs symbolically (coefficients 0, 1, -1 and of either sign are separate paths), each emitted C program is interpreted over symbolic inputs and '
             'states and z3 decides that it computes the equations; ctypes glue executed with a model of the C calls')
BOUNDS = ('l = 0..2, n = 1..3, up to 2 inputs and 2 outputs (thorough: l, n up to 3 and 4); per case 2 (quick) / 3 (thorough) coefficients take any value incl. 0, 1, -1, '
          'one pattern of constants 0/1/-1 for the others and any non-trivial value of a fixed sign for the rest; every coefficient is one of the free ones in some case; inputs and states symbolic; '
          'runCdouble: 3 samples, coefficients changed between two runs')
ASSUMPTIONS = ['double arithmetic modelled over the reals: the roundings of the C program are not modelled; a C double literal written by float.hex denotes the coefficient exactly',
               'the C compiler is not encoded (replayed programs are compiled with cc)']


def flat(size):
    """positions of the coefficients that are not fixed by the form"""
    D = sifs.dims(*size)
    out = []
    for X in sifs.NAMES:
        r, c = D[X]
        for i in range(r):
            for j in range(c):
                if X == 'J' and i <= j:
                    continue
                out.append((X, i, j))
    return out


def coefs(env, size, free, pat, upper):
    D = sifs.dims(*size)
    g = {X: [[0.0] * c for _ in range(r)] for X, (r, c) in D.items()}
    for i in range(size[0]):
        g['J'][i][i] = 1.0
    pos = flat(size)
    for k, (X, i, j) in enumerate(pos):
        if upper and X == 'P' and i > j:
            continue
        n = '%s%d_%d' % (X, i, j)
        if k in free:
            g[X][i][j] = env.real(n)
        else:
            s = pat[k % len(pat)]
            if s in '01-23':
                g[X][i][j] = {'0': 0.0, '1': 1.0, '-': -1.0, '2': 2.5, '3': -3.28125}[s]
            else:
                lo, hi = {'p': (0.015625, None), 'n': (None, -0.015625), 'b': (2.0 ** 240, 2.0 ** 250)}[s]
                v = g[X][i][j] = env.real(n, lo=lo, hi=hi)
                env.assume(env.neg(env.iszero(env.ex(v) - (-1 if s == 'n' else 1))))
    return g


def build(env, size, free, pat, upper):
    g = coefs(env, size, free, pat, upper)
    F = env.mod('fixif.LTI').Filter(num=[2.0, 1.0], den=[1.0, 0.5])
    R = env.mod('fixif.SIF').Realization(F, sifs.args(env, g, *size), structureName='test')
    return R, g, sifs.exact(env, g)


def execute(env, text, name, size, x, u):
    """the C program on one state and input -> y, new state (None: no defined value)"""
    l, n, p, q = size
    if env.symbolic:
        from symfx import minic
        import numpy as np
        try:
            P = minic.Program(text)
            if not env.check('function defined', name in P.functions):
                return None
            mem = np.empty(n, dtype=object)
            mem[:] = [env.ex(v) for v in x]
            ym = np.empty(p, dtype=object)
            ym[:] = minic.UNINIT
            um = np.empty(q, dtype=object)
            um[:] = [env.ex(v) for v in u]
            args = ([] if p == 1 else [('double*', ym)]) + [('double', um[0]) if q == 1 else ('double*', um)] + [('double*', mem)]
            r = P.functions[name].call(args)
            Y = [r] if p == 1 else list(ym)
            if not env.check('outputs are computed', not any(v is minic.UNINIT for v in Y)):
                return None
            return Y, list(mem)
        except minic.CError as e:
            env.check('valid C', False, info=lambda: '%s\n%s' % (e, text))
            return None
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'c.c'), 'w') as f:
            f.write(text)
        r = subprocess.run(['cc', '-w', '-fPIC', '-shared', '-ffp-contract=off', '-o', os.path.join(d, 'c.so'), os.path.join(d, 'c.c')],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if not env.check('valid C', r.returncode == 0, info=lambda: r.stderr.decode()[:300]):
            return None
        fn = getattr(ctypes.CDLL(os.path.join(d, 'c.so')), name)
        da = lambda m: (ctypes.c_double * max(m, 1))(*([float('nan')] * max(m, 1)))
        xm, ym, um = da(n), da(p), da(q)
        for i, v in enumerate(x):
            xm[i] = float(v)
        for i, v in enumerate(u):
            um[i] = float(v)
        args = ([] if p == 1 else [ym]) + [ctypes.c_double(float(u[0])) if q == 1 else um] + [xm]
        fn.restype = ctypes.c_double if p == 1 else None
        r = fn(*args)
        Y = [r] if p == 1 else [ym[i] for i in range(p)]
        if not env.check('outputs are computed', not any(v != v for v in Y)):
            return None
        return [Fraction(v) for v in Y], [Fraction(xm[i]) for i in range(n)]


def program(env, size, free, pat, upper):
    l, n, p, q = size
    R, g, e = build(env, size, free, pat, upper)
    x, u = env.reals('x', n), env.reals('u', q)
    text = R.implementCdouble('myFilter')
    r = execute(env, text, 'myFilter', size, x, u)
    if r is None:
        return
    t, xn, y = sifs.step(env, e, [env.ex(v) for v in x], [env.ex(v) for v in u])
    env.eqs('output of the C function', list(zip(r[0], y)))
    env.eqs('next state of the C function', list(zip(r[1], xn)))
    env.eqm('realization unchanged', R.S, e['S'])


class lock:
    """the code is generated at a fixed place: one process at a time"""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        if not self.env.symbolic:
            self.f = open(os.path.join(tempfile.gettempdir(), 'fixif_c19.lock'), 'w')
            fcntl.flock(self.f, fcntl.LOCK_EX)
            m = self.env.mod('fixif.SIF.Realization_implementation')
            if hasattr(m, 'GENERATED_PATH'):
                self.d = tempfile.TemporaryDirectory()
                self.old, m.GENERATED_PATH = m.GENERATED_PATH, self.d.name + '/'
        return self

    def __exit__(self, *a):
        if not self.env.symbolic:
            m = self.env.mod('fixif.SIF.Realization_implementation')
            if hasattr(self, 'old'):
                m.GENERATED_PATH = self.old
                self.d.cleanup()
            self.f.close()
        return False


def runs(env, size, free, pat, upper, T, how):
    """runCdouble on a sequence of inputs, also after the coefficients changed"""
    l, n, p, q = size
    R, g, e = build(env, size, free, pat, upper)
    u = env.reals('u', q, T)
    U = [[env.ex(u[i][k]) for i in range(q)] for k in range(T)]
    a = env.npmat(u) if how != 'arr' else env.nparr(u)
    with lock(env):
        def same(label, R, e):
            Y = R.runCdouble(a)
            tr = run(env, e, U)
            env.eqm(label, Y, [[tr[k][3][i] for k in range(T)] for i in range(p)])
        try:
            same('outputs of runCdouble', R, e)
            same('outputs of runCdouble, second run', R, e)
            if how == 'assign':
                s = env.reals('s', p, q, lo=2)
                R.S = env.npmat(s)
                e = dict(e, S=[[env.ex(v) for v in r] for r in s])
                same('outputs of runCdouble after assigning S', R, e)
            if how == 'two':
                g2 = dict(g, S=env.reals('s', p, q, lo=2))
                R2 = env.mod('fixif.SIF').Realization(R.filter, sifs.args(env, g2, *size), structureName='other')
                same('outputs of runCdouble of another realization', R2, sifs.exact(env, g2))
                same('outputs of runCdouble of the first realization', R, e)
        except Exception as x:
            if type(x).__name__ != 'CError':
                raise
            env.check('valid C', False, info=lambda: str(x))


def cases(tier):
    q_ = tier == 'quick'
    out = []
    sizes = [(0, 1, 1, 1), (0, 2, 1, 1), (0, 3, 1, 1), (0, 2, 2, 2), (1, 1, 1, 1), (1, 2, 1, 2), (1, 1, 2, 1), (2, 1, 1, 1), (2, 2, 2, 2), (2, 2, 1, 1)]
    if not q_:
        sizes += [(1, 3, 1, 1), (2, 3, 2, 1), (3, 2, 1, 2), (3, 4, 1, 1)]
    pats = ['pn', 'p0n1-', '01-00', '0000', '1-'] if q_ else ['pn', 'np', 'p0n1-', '01-00', '0000', '1-', '0010', 'n000p']
    nf = 2 if q_ else 3
    for k, s in enumerate([(11, 1, 1, 1), (0, 11, 1, 1), (0, 1, 12, 1), (0, 1, 1, 12), (3, 4, 2, 3), (5, 3, 3, 2), (1, 6, 1, 1)]):
        N = len(flat(s))
        for j, (f, pat) in enumerate((((3, N // 2), '01000-0200003000'), ((N // 3, N - 1), '000p000-00n0100'))):
            out.append(Case('large-%d%d%d%d-%d' % (s + (j,)), program, dict(textsign=True, witnesses=1, random=0, cost=6, max_paths=4000), size=s, free=f, pat=pat, upper=bool(k % 2)))
        if max(s) < 8:
            out.append(Case('large-run-%d%d%d%d' % s, runs, dict(textsign=True, witnesses=1, random=0, cost=6), size=s, free=(), pat='000p000-00n0100', upper=False, T=3, how=('assign', 'two', 'arr')[k % 3]))
    for s in sizes:
        pos = flat(s)
        N = len(pos)
        for upper in (False, True):
            if upper and s[1] < 2:
                continue
            groups = [tuple(range(k, min(k + nf, N))) for k in range(0, N, nf)]
            if nf == 2 and N % 2:
                groups[-1] = (N - 2, N - 1) if N > 1 else (0,)
            for k, f in enumerate(groups):
                sel = [pats[k % len(pats)], pats[(k + 2) % len(pats)]][:1 if upper else 2] if q_ and N > 6 else pats
                if not q_ and N > 12:
                    sel = [pats[(k + 3 * j + upper) % len(pats)] for j in range(3 if N <= 24 else 2)]
                for pat in sel:
                    nm = '%d%d%d%d-%s%d-%s' % (s + ('u' if upper else '', k, pat))
                    out.append(Case('program-' + nm, program, dict(textsign=True, witnesses=0 if k % 3 else 1, random=0, cost=2 + N / 8, max_paths=4000),
                                    size=s, free=f, pat=pat, upper=upper))
        for how, pat in (('assign', 'pn'), ('two', 'p0n1-'), ('arr', '1-pn')):
            out.append(Case('run-%d%d%d%d-%s' % (s + (how,)), runs, dict(textsign=True, witnesses=1, random=0, cost=3, max_paths=4000),
                            size=s, free=(), pat=pat, upper=(how == 'two'), T=2 if N > 12 else 3, how=how))
    return out
