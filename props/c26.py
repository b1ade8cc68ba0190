"""C26: the factorised (LGS, LCW) realizations"""
import itertools
from fractions import Fraction
from symfx.harness import Case
from symfx import sym as S
from props import structs, lti

F = Fraction
BOUNDS = ('state spaces of order 2..5 (quick) / 2..7 (thorough): any B, C and D (symbolic); the denominator given by the parameters of its Schwarz form, all of them symbolic in [1/8, 4] up to order 4, '
          'two or none of them above (the others at given values); given changes of basis; transfer functions with any numerator (orders 2 to 4), any denominator of order 2 (distance 1/16 to the stability triangle) '
          'or given ones; 2 n + 1 samples of the response')
ASSUMPTIONS = ['double arithmetic modelled over the reals (square roots are exact)',
               'numpy.linalg.eig returns eigenvalues (here of a stable continuous-time matrix: negative real parts)',
               'scipy.signal.ss2tf and numpy.polydiv are the textbook algorithms, their numerical thresholds being zero',
               'the points at which the output matrix is interpolated are given (their draws are fixed, not symbolic)',
               'systems with a stable bilinear transform whose Schwarz form exists (every stable system)']

BASES = {'one': None,
         'mix': ([[1, 1, 0, 2], [0, 1, -1, 0], [0, 0, 1, 1], [0, 0, 0, 1]]),
         'low': ([[1, 0, 0, 0], [-1, 1, 0, 0], [2, 1, 1, 0], [0, -1, 1, 1]])}


def inv(env, M):
    n = len(M)
    G = [list(r) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        k = next(i for i in range(c, n) if not (isinstance(G[i][c], Fraction) and G[i][c] == 0))
        G[c], G[k] = G[k], G[c]
        p = G[c][c]
        G[c] = [x / p for x in G[c]]
        for i in range(n):
            if i != c:
                f = G[i][c]
                G[i] = [x - f * y for x, y in zip(G[i], G[c])]
    return [r[n:] for r in G]


def schwarz(env, n, w):
    P = [[F(0)] * n for _ in range(n)]
    for i in range(n - 1):
        P[i][i + 1] = w[i]
        P[i + 1][i] = F(-1)
    P[n - 1][n - 1] = -w[n - 1]
    return P


def add(A, B, s=1):
    return [[x + s * y for x, y in zip(a, b)] for a, b in zip(A, B)]


def num(env, x):
    x = env.ex(x)
    return x if env.symbolic else float(x)


def which(env, name, F_, how, **o):
    st = env.mod('fixif.Structures')
    if how == 'call':
        return getattr(st, name)(F_, **o)
    if how == 'make':
        return getattr(st, name).makeRealization(F_, **o)
    return env.mod('fixif.Structures.Structure').makeARealization(F_, name, **o)


def setup(env, points):
    def eig(A):
        np = env.np
        n = len(env.grid(A))
        v = np.empty(n, dtype=object)
        for k in range(n):
            re, im = S.Sym.make(S.cur().rf_var(S.cur().newvar(S.cur().freshname('eig'))), 'f'), S.Sym.make(S.cur().rf_var(S.cur().newvar(S.cur().freshname('eig'))), 'f')
            env.assume(re < 0)
            v[k] = S.SymC(re, im)
        return v, None
    if env.symbolic:
        S.cur().notes['npeig'] = eig
    if points == 'real':
        env.draw_rule = lambda kind, k: None if kind != 'uniform' else (((k // 2) % 7 + 1) / 8.0 if k % 2 == 0 else 0.0)
    else:
        env.draw_rule = lambda kind, k: None if kind != 'uniform' else (k % 7 + 1) / 8.0


def from_ss(env, st, n, w, base, how, points='real', options=None):
    setup(env, points)
    w = [env.real('w%d' % i, F(1, 8), 4) if v is None else F(v) for i, v in enumerate(w)]
    we = [env.ex(v) for v in w]
    I = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    P = schwarz(env, n, we)
    A = env.mmul(add(I, P), inv(env, add(I, P, -1)))
    B = [[env.ex(v) for v in r] for r in env.reals('B', n, 1)]
    C = [[env.ex(v) for v in r] for r in env.reals('C', 1, n)]
    D = [[env.ex(v) for v in r] for r in env.reals('D', 1, 1)]
    if BASES[base]:
        T = [[F(BASES[base][i][j]) for j in range(n)] for i in range(n)]
        A = env.mmul(env.mmul(T, A), inv(env, T))
    M = [A, B, C, D]
    ss = env.mod('fixif.LTI').dSS(*[env.npmat([[num(env, x) for x in r] for r in X]) for X in M])
    Fi = env.mod('fixif.LTI').Filter(ss=ss, stable=True)
    M = [env.exm(env.grid(getattr(ss, X))) for X in 'ABCD']
    R = which(env, st, Fi, how, **(options or {}))
    env.check('filter of the realization', R.filter is Fi)
    env.check('one input, one output, as many states as the filter', (R.p, R.q, R.n) == (1, 1, n))
    H = structs.response(env, R, 2 * n + 1)
    if H is None:
        return
    lti.eqresp(env, 'impulse response', H, lti.markov(*M, 2 * n + 1))


def from_tf(env, st, n, den, how, points='real', options=None):
    """any numerator; denominators of order 2 in the stability triangle, or given"""
    setup(env, points)
    if den is None:
        a1, a2 = env.real('a1', -2, 2), env.real('a2', -1, 1)
        e1, e2 = env.ex(a1), env.ex(a2)
        for c in (1 + e1 + e2, 1 - e1 + e2, 1 - e2):
            env.assume(env.le(F(1, 16), c))
        den = [1.0, a1, a2]
    else:
        den = [float(x) for x in den]
    nu = [env.real('b%d' % i) for i in range(n + 1)]
    Fi = env.mod('fixif.LTI').Filter(num=nu, den=den, stable=True)
    R = which(env, st, Fi, how, **(options or {}))
    env.check('filter of the realization', R.filter is Fi)
    env.check('as many states as the filter', R.n == n)
    structs.siso(env, R, [env.ex(v) for v in nu], [env.ex(v) for v in den])


def cases(tier):
    o = {'tol': 1e-6, 'exactsqrt': True}
    out = []
    H, Q = F(1, 2), F(1, 4)
    for st in ('LGS', 'LCW'):
        ss = lambda t, n, w, base, how, **k: out.append(Case('%s-%d-%s' % (st, n, t), from_ss, o, st=st, n=n, w=w, base=base, how=how, **k))
        ss('a', 2, (None, None), 'one', 'call')
        ss('complex', 2, (None, None), 'mix', 'make', points='complex')
        ss('transposed', 2, (None, None), 'low', 'name', options={'transposed': True})
        ss('a', 3, (None, Q, F(3, 2)), 'one', 'name')
        ss('b', 3, (F(2), None, H), 'mix', 'call')
        ss('c', 3, (F(2), H, None), 'low', 'make')
        ss('all', 3, (None, None, None), 'one', 'make')
        ss('all', 4, (None, None, None, None), 'one', 'make')
        ss('g', 4, (F(2), H, F(1, 3), F(1)), 'mix', 'call')
        ss('g', 5, (H, F(3), F(1, 3), Q, H), 'one', 'name')
        if tier != 'quick':
            for k in range(5):
                w = [H, F(3), F(1, 3), Q, F(2)]
                w[k] = w[(k + 1) % 5] = None
                ss('s%d' % k, 5, tuple(w), 'one', ('call', 'make', 'name')[k % 3])
            for k in range(4):
                w = [F(3), F(1, 3), Q, F(2)]
                w[k] = w[(k + 1) % 4] = None
                for b in ('mix', 'low'):
                    ss('%s%d' % (b, k), 4, tuple(w), b, ('call', 'make', 'name')[k % 3], points=('real', 'complex')[k == 0])
            ss('g', 6, (H, F(3), F(1, 3), Q, H, F(1)), 'one', 'name')
            ss('g', 7, (H, F(3), F(1, 3), Q, H, F(1), F(2)), 'one', 'call')
        out.append(Case('%s-tf2' % st, from_tf, o, st=st, n=2, den=None, how='call'))
        if tier != 'quick':
            out.append(Case('%s-tf4' % st, from_tf, o, st=st, n=4, den=(1, -0.5, 0.25, 0.125, 0.0625), how='name'))
            out.append(Case('%s-tf4z' % st, from_tf, o, st=st, n=4, den=(1, 0, -0.25, 0, 0.125), how='name'))
        out.append(Case('%s-tf3' % st, from_tf, o, st=st, n=3, den=(1, -0.5, 0.25, 0.125), how='name'))
    return out
