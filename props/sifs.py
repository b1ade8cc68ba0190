"""helpers for the implicit-form realizations"""
import random
from fractions import Fraction
from props import lti

NAMES = 'JKLMNPQRS'


def dims(l, n, p, q):
    return dict(J=(l, l), K=(n, l), L=(p, l), M=(l, n), N=(l, q), P=(n, n), Q=(n, q), R=(p, n), S=(p, q))


SPARSE = [0, 0, 0, 0, 1, -1, 2, 0.5, -0.25, -2, 3, 0, None]


def block(env, name, r, c, kind, pre='', **lim):
    """symbolic block; kind of J: 'unit' (unit lower-triangular), 'gen' (any invertible);
    'sp<k>': larger systems, most coefficients are constants (many null ones), the others symbolic;
    'chain': intermediate variables in cascade and states that are delays, constants only"""
    if kind.startswith('sp'):
        rng = random.Random('%s%s%d%d%s' % (kind, name, r, c, pre))

        def one(i, j):
            if name == 'J' and i <= j:
                return float(i == j)
            if name == 'J' and i == j + 1:
                return rng.choice([-2.0, 1.0, -1.0, 0.5])
            v = rng.choice(SPARSE)
            return env.real('%s%s%d_%d' % (pre, name, i, j), **lim) if v is None else float(v)
        return [[one(i, j) for j in range(c)] for i in range(r)]
    if kind == 'chain':
        f = dict(J=lambda i, j: (i == j) - 2.0 * (i == j + 1), K=lambda i, j: 0, L=lambda i, j: 3.0 * (j == c - 1 and i == 0), M=lambda i, j: 1.0 * (i == j == 0),
                 N=lambda i, j: 0, P=lambda i, j: 1.0 * (j == i + 1), Q=lambda i, j: 1.0 * (i == r - 1), R=lambda i, j: 1.0 * (j == 0), S=lambda i, j: 0)[name]
        if pre and r and c:
            return [[float(f(i, j)) + (j + 1) * (name != 'J') for j in range(c)] for i in range(r)]
        return [[float(f(i, j)) for j in range(c)] for i in range(r)]
    if name == 'J' and kind == 'unit':
        return [[env.real('%sJ%d_%d' % (pre, i, j), **lim) if i > j else float(i == j) for j in range(c)] for i in range(r)]
    return env.reals(pre + name, r, c, **lim)


def blocks(env, l, n, p, q, kind, pre='', **lim):
    return {X: block(env, X, r, c, kind, pre, **lim) for X, (r, c) in dims(l, n, p, q).items()}


def arr(env, g, r, c):
    return env.npmat(g) if r and c else env.np.matrix(env.np.zeros((r, c)))


def args(env, g, l, n, p, q):
    D = dims(l, n, p, q)
    return tuple(arr(env, g[X], *D[X]) for X in NAMES)


def exact(env, g):
    return {X: [[env.ex(x) for x in r] for r in g[X]] for X in g}


def adjdet(J):
    n = len(J)

    def det(m):
        if not m:
            return Fraction(1)
        t = Fraction(0)
        for j in range(len(m)):
            c = m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
            t = t + c if j % 2 == 0 else t - c
        return t
    adj = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            m = det([r[:i] + r[i + 1:] for k, r in enumerate(J) if k != j])
            adj[i][j] = m if (i + j) % 2 == 0 else -m
    return adj, det(J)


def invertible(env, g):
    J = [[env.ex(x) for x in r] for r in g['J']]
    _, d = adjdet(J)
    if len(J):
        env.assume(env.neg(env.iszero(d)))
        if not env.symbolic:
            # far enough from singular for double precision
            env.assume(abs(d) * 1000 > 1)


def sysmat(env, e, n=None):
    """det(J), and det(J)*(AZ,BZ,CZ,DZ) of exact blocks"""
    adj, d = adjdet(e['J'])
    l = len(e['J'])
    nq = len(e['S'][0])
    nn = len(e['P'])

    def f(X, Y, Z, cols):
        if l == 0:
            return [[d * z for z in r] for r in Z]
        T = env.mmul(env.mmul(X, adj), Y) if cols else [[] for _ in X]
        return [[a + d * z for a, z in zip(ra, rz)] for ra, rz in zip(T, Z)]
    return d, (f(e['K'], e['M'], e['P'], nn), f(e['K'], e['N'], e['Q'], nq), f(e['L'], e['M'], e['R'], nn), f(e['L'], e['N'], e['S'], nq))


def step(env, e, x, u, et=None, ex=None, ey=None):
    """one step of the implicit equations (unit-triangular or small J): t, x+, y;
    et/ex/ey are added to the intermediate, state and output equations"""
    l, n, p = len(e['J']), len(e['P']), len(e['S'])
    dot = lambda r, v: sum((a * b for a, b in zip(r, v)), Fraction(0))
    w = [dot(e['M'][i], x) + dot(e['N'][i], u) + (et[i] if et else 0) for i in range(l)]
    J = e['J']
    if all(isinstance(J[i][j], Fraction) and J[i][j] == int(i == j) for i in range(l) for j in range(i, l)):
        t = []
        for i in range(l):
            t.append(w[i] - dot(J[i][:i], t))
    else:
        adj, d = adjdet(J)
        t = [dot(adj[i], w) / d for i in range(l)]
    xn = [dot(e['K'][i], t) + dot(e['P'][i], x) + dot(e['Q'][i], u) + (ex[i] if ex else 0) for i in range(n)]
    y = [dot(e['L'][i], t) + dot(e['R'][i], x) + dot(e['S'][i], u) + (ey[i] if ey else 0) for i in range(p)]
    return t, xn, y
