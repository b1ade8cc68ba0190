"""C34: sensitivities of the transfer function and of the poles with respect to the coefficients"""
from fractions import Fraction
from symfx import sym as S
from symfx.harness import Case
from props import sifs

F = Fraction
BOUNDS = ('realizations with up to 2 intermediate variables, 2 inputs and outputs; 1 state (any stable one; given when there are intermediate variables) or 2 states (given, the other matrices are symbolic); '
          'poles: 1 or 2, real or complex conjugate, any values (some given ones for the moduli of complex poles), up to 2 intermediate variables; every coefficient')
ASSUMPTIONS = ['double arithmetic modelled over the reals',
               'scipy.linalg.solve_discrete_lyapunov(a, q) returns the solution X of a X a\' - X + q = 0',
               'numpy.linalg.eig returns the eigenvalues in any order, and eigenvectors of any lengths',
               'poles are distinct and not null']


def linsolve(rows, rhs, const):
    """elimination"""
    n = len(rows)
    rows = [list(r) + [b] for r, b in zip(rows, rhs)]
    left = list(range(n))
    done = []
    cols = set(range(n))
    for _ in range(n):
        best = None
        for i in left:
            nz = [c for c in cols if const(rows[i][c]) != 0]
            # (rows with one unknown, then those of known coefficients: their pivots do not vanish)
            for c in nz:
                k = (len(nz) != 1, any(const(rows[i][d]) is None for d in nz), len(nz), const(rows[i][c]) is None)
                if best is None or k < best[0]:
                    best = (k, i, c)
        _, i, c = best
        p = rows[i][c]
        rows[i] = [x / p if const(x) != 0 else F(0) for x in rows[i]]
        for j in range(n):
            if j != i and const(rows[j][c]) != 0:
                f = rows[j][c]
                rows[j] = [x - f * y if const(y) != 0 else x for x, y in zip(rows[j], rows[i])]
        left.remove(i)
        cols.remove(c)
        done.append((c, i))
    return {c: rows[i][n] for c, i in done}


def lyapunov(env, a, q):
    """the solution of a X a' - X + q = 0"""
    n = len(a)

    def const(x):
        if isinstance(x, (int, float, F)):
            return F(x)
        if x._is_const():
            return F(x._value())
        return None
    idx = {}
    for i in range(n):
        for j in range(i, n):
            idx[i, j] = idx[j, i] = len({v for v in idx.values()})
    N = n * (n + 1) // 2
    rows, rhs = [], []
    for i in range(n):
        for j in range(i, n):
            r = [F(0)] * N
            for k in range(n):
                for m in range(n):
                    if const(a[i][k]) != 0 and const(a[j][m]) != 0:
                        r[idx[k, m]] = r[idx[k, m]] + a[i][k] * a[j][m]
            r[idx[i, j]] = r[idx[i, j]] - 1
            rows.append(r)
            rhs.append(-q[i][j])
    x = linsolve(rows, rhs, const)
    return [[x[idx[i, j]] for j in range(n)] for i in range(n)]


def contract(env):
    cache = []

    def solve(a, q, method=None):
        a, q = env.grid(a), env.grid(q)
        return env.np.array(lyapunov(env, a, q))
    env.contract('scipy.linalg.solve_discrete_lyapunov', solve)


def stateblocks(env, l, n, p, q):
    """a realization with a stable AZ"""
    g = sifs.blocks(env, l, n, p, q, 'unit', lo=-1, hi=1)
    if n == 1:
        target = [[env.real('a', F(-7, 8), F(7, 8)) if not l else env.choice('a', [0.5, -0.75, 0.0])]]
    else:
        target = [[0.5, 0.25], [-0.375, 0.25]]
        # the feedback is given
        for X in 'KMJ':
            g[X] = [[([0.5, -0.75, 0.25, 1.0][(i + 2 * j) % 4] if X != 'J' else float(i == j) if i <= j else 0.5) for j in range(len(r))] for i, r in enumerate(g[X])]
    e = sifs.exact(env, g)
    inv = invJ(env, e['J'])
    KJM = env.mmul(env.mmul(e['K'], inv), e['M']) if l else [[F(0)] * n for _ in range(n)]
    g['P'] = [[t - num(env, x) for t, x in zip(rt, rx)] for rt, rx in zip(target, KJM)]
    return g


def num(env, x):
    """as a value of the implementation"""
    return float(x) if isinstance(x, F) and not env.symbolic else x


def invJ(env, J):
    adj, d = sifs.adjdet(J)
    return [[x / d for x in r] for r in adj]


def mats(env, e, l, n, p, q):
    """AZ, BZ, CZ, DZ, J^-1 and the products of the exact blocks"""
    inv = invJ(env, e['J'])

    def f(X, Y, Z):
        if not l:
            return [list(r) for r in e[Z]]
        return env.madd(env.mmul(env.mmul(e[X], inv), e[Y]), e[Z])
    return inv, f('K', 'M', 'P'), f('K', 'N', 'Q'), f('L', 'M', 'R'), f('L', 'N', 'S')


def derivative(env, e, l, n, p, q, i, j):
    """the derivatives of AZ, BZ, CZ, DZ with respect to the coefficient i, j of Z"""
    inv, A, B, C, D = mats(env, e, l, n, p, q)

    def z(r, c):
        return [[F(0)] * c for _ in range(r)]
    dm = {X: z(r, c) for X, (r, c) in sifs.dims(l, n, p, q).items()}
    rows = [('J', 'M', 'N'), ('K', 'P', 'Q'), ('L', 'R', 'S')]
    ri, ro = (0, i) if i < l else (1, i - l) if i < l + n else (2, i - l - n)
    ci, co = (0, j) if j < l else (1, j - l) if j < l + n else (2, j - l - n)
    X = rows[ri][ci]
    dm[X][ro][co] = F(1)
    # Z contains -J: d(J^-1) = J^-1 E J^-1
    dinv = env.mmul(env.mmul(inv, dm['J']), inv) if l else []

    def f(X, Y, Z, c):
        r = dm[Z]
        if not l:
            return r
        t = env.mmul(env.mmul(dm[X], inv), e[Y])
        t = env.madd(t, env.mmul(env.mmul(e[X], dinv), e[Y]))
        t = env.madd(t, env.mmul(env.mmul(e[X], inv), dm[Y]))
        return env.madd(t, r)
    return f('K', 'M', 'P', n), f('K', 'N', 'Q', q), f('L', 'M', 'R', n), f('L', 'N', 'S', q)


def h2sq(env, A, B, C, D):
    X = lyapunov(env, A, env.mmul(B, env.mT(B)))
    T = env.madd(env.mmul(env.mmul(C, X), env.mT(C)), env.mmul(D, env.mT(D)))
    return sum((T[i][i] for i in range(len(T))), F(0))


WEIGHTS = [1.0, 0.0, 2.0, 1.0, 0.5, 1.0, 0.0]


def dtf(env, l, n, p, q, how):
    contract(env)
    g = stateblocks(env, l, n, p, q)
    e = sifs.exact(env, g)
    a = sifs.args(env, g, l, n, p, q)
    R = env.mod('fixif.SIF').SIF(a)
    r, c = l + n + p, l + n + q
    if how == 'ones':
        W = [[1.0] * c for _ in range(r)]
    elif how == 'mixed':
        W = [[WEIGHTS[(i * c + j) % 7] for j in range(c)] for i in range(r)]
        W[0][c - 1] = env.real('w', F(-2), F(2))
    else:
        W = [[0.0] * c for _ in range(r)]
        W[how[0]][how[1]] = 1.0
    R.dZ = env.npmat(W)
    _, A, B, C, D = mats(env, e, l, n, p, q)
    ref = {}
    for i in range(r):
        for j in range(c):
            if not isinstance(W[i][j], float) or W[i][j]:
                dA, dB, dC, dD = derivative(env, e, l, n, p, q, i, j)
                A2 = [ra + [F(0)] * n for ra in A] + [rd + ra for rd, ra in zip(dA, A)]
                t = h2sq(env, A2, B + dB, [rd + rc for rd, rc in zip(dC, C)], dD)
                # a sum of squares
                env.assume(env.le(0, t))
                ref[i, j] = t
    M, MX = R.dTFsensitivity()
    env.check('one value per coefficient', env.shape(MX) == (r, c))
    G = env.grid(MX)
    tot = F(0)
    for i in range(r):
        for j in range(c):
            w, x = env.ex(W[i][j]), env.ex(G[i][j])
            if (i, j) in ref:
                env.eq('sensitivity to a coefficient', x * x, w * w * ref[i, j])
                env.check('sign of the weight', env.le(0, x * w))
                tot = tot + w * w * ref[i, j]
            else:
                env.eq('a coefficient of null weight does not count', x, 0)
    env.eq('sensitivity measure', env.ex(M), tot)


# ---------------------------------------------------------------- poles

def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cdiv(a, b):
    d = b[0] * b[0] + b[1] * b[1]
    x = cmul(a, (b[0], -b[1]))
    return (x[0] / d, x[1] / d)


def poles(env, l, n, p, q, kind, moduli, perm):
    """derivatives of the eigenvalues from the characteristic polynomial"""
    g = sifs.blocks(env, l, n, p, q, 'unit', lo=-1, hi=1)
    if kind == 'one':
        lam = [(env.real('a', F(-7, 8), F(7, 8)), F(0))]
        env.assume(env.either(env.le(F(1, 64), env.ex(lam[0][0])), env.le(env.ex(lam[0][0]), F(-1, 64))))
        target = [[lam[0][0]]]
        vec = [[(1, 0)]]
    elif kind == 'real':
        a, b = env.real('a', F(-7, 8), F(7, 8)), env.real('b', F(-7, 8), F(7, 8))
        env.assume(env.either(env.le(F(1, 8), env.ex(a)), env.le(env.ex(a), F(-1, 8))))
        env.assume(env.either(env.le(F(1, 8), env.ex(b)), env.le(env.ex(b), F(-1, 8))))
        env.assume(env.le(F(1, 8), env.ex(b) - env.ex(a)))
        # eigenvectors (1, 1) and (1, 2)
        lam = [(a, F(0)), (b, F(0))]
        target = [[2 * a - b, b - a], [2 * a - 2 * b, 2 * b - a]]
        vec = [[(1, 0), (1, 0)], [(1, 0), (2, 0)]]
    else:
        if moduli:
            # rational moduli
            a, b = env.choice('ab', [(0.375, 0.5), (-0.375, 0.5), (0.625, 0.46875), (0.0, 0.75)])
        else:
            a, b = env.real('a', F(-1, 2), F(1, 2)), env.real('b', F(1, 8), F(1, 2))
        lam = [(a, b), (a, -b)]
        # (1, 1 + i) and its conjugate: [[a - b, b], [-2 b, a + b]]
        target = [[a - b, b], [-2 * b, a + b]]
        vec = [[(1, 0), (1, 1)], [(1, 0), (1, -1)]]
    e = sifs.exact(env, g)
    inv = invJ(env, e['J'])
    KJM = env.mmul(env.mmul(e['K'], inv), e['M']) if l else [[F(0)] * n for _ in range(n)]
    g['P'] = [[t - num(env, x) for t, x in zip(rt, rx)] for rt, rx in zip(target, KJM)]
    e = sifs.exact(env, g)
    order = perm
    sc = [env.real('s%d' % k, F(1, 2), 2) for k in range(n)]

    def eig(A):
        for ra, rt in zip(env.grid(A), target):
            for x, t in zip(ra, rt):
                env.eq('the matrix whose eigenvalues are computed', x, t)
        cx = kind == 'complex'

        def mk(z, s=1):
            return S.SymC(env.ex(z[0]) * s, env.ex(z[1]) * s) if cx else env.ex(z[0]) * s
        np = env.np
        v = np.array([mk(lam[k]) for k in order])
        V = np.array([[mk(vec[k][i], env.ex(sc[k])) for k in order] for i in range(n)])
        return v, V.view(np.matrix) if 'matrix' in type(A).__name__ else V
    if env.symbolic:
        S.cur().notes['npeig'] = eig
    R = env.mod('fixif.SIF').SIF(sifs.args(env, g, l, n, p, q))
    r, c = l + n + p, l + n + q
    W = [[WEIGHTS[(i * c + j) % 7] for j in range(c)] for i in range(r)]
    R.dZ = env.npmat(W)
    M, MX, MXk = R.poleSensitivity(moduli)
    env.check('one value per coefficient', env.shape(MX) == (r, c))
    env.check('one value per coefficient and pole', tuple(MXk.shape) == (r, c, n))
    G = env.grid(MX)
    tot = F(0)
    A = [[env.ex(x) for x in rr] for rr in target]
    for i in range(r):
        for j in range(c):
            dA = derivative(env, e, l, n, p, q, i, j)[0]
            ref = []
            for k in range(n):
                re, im = env.ex(lam[k][0]), env.ex(lam[k][1])
                if n == 1:
                    d = (dA[0][0], F(0))
                else:
                    # z^2 - t z + d = 0: dz = (dt z - dd) / (2 z - t)
                    t = A[0][0] + A[1][1]
                    dt = dA[0][0] + dA[1][1]
                    dd = dA[0][0] * A[1][1] + A[0][0] * dA[1][1] - dA[0][1] * A[1][0] - A[0][1] * dA[1][0]
                    d = cdiv((dt * re - dd, dt * im), (2 * re - t, 2 * im))
                if moduli:
                    # d|z| = Re(conj(z) dz) / |z|: the square, and the value times |z|
                    d = (re * d[0] + im * d[1], re * re + im * im)
                ref.append(d)
            got = [part(env, MXk[i, j, k]) for k in range(n)]
            if not env.symbolic:
                # in any order
                best = None
                import itertools
                for o in itertools.permutations(range(n)):
                    cost = sum(dist(got[x], ref[y], moduli) for x, y in enumerate(o))
                    if best is None or cost < best[0]:
                        best = (cost, o)
                order = best[1]
            s = F(0)
            for k in range(n):
                (x, y), d = got[k], ref[order[k]]
                if moduli:
                    env.eq('imaginary part', y, 0)
                    env.eq('sensitivity of the modulus of a pole', x * x * d[1], d[0] * d[0])
                    env.check('sign of the sensitivity', env.le(0, x * d[0]))
                    s = s + d[0] * d[0] / d[1]
                else:
                    env.eq('sensitivity of a pole', x, d[0])
                    env.eq('sensitivity of a pole (imaginary part)', y, d[1])
                    s = s + d[0] * d[0] + d[1] * d[1]
            x = env.ex(G[i][j])
            env.eq('sensitivity of the poles', x * x, s)
            env.check('is not negative', env.le(0, x))
            tot = tot + s * F(W[i][j]) ** 2
    env.eq('pole sensitivity measure', env.ex(M), tot)


def dist(g, d, moduli):
    if moduli:
        return float(abs(g[0] * abs(g[0]) * d[1] - d[0] * abs(d[0])))
    return float(abs(g[0] - d[0]) + abs(g[1] - d[1]))


def part(env, x):
    if env.symbolic:
        if hasattr(x, 'im'):
            return env.ex(x.re), env.ex(x.im)
        return env.ex(x), F(0)
    x = complex(x)
    return F(x.real), F(x.imag)


def cases(tier):
    q_ = tier == 'quick'
    o = {'tol': 1e-6}
    out = []
    for l, n, p, q in [(0, 1, 1, 1), (1, 1, 1, 1), (0, 1, 1, 2), (0, 1, 2, 1), (1, 1, 2, 1)] + ([] if q_ else [(1, 1, 1, 2), (1, 1, 2, 2), (2, 1, 1, 1)]):
        if l:
            for i in range(l + n + p):
                for j in range(l + n + q):
                    out.append(Case('dtf-%d%d%d%d-%d%d' % (l, n, p, q, i, j), dtf, o, l=l, n=n, p=p, q=q, how=(i, j)))
        for how in ('ones', 'mixed') if not l else ():
            out.append(Case('dtf-%s-%d%d%d%d' % (how, l, n, p, q), dtf, o, l=l, n=n, p=p, q=q, how=how))
    for l, n, p, q in [(0, 2, 1, 1), (1, 2, 1, 1)] + ([] if q_ else [(0, 2, 2, 1), (1, 2, 1, 2), (2, 2, 1, 1)]):
        if l + n + p + q < 5:
            out.append(Case('dtf-mixed-%d%d%d%d' % (l, n, p, q), dtf, o, l=l, n=n, p=p, q=q, how='mixed'))
        else:
            for i in range(l + n + p):
                for j in range(l + n + q):
                    out.append(Case('dtf-%d%d%d%d-%d%d' % (l, n, p, q, i, j), dtf, o, l=l, n=n, p=p, q=q, how=(i, j)))
    for l, n, p, q in [(0, 1, 1, 1), (1, 1, 1, 2)] + ([] if q_ else [(2, 1, 2, 1)]):
        for m in (True, False):
            out.append(Case('poles-one-%d%d%d%d-%d' % (l, n, p, q, m), poles, o, l=l, n=n, p=p, q=q, kind='one', moduli=m, perm=(0,)))
    for l, n, p, q in [(0, 2, 1, 1), (1, 2, 1, 1)] + ([] if q_ else [(0, 2, 2, 1), (1, 2, 1, 2), (1, 2, 2, 1)]):
        for kind in ('real', 'complex'):
            for m in (True, False):
                for pm in ((0, 1), (1, 0)) if not q_ or l == 0 else ((1, 0),):
                    out.append(Case('poles-%s-%d%d%d%d-%d-%d' % (kind, l, n, p, q, m, pm[0]), poles, o, l=l, n=n, p=p, q=q, kind=kind, moduli=m, perm=pm))
    return out
