"""C09: state-space rewriting"""
from fractions import Fraction
from symfx.harness import Case
from props import lti

BOUNDS = ('orders 1..2 (quick) / 1..3 (thorough, similarity of order 3 without a second transform), up to 2 inputs and outputs, every invertible T; '
          'systems and transforms of integer type; query/transform sequences of length up to 4; simplification of systems up to order 3 with up to 2 rows of zeros in A')
ASSUMPTIONS = ['double arithmetic modelled over the reals',
               'scipy.linalg.solve_discrete_lyapunov(a, q) returns a symmetric X with a X a\' - X + q = 0',
               'matrix inverse and rank are exact']


def lyap(env, log=None):
    """contract of the Lyapunov solver"""
    def solve(a, q, method=None):
        np = env.np
        n = int(a.shape[0])
        X = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                X[i][j] = X[j][i] = env.fresh('X%d%d' % (i, j))
        a, q = env.grid(a), env.grid(q)
        r = env.madd(env.msub(env.mmul(env.mmul(a, X), env.mT(a)), X), q)
        for i in range(n):
            for j in range(i, n):
                env.assume(r[i][j] == 0)
                if i != j:
                    # q symmetric: the equation is symmetric
                    env.assume(r[j][i] == 0)
        if log is not None:
            log(X, a, q)
        return np.array(X)
    env.contract('scipy.linalg.solve_discrete_lyapunov', solve)


def gram_ok(env, label, S, W, obs):
    A, B, C = env.grid(S.A), env.grid(S.B), env.grid(S.C)
    W = env.grid(W)
    if obs:
        lhs = env.madd(env.mmul(env.mmul(env.mT(A), W), A), env.mmul(env.mT(C), C))
    else:
        lhs = env.madd(env.mmul(env.mmul(A, W), env.mT(A)), env.mmul(B, env.mT(B)))
    env.eqs(label, [(x, y) for a, b in zip(lhs, W) for x, y in zip(a, b)])


def det(G):
    n = len(G)
    if n == 0:
        return Fraction(1)
    if n == 1:
        return G[0][0]
    t = Fraction(0)
    for j in range(n):
        M = [r[:j] + r[j + 1:] for r in G[1:]]
        t = t + (-1) ** j * G[0][j] * det(M)
    return t


def inst(env, cond):
    """the (symbolic) condition is assumed"""
    env.assume(cond)


INTT = [[2, 1, 3], [1, 1, -1], [0, 1, 1]]


def transform(env, n, p, q, seq, nT=1, ints=''):
    # ints: 's' (matrices of integer type) and/or 't' (transforms of integer type)
    S, M = lti.dss(env, n, p, q, ints='s' in ints)
    lyap(env)
    K = 2 * n
    ref = lti.markov(*M, K)
    k = 0
    for step in seq:
        if step == 'T':
            if 't' in ints:
                T = [r[:n] for r in INTT[:n]]
            else:
                T = env.reals('T%d_' % k, n, n)
                inst(env, env.neg(env.iszero(det(env.exm(T)))))
            k += 1
            S.similarity(env.npmat(T))
            lti.eqresp(env, 'response after similarity', lti.response(env, S, K), ref)
        elif step == 'o':
            gram_ok(env, 'Wo is that of the current matrices', S, S.Wo, True)
        elif step == 'c':
            gram_ok(env, 'Wc is that of the current matrices', S, S.Wc, False)
        elif step == 'd':
            A = M[0]
            inst(env, env.neg(env.iszero(det(env.msub(env.meye(n), A)))))
            G = env.grid(S.calc_DC_gain())
            A, B, C, D = (env.grid(x) for x in (S.A, S.B, S.C, S.D))
            # (I-A) Y = B  ->  G = C Y + D ; compared through det(I-A) G
            Y = cramer(env, env.msub(env.meye(n), A), B)
            d = det(env.msub(env.meye(n), A))
            E = env.madd(env.mmul(C, Y), [[d * x for x in r] for r in D])
            env.eqs('DC gain is that of the current matrices', [(d * x, y) for a, b in zip(G, E) for x, y in zip(a, b)])
    env.check('size unchanged', tuple(S.size) == (n, p, q))


def cramer(env, M, B):
    """det(M) M^-1 B"""
    n = len(M)
    out = []
    for i in range(n):
        row = []
        for j in range(len(B[0])):
            N = [[B[r][j] if c == i else M[r][c] for c in range(n)] for r in range(n)]
            row.append(det(N))
        out.append(row)
    return out


def simplify(env, n, p, q, zrows, kind):
    """zrows: rows of zeros in A; kind: b (those rows of B are zero), c (columns of A and C are zero), full, free"""
    A, B, C, D = env.reals('A', n, n), env.reals('B', n, q), env.reals('C', p, n), env.reals('D', p, q)
    rest = [i for i in range(n) if i not in zrows]
    for i in zrows:
        for j in range(n):
            A[i][j] = 0.0
        for j in range(q):
            if kind in 'b':
                B[i][j] = 0.0
        if kind == 'c':
            for j in range(n):
                A[j][i] = 0.0
            for j in range(p):
                C[j][i] = 0.0
    if kind == 'delay':
        # the states with a row of zeros delay an input that reaches the output
        for i in zrows:
            B[i][0] = 1.0
            C[0][i] = 1.0
    inst(env, env.neg(env.iszero(det([[env.ex(A[i][j]) for j in rest] for i in rest]))))
    S = env.mod('fixif.LTI').dSS(*[env.npmat(x) for x in (A, B, C, D)])
    M = [env.exm(x) for x in (A, B, C, D)]
    R = S.simplify()
    lti.eqresp(env, 'response after simplify', lti.response(env, R, 2 * n), lti.markov(*M, 2 * n))
    lti.same_system(env, 'operand unchanged', S, M)
    env.check('not larger', R.n <= n)


def simplify_free(env, n, p, q):
    """singular A with no row of zeros: the last row is a multiple of the first one"""
    A, B, C, D = env.reals('A', n, n), env.reals('B', n, q), env.reals('C', p, n), env.reals('D', p, q)
    A[n - 1] = [2 * x for x in A[0]]
    for i in range(n):
        inst(env, env.neg(env.iszero(env.ex(A[i][0]))))
    S = env.mod('fixif.LTI').dSS(*[env.npmat(x) for x in (A, B, C, D)])
    M = [env.exm(x) for x in (A, B, C, D)]
    R = S.simplify()
    lti.eqresp(env, 'response after simplify', lti.response(env, R, 2 * n), lti.markov(*M, 2 * n))


def cases(tier):
    q = tier == 'quick'
    out = []
    for seq in ('T', 'cT', 'oT', 'cTc', 'oTo', 'coTco', 'ToTo', 'cTTc', 'dTd', 'Td', 'dTcTd', 'oTcTo'):
        for p, m in ((1, 1), (2, 1), (1, 2)):
            out.append(Case('sim-1-%dx%d-%s' % (p, m, seq), transform, dict(witnesses=2), n=1, p=p, q=m, seq=seq))
    for seq in ('T', 'cTc', 'oTo', 'dTd', 'coTco') + (() if q else ('Tc', 'To', 'Td', 'dT', 'oTc', 'cTo')):
        for p, m in ((1, 1), (2, 1), (1, 2)):
            if q and (p, m) != (1, 1) and seq not in ('T', 'dTd'):
                continue
            out.append(Case('sim-2-%dx%d-%s' % (p, m, seq), transform, dict(witnesses=1, cost=5), n=2, p=p, q=m, seq=seq))
    for ints in ('s', 't', 'st'):
        for n, p, m in ((1, 1, 2), (2, 1, 1), (3, 1, 1)):
            for seq in ('T',) if n == 3 else ('T', 'dTd'):
                out.append(Case('int-%s-%d-%dx%d-%s' % (ints, n, p, m, seq), transform, dict(witnesses=1, cost=4), n=n, p=p, q=m, seq=seq, ints=ints))
    if not q:
        out.append(Case('sim-2-1x1-TT', transform, dict(witnesses=1, cost=9), n=2, p=1, q=1, seq='TT'))
        out.append(Case('sim-3-1x1-T', transform, dict(witnesses=1, cost=20), n=3, p=1, q=1, seq='T'))
    for n, z in ((2, (0,)), (2, (1,)), (3, (1,)), (3, (0, 2)), (1, (0,))):
        for p, m in ((1, 1), (2, 2)):
            for kind in ('b', 'c'):
                if n == 1 and kind in 'bc':
                    continue
                out.append(Case('simplify-%d-%s-%dx%d-%s' % (n, ''.join(map(str, z)), p, m, kind), simplify, dict(witnesses=2, cost=3), n=n, p=p, q=m, zrows=z, kind=kind))
    for k, (n, z, p, m) in enumerate(((5, (1, 3), 1, 1), (5, (0, 2), 2, 1), (4, (2, 3), 1, 3), (7, (1, 2, 5), 1, 1))):
        for kind in ('b', 'c'):
            out.append(Case('large-simplify-%d-%s-%dx%d-%s' % (n, ''.join(map(str, z)), p, m, kind), simplify, dict(witnesses=1, cost=3, sparse=(13, 10, k)), n=n, p=p, q=m, zrows=z, kind=kind))
    for k, (n, p, m) in enumerate(((3, 1, 2), (4, 1, 1), (5, 2, 1))):
        for seq in ('T',):
            out.append(Case('large-sim-%d-%dx%d-%s' % (n, p, m, seq), transform, dict(witnesses=1, cost=3, sparse=(17, 40, k)), n=n, p=p, q=m, seq=seq))
    for n in (1, 2, 3):
        out.append(Case('simplify-%d-regular' % n, simplify, dict(witnesses=2), n=n, p=1, q=2, zrows=(), kind='full'))
    for n in (2, 3):
        out.append(Case('simplify-%d-singular' % n, simplify_free, dict(witnesses=2), n=n, p=1, q=1))
    out.append(Case('simplify-delay-2', simplify, dict(witnesses=1), n=2, p=1, q=1, zrows=(1,), kind='delay'))
    out.append(Case('simplify-delay-3', simplify, dict(witnesses=1), n=3, p=1, q=1, zrows=(1,), kind='delay'))
    return out
