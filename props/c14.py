"""C14: state space to transfer function"""
from fractions import Fraction
from symfx.harness import Case
from props import lti

BOUNDS = ('double: orders 0..3 (quick) / 0..5 (thorough), all coefficients symbolic; multiprecision: orders 0..3 (quick) / 0..4 (thorough), '
          'every diagonalizable A (real or complex pairs of eigenvalues) given by symbolic eigenvalues and eigenvectors; requested precision 53, 64, 200')
ASSUMPTIONS = ['scipy.signal.ss2tf(A,B,C,D): den = det(zI-A), num = det(zI-A+BC) + (D-1) den',
               'mpmath.eig(A) returns E, V with A V = V diag(E) and V invertible (diagonalizable A)',
               'multiprecision arithmetic modelled without rounding, replayed with a relative tolerance']


def double(env, n):
    S, M = lti.dss(env, n, 1, 1)
    H = S.to_dTF()
    num, den = env.grid(H.num)[0], env.grid(H.den)[0]
    K = 2 * n + 2
    R = lti.markov(*M, K)
    env.eqs('response', [(a, R[k][0][0]) for k, a in enumerate(lti.tf_response(num, den, K))])
    lti.same_system(env, 'system unchanged', S, M)


def inv(env, W):
    """adj(W), det(W)"""
    n = len(W)
    if n == 1:
        return [[Fraction(1)]], W[0][0]

    def det(m):
        if len(m) == 1:
            return m[0][0]
        t = Fraction(0)
        for j in range(len(m)):
            c = m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
            t = t + c if j % 2 == 0 else t - c
        return t
    d = det(W)
    adj = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            m = det([r[:i] + r[i + 1:] for k, r in enumerate(W) if k != j])
            adj[i][j] = m if (i + j) % 2 == 0 else -m
    return adj, d


def multi(env, kind, prec, D0, vec):
    """kind: 'r' per real eigenvalue, 'c' per complex pair"""
    mp = env.mp
    n = sum(2 if c == 'c' else 1 for c in kind)
    # eigenvectors: W real invertible (unit triangular factors, or a full symbolic 2x2)
    if vec == 'full':
        W = [[env.mpf('w%d%d' % (i, j)) for j in range(n)] for i in range(n)]
    else:
        L = [[env.mpf('l%d%d' % (i, j)) if i > j else mp.mpf(int(i == j)) for j in range(n)] for i in range(n)]
        U = [[env.mpf('u%d%d' % (i, j)) if i < j else mp.mpf(int(i == j)) for j in range(n)] for i in range(n)]
        W = env.mmul([[env.ex(x) for x in r] for r in L], [[env.ex(x) for x in r] for r in U])
    Wx = [[env.ex(x) for x in r] for r in W]
    adj, d = inv(env, Wx)
    env.assume(env.neg(env.iszero(d)))
    J = [[Fraction(0)] * n for _ in range(n)]
    E, V = [], [[None] * n for _ in range(n)]
    i = 0
    for k, c in enumerate(kind):
        if c == 'r':
            e = env.ex(env.mpf('e%d' % k))
            J[i][i] = e
            E.append((e, Fraction(0)))
            for a in range(n):
                V[a][i] = (Wx[a][i], Fraction(0))
            i += 1
        else:
            r, s = env.ex(env.mpf('r%d' % k)), env.ex(env.mpf('s%d' % k, nz=True))
            J[i][i], J[i][i + 1], J[i + 1][i], J[i + 1][i + 1] = r, s, -s, r
            E += [(r, s), (r, -s)]
            for a in range(n):
                V[a][i], V[a][i + 1] = (Wx[a][i], Wx[a][i + 1]), (Wx[a][i], -Wx[a][i + 1])
            i += 2
    A = [[x / d for x in r] for r in env.mmul(env.mmul(Wx, J), adj)]
    B = env.mpfs('B', n, 1)
    C = env.mpfs('C', 1, n)
    D = [[mp.mpf(0) if D0 else env.mpf('D', nz=True)]]
    S = env.mod('fixif.LTI').dSSmp(env.mpmat(env.tomp(A), n), env.mpmat(B, 1), env.mpmat(C, n), env.mpmat(D))
    cplx = 'c' in kind

    def eig(ctx, A, left=False, right=True, **k):
        vals = [env.mpc(*e) if cplx else env.tomp([[e[0]]])[0][0] for e in E]
        vecs = ctx.matrix(n, n)
        for a in range(n):
            for b in range(n):
                vecs[a, b] = env.mpc(*V[a][b]) if cplx else env.tomp([[V[a][b][0]]])[0][0]
        return vals, vecs
    env.contract('eig', eig)
    before = mp.mp.prec
    M = [env.exm(x) for x in (S.A, S.B, S.C, S.D)]
    H = S.to_dTFmp(prec) if prec else S.to_dTFmp()
    env.check('working precision restored', mp.mp.prec == before)
    num, den = [r[0] for r in env.grid(H.num)], [r[0] for r in env.grid(H.den)]
    K = 2 * n + 2
    R = lti.markov(*M, K)
    env.eqs('response', [(a, R[k][0][0]) for k, a in enumerate(lti.tf_response(num, den, K))])
    lti.same_system(env, 'system unchanged', S, M)


def gain(env, kind):
    """no state"""
    d = env.real('D') if kind == 'np' else env.mpf('D')
    LTI = env.mod('fixif.LTI')
    z = env.np.zeros if kind == 'np' else env.mp.matrix
    if kind == 'np':
        S = LTI.dSS(z((0, 0)), z((0, 1)), z((1, 0)), env.npmat([[d]]))
        H = S.to_dTF()
    else:
        S = LTI.dSSmp(z(0, 0), z(0, 1), z(1, 0), env.mpmat([[d]]))
        H = S.to_dTFmp()
    num, den = [x for r in env.grid(H.num) for x in r], [x for r in env.grid(H.den) for x in r]
    env.eqs('response', list(zip(lti.tf_response(num, den, 3), [env.ex(d), Fraction(0), Fraction(0), Fraction(0)])))


def siso(env, n, p, q):
    S, M = lti.dss(env, n, p, q)
    env.raises('not SISO', ValueError, S.to_dTF)
    T = S.to_dSSmp()
    before = env.mp.mp.prec
    env.raises('not SISO (multiprecision)', ValueError, T.to_dTFmp)
    env.check('working precision restored', env.mp.mp.prec == before)
    env.raises('not SISO (multiprecision)', ValueError, T.to_dTFmp, 200)
    env.check('working precision restored', env.mp.mp.prec == before)


def failing(env):
    """the eigenvalue computation raises"""
    S, M = lti.dssmp(env, 2, 1, 1)

    def eig(ctx, A, *a, **k):
        raise ZeroDivisionError('no convergence')
    ctx = env.mp.mp
    before = ctx.prec
    ctx.eig = eig.__get__(ctx)
    try:
        S.to_dTFmp(97)
    except Exception:
        pass
    finally:
        del ctx.eig
    env.check('working precision restored', ctx.prec == before)


def defective(env):
    """A has one eigenvalue and one eigenvector"""
    mp = env.mp
    a, k = env.mpf('a'), env.mpf('k', nz=True)
    A = [[a, k], [mp.mpf(0), a]]
    S = env.mod('fixif.LTI').dSSmp(env.mpmat(A), env.mpmat(env.mpfs('B', 2, 1)), env.mpmat(env.mpfs('C', 1, 2)), env.mpmat([[env.mpf('D')]]))

    def eig(ctx, A, *r, **s):
        return [a, a], env.mpmat([[mp.mpf(1), mp.mpf(-1)], [mp.mpf(0), mp.mpf(0)]])
    env.contract('eig', eig)
    M = [env.exm(x) for x in (S.A, S.B, S.C, S.D)]
    R = lti.markov(*M, 5)
    try:
        H = S.to_dTFmp()
    except ZeroDivisionError:
        env.check('response of a defective system', False)
        return
    num, den = [r[0] for r in env.grid(H.num)], [r[0] for r in env.grid(H.den)]
    env.eqs('response of a defective system', [(x, R[i][0][0]) for i, x in enumerate(lti.tf_response(num, den, 5))])


def cases(tier):
    q = tier == 'quick'
    out = []
    for k, n in enumerate((4, 5, 6)):
        out.append(Case('large-double-%d' % n, double, dict(witnesses=1, cost=n, sparse=(9, 60, k)), n=n))
    for n in range(1, (4 if q else 5)):
        out.append(Case('double-%d' % n, double, dict(witnesses=1, cost=n), n=n))
    kinds = ['r', 'rr', 'c', 'rrr', 'rc'] + ([] if q else ['rrrr', 'cc'])
    for k in kinds:
        for D0 in (0, 1):
            for prec in ((None, 53, 200) if len(k) == 1 and k != 'c' else (None, 200)):
                for vec in (('full', 'lu') if len(k) == 1 or k == 'rr' else ('lu',)):
                    out.append(Case('multi-%s-%s-%d-%s' % (k, prec, D0, vec), multi, dict(witnesses=2, bc=53, cost=4, tol=1e-6, manbits=40, manexp=8), kind=k, prec=prec, D0=D0, vec=vec))
    for kind in ('np', 'mp'):
        out.append(Case('gain-' + kind, gain, kind=kind))
    for n, p, qq in ((1, 2, 1), (1, 1, 2), (2, 2, 2), (2, 1, 3)):
        out.append(Case('siso-%d%d%d' % (n, p, qq), siso, n=n, p=p, q=qq))
    out.append(Case('failing', failing))
    out.append(Case('defective', defective, dict(bc=53, tol=1e-6, manbits=40, manexp=8)))
    return out
