"""helpers for the linear systems: exact responses"""
from fractions import Fraction
from symfx.harness import BaseEnv as E


def markov(A, B, C, D, K):
    """[D, CB, CAB, ...] (K+1 terms) of exact matrices (lists of lists)"""
    out = [D]
    p, q = len(D), len(D[0]) if D else 0
    n = len(A)
    M = B
    for _ in range(K):
        out.append([[sum((C[i][k] * M[k][j] for k in range(n)), Fraction(0)) for j in range(q)] for i in range(p)])
        M = [[sum((A[i][k] * M[k][j] for k in range(n)), Fraction(0)) for j in range(q)] for i in range(n)]
    return out


def response(env, S, K):
    return markov(env.grid(S.A), env.grid(S.B), env.grid(S.C), env.grid(S.D), K)


def intcoeffs(ln, ld, one=False, k=0):
    """integer coefficients (Python's int); the first one of the denominator is 1 or 2"""
    return [(5 * i + 3 * k) % 7 - 2 for i in range(ln)], [1 if one else 2] + [(3 * i + k) % 5 - 1 for i in range(1, ld)]


def tf_response(num, den, K):
    """first K+1 samples of the impulse response of num/den (powers of z^-1), den[0] any non-zero"""
    h = []
    for k in range(K + 1):
        v = num[k] if k < len(num) else Fraction(0)
        for i in range(1, min(k, len(den) - 1) + 1):
            v = v - den[i] * h[k - i]
        h.append(v / den[0])
    return h


def eqresp(env, label, H, R):
    """two lists of matrices are equal"""
    ok = True
    for k, (h, r) in enumerate(zip(H, R)):
        ok = env.check('%s: size' % label, (len(h), len(h[0]) if h else 0) == (len(r), len(r[0]) if r else 0)) and \
            env.eqs(label, [(x, y) for a, b in zip(h, r) for x, y in zip(a, b)]) and ok
        if not ok:
            return False
    return ok


def intgrid(r, c, k=0):
    """a matrix of integers (Python's int, so that numpy gives it an integer type)"""
    return [[(7 * i + 5 * j + 3 * k + i * j) % 11 - 4 for j in range(c)] for i in range(r)]


def dss(env, n, p, q, pre='', ints=False):
    """a double-precision state space and its exact matrices: symbolic reals, or (ints) given matrices of integer type"""
    g = [intgrid(r, c, ord(x)) if ints else env.reals(pre + x, r, c) for x, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q))]
    dSS = env.mod('fixif.LTI').dSS
    S = dSS(*[env.npmat(x) for x in g])
    return S, [env.exm(x) for x in g]


def dssmp(env, n, p, q, pre=''):
    g = [env.mpfs(pre + x, r, c) for x, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q))]
    S = env.mod('fixif.LTI').dSSmp(*[env.mpmat(x) for x in g])
    return S, [env.exm(x) for x in g]


def same_system(env, label, S, M):
    """S still has the matrices M"""
    env.eqs(label, [(x, y) for X, Y in zip((S.A, S.B, S.C, S.D), M) for a, b in zip(env.grid(X), Y) for x, y in zip(a, b)])


def sizes(N, P, Q, n0=1, p0=1, q0=1):
    return [(n, p, q) for n in range(n0, N + 1) for p in range(p0, P + 1) for q in range(q0, Q + 1)]
