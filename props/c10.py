"""C10: gramians, H2 norm, DC gain"""
from fractions import Fraction
from symfx.harness import Case
from props import lti
from props.c09 import lyap, gram_ok, det, cramer, inst

BOUNDS = 'orders 1..2 (quick) / 1..3 (thorough), up to 2 (3) inputs and outputs; every order of up to 4 queries'
ASSUMPTIONS = ['double arithmetic modelled over the reals',
               'scipy.linalg.solve_discrete_lyapunov(a, q) returns a symmetric X with a X a\' - X + q = 0, positive semi-definite traces for stable systems',
               'slycot is not installed: the code falls back to scipy']


def stable(env, n):
    """symbolic stable A: order 1 any |a|<1; order 2 scaled"""
    if n == 1:
        return [[env.real('A0_0', lo=Fraction(-15, 16), hi=Fraction(15, 16))]]
    A = [[env.real('A%d_%d' % (i, j), lo=Fraction(-15, 16 * n), hi=Fraction(15, 16 * n)) for j in range(n)] for i in range(n)]
    return A


def gram(env, n, p, q, seq):
    """seq: sequence of queries (o: Wo, c: Wc, h: H2 norm, d: DC gain)"""
    g = [stable(env, n), env.reals('B', n, q), env.reals('C', p, n), env.reals('D', p, q)]
    S = env.mod('fixif.LTI').dSS(*[env.npmat(x) for x in g])
    M = [env.exm(x) for x in g]
    A, B, C, D = M

    def positive(X, a, qq):
        # X = sum a^k q a'^k is positive semi-definite (stable a)
        for Y, E in ((C, D), (env.mT(B), env.mT(D))):
            if len(Y[0]) == len(X):
                T = env.madd(env.mmul(env.mmul(Y, X), env.mT(Y)), env.mmul(E, env.mT(E)))
                env.assume(env.le(0, sum((T[i][i] for i in range(len(T))), Fraction(0))))
    lyap(env, positive)
    val = {}
    for s in seq:
        if s == 'o':
            W = S.Wo
            gram_ok(env, "A'WoA + C'C = Wo", S, W, True)
        elif s == 'c':
            W = S.Wc
            gram_ok(env, "A Wc A' + B B' = Wc", S, W, False)
        elif s == 'h':
            W = S.H2norm()
            wc = env.grid(S.Wc)
            T = env.madd(env.mmul(env.mmul(C, wc), env.mT(C)), env.mmul(D, env.mT(D)))
            t = sum((T[i][i] for i in range(p)), Fraction(0))
            w = env.ex(W)
            env.eq('H2 norm squared', w * w, t)
            env.check('H2 norm not negative', env.le(0, w))
        elif s == 'd':
            # I-A is invertible: the rows of |A| sum to less than 1
            env.assume(env.neg(env.iszero(det(env.msub(env.meye(n), A)))))
            W = S.calc_DC_gain()
            G = env.grid(W)
            d = det(env.msub(env.meye(n), A))
            E = env.madd(env.mmul(C, cramer(env, env.msub(env.meye(n), A), B)), [[d * x for x in r] for r in D])
            env.eqs('DC gain', [(d * x, y) for a, b in zip(G, E) for x, y in zip(a, b)])
        if s in val:
            env.eqm('asked twice: same value', W, val[s])
        val[s] = env.grid(W)
        lti.same_system(env, 'system unchanged', S, M)


def methods(env, n, p, q):
    """the computation can be asked with an explicit method"""
    g = [stable(env, n), env.reals('B', n, q), env.reals('C', p, n), env.reals('D', p, q)]
    S = env.mod('fixif.LTI').dSS(*[env.npmat(x) for x in g])
    lyap(env)
    for m in ('linalg', 'slycot', None):
        S.calc_Wo(m)
        S.calc_Wc(m)
        gram_ok(env, "A'WoA + C'C = Wo (%s)" % m, S, S.Wo, True)
        gram_ok(env, "A Wc A' + B B' = Wc (%s)" % m, S, S.Wc, False)
    env.raises('unknown method', ValueError, lambda: S.calc_Wo('other'))
    env.raises('unknown method', ValueError, lambda: S.calc_Wc('other'))


def dcsingular(env, n, p, q, how, i):
    """I - A has a row (column) of zeros"""
    A = env.reals('A', n, n)
    for j in range(n):
        if how == 'row':
            A[i][j] = 1.0 if i == j else 0.0
        elif how == 'col':
            A[j][i] = 1.0 if i == j else 0.0
        else:
            A[i][j] = 1.0 if i == j else 0.0
            A[j][i] = 1.0 if i == j else 0.0
    S = env.mod('fixif.LTI').dSS(env.npmat(A), env.npmat(env.reals('B', n, q)), env.npmat(env.reals('C', p, n)), env.npmat(env.reals('D', p, q)))
    env.raises('singular I-A', Exception, S.calc_DC_gain)
    env.raises('singular I-A, asked again', Exception, S.calc_DC_gain)


def dcgain(env, n, p, q):
    """any A with I - A invertible"""
    S, M = lti.dss(env, n, p, q)
    A, B, C, D = M
    d = det(env.msub(env.meye(n), A))
    env.assume(env.neg(env.iszero(d)))
    for k in range(2):
        G = env.grid(S.calc_DC_gain())
        E = env.madd(env.mmul(C, cramer(env, env.msub(env.meye(n), A), B)), [[d * x for x in r] for r in D])
        env.check('shape', (len(G), len(G[0])) == (p, q))
        env.eqs('DC gain', [(d * x, y) for a, b in zip(G, E) for x, y in zip(a, b)])
    lti.same_system(env, 'system unchanged', S, M)


def cases(tier):
    q = tier == 'quick'
    out = []
    seqs = ('o', 'c', 'h', 'coco', 'hcho', 'oh', 'hh', 'dhd', 'cdod')
    for n in (1, 2) if q else (1, 2, 3):
        for p, m in ((1, 1), (2, 1), (1, 2), (2, 2)) + (() if q else ((3, 1), (1, 3))):
            for s in seqs:
                if n == 3 and (('d' in s) or p * m > 2):
                    continue
                out.append(Case('gram-%d-%dx%d-%s' % (n, p, m, s), gram, dict(witnesses=2, cost=n), n=n, p=p, q=m, seq=s))
    for n in (1, 2):
        out.append(Case('methods-%d' % n, methods, dict(witnesses=2), n=n, p=1, q=2))
    for k, (n, p, m) in enumerate(((4, 1, 1), (5, 2, 3), (3, 4, 2))):
        o = dict(witnesses=1, cost=4, sparse=(11, 60, k))
        out.append(Case('large-dc-%d-%dx%d' % (n, p, m), dcgain, o, n=n, p=p, q=m))
    for n in (1, 2, 3):
        for p, m in ((1, 1), (2, 1), (1, 2)):
            out.append(Case('dc-%d-%dx%d' % (n, p, m), dcgain, dict(witnesses=2), n=n, p=p, q=m))
        for how in ('row', 'col', 'both'):
            for i in range(n):
                out.append(Case('dcsing-%d-%s%d' % (n, how, i), dcsingular, dict(witnesses=2), n=n, p=1, q=1, how=how, i=i))
    return out
