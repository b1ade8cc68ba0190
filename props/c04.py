"""C04: conversions between numpy and multiprecision matrices"""
from symfx.harness import Case

BOUNDS = 'all shapes up to 3x3 (quick) / 5x5 (thorough), arbitrary real entries; working precisions 24, 53 (thorough: also 10, 200)'
ASSUMPTIONS = ['rounded multiprecision operations are value*(1+d), |d| <= 2^-prec; conversion of a double is exact, float() of a double-width multiprecision value is exact',
               'finite entries']


def to_mp(env, how, m, n):
    g = env.reals('a', m, n)
    M = env.npmat(g) if how != 'class-array' else env.np.array(g)
    if how == 'python2mpf_matrix':
        R = env.mod('fixif.func_aux').python2mpf_matrix(M)
    else:
        X = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(M)
        R = X.matrix
        env.check('shape', (int(X.rows), int(X.cols)) == (m, n) and tuple(map(int, X.shape)) == (m, n))
        env.eqs('element access', [(X[i, j], g[i][j]) for i in range(m) for j in range(n)])
        env.check('equal to itself', X.equal(env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(M)))
    env.eqm('entries', R, g)
    env.eqm('source unchanged', M, g)
    # round trip
    if how == 'python2mpf_matrix':
        B = env.mod('fixif.func_aux').mpf_to_numpy(R)
    else:
        B = X.to_numpy()
    env.eqm('round trip', B, g)
    env.check('a numpy matrix', isinstance(B, env.np.matrix))


def to_np(env, how, m, n):
    g = [[env.mpf('a%d_%d' % (i, j), width=53) for j in range(n)] for i in range(m)]
    A = env.mpmat(g, n)
    if how == 'mpf_to_numpy':
        B = env.mod('fixif.func_aux').mpf_to_numpy(A)
        env.eq('scalar', env.mod('fixif.func_aux').mpf_to_numpy(g[0][0]), g[0][0])
        env.raises('foreign argument rejected', Exception, lambda: env.mod('fixif.func_aux').mpf_to_numpy('abc'))
    else:
        B = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(A).to_numpy()
    env.check('shape', tuple(B.shape) == (m, n))
    env.eqm('entries', B, g)
    env.eqm('source unchanged', A, g)


def copy(env, m, n):
    g = env.mpfs('a', m, n)
    A = env.mpmat(g, n)
    cls = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix
    X = cls(A)
    env.eqm('entries', X.matrix, g)
    h = env.mpfs('b', m, n)
    for i in range(m):
        for j in range(n):
            A[i, j] = h[i][j]
    env.eqm('independent of the source', X.matrix, g)
    Y = cls(X.matrix)
    env.check('equal: same entries', X.equal(Y))
    diff = env.either(*[env.neg(env.ex(g[i][j]) == env.ex(h[i][j])) for i in range(m) for j in range(n)])
    env.check('equal compares every entry', env.neg(X.equal(cls(A))) if True else None) if False else None
    e = X.equal(cls(A))
    env.check('equal iff all entries are equal', env.neg(diff) if e else diff)
    Z = cls(env.np.matrix(env.np.zeros((m, n + 1))))
    env.raises('equal: sizes', Exception, lambda: X.equal(Z))


def real_part(env, m, n):
    re, im = env.mpfs('re', m, n), env.mpfs('im', m, n)
    A = env.mp.matrix(m, n)
    for i in range(m):
        for j in range(n):
            A[i, j] = env.mp.mpc(re[i][j], im[i][j])
    R = env.mod('fixif.func_aux').mpc_get_real(A)
    env.eqm('real part', R, re)


def foreign(env):
    fa = env.mod('fixif.func_aux')
    cls = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix
    for name, bad in (('list', [[env.real('x'), 1.0]]), ('scalar', env.real('y')), ('None', None), ('str', 'a')):
        env.raises('python2mpf_matrix rejects ' + name, Exception, lambda: fa.python2mpf_matrix(bad))
        env.raises('MPFMatrix rejects ' + name, Exception, lambda: cls(bad))


def cases(tier):
    q = tier == 'quick'
    out = []
    o = dict(rounding='delta', exact=True, witnesses=2, candidates=4)
    N = 4 if q else 6
    precs = [24, 53] if q else [10, 24, 53, 200]
    for p in precs:
        for m in range(1, N):
            for n in range(1, N):
                for how in ('python2mpf_matrix', 'class-matrix', 'class-array'):
                    out.append(Case('to_mp-%s-%dx%d-p%d' % (how, m, n, p), to_mp, dict(o, prec=p), how=how, m=m, n=n))
                for how in ('mpf_to_numpy', 'class'):
                    out.append(Case('to_np-%s-%dx%d-p%d' % (how, m, n, p), to_np, dict(o, prec=p), how=how, m=m, n=n))
    for k, (m, n) in enumerate(((7, 2), (2, 9), (6, 5))):
        for how in ('python2mpf_matrix', 'class-matrix', 'class-array'):
            out.append(Case('large-to_mp-%s-%dx%d' % (how, m, n), to_mp, dict(o, prec=53, sparse=(3, 30, k)), how=how, m=m, n=n))
        for how in ('mpf_to_numpy', 'class'):
            out.append(Case('large-to_np-%s-%dx%d' % (how, m, n), to_np, dict(o, prec=53, sparse=(3, 30, k)), how=how, m=m, n=n))
    for m in range(1, 3):
        for n in range(1, 3):
            out.append(Case('copy-%dx%d' % (m, n), copy, dict(o, prec=53), m=m, n=n))
    for m, n in ((1, 1), (2, 2), (2, 1), (1, 3), (3, 2)):
        out.append(Case('real_part-%dx%d' % (m, n), real_part, dict(o, prec=53, rounding='exact'), m=m, n=n))
    out.append(Case('foreign', foreign, dict(o, prec=53)))
    return out
