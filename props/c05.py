"""C05: integer representation of multiprecision numbers"""
from symfx.harness import Case

BOUNDS = ('a single finite number with odd mantissa below 2^12 and exponent in [-6,6] (quick), 2^24 and [-12,12] (thorough), either sign, and zero; 13 exponents from -3000 to 1500 (60-bit mantissas); '
          'matrices up to 2x2 (quick) / 3x2 (thorough); concrete Inf, -Inf, NaN and foreign objects')
ASSUMPTIONS = ['the mpf structure (sign, odd mantissa, exponent, bit count) is modelled as mpmath documents it']


def exponents(R):
    return range(-R, R + 1) if isinstance(R, int) else (0,) + tuple(R)


# numbers below and above the doubles, subnormal numbers, and numbers whose double is an integer
FAR = (-3000, -1300, -1100, -1076, -1074, -1022, -60, 0, 52, 970, 1023, 1024, 1500)


def lossless(env, label, a, y, n, R):
    a, y, n = env.ex(a), env.ex(y), env.ex(n)
    E = exponents(R)
    if env.symbolic:
        env.check(label + ': exponent in the modelled range', env.either(*[n == i for i in E]))
        env.check(label + ': value = y*2^n', env.both(*[env.implies(n == i, a == y * env.Fraction(2) ** i) for i in E]))
    else:
        env.check(label + ': value = y*2^n', n.denominator == 1 and a == y * env.Fraction(2) ** int(n), info=lambda: '%s != %s * 2^%s' % (a, y, n))


def isint(env, v):
    if env.symbolic:
        from symfx.sym import SymInt
        return isinstance(v, (int, SymInt))
    return isinstance(v, int) or type(v).__name__ in ('mpz', 'int64')


def number(env, R):
    a = env.mpf('a')
    y, n = env.mod('fixif.func_aux').mpf_get_representation(a)
    lossless(env, 'number', a, y, n, R)
    env.check('integers', isint(env, y) and isint(env, n))


def matrix(env, how, m, n, R):
    g = env.mpfs('a', m, n)
    A = env.mpmat(g, n)
    if how == 'class':
        Y, N = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(A).get_int_representation()
    else:
        Y, N = env.mod('fixif.func_aux').mpf_matrix_get_representation(A)
    env.check('shapes', tuple(Y.shape) == (m, n) and tuple(N.shape) == (m, n))
    for i in range(m):
        for j in range(n):
            lossless(env, 'entry', g[i][j], Y[i, j], N[i, j], R)
    env.eqm('source unchanged', A, g)


def reject(env):
    fa = env.mod('fixif.func_aux')
    f = fa.mpf_get_representation
    for name, bad in (('inf', env.mp.mpf('inf')), ('-inf', env.mp.mpf('-inf')), ('nan', env.mp.mpf('nan')), ('float', env.real('x')),
                      ('int', 3), ('str', 'a'), ('None', None), ('mpc', env.mp.mpc(env.mpf('r'), env.mpf('i')))):
        env.raises('rejects ' + name, Exception, lambda: f(bad))
    for name, bad in (('inf', env.mp.mpf('inf')), ('nan', env.mp.mpf('nan'))):
        for pos in ((0, 0), (1, 0), (1, 1)):
            A = env.mpmat([[1, 2], [3, 4]])
            A[pos] = bad
            env.raises('matrix with %s at %d,%d' % (name, *pos), Exception, lambda: fa.mpf_matrix_get_representation(A))
            env.raises('class matrix with %s at %d,%d' % (name, *pos), Exception,
                       lambda: env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(A).get_int_representation())


def cases(tier):
    q = tier == 'quick'
    R, B = (6, 12) if q else (12, 24)
    o = dict(exact=True, manexp=R, manbits=B, witnesses=6, prec=53)
    out = [Case('number', number, o, R=R), Case('number-p5', number, dict(o, prec=5), R=R), Case('reject', reject, o)]
    far = dict(o, manexp=FAR, manbits=60)
    out.append(Case('far-number', number, far, R=FAR))
    for how in ('free', 'class'):
        out.append(Case('far-matrix-%s' % how, matrix, dict(far, cost=5), how=how, m=1, n=2, R=FAR))
    for how in ('free', 'class'):
        for m, n in ((1, 1), (1, 2), (2, 1)) if q else ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)):
            out.append(Case('matrix-%s-%dx%d' % (how, m, n), matrix, dict(o, cost=5), how=how, m=m, n=n, R=R))
    return out
