"""C03: exact inverse of unit lower-triangular matrices"""
from fractions import Fraction
from symfx.harness import Case

BOUNDS = ('n <= 4 (quick) / 6 (thorough); arbitrary real entries below the diagonal; working precisions 10, 53 (thorough 2, 200); rejection: '
          'arbitrary full matrices n <= 2 (quick) / 3 (thorough), all rectangular shapes <= 3')
ASSUMPTIONS = ['every rounded multiprecision operation is modelled as value*(1+d), |d| <= 2^-prec, d arbitrary; exact=True operations as exact',
               'finite values (no NaN/Inf entries)']


def inv(env, how, L):
    if how == 'inv_lowtr':
        X = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(L)
        l0 = env.grid(X.matrix)
        R = X.inv_lowtr().matrix
        env.eqm('object unchanged', X.matrix, l0)
        return R
    return env.mod('fixif.func_aux').mpf_matrix_lt_inverse(L)


def build(env, kind, n, entry):
    if kind == 'np':
        return env.npmat([[entry(i, j) for j in range(n)] for i in range(n)])
    return env.mpmat([[entry(i, j) for j in range(n)] for i in range(n)], cols=n)


def good(env, how, kind, n):
    one = 1.0 if kind == 'np' else env.mp.mpf(1)
    zero = 0.0 if kind == 'np' else env.mp.mpf(0)
    f = env.real if kind == 'np' else env.mpf
    L = build(env, kind, n, lambda i, j: one if i == j else (zero if j > i else f('l%d_%d' % (i, j))))
    l = env.grid(L)
    X = inv(env, how, L)
    x = env.grid(X)
    env.check('size', (int(X.rows), int(X.cols)) == (n, n))
    env.eqm('L*X = I', env.mmul(l, x), env.meye(n))
    env.eqm('X*L = I', env.mmul(x, l), env.meye(n))
    env.eqm('L unchanged', L, l)


def decide(env, how, kind, n):
    """an arbitrary matrix: accepted iff unit lower-triangular"""
    f = env.real if kind == 'np' else env.mpf
    L = build(env, kind, n, lambda i, j: f('l%d_%d' % (i, j)))
    l = env.grid(L)
    try:
        X = inv(env, how, L)
    except Exception:
        X = None
    unit = env.both(*[env.iszero(l[i][j] - (1 if i == j else 0)) for i in range(n) for j in range(i, n)])
    if X is None:
        env.check('a unit lower-triangular matrix is accepted', env.neg(unit))
    else:
        env.check('only unit lower-triangular matrices are accepted', unit)
        env.eqm('L*X = I (accepted)', env.mmul(l, env.grid(X)), env.meye(n))


def rect(env, how, kind, N):
    for m in range(1, N + 1):
        for n in range(1, N + 1):
            if m != n:
                g = [[(env.real if kind == 'np' else env.mpf)('r%d%d_%d_%d' % (m, n, i, j)) if j < i else float(i == j) for j in range(n)] for i in range(m)]
                L = env.npmat(g) if kind == 'np' else env.mpmat(g)
                env.raises('%dx%d rejected' % (m, n), Exception, lambda: inv(env, how, L))


def cases(tier):
    q = tier == 'quick'
    out = []
    o = dict(rounding='delta', exact=True, witnesses=1, candidates=4)
    for how in ('mpf_matrix_lt_inverse', 'inv_lowtr'):
        for kind in ('mp', 'np'):
            for prec in ([10, 53] if q else [2, 10, 53, 200]):
                for n in range(1, 5 if q else 7):
                    out.append(Case('%s-%s-%d-p%d' % (how, kind, n, prec), good, dict(o, prec=prec, cost=n), how=how, kind=kind, n=n))
            for n in (6, 8):
                out.append(Case('large-%s-%s-%d' % (how, kind, n), good, dict(o, prec=53, cost=n, sparse=(4, 50, n)), how=how, kind=kind, n=n))
            for n in range(1, 3 if q else 4):
                out.append(Case('%s-%s-decide-%d' % (how, kind, n), decide, dict(o, prec=53, cost=2 * n, witnesses=6), how=how, kind=kind, n=n))
            out.append(Case('%s-%s-rect' % (how, kind), rect, dict(o, prec=53), how=how, kind=kind, N=3))
    return out
