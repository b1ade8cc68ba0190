"""C30: most significant bits, and the word-lengths under which they need one more bit"""
from fractions import Fraction
from symfx.harness import Case
from props import sifs

BOUNDS = ('realizations with up to 2 (quick) / 3 (thorough) intermediate variables, states, inputs and outputs; every worst-case peak gain and every input bound is symbolic, '
          'the signal bounds are within 2^-30 .. 2^30 (for the word-length thresholds: within 2^-10 .. 2^10, and either a power of two or at least 2^-16 (thorough: 2^-32) below the next one); with errors: least significant bits in -20..3, up to one symbolic')
ASSUMPTIONS = ['the worst-case peak gains (library fixif.WCPG) are arbitrary positive numbers', 'products of gains and input bounds are exact']

VAL = [0.5, -0.25, 0.75, 0.125, -0.5, 0.375, 0.625, -0.125]


def const_blocks(l, n, p, q):
    k = [0]

    def v():
        k[0] += 1
        return VAL[(3 * k[0]) % 8] * (1 if k[0] % 5 else 0.5)
    g = {X: [[v() for _ in range(c)] for _ in range(r)] for X, (r, c) in sifs.dims(l, n, p, q).items()}
    g['J'] = [[1.0 if i == j else (v() if i > j else 0.0) for j in range(l)] for i in range(l)]
    g['P'] = [[(0.25 if i == j else 0.125) for j in range(n)] for i in range(n)]
    return g


def gains(env, R, which, lo=None, hi=None):
    """the worst-case peak gains of the state-space `which` of R are arbitrary positive numbers"""
    sizes = []
    out = {}

    def wcpg(A, B, C, D):
        H = getattr(R, which)
        got = [env.grid(X) for X in (A, B, C, D)]
        ref = [env.grid(X) for X in (H.A, H.B, H.C, H.D)]
        env.check('system whose gain is needed', [env.shape(X) for X in (A, B, C, D)] == [env.shape(X) for X in (H.A, H.B, H.C, H.D)] and
                  all(bool(env.iszero(x - y)) for a, b in zip(got, ref) for ra, rb in zip(a, b) for x, y in zip(ra, rb)))
        sizes.append(which)
        r, c = env.shape(D)
        out['W'] = env.reals('W', r, c, lo=Fraction(1, 2**20) if lo is None else lo, hi=2**20 if hi is None else hi)
        return env.npmat(out['W'])
    env.hook('wcpg', wcpg)
    return out


def realization(env, l, n, p, q, cls):
    g = const_blocks(l, n, p, q)
    a = sifs.args(env, g, l, n, p, q)
    if cls == 'R':
        return env.mod('fixif.SIF').Realization(None, a)
    S = env.mod('fixif.SIF').SIF
    mix = env.mod('fixif.SIF.Realization_FxP_Nastia').R_FxP_Nastia
    return type('R', (S, mix), {})(a)


def bounds(env, W, u):
    return [sum((env.ex(w) * env.ex(x) for w, x in zip(r, u)), Fraction(0)) for r in W]


def p2(env, k):
    """2**k for an integer k"""
    if env.symbolic and not isinstance(k, (int, Fraction)):
        return env.ex(2.0 ** k)
    return Fraction(2) ** int(k)


def inputs(env, q, limit, fixed=None):
    if fixed is not None:
        return [float(x) for x in fixed[:q]]
    return env.reals('u', q, lo=Fraction(1, 2**8), hi=2**8)


def vec(env, u):
    return env.npmat([[x] for x in u])


def msb(env, l, n, p, q, cls, twice):
    R = realization(env, l, n, p, q, cls)
    G = gains(env, R, 'Hzeta')
    u = inputs(env, q, 0)
    m = R.computeNaiveMSB(vec(env, u))
    if twice:
        u = [env.real('v%d' % i, Fraction(1, 2**8), 2**8) for i in range(q)]
        m = R.computeNaiveMSB(vec(env, u))
    env.check('one position per variable', len(m) == l + n + p)
    for i, (k, z) in enumerate(zip(m, bounds(env, G['W'], u))):
        k = env.ex(k)
        env.check('the signal is below 2^m', env.le(z, p2(env, k)))
        env.check('and not below 2^(m-1)', env.lt(p2(env, k - 1), z))


def near(env, l, n, p, q, cls, i):
    """the logarithms in double precision are rounded: signals close to a power of two"""
    R = realization(env, l, n, p, q, cls)
    # 2^i (1 + j 2^-52) for any small integer j, of any sign (these are doubles)
    J = [env.int('j%d' % k, *((-50, 50) if i == 1 else (-1, 1))) for k in range(l + n + p)]
    W = [[(Fraction(2)**i * (1 + env.ex(j) * Fraction(1, 2**52))) for _ in range(q)] for j in J]
    W = [[float(x) if not env.symbolic else x for x in r] for r in W]
    env.hook('wcpg', lambda A, B, C, D: env.npmat(W))
    u = [1.0] + [0.0] * (q - 1)
    for k, z in zip(R.computeNaiveMSB(vec(env, u)), bounds(env, W, u)):
        k = env.ex(k)
        env.check('the signal is below 2^m', env.le(z, p2(env, k)) if env.symbolic else z <= p2(env, k))
        env.check('and not below 2^(m-1)', env.lt(p2(env, k - 1), z) if env.symbolic else p2(env, k - 1) < z)


def powers(env, l, n, p, q, cls):
    """signals whose bound is exactly a power of two"""
    R = realization(env, l, n, p, q, cls)
    e = [env.int('e%d' % i, -34, 34) for i in range(l + n + p)]
    W = [[2.0 ** k if not env.symbolic else p2(env, k)] * q for k in e]
    env.hook('wcpg', lambda A, B, C, D: env.npmat(W))
    u = [2.0 if q != 2 else 1.0] + [1.0] * (q - 1)
    s = {1: 1, 2: 1, 3: 2}[q]
    m = R.computeNaiveMSB(vec(env, u))
    for k, x in zip(m, e):
        env.eq('position of a power of two', env.ex(k), env.ex(x) + s)


def least(env, k, z, w, name):
    """w is the least word-length whose largest number 2^m - 2^(m+1-w) is at least z"""
    top = p2(env, k)
    env.check('the signal fits with this word-length', env.le(z, top - p2(env, k + 1 - w)))
    env.check('and does not with one bit less', env.lt(top - p2(env, k + 2 - w), z))


def threshold(env, l, n, p, q, cls):
    R = realization(env, l, n, p, q, cls)
    u = [1.0] * q
    G = gains(env, R, 'Hzeta', Fraction(1, 2**10), 2**10)
    f = R._w_tilde if cls == 'R' else R.w_tilde
    w = f(vec(env, u))
    m = R.computeNaiveMSB(vec(env, u))
    env.check('one threshold per variable', len(w) == l + n + p)
    for k, x, z in zip(m, w, bounds(env, G['W'], u)):
        k = env.ex(k)
        if bool(env.ex(z) == p2(env, k)):
            # never representable with this position
            env.check('no word-length is enough for a power of two', isinstance(x, float) and x == float('inf'), x)
        else:
            env.check('a finite threshold otherwise', not isinstance(x, float), x)
            least(env, k, z, env.ex(x), 'w')


def matmul(a, b):
    return [[sum((x * b[k][j] for k, x in enumerate(r)), Fraction(0)) for j in range(len(b[0]))] for r in a]


def errors(env, l, n, p, q, lsb, symlsb):
    """positions that take the roundoff errors of all the variables into account"""
    R = realization(env, l, n, p, q, 'N')
    H = R.Hzeta
    zA, zB, zC, zD = [env.grid(X) for X in (H.A, H.B, H.C, H.D)]
    N = l + n + p
    g = {X: [[Fraction(v) for v in r] for r in b] for X, b in const_blocks(l, n, p, q).items()}
    inv = [[Fraction(int(i == j)) for j in range(l)] for i in range(l)]
    for i in range(l):
        for j in range(l):
            inv[i][j] -= sum(g['J'][i][k] * inv[k][j] for k in range(i))
    one = lambda i, j: Fraction(int(i == j))
    C1 = [[one(i, j) for j in range(l)] for i in range(l)] + [[Fraction(0)] * l for _ in range(n)] + g['L']
    KI = matmul(g['K'], inv) if l else [[] for _ in range(n)]
    CI = matmul(C1, inv) if l else [[] for _ in range(N)]
    eB = [KI[i] + [one(i, j) for j in range(n)] + [Fraction(0)] * N for i in range(n)]
    eD = [CI[i] + [Fraction(0)] * n + [one(i, j) for j in range(N)] for i in range(N)]
    calls = []

    def same(got, ref):
        return len(got) == len(ref) and all(len(a) == len(b) and all(bool(env.iszero(env.ex(x) - env.ex(y))) for x, y in zip(a, b)) for a, b in zip(got, ref))

    def wcpg(A, B, C, D):
        got = [env.grid(X) for X in (A, B, C, D)]
        if all(same(x, y) for x, y in zip(got, (zA, zB, zC, zD))):
            k = 'W'
        else:
            env.check('a system from the errors to the variables', all(same(x, y) for x, y in zip(got, (zA, eB, zC, eD))))
            k = 'E'
        calls.append(k)
        return env.npmat(env.reals(k, N, len(got[3][0]), lo=Fraction(1, 2**12) if k == 'W' else 0, hi=2**12))
    env.hook('wcpg', wcpg)
    u = inputs(env, q, 0)
    L = list(lsb[:N])
    if symlsb is not None:
        L[symlsb] = env.intreal('lsb', -12, 3)
    m = R.compute_MSB_allvar_extended(vec(env, u), L[:l], L[l:l + n], L[l + n:])
    env.check('the gains of the signals and of the errors', sorted(set(calls)) == ['E', 'W'])
    W, E = env.reals('W', N, q, lo=Fraction(1, 2**12), hi=2**12), env.reals('E', N, l + n + N, lo=0, hi=2**12)
    e = [p2(env, env.ex(x)) for x in L[:l + n] + L]
    m = env.grid(m)
    env.check('one position per variable', [len(r) for r in m] == [N])
    for k, a, b in zip(m[0], bounds(env, W, u), [sum((env.ex(x) * y for x, y in zip(r, e)), Fraction(0)) for r in E]):
        k = env.ex(k)
        env.check('the signal with its errors is below 2^m', env.le(a + b, p2(env, k)))
        env.check('and not below 2^(m-1)', env.lt(p2(env, k - 1), a + b))


def cases(tier):
    q_ = tier == 'quick'
    out = []
    o = {'exprange': 48, 'powrange': 60}
    for l, n, p, q in [(0, 1, 1, 1), (1, 1, 1, 1), (0, 2, 1, 1), (2, 1, 1, 2), (1, 2, 2, 1)]:
        for k, lsb in enumerate(([-4., -6., -3., -8., -5.], [0., -20., 2., -1., -11.], [-4, -6, -3, -8, -5])):
            out.append(Case('errors-%d%d%d%d-%d' % (l, n, p, q, k), errors, o, l=l, n=n, p=p, q=q, lsb=lsb, symlsb=None))
        if not q_ or (n, p, q) == (1, 1, 1):
            for i in range(l + n + p):
                out.append(Case('errors-%d%d%d%d-any%d' % (l, n, p, q, i), errors, o, l=l, n=n, p=p, q=q, lsb=[-4., -6., -3., -8., -5.], symlsb=i))
    for cls in ('R', 'N'):
        for l, n, p, q in [(1, 1, 1, 1), (0, 1, 1, 1), (0, 2, 1, 1), (1, 1, 2, 1), (0, 1, 1, 2), (2, 1, 1, 2)] + ([] if q_ else [(2, 2, 2, 2), (3, 1, 1, 3), (0, 3, 2, 3)]):
            s = '%s-%d%d%d%d' % (cls, l, n, p, q)
            out.append(Case('msb-' + s, msb, l=l, n=n, p=p, q=q, cls=cls, twice=False))
            out.append(Case('powers-' + s, powers, l=l, n=n, p=p, q=q, cls=cls))
            if l + n + p < 4:
                out.append(Case('threshold-' + s, threshold, {'exprange': 16 if q_ else 32, 'powrange': 36 if q_ else 70}, l=l, n=n, p=p, q=q, cls=cls))
        for i in (1, 30, -12):
            out.append(Case('near-%s-%d' % (cls, i), near, {'logrounded': True, 'exprange': 33, 'powrange': 35}, l=0, n=1, p=1, q=1, cls=cls, i=i))
        out.append(Case('again-' + cls, msb, l=0, n=1, p=1, q=1, cls=cls, twice=True))
    return out
