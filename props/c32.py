"""C32: trivial coefficients, default weights, operation counts"""
import math
import re
from fractions import Fraction
from symfx.harness import Case
from props import sifs
from props.c30 import const_blocks

BOUNDS = ('coefficients of any sign with moduli within 2^-40 .. 2^40 (quick: 2^-12 .. 2^12), or null; tolerances 1e-8 (that of the realizations), 2^-20 and 1e-3, and any tolerance within 2^-30 .. 1/4; '
          'realizations with up to 2 (thorough: 3) intermediate variables, states, inputs and outputs, one or two symbolic coefficients at every position; given numbers of bits: 0, 1, 1/4, 5/2 and one symbolic')
ASSUMPTIONS = ['coefficients whose relative distance to a power of two is the tolerance, up to a relative 1e-6 + 2 epsilon, may be classified either way',
               'the operations are counted for realizations where no row of coefficients is null']

F = Fraction


def points(eps):
    """rational bounds of the logarithms at the ends of the band where both classifications are right"""
    g = (F(1, 10**6) + 2 * F(eps)) / 2
    s2 = F(math.sqrt(2))
    out = [(F(1, 2), s2 - F(1, 10**9), s2 + F(1, 10**9))]
    for s in (1, -1):
        for k in (1 - g, 1 + g) if eps else ():
            y = 1 + s * F(eps) * k
            t = F(math.log1p(float(s * F(eps) * k)) / math.log(2))
            w = F(eps) / 10**8
            out.append((t, y - w, y + w))
    return out


def band(env, x, eps):
    """(certainly trivial, certainly not) of a non-zero x"""
    a, e = env.ex(abs(x)), env.ex(eps)
    g = F(1, 10**6) + 2 * e
    yes, no = [], []
    for k in range(-R(env), R(env) + 2):
        d = a - F(2) ** k
        yes.append(env.both(env.le(d, e * (1 - g) * F(2) ** k), env.le(-d, e * (1 - g) * F(2) ** k)))
        no.append(env.either(env.lt(e * (1 + g) * F(2) ** k, d), env.lt(e * (1 + g) * F(2) ** k, -d)))
    return env.either(*yes), env.both(*no)


def R(env):
    return RANGE[0]


RANGE = [12]


def coef(env, name, rng):
    x = env.real(name, -2**rng, 2**rng)
    env.assume(env.either(env.iszero(x), env.le(F(1, 2**rng), env.ex(x)), env.le(env.ex(x), -F(1, 2**rng))))
    return x


def trivial(env, eps, rng):
    RANGE[0] = rng
    if eps is None:
        eps = env.real('eps', F(1, 2**30), F(1, 4))
    x = coef(env, 'x', rng)
    t = env.mod('fixif.SIF.SIF').isTrivial(x, eps)
    t = bool(t)
    if bool(env.iszero(x)):
        env.check('zero is trivial', t)
        return
    y, n = band(env, x, eps)
    env.check('close to a power of two', env.neg(n) if t else env.neg(y))


def exactly(env, eps):
    """powers of two"""
    RANGE[0] = 60
    k = env.choice('k', list(range(-60, 61)) + [-1074, -1022, -1023, 1023, 1000, -500])
    s = env.choice('s', [1.0, -1.0])
    x = s * 2.0 ** k
    f = env.mod('fixif.SIF.SIF').isTrivial
    env.check('a power of two is trivial', bool(f(x, eps)))
    if -1000 < k < 1023:
        env.check('1.5 times a power of two is not', not f(1.5 * x, eps))
        # at 0.8 epsilon, and at 1.3 epsilon
        for r in (0.8, -0.8):
            env.check('within the tolerance', bool(f(x * (1 + r * eps), eps)), lambda: '%r' % (x * (1 + r * eps)))
            env.check('outside of the tolerance', not f(x * (1 + 1.6 * r * eps), eps), lambda: '%r' % (x * (1 + 1.6 * r * eps)))


FILL = [0.5, -0.25, 0.3, 1.0, 0.0, -1.0, 0.75, 4.0, -0.6]


def build(env, l, n, p, q, pos, rng):
    """a realization with symbolic coefficients at the positions pos of Z"""
    RANGE[0] = rng
    D = sifs.dims(l, n, p, q)
    k, sy = 0, {}
    g = {X: [[0.0] * c for _ in range(r)] for X, (r, c) in D.items()}
    off = {'J': (0, 0), 'M': (0, l), 'N': (0, l + n), 'K': (l, 0), 'P': (l, l), 'Q': (l, l + n), 'L': (l + n, 0), 'R': (l + n, l), 'S': (l + n, l + n)}
    full = [[None] * (l + n + q) for _ in range(l + n + p)]
    for X in sifs.NAMES:
        r, c = D[X]
        for i in range(r):
            for j in range(c):
                I, Jc = off[X][0] + i, off[X][1] + j
                k += 1
                v = FILL[k % 9]
                if X == 'J' and j >= i:
                    v = float(i == j)
                elif (I, Jc) in pos:
                    v = coef(env, 'z%d_%d' % (I, Jc), rng)
                g[X][i][j] = v
                full[I][Jc] = -v if X == 'J' else v
    return g, full


def weights(env, R_, full):
    """the weight of every coefficient"""
    dZ = env.grid(R_.dZ)
    Z = env.grid(R_.Z)
    eps = env.mod('fixif.SIF').SIF.epsilondZ
    env.check('size of the weights', env.shape(R_.dZ) == env.shape(R_.Z) == (len(full), len(full[0])))
    count = 0
    kinds = []
    for rw, rz, rf in zip(dZ, Z, full):
        for w, z, x in zip(rw, rz, rf):
            env.eq('the coefficient', env.ex(z), env.ex(x))
            w = env.ex(w)
            one = bool(env.iszero(w - 1))
            env.check('a weight is 0 or 1', one or bool(env.iszero(w)))
            count += one
            kinds.append(one)
            if bool(env.iszero(x)):
                env.check('weight of zero', not one)
                continue
            y, no = band(env, x, eps)
            env.check('weight of the coefficient', env.neg(y) if one else env.neg(no), lambda: '%s: %s' % (x, w))
    return count, kinds


def counts(env, R_, full, count, l):
    if any(all(bool(env.iszero(x)) for x in (r[:i] + r[i + 1:] if i < l else r)) for i, r in enumerate(full)):
        env.assume(False)
    mul, add = R_.nbOp()
    env.eq('number of multiplications', env.ex(mul), count)
    ref = 0
    for i, r in enumerate(full):
        ref += sum(1 for j, x in enumerate(r) if not (i < l and i == j) and not bool(env.iszero(x))) - 1
    env.eq('number of additions', env.ex(add), ref)


def tikz(env, R_, full, kinds):
    code = R_.getTiKZSparseMatrix()
    body = code[code.index('sep=0.5mm]{', code.index('\\matrix[')) + len('sep=0.5mm]{'):]
    rows = [x for x in re.split(r'\\\\\n', body) if '};' not in x.strip()[:3] and x.strip()]
    got = [[(re.findall(r'\\node \[(\w+)\]', c) or [''])[0] for c in r.split('&')] for r in rows if '&' in r or 'node' in r]
    env.check('one cell per coefficient', [len(r) for r in got] == [len(r) for r in full], lambda: code)
    it = iter(kinds)
    for rg, rf in zip(got, full):
        for c, x in zip(rg, rf):
            k = next(it)
            x = env.ex(x)
            ref = 'one' if bool(env.iszero(x - 1)) else 'minusone' if bool(env.iszero(x + 1)) else '' if bool(env.iszero(x)) else 'coef' if k else 'power2'
            env.check('displayed kind', c == ref, lambda: '%s instead of %s' % (c, ref))


def default(env, l, n, p, q, pos, rng):
    g, full = build(env, l, n, p, q, pos, rng)
    R_ = env.mod('fixif.SIF').SIF(sifs.args(env, g, l, n, p, q))
    count, kinds = weights(env, R_, full)
    tikz(env, R_, full, kinds)
    counts(env, R_, full, count, l)


def setters(env, l, n, p, q, which, given, rng):
    """the default weights follow the coefficients; weights that were given are kept"""
    RANGE[0] = rng
    D = sifs.dims(l, n, p, q)
    g, full = build(env, l, n, p, q, (), rng)
    off = {'J': (0, 0), 'M': (0, l), 'N': (0, l + n), 'K': (l, 0), 'P': (l, l), 'Q': (l, l + n), 'L': (l + n, 0), 'R': (l + n, l), 'S': (l + n, l + n)}
    S = env.mod('fixif.SIF').SIF
    d = None
    a = sifs.args(env, g, l, n, p, q)
    if given:
        # null, unit and other weights, one of them being any value
        h = {X: [[(0.0, 1.0, 0.25, 2.5)[(3 * i + 2 * j + ord(X)) % 4] for j in range(c)] for i in range(r)] for X, (r, c) in D.items()}
        w = 'P' if which in 'ZJ' else which
        h[w][-1][-1] = env.real('weight')
        d = sifs.args(env, h, l, n, p, q)
    R_ = S(a, d) if given in (None, 'init') else S(a)
    if given == 'dZ':
        R_.dZ = env.npmat([[h_ for X in row for h_ in h[X][i]] for row in ('JMN', 'KPQ', 'LRS') for i in range(D[row[0]][0])])
    elif given == 'blocks':
        for X in sifs.NAMES:
            setattr(R_, 'd' + X, sifs.arr(env, h[X], *D[X]))
    for X in (sifs.NAMES if which == 'all' else [which]) if which != 'Z' else ():
        r, c = D[X]
        i, j = r - 1, 0
        x = coef(env, 'x' + X, rng) if not (X == 'J' and r < 2) else 1.0
        b = [list(row) for row in g[X]]
        b[i][j] = x
        full[off[X][0] + i][off[X][1] + j] = -x if X == 'J' else x
        setattr(R_, X, sifs.arr(env, b, r, c))
    if which == 'Z':
        x = coef(env, 'x', rng)
        full[-1][-1] = x
        R_.Z = env.npmat(full)
    if given:
        ref = [[h_ for X in row for h_ in h[X][i]] for row in ('JMN', 'KPQ', 'LRS') for i in range(D[row[0]][0])]
        for rg, rr in zip(env.grid(R_.dZ), ref):
            for w, x in zip(rg, rr):
                env.eq('the weights that were given', env.ex(w), env.ex(x))
        env.eq('number of multiplications', env.ex(R_.nbOp()[0]), sum(1 for r in ref for x in r if not bool(env.iszero(env.ex(x)))))
    else:
        weights(env, R_, full)


def cases(tier):
    q_ = tier == 'quick'
    rng = 12 if q_ else 40
    o = {'weights': 'real', 'exact': True, 'exprange': rng + 2}
    out = []
    for nm, eps in (('1e-8', 1e-8), ('2^-20', 2.0**-20), ('1e-3', 1e-3), ('any', None)):
        out.append(Case('trivial-' + nm, trivial, dict(o, logpoints=points(eps or 0)), eps=eps, rng=rng))
        if eps:
            out.append(Case('exactly-' + nm, exactly, {}, eps=eps))
    o['logpoints'] = points(1e-8)
    for l, n, p, q in [(0, 1, 1, 1), (1, 1, 1, 1), (2, 1, 1, 2), (0, 2, 2, 1)] + ([] if q_ else [(1, 2, 2, 1), (2, 2, 1, 1), (3, 1, 2, 2), (1, 3, 1, 2)]):
        s = '%d%d%d%d' % (l, n, p, q)
        P = [(i, j) for i in range(l + n + p) for j in range(l + n + q) if not (i < l and j >= i and j < l)]
        for i, j in P:
            out.append(Case('default-%s-%d%d' % (s, i, j), default, o, l=l, n=n, p=p, q=q, pos=((i, j),), rng=rng))
        if not q_:
            for a in range(len(P)):
                out.append(Case('default-%s-pair%d' % (s, a), default, o, l=l, n=n, p=p, q=q, pos=(P[a], P[a - 1]), rng=rng))
    for k, (l, n, p, q) in enumerate([(3, 2, 2, 2), (4, 5, 1, 3), (0, 6, 3, 1)]):
        s = '%d%d%d%d' % (l, n, p, q)
        P = [(i, j) for i in range(l + n + p) for j in range(l + n + q) if not (i < l and j >= i and j < l)]
        for i, j in P[k::29 if q_ else 3]:
            out.append(Case('large-default-%s-%d_%d' % (s, i, j), default, o, l=l, n=n, p=p, q=q, pos=((i, j),), rng=rng))
    for l, n, p, q in [(2, 2, 1, 1)] + ([] if q_ else [(2, 1, 2, 2)]):
        s = '%d%d%d%d' % (l, n, p, q)
        for X in sifs.NAMES + 'Z':
            out.append(Case('set-%s-%s' % (X, s), setters, o, l=l, n=n, p=p, q=q, which=X, given=None, rng=rng))
            for given in ('init', 'dZ', 'blocks'):
                out.append(Case('set-%s-%s-%s' % (X, given, s), setters, o, l=l, n=n, p=p, q=q, which=X, given=given, rng=rng))
    return out
