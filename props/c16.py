"""C16: consistency of a realization after assignments"""
from fractions import Fraction
from itertools import product
from symfx.harness import Case
from props import lti, sifs

BOUNDS = ('sizes (l,n,p,q) up to (2,2,2,2) (weights: (2,1,2,3)), and up to 6 intermediate variables or states with sparse matrices (a part of the coefficients being constants); every sequence of up to 2 (quick) / 3 (thorough) assignments of J..S, Z (numpy matrix or array), dJ..dS, dZ, '
          'with any of the derived systems (roundoff, internal signals, gramians) queried before, between and after; all coefficients symbolic')
ASSUMPTIONS = ['double arithmetic modelled over the reals, numpy.linalg.inv returns the inverse',
               'the default weights of symbolic coefficients are taken as 1 (decided by C32)']

DERIVED = ('Hepsilon', 'Hu', 'Hzeta', 'dSS')


def snapshot(env, R, what):
    """everything observable of a realization as exact matrices"""
    out = {}
    for X in sifs.NAMES + 'Z':
        out[X] = getattr(R, X)
    for X in ('AZ', 'BZ', 'CZ', 'DZ', 'Zcomp', 'invJ'):
        out[X] = getattr(R, X)
    for d in what:
        S = getattr(R, d)
        for X in 'ABCD':
            out[d + '.' + X] = getattr(S, X)
    S = R.computeDeltaSIF()
    for X in sifs.NAMES:
        out['delta.' + X] = getattr(S, X)
    return out


def compare(env, R, cur, size, what):
    """R reports what a fresh realization of the current blocks reports"""
    SIF = env.mod('fixif.SIF').SIF
    l, n, p, q = size
    D = sifs.dims(*size)
    for X in sifs.NAMES:
        if all(D[X]):
            env.eqm('block %s reads back' % X, getattr(R, X), [[env.ex(x) for x in r] for r in cur[X]])
    F = SIF(sifs.args(env, cur, *size))
    a, b = snapshot(env, R, what), snapshot(env, F, what)
    for k in a:
        sa, sb = env.shape(a[k]), env.shape(b[k])
        if env.check('%s: size' % k, tuple(sa) == tuple(sb)) and sa[0] and sa[1]:
            env.eqs('%s is that of the current matrices' % k, [(x, y) for r, s in zip(env.grid(a[k]), env.grid(b[k])) for x, y in zip(r, s)])


def assign(env, R, cur, X, k, size, how, kind='unit'):
    """assigns new symbolic values to block X (or to Z as a whole)"""
    l, n, p, q = size
    D = sifs.dims(*size)
    if X == 'Z':
        new = sifs.blocks(env, l, n, p, q, kind, pre='z%d' % k)
        cur.update(new)
        e = sifs.exact(env, new)
        Z = [[-x for x in new['J'][i]] + new['M'][i] + new['N'][i] for i in range(l)]
        Z += [new['K'][i] + new['P'][i] + new['Q'][i] for i in range(n)] + [new['L'][i] + new['R'][i] + new['S'][i] for i in range(p)]
        M = env.npmat(Z) if how == 'mat' else env.np.array(Z)
        R.Z = M
        return ('Z', M, Z)
    r, c = D[X]
    new = sifs.block(env, X, r, c, kind, pre='a%d' % k)
    cur[X] = new
    M = sifs.arr(env, new, r, c)
    if how == 'arr':
        M = env.np.array(M)
    setattr(R, X, M)
    return (X, M, new)


def assignments(env, size, seq, before, between, how, init, kind='unit'):
    SIF = env.mod('fixif.SIF').SIF
    cur = sifs.blocks(env, *size, kind) if init == 'sym' else ints(size)
    R = SIF(sifs.args(env, cur, *size)) if init == 'sym' else SIF(tuple(intmat(env, cur[X], *sifs.dims(*size)[X]) for X in sifs.NAMES))
    if before:
        snapshot(env, R, before)
    given = []
    for k, X in enumerate(seq):
        given.append(assign(env, R, cur, X, k, size, how, kind))
        if between and k < len(seq) - 1:
            compare(env, R, cur, size, between)
    compare(env, R, cur, size, DERIVED)
    for X, M, new in given:
        env.eqm('matrix assigned to %s unchanged' % X, M, [[env.ex(x) for x in r] for r in new])


def ints(size):
    return {X: [[(i + 2 * j + k) % 3 - 1 if X != 'J' else int(i == j) for j in range(c)] for i in range(r)] for k, (X, (r, c)) in enumerate(sifs.dims(*size).items())}


def intmat(env, g, r, c):
    return env.np.matrix(g) if r and c else env.np.matrix(env.np.zeros((r, c)))


def gramians(env, size, X):
    """the state space asked after an assignment does not carry old derived data"""
    SIF = env.mod('fixif.SIF').SIF
    cur = sifs.blocks(env, *size, 'unit')
    R = SIF(sifs.args(env, cur, *size))
    old = R.dSS
    oldm = [env.exm(x) for x in (old.A, old.B, old.C, old.D)]
    assign(env, R, cur, X, 0, size, 'mat')
    lti.same_system(env, 'state space obtained before the assignment unchanged', old, oldm)
    compare(env, R, cur, size, DERIVED)


def weights(env, size, given, seq, how):
    """dJ..dS: given at construction, assigned, read back"""
    SIF = env.mod('fixif.SIF').SIF
    g = sifs.blocks(env, *size, 'unit')
    D = sifs.dims(*size)
    l, n, p, q = size
    if given:
        w = {X: env.reals('w' + X, *D[X]) for X in sifs.NAMES}
        R = SIF(sifs.args(env, g, *size), tuple(sifs.arr(env, w[X], *D[X]) for X in sifs.NAMES))
    else:
        R = SIF(sifs.args(env, g, *size))
        w = {X: [[x for x in r] for r in env.grid(getattr(R, 'd' + X))] for X in sifs.NAMES}

    def full():
        z = [w['J'][i] + w['M'][i] + w['N'][i] for i in range(l)]
        return z + [w['K'][i] + w['P'][i] + w['Q'][i] for i in range(n)] + [w['L'][i] + w['R'][i] + w['S'][i] for i in range(p)]

    def verify(lab):
        for X in sifs.NAMES:
            if all(D[X]):
                env.eqm('%s d%s' % (lab, X), getattr(R, 'd' + X), [[env.ex(x) for x in r] for r in w[X]])
        env.eqm('%s dZ' % lab, R.dZ, [[env.ex(x) for x in r] for r in full()])
        for X, M in zip(sifs.NAMES, R.dJtodS):
            if all(D[X]):
                env.eqm('%s dJtodS' % lab, M, [[env.ex(x) for x in r] for r in w[X]])
    verify('given' if given else 'default')
    for k, X in enumerate(seq):
        if X == 'Z':
            w = {Y: env.reals('v%d%s' % (k, Y), *D[Y]) for Y in sifs.NAMES}
            R.dZ = env.npmat(full()) if how == 'mat' else env.np.array(full())
        else:
            w[X] = env.reals('v%d%s' % (k, X), *D[X])
            M = sifs.arr(env, w[X], *D[X])
            setattr(R, 'd' + X, M if how == 'mat' else env.np.array(M))
        verify('assigned')
    # the coefficients are untouched
    for X in sifs.NAMES:
        if all(D[X]):
            env.eqm('block %s' % X, getattr(R, X), [[env.ex(x) for x in r] for r in g[X]])
    # weights that have been given stay when the coefficients change (trivial ones included)
    for X in ('P', 'S') if how == 'mat' else ('R',):
        new = sifs.block(env, X, *D[X], 'unit', pre='n')
        new[0][0] = 0.5
        setattr(R, X, sifs.arr(env, new, *D[X]))
        verify('coefficients assigned')


def aliasing(env, size):
    """later changes of the matrices given by the caller do not show through"""
    SIF = env.mod('fixif.SIF').SIF
    g = sifs.blocks(env, *size, 'unit')
    D = sifs.dims(*size)
    a = sifs.args(env, g, *size)
    R = SIF(a)
    for M in a:
        if M.shape[0] and M.shape[1]:
            M[0, 0] = env.real('other')
    compare(env, R, g, size, DERIVED)
    Z = env.np.matrix(R.Z)
    R.Z = Z
    Z[size[0], 0] = env.real('other2')
    compare(env, R, g, size, DERIVED)


def quantized(env, size, w, before):
    """Realization.quantize: a new realization of the quantized coefficients; the original is unchanged.
    The quantisation itself (fixif.FxP.Constant) is any function: here v -> v + 2^-w v + 2^-w"""
    Real = env.mod('fixif.SIF').Realization
    g = sifs.blocks(env, *size, 'unit', nz=True)
    g['P'][0][0], g['L'][0][0] = env.real('p00'), env.real('l00')
    R = Real(None, sifs.args(env, g, *size))
    if before:
        snapshot(env, R, before)
    C = env.mod('fixif.FxP').Constant
    old = C._approx
    C._approx = staticmethod(lambda v, wl: v + v / 2 ** wl + 1 / 2 ** wl)
    try:
        Q = R.quantize(w)
    finally:
        C._approx = staticmethod(old)

    def qt(x, s=1):
        v = env.ex(x)
        if v == 0:
            return 0.0
        return env.tofloat(v + v / 2 ** w + Fraction(s, 2 ** w))
    cur = {X: [[qt(x) for x in r] for r in g[X]] for X in g}
    cur['J'] = [[qt(x, -1) for x in r] for r in g['J']]
    compare(env, Q, cur, size, DERIVED)
    compare(env, R, g, size, DERIVED)
    for bad in (0, -3, 2.5, None):
        env.raises('word-length %r rejected' % (bad,), ValueError, R.quantize, bad)


def cases(tier):
    q_ = tier == 'quick'
    out = []
    O = lambda c=1: dict(witnesses=1, cost=c)
    small = (1, 1, 1, 1)
    for X in sifs.NAMES + 'Z':
        for size in ((1, 1, 1, 1), (2, 1, 1, 2), (1, 2, 2, 1)) + (() if q_ else ((2, 2, 2, 2),)):
            for before in ((), DERIVED):
                out.append(Case('one-%s-%d%d%d%d-%d' % ((X,) + size + (len(before),)), assignments, O(2), size=size, seq=X, before=before, between=(), how='mat', init='sym'))
        out.append(Case('one-%s-arr' % X, assignments, O(), size=(2, 1, 1, 1), seq=X, before=DERIVED, between=(), how='arr', init='sym'))
        out.append(Case('int-%s' % X, assignments, O(), size=(1, 2, 1, 1), seq=X, before=DERIVED, between=(), how='mat', init='int'))
        out.append(Case('gram-%s' % X, gramians, O(), size=(1, 2, 1, 1), X=X))
        for q in DERIVED[:3]:
            out.append(Case('before-%s-%s' % (X, q), assignments, O(), size=(1, 1, 1, 1), seq=X, before=(q,), between=(), how='mat', init='sym'))
    for X, Y in product(sifs.NAMES + 'Z', repeat=2):
        out.append(Case('two-%s%s' % (X, Y), assignments, O(), size=small if q_ else (2, 1, 1, 1), seq=X + Y, before=(), between=DERIVED, how='mat', init='sym'))
    if not q_:
        for seq in product('JKMPRZ', repeat=3):
            out.append(Case('three-%s' % ''.join(seq), assignments, O(), size=small, seq=''.join(seq), before=DERIVED[:1], between=DERIVED[1:], how='mat', init='sym'))
    for size in ((0, 1, 1, 1), (0, 2, 1, 2)):
        for X in 'PQRSZ':
            out.append(Case('l0-%s-%d' % (X, size[1]), assignments, O(), size=size, seq=X, before=DERIVED, between=(), how='mat', init='sym'))
    for k, (size, seq) in enumerate([((4, 2, 1, 1), 'JK'), ((5, 1, 2, 2), 'MJ'), ((4, 4, 1, 2), 'ZP'), ((6, 2, 1, 1), 'LZ'), ((2, 6, 1, 1), 'RQ'), ((4, 1, 3, 2), 'NS'), ((5, 3, 1, 1), 'JJ')]):
        for kind in ('sp%d' % k, 'chain'):
            out.append(Case('large-%d%d%d%d-%s-%s' % (size + (seq, kind)), assignments, O(3), size=size, seq=seq, before=DERIVED if k % 2 else (), between=DERIVED if k % 3 else (), how='mat', init='sym', kind=kind))
    for given in (0, 1):
        for X in sifs.NAMES + 'Z':
            out.append(Case('weights-%d-%s' % (given, X), weights, O(), size=(2, 1, 1, 1) if X != 'S' else (1, 1, 2, 2), given=given, seq=X, how='mat' if X in 'JZP' else 'arr'))
        for X in sifs.NAMES + 'Z':
            # all the sizes are different
            out.append(Case('weights-%d-%s-1231' % (given, X), weights, O(), size=(1, 2, 3, 1), given=given, seq=X, how='arr' if X in 'JZP' else 'mat'))
            out.append(Case('weights-%d-%s-2132' % (given, X), weights, O(), size=(2, 1, 2, 3), given=given, seq=X, how='mat'))
        for seq in ('JZ', 'ZJ', 'JJ', 'KM', 'ZS'):
            out.append(Case('weights2-%d-%s' % (given, seq), weights, O(), size=(1, 2, 1, 1), given=given, seq=seq, how='mat'))
    for size in ((1, 1, 1, 1), (2, 1, 1, 1)):
        out.append(Case('alias-%d' % size[0], aliasing, O(), size=size))
    for w in (1, 8, 16):
        for before in ((), DERIVED):
            out.append(Case('quantize-%d-%d' % (w, len(before)), quantized, O(), size=(1, 1, 1, 1) if w < 16 else (1, 2, 1, 1), w=w, before=before))
    return out
