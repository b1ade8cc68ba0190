"""C15: state space of an implicit-form realization"""
from fractions import Fraction
from symfx.harness import Case
from props import lti, sifs

BOUNDS = ('l = 0..3 intermediate variables, n = 0..2 states, 1..2 inputs and outputs (quick) / l, n up to 4 and 3 (thorough); J unit lower-triangular, '
          'or any invertible matrix up to 2x2 (3x3 thorough); every other coefficient symbolic; also l and n up to 6 (thorough: 8) with sparse matrices, a part of the coefficients being constants; working precisions 10 and 53 for the exact conversion')
ASSUMPTIONS = ['double arithmetic modelled over the reals, numpy.linalg.inv returns the inverse',
               'in the exact conversion every rounding mpmath operation is value*(1+d), |d| <= 2^-prec']


def build(env, l, n, p, q, kind, how, **lim):
    g = sifs.blocks(env, l, n, p, q, kind, **lim)
    sifs.invertible(env, g)
    a = sifs.args(env, g, l, n, p, q)
    if how == 'list':
        a = list(a)
    elif how == 'arr':
        a = tuple(env.np.array(x) for x in a)
    R = env.mod('fixif.SIF').SIF(a)
    return R, g, sifs.exact(env, g)


def system(env, l, n, p, q, kind, how):
    R, g, e = build(env, l, n, p, q, kind, how)
    env.check('sizes', (R.l, R.n, R.p, R.q) == (l, n, p, q) and tuple(R.size) == (l, n, p, q))
    d, M = sifs.sysmat(env, e)
    for name, got, ref in zip(('AZ', 'BZ', 'CZ', 'DZ'), (R.AZ, R.BZ, R.CZ, R.DZ), M):
        gg = env.grid(got)
        env.check(name + ': size', tuple(env.shape(got)) == (len(ref), len(ref[0]) if ref else env.shape(got)[1]))
        env.eqs(name, [(d * x, y) for a, b in zip(gg, ref) for x, y in zip(a, b)])
    for name, got, ref in zip('ABCD', (R.dSS.A, R.dSS.B, R.dSS.C, R.dSS.D), (R.AZ, R.BZ, R.CZ, R.DZ)):
        env.eqm('dSS.' + name, got, ref)
    D = sifs.dims(l, n, p, q)
    for X in sifs.NAMES:
        if D[X][0] and D[X][1]:
            env.eqm('block ' + X, getattr(R, X), e[X])
    # Z = [[-J, M, N], [K, P, Q], [L, R, S]]
    Z = [[-x for x in e['J'][i]] + e['M'][i] + e['N'][i] for i in range(l)]
    Z += [e['K'][i] + e['P'][i] + e['Q'][i] for i in range(n)] + [e['L'][i] + e['R'][i] + e['S'][i] for i in range(p)]
    env.eqm('Z', R.Z, Z)
    C = [[(x + (1 if i == j else 0)) if (i < l and j < l) else x for j, x in enumerate(r)] for i, r in enumerate(Z)]
    env.eqm('Zcomp', R.Zcomp, C)
    env.eqm('Z', R.Z, Z)


def exactly(env, l, n, p, q, kind='unit'):
    R, g, e = build(env, l, n, p, q, kind, 'mat', lo=-64, hi=64)
    S = R.to_dSSexact()
    d, M = sifs.sysmat(env, e)
    for name, got, ref in zip(('AZ', 'BZ', 'CZ', 'DZ'), (S.A, S.B, S.C, S.D), M):
        env.eqm('exact ' + name, got, ref)
    for X in sifs.NAMES:
        if all(sifs.dims(l, n, p, q)[X]):
            env.eqm('block %s unchanged' % X, getattr(R, X), e[X])


def notri(env, l, i, j):
    """J is not unit lower-triangular"""
    g = sifs.blocks(env, l, 1, 1, 1, 'unit')
    v = env.real('v')
    g['J'][i][j] = v
    env.assume(env.neg(env.iszero(env.ex(v) - (1 if i == j else 0))))
    sifs.invertible(env, g)
    R = env.mod('fixif.SIF').SIF(sifs.args(env, g, l, 1, 1, 1))
    env.raises('exact conversion: J is not unit lower-triangular', Exception, R.to_dSSexact)


def reject(env, l, n, p, q):
    D = sifs.dims(l, n, p, q)
    SIF = env.mod('fixif.SIF').SIF
    for X in sifs.NAMES:
        for dr, dc in ((1, 0), (0, 1), (1, 1), (-1, 0), (0, -1), (-1, -1), (1, -1)):
            r, c = D[X][0] + dr, D[X][1] + dc
            if r < 1 or c < 1:
                continue
            a = []
            for Y in sifs.NAMES:
                rr, cc = (r, c) if Y == X else D[Y]
                a.append(sifs.arr(env, env.reals('%s%d%d%s' % (X, dr + 1, dc + 1, Y), rr, cc), rr, cc))
            # another choice of sizes may be consistent
            if not consistent([env.shape(x) for x in a]):
                env.raises('%s of inconsistent size' % X, ValueError, SIF, tuple(a))


def consistent(s):
    l, n, p, q = s[0][0], s[1][0], s[2][0], s[4][1]
    return list(map(tuple, s)) == [sifs.dims(l, n, p, q)[X] for X in sifs.NAMES]


def cases(tier):
    q_ = tier == 'quick'
    out = []
    L, N = (3, 2) if q_ else (4, 3)
    for l in range(0, L + 1):
        for n in range(0, N + 1):
            for p, q in ((1, 1), (1, 2), (2, 1), (2, 2)) if l < 3 or not q_ else ((1, 1), (2, 1)):
                for kind in ('unit', 'gen'):
                    if kind == 'gen' and (l == 0 or l > (2 if q_ else 3) or (l == 3 and n + p + q > 4)):
                        continue
                    for how in ('mat', 'arr', 'list'):
                        if how != 'mat' and (l, n, p, q) not in ((1, 2, 1, 1), (2, 1, 2, 1)):
                            continue
                        out.append(Case('system-%d%d%d%d-%s-%s' % (l, n, p, q, kind, how), system, dict(witnesses=1, cost=l + n), l=l, n=n, p=p, q=q, kind=kind, how=how))
                if n and l < 4:
                    for prec in (10, 53):
                        if prec == 53 and (p, q) != (1, 1):
                            continue
                        out.append(Case('exact-%d%d%d%d-p%d' % (l, n, p, q, prec), exactly, dict(rounding='delta', exact=True, prec=prec, witnesses=1, candidates=4, cost=l + n),
                                        l=l, n=n, p=p, q=q))
    for k, (l, n, p, q) in enumerate([(4, 2, 1, 1), (5, 1, 2, 2), (4, 4, 1, 2), (6, 3, 1, 1), (2, 6, 1, 1), (0, 6, 2, 1)] + ([] if q_ else [(7, 2, 2, 1), (5, 5, 2, 2), (8, 1, 1, 1)])):
        for kind in ('sp%d' % k, 'sp%d' % (k + 20), 'chain'):
            nm = '%d%d%d%d-%s' % (l, n, p, q, kind)
            out.append(Case('system-' + nm, system, dict(witnesses=1, cost=5), l=l, n=n, p=p, q=q, kind=kind, how='mat'))
            out.append(Case('exact-' + nm, exactly, dict(rounding='delta', exact=True, prec=10, witnesses=1, candidates=4, cost=5), l=l, n=n, p=p, q=q, kind=kind))
    for l in (1, 2, 3):
        for i in range(l):
            for j in range(i, l):
                out.append(Case('notri-%d-%d%d' % (l, i, j), notri, l=l, i=i, j=j))
    for s in ((1, 1, 1, 1), (1, 2, 1, 2), (2, 1, 2, 1), (2, 3, 1, 2)) + (() if q_ else ((3, 2, 4, 1), (2, 2, 2, 2))):
        out.append(Case('reject-%d%d%d%d' % s, reject, l=s[0], n=s[1], p=s[2], q=s[3]))
    return out
