"""C08: multiprecision state-space arithmetic"""
from symfx.harness import Case
from props import lti

BOUNDS = ('orders 1..2 (quick) / 1..3 (thorough), 1..3 inputs/outputs, working precisions 10 and 53 (thorough: 2, 10, 53, 200), '
          'second operand multiprecision, double or of integer type, 2(n1+n2) impulse response samples')
ASSUMPTIONS = ['every rounded multiprecision operation is modelled as value*(1+d), |d| <= 2^-prec, d arbitrary; exact=True operations as exact']


def addsub(env, op, n1, n2, p, q, kind, alias=False):
    S1, M1 = lti.dssmp(env, n1, p, q, 'a')
    S2, M2 = (S1, M1) if alias else lti.dss(env, n2, p, q, 'b', True) if kind == 'int' else (lti.dssmp if kind == 'mp' else lti.dss)(env, n2, p, q, 'b')
    H = S1 + S2 if op == '+' else S1 - S2
    K = 2 * (n1 + n2) if n1 + n2 < 4 else n1 + n2
    r1, r2 = lti.markov(*M1, K), lti.markov(*M2, K)
    ref = [env.madd(x, y) if op == '+' else env.msub(x, y) for x, y in zip(r1, r2)]
    env.check('size', (H.n, H.p, H.q) == (n1 + n2, p, q))
    lti.eqresp(env, 'response of H1 %s H2' % op, lti.response(env, H, K), ref)
    lti.same_system(env, 'left operand unchanged', S1, M1)
    lti.same_system(env, 'right operand unchanged', S2, M2)


def twice(env, p, q):
    """an operation repeated gives the same result (no state is kept in the operands)"""
    S1, M1 = lti.dssmp(env, 1, p, q, 'a')
    S2, M2 = lti.dssmp(env, 1, p, q, 'b')
    H = (S1 - S2) + S2
    G = (S1 - S2) + S2
    r = lti.markov(*M1, 6)
    lti.eqresp(env, '(H1-H2)+H2', lti.response(env, H, 6), r)
    lti.eqresp(env, '(H1-H2)+H2 again', lti.response(env, G, 6), r)


def conv(env, n, p, q, ints=False):
    S, M = lti.dss(env, n, p, q, ints=ints)
    T = S.to_dSSmp()
    env.check('sizes', (T.n, T.p, T.q) == (n, p, q))
    for c, X, Y in zip('ABCD', (T.A, T.B, T.C, T.D), M):
        env.eqm('to_dSSmp: ' + c, X, Y)
    U = T.to_dSS()
    env.check('sizes back', (U.n, U.p, U.q) == (n, p, q))
    for c, X, Y in zip('ABCD', (U.A, U.B, U.C, U.D), M):
        env.eqm('to_dSS: ' + c, X, Y)
    T2 = env.mod('fixif.LTI').dSSmp(S.A, T.B, S.C, T.D)
    for c, X, Y in zip('ABCD', (T2.A, T2.B, T2.C, T2.D), M):
        env.eqm('mixed constructor: ' + c, X, Y)
    lti.same_system(env, 'source unchanged', S, M)


def reject(env, shapes, ok, kind):
    if kind == 'mp':
        mats = [env.mpmat(env.mpfs(c, r, k)) for c, (r, k) in zip('ABCD', shapes)]
    else:
        mats = [env.npmat(env.reals(c, r, k)) for c, (r, k) in zip('ABCD', shapes)]
    dSSmp = env.mod('fixif.LTI').dSSmp
    if ok:
        S = dSSmp(*mats)
        env.check('n p q', (S.n, S.p, S.q) == (shapes[0][0], shapes[2][0], shapes[1][1]))
        lti.same_system(env, 'matrices kept', S, [env.exm(m) for m in mats])
    else:
        env.raises('inconsistent sizes rejected', Exception, lambda: dSSmp(*mats))


def foreign(env):
    S, M = lti.dssmp(env, 1, 1, 1)
    for name, v in (('scalar', env.mpf('v')), ('None', None), ('list', [1]), ('matrix', env.mpmat([[env.mpf('w')]]))):
        env.raises('sum with a %s' % name, Exception, lambda: S + v)
        env.raises('difference with a %s' % name, Exception, lambda: S - v)
        if name != 'matrix':
            env.raises('A given as a %s' % name, Exception, lambda: env.mod('fixif.LTI').dSSmp(v, S.B, S.C, S.D))


def sizes(env, s1, s2, kind):
    S1, _ = lti.dssmp(env, *s1, 'a')
    S2, _ = (lti.dssmp if kind == 'mp' else lti.dss)(env, *s2, 'b')
    env.raises('sum', Exception, lambda: S1 + S2)
    env.raises('difference', Exception, lambda: S1 - S2)


def cases(tier):
    q = tier == 'quick'
    out = []
    N = 2 if q else 3
    for prec in (10, 53) if q else (2, 10, 53, 200):
        o = dict(rounding='delta', exact=True, prec=prec, witnesses=1, candidates=3)
        for op in '+-':
            for kind in ('mp', 'np'):
                for n1 in range(1, N + 1):
                    for n2 in range(1, N + 1):
                        for p, m in ((1, 1), (1, 2), (2, 1)) + (() if n1 + n2 > 3 else ((2, 3), (2, 2))):
                            out.append(Case('add%s-%d-%d-%dx%d-%s-p%d' % (op, n1, n2, p, m, kind, prec), addsub, dict(o, cost=n1 + n2),
                                            op=op, n1=n1, n2=n2, p=p, q=m, kind=kind))
            out.append(Case('add%s-alias-p%d' % (op, prec), addsub, o, op=op, n1=2, n2=2, p=1, q=1, kind='mp', alias=True))
        out.append(Case('twice-p%d' % prec, twice, o, p=1, q=2))
        for n, p, m in ((1, 1, 1), (2, 1, 3), (3, 2, 1), (1, 3, 2)):
            out.append(Case('convert-%d-%dx%d-p%d' % (n, p, m, prec), conv, o, n=n, p=p, q=m))
    for k, (n1, n2, p, m) in enumerate(((5, 4, 1, 1), (4, 6, 3, 2), (7, 1, 2, 4), (1, 8, 1, 3))):
        for op in '+-':
            for kind in ('mp', 'np'):
                out.append(Case('large-add%s-%d-%d-%dx%d-%s' % (op, n1, n2, p, m, kind), addsub, dict(rounding='delta', exact=True, prec=53, witnesses=1, candidates=3, sparse=(9, 60, k)),
                                op=op, n1=n1, n2=n2, p=p, q=m, kind=kind))
        out.append(Case('large-convert-%d-%dx%d' % (n2, p, m), conv, dict(rounding='delta', exact=True, prec=53, witnesses=1, candidates=3, sparse=(4, 40, k)), n=n2, p=p, q=m))
    o = dict(rounding='delta', exact=True, witnesses=1)
    for n1, n2, p, m in ((1, 1, 1, 1), (1, 2, 2, 1)):
        for op in '+-':
            out.append(Case('int-add%s-%d-%d-%dx%d' % (op, n1, n2, p, m), addsub, o, op=op, n1=n1, n2=n2, p=p, q=m, kind='int'))
        out.append(Case('int-convert-%d-%dx%d' % (n2, p, m), conv, o, n=n2, p=p, q=m, ints=True))
    good = ((2, 2), (2, 3), (1, 2), (1, 3))
    for kind in ('mp', 'np'):
        out.append(Case('ctor-ok-' + kind, reject, o, shapes=good, ok=True, kind=kind))
        for i in range(4):
            for d in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)):
                s = list(good)
                s[i] = (s[i][0] + d[0], s[i][1] + d[1])
                if min(s[i]) == 0:
                    continue
                out.append(Case('ctor-%d%+d%+d-%s' % (i, d[0], d[1], kind), reject, o, shapes=tuple(s), ok=False, kind=kind))
        for s1, s2 in (((1, 1, 1), (1, 2, 2)), ((2, 1, 2), (1, 2, 1)), ((1, 2, 3), (2, 2, 2)), ((1, 2, 2), (1, 3, 2)), ((1, 1, 1), (1, 1, 2)), ((1, 2, 1), (1, 1, 1))):
            out.append(Case('sizes-%s-%s-%s' % (s1, s2, kind), sizes, o, s1=s1, s2=s2, kind=kind))
    out.append(Case('foreign', foreign, o))
    return out
