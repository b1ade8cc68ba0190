"""C07: double-precision state-space arithmetic"""
from symfx.harness import Case
from props import lti

BOUNDS = ('orders 1..2 (quick) / 1..3 (thorough), 1..3 inputs and outputs, all pairs of sizes; impulse responses compared on '
          '2(n1+n2) samples, which decides equality of responses of these orders; every slice/index selection of the bounded sizes; matrices of integer type for one operand or both')
ASSUMPTIONS = ['double arithmetic modelled over the reals']


def addsub(env, op, n1, n2, p, q, ints=''):
    S1, M1 = lti.dss(env, n1, p, q, 'a', 'a' in ints)
    S2, M2 = lti.dss(env, n2, p, q, 'b', 'b' in ints)
    H = S1 + S2 if op == '+' else S1 - S2
    K = 2 * (n1 + n2)
    r1, r2 = lti.markov(*M1, K), lti.markov(*M2, K)
    ref = [env.madd(x, y) if op == '+' else env.msub(x, y) for x, y in zip(r1, r2)]
    env.check('size', tuple(H.size)[1:] == (p, q))
    lti.eqresp(env, 'response of H1 %s H2' % op, lti.response(env, H, K), ref)
    lti.same_system(env, 'left operand unchanged', S1, M1)
    lti.same_system(env, 'right operand unchanged', S2, M2)
    # the operands are independent of the result
    H.A[0, 0] = H.A[0, 0] + 1
    H.D[0, 0] = H.D[0, 0] + 1
    lti.same_system(env, 'left operand independent of the result', S1, M1)
    lti.same_system(env, 'right operand independent of the result', S2, M2)


def cascade(env, s1, s2, ints=''):
    S1, M1 = lti.dss(env, *s1, 'a', 'a' in ints)
    S2, M2 = lti.dss(env, *s2, 'b', 'b' in ints)
    if s1[2] != s2[1]:
        env.raises('inner sizes differ: rejected', Exception, lambda: S1 * S2)
        return
    H = S1 * S2
    K = 2 * (s1[0] + s2[0])
    r1, r2 = lti.markov(*M1, K), lti.markov(*M2, K)
    ref = []
    for k in range(K + 1):
        t = env.mzero(s1[1], s2[2])
        for i in range(k + 1):
            t = env.madd(t, env.mmul(r1[i], r2[k - i]))
        ref.append(t)
    env.check('size', (H.p, H.q) == (s1[1], s2[2]))
    lti.eqresp(env, 'response of the cascade', lti.response(env, H, K), ref)
    lti.same_system(env, 'left operand unchanged', S1, M1)
    lti.same_system(env, 'right operand unchanged', S2, M2)


def _sel(k, n):
    """the rows an index or slice selects"""
    return list(range(n))[k] if isinstance(k, slice) else [list(range(n))[k]]


def getitem(env, n, p, q, rows, cols):
    S, M = lti.dss(env, n, p, q)
    H = S[rows, cols]
    R, Cc = _sel(rows, p), _sel(cols, q)
    K = 2 * n
    ref = [[[x[i][j] for j in Cc] for i in R] for x in lti.markov(*M, K)]
    lti.eqresp(env, 'response of the selection', lti.response(env, H, K), ref)
    env.check('size', (H.p, H.q) == (len(R), len(Cc)))
    lti.same_system(env, 'operand unchanged', S, M)


def reject(env, shapes, ok):
    mats = [env.npmat(env.reals(c, r, k)) if r and k else env.np.matrix(env.np.zeros((r, k))) for c, (r, k) in zip('ABCD', shapes)]
    dSS = env.mod('fixif.LTI').dSS
    if ok:
        S = dSS(*mats)
        env.check('sizes', tuple(S.size) == (shapes[0][0], shapes[2][0], shapes[1][1]))
        env.check('n p q', (S.n, S.p, S.q) == (shapes[0][0], shapes[2][0], shapes[1][1]))
        lti.same_system(env, 'matrices kept', S, [env.exm(m) for m in mats])
    else:
        env.raises('inconsistent sizes rejected', Exception, lambda: dSS(*mats))


def addreject(env, s1, s2):
    S1, M1 = lti.dss(env, *s1, 'a')
    S2, M2 = lti.dss(env, *s2, 'b')
    env.raises('sum of systems of different sizes', Exception, lambda: S1 + S2)
    env.raises('difference of systems of different sizes', Exception, lambda: S1 - S2)
    lti.same_system(env, 'left operand unchanged', S1, M1)


def cases(tier):
    q = tier == 'quick'
    out = []
    N = 2 if q else 3
    for op in '+-':
        for n1 in range(1, N + 1):
            for n2 in range(1, N + 1):
                for p, m in ((1, 1), (1, 2), (2, 1), (2, 3)) if (q or n1 + n2 > 4) else ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (2, 3), (3, 3)):
                    out.append(Case('add%s-%d-%d-%dx%d' % (op, n1, n2, p, m), addsub, dict(witnesses=2, cost=n1 + n2), op=op, n1=n1, n2=n2, p=p, q=m))
    for ints in ('a', 'b', 'ab'):
        # operands whose matrices have an integer type
        for op in '+-':
            for n1, n2, p, m in ((1, 2, 1, 1), (2, 1, 2, 3)):
                out.append(Case('int-%s-add%s-%d-%d-%dx%d' % (ints, op, n1, n2, p, m), addsub, dict(witnesses=2), op=op, n1=n1, n2=n2, p=p, q=m, ints=ints))
        for s1, s2 in (((1, 1, 1), (2, 1, 1)), ((2, 2, 1), (1, 1, 3)), ((1, 1, 2), (2, 2, 1))):
            out.append(Case('int-%s-mul-%s-%s' % (ints, s1, s2), cascade, dict(witnesses=1), s1=s1, s2=s2, ints=ints))
    R = (1, 2, 3)
    for n1, n2 in ((1, 1), (1, 2), (2, 1)) + (() if q else ((2, 2), (3, 1), (1, 3))):
        for p1 in R:
            for q1 in R:
                for p2 in R:
                    for q2 in R:
                        if q1 != p2 and (n1, n2) != (1, 2):
                            continue
                        if q and (n1, n2) != (1, 2) and max(p1, q1, q2) > 2:
                            continue
                        out.append(Case('mul-%d_%dx%d-%d_%dx%d' % (n1, p1, q1, n2, p2, q2), cascade, dict(witnesses=1, cost=n1 + n2), s1=(n1, p1, q1), s2=(n2, p2, q2)))
    for k, (n1, n2, p, m) in enumerate(((5, 4, 1, 1), (4, 6, 3, 2), (7, 1, 2, 4), (1, 8, 1, 3), (5, 5, 4, 4))):
        for op in '+-*':
            o = dict(witnesses=1, cost=5, sparse=(19, 60, k))
            if op == '*':
                out.append(Case('large-mul-%d-%d-%dx%d' % (n1, n2, p, m), cascade, o, s1=(n1, p, m), s2=(n2, m, p + 1)))
            else:
                out.append(Case('large-add%s-%d-%d-%dx%d' % (op, n1, n2, p, m), addsub, o, op=op, n1=n1, n2=n2, p=p, q=m))
    for k, (n, p, m) in enumerate(((5, 5, 4), (3, 4, 6))):
        for a in (slice(1, 4, 2), slice(None, None, -1), slice(-3, None), -3, 3):
            for b in (slice(0, 4, 3), slice(None, None, -2), slice(-3, -1), -2, 2):
                out.append(Case('large-get-%d_%dx%d-%s-%s' % (n, p, m, _n(a), _n(b)), getitem, dict(witnesses=1, sparse=(5, 30, k)), n=n, p=p, q=m, rows=a, cols=b))
    sl = [0, -1, slice(None), slice(0, 1), slice(1, None), slice(None, None, 2)]
    for n, p, m in ((1, 2, 2), (2, 2, 3)) if q else ((1, 2, 2), (2, 2, 3), (3, 3, 2), (2, 3, 3)):
        for a in sl + [1]:
            for b in sl + [1]:
                out.append(Case('get-%d_%dx%d-%s-%s' % (n, p, m, _n(a), _n(b)), getitem, dict(witnesses=1), n=n, p=p, q=m, rows=a, cols=b))
    good = ((2, 2), (2, 3), (1, 2), (1, 3))
    out.append(Case('ctor-ok', reject, shapes=good, ok=True))
    out.append(Case('ctor-ok1', reject, shapes=((1, 1), (1, 1), (1, 1), (1, 1)), ok=True))
    for i in range(4):
        for d in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)):
            s = list(good)
            s[i] = (s[i][0] + d[0], s[i][1] + d[1])
            if min(s[i]) == 0:
                continue
            ok = s[0][0] == s[0][1] == s[1][0] == s[2][1] and s[3] == (s[2][0], s[1][1])
            out.append(Case('ctor-%d%+d%+d' % (i, d[0], d[1]), reject, shapes=tuple(s), ok=ok))
    for s1, s2 in (((1, 1, 1), (1, 2, 2)), ((2, 1, 2), (1, 2, 1)), ((1, 2, 3), (2, 2, 2)), ((1, 2, 2), (1, 3, 2)), ((1, 1, 2), (1, 1, 3)), ((2, 1, 1), (2, 1, 2)), ((2, 1, 1), (2, 2, 1)), ((1, 2, 2), (1, 1, 1))):
        out.append(Case('addsize-%s-%s' % (s1, s2), addreject, s1=s1, s2=s2))
    return out


def _n(k):
    return str(k) if not isinstance(k, slice) else '%s:%s:%s' % (k.start, k.stop, k.step)
