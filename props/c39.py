"""C39: operators of multiprecision matrices, and comparisons"""
from fractions import Fraction
from symfx.harness import Case
from props import lti, structs
from props.c01 import operands

F = Fraction
BOUNDS = ('matrices up to 3 x 3 (quick) / 4 x 4 (thorough), every pair of shapes up to 3 x 3 that does not match; any entries; operands of every kind (MPFMatrix, mpmath, numpy); '
          'systems of orders 1, 2 with given A and B, any C and D; transfer functions of 1..3 coefficients (any lengths)')
ASSUMPTIONS = ['operators: every rounded multiprecision operation is exact (they round at the working precision)',
               'comparisons: double arithmetic modelled over the reals']


def kinds(env, kind, name, m, n):
    if kind == 'MPF':
        return env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(operands(env, 'mp', name, m, n))
    return operands(env, kind, name, m, n)


def inner(X):
    return X.matrix if hasattr(X, 'inv_lowtr') else X


def apply(op, X, Y):
    return X + Y if op == 'add' else X - Y if op == 'sub' else X * Y


def operator(env, op, kind, m, n, p):
    A = kinds(env, 'MPF', 'a', m, n)
    B = kinds(env, kind, 'b', *((n, p) if op == 'mul' else (m, n)))
    a, b = env.grid(A.matrix), env.grid(inner(B))
    C = apply(op, A, B)
    env.check('an MPFMatrix', type(C).__name__ == 'MPFMatrix')
    ref = env.mmul(a, b) if op == 'mul' else [[x + y if op == 'add' else x - y for x, y in zip(r, s)] for r, s in zip(a, b)]
    env.eqm(op, C.matrix, ref)
    env.check('size', tuple(C.shape) == (len(ref), len(ref[0])))
    for i in range(len(ref)):
        env.eqs('entries', [(env.ex(C[i, j]), ref[i][j]) for j in range(len(ref[0]))])
    env.eqm('left operand unchanged', A.matrix, a)
    env.eqm('right operand unchanged', inner(B), b)


def mismatch(env, op, kind, N):
    k = 0
    for m in range(1, N + 1):
        for n in range(1, N + 1):
            for p in range(1, N + 1):
                for q in range(1, N + 1):
                    if (n == p) if op == 'mul' else (m, n) == (p, q):
                        continue
                    k += 1
                    A, B = kinds(env, 'MPF', 'a%d_' % k, m, n), kinds(env, kind, 'b%d_' % k, p, q)
                    env.raises('%s: sizes %dx%d and %dx%d rejected' % (op, m, n, p, q), Exception, apply, op, A, B)
    A = kinds(env, 'MPF', 'c', 2, 2)
    for nm, bad in (('list', [[env.real('l%d%d' % (i, j)) for j in range(2)] for i in range(2)]), ('None', None), ('text', '1 2; 3 4')):
        env.raises('%s: foreign operand rejected: %s' % (op, nm), Exception, apply, op, A, bad)


def close(env, how, kind, m, n):
    A, B = kinds(env, 'MPF', 'a', m, n), kinds(env, kind, 'b', m, n)
    a, b = env.grid(A.matrix), env.grid(inner(B))
    d = [env.ex(x) - env.ex(y) for r, s in zip(a, b) for x, y in zip(r, s)]
    mag = [(env.ex(x), env.ex(y)) for r, s in zip(a, b) for x, y in zip(r, s)]
    if how == 'default':
        r, eps = A.almost_close(B), F(0)
    else:
        e = env.real('eps', F(1, 1024), 1)
        r, eps = A.almost_close(B, abs_eps=e), env.ex(e)
    r = bool(r)
    near = lambda x, t: env.both(env.le(x, t), env.le(-x, t))
    if not env.symbolic:
        # rounding of the difference and of the bounds
        lo, hi = eps * (1 - F(1, 2**20)), eps * (1 + F(1, 2**20)) + F(1, 2**60)
    else:
        lo = hi = eps
    if r:
        # almosteq: the tolerance is absolute and relative
        for x, (u, v) in zip(d, mag):
            env.check('True: every entry is within the tolerance', env.either(near(x, hi), near(x, hi * u), near(x, -hi * u), near(x, hi * v), near(x, -hi * v)))
    else:
        env.check('False: some entry is not within the tolerance', env.neg(env.both(*[near(x, lo if eps else F(0)) for x in d])))


def closesize(env, kind, N):
    k = 0
    for m in range(1, N + 1):
        for n in range(1, N + 1):
            for p in range(1, N + 1):
                for q in range(1, N + 1):
                    if (m, n) == (p, q):
                        continue
                    k += 1
                    A, B = kinds(env, 'MPF', 'a%d_' % k, m, n), kinds(env, kind, 'b%d_' % k, p, q)
                    env.raises('comparison of sizes %dx%d and %dx%d rejected' % (m, n, p, q), Exception, A.almost_close, B)


def verdict(env, label, f, D, eps):
    """D: lists of exact differences, each with its norm compared to eps"""
    try:
        f()
        ok = True
    except AssertionError:
        ok = False
    s = [sum((x * x for x in d), F(0)) for d in D]
    if not env.symbolic:
        e1, e2 = eps * (1 - F(1, 2**20)), eps * (1 + F(1, 2**20)) + F(1, 2**40)
    else:
        e1 = e2 = eps
    if ok:
        for x in s:
            env.check(label + ': accepted, every difference is small', env.le(x, e2 * e2))
    else:
        env.check(label + ': rejected, some difference is not', env.neg(env.both(*[env.lt(x, e1 * e1) for x in s])))


AB = {1: ([[0.5]], [[1.0]]), 2: ([[0.5, -0.25], [1.0, 0.125]], [[1.0], [0.5]])}
T = {1: ([[2.0]], [[0.5]]), 2: ([[1.0, 1.0], [0.0, 1.0]], [[1.0, -1.0], [0.0, 1.0]])}


def dss_close(env, n, same, p):
    dSS = env.mod('fixif.LTI').dSS
    A, B = AB[n]
    C, D = env.reals('C', p, n, lo=-2, hi=2), env.reals('D', p, 1, lo=-2, hi=2)
    S = dSS(*[env.npmat(X) for X in (A, B, C, D)])
    eps = env.real('eps', F(1, 1024), 1) if same or n * p == 1 else 0.125
    if same:
        X, Xi = [[[F(v) for v in r] for r in M] for M in T[n]]
        fl = lambda M: [[env.ex(v) if env.symbolic else float(v) for v in r] for r in M]
        ex = lambda M: [[env.ex(v) for v in r] for r in M]
        O = dSS(*[env.npmat(fl(M)) for M in (env.mmul(env.mmul(Xi, ex(A)), X), env.mmul(Xi, ex(B)), env.mmul(ex(C), X), ex(D))])
        try:
            S.assert_close(O, eps=eps)
            O.assert_close(S)
            ok = True
        except AssertionError:
            ok = False
        env.check('a change of basis is accepted', ok)
        return
    C2, D2 = env.reals('E', p, n, lo=-2, hi=2), env.reals('G', p, 1, lo=-2, hi=2)
    A2, B2 = A, B
    if same is None:
        # another order
        A2, B2 = [list(map(float, r)) + [0.0] for r in A] + [[0.25] * n + [-0.5]], [list(r) for r in B] + [[1.0]]
        C2 = [r + [env.real('H%d' % i, -2, 2)] for i, r in enumerate(C2)]
    O = dSS(*[env.npmat(X) for X in (A2, B2, C2, D2)])
    M1 = lti.markov(*[env.exm(X) for X in (S.A, S.B, S.C, S.D)], 3)
    M2 = lti.markov(*[env.exm(X) for X in (O.A, O.B, O.C, O.D)], 3)
    diff = [[x - y for r, s in zip(h, g) for x, y in zip(r, s)] for h, g in zip(M1, M2)]
    verdict(env, 'samples of the impulse response', lambda: S.assert_close(O, eps=eps), diff, env.ex(eps))


def dtf_close(env, nb, na, nb2, na2, default):
    F1, num, den = structs.tf(env, None, nb, na, 'one')
    F2, num2, den2 = structs.tf(env, None, nb2, na2, 'one', pre='o')
    dTF = env.mod('fixif.LTI').dTF
    nm = lambda v, f: [env.real('%s%d' % (f, i)) for i in range(v)]
    x, y = F1.dTF, F2.dTF
    if default:
        eps, call = F(1e-7), lambda: x.assert_close(y)
    else:
        e = env.real('eps', F(1, 1024), 1)
        eps, call = env.ex(e), lambda: x.assert_close(y, eps=e)
    pad = lambda v, k: v + [F(0)] * (k - len(v))
    k = max(nb, na, nb2, na2)
    D = [[a - b for a, b in zip(pad(u, k), pad(v, k))] for u, v in ((num, num2), (den, den2))]
    verdict(env, 'coefficients', call, D, eps)


def cases(tier):
    q = tier == 'quick'
    out = []
    o = dict(witnesses=1)
    shapes = [(1, 1, 1), (2, 2, 2), (1, 3, 2), (3, 2, 3), (2, 3, 1)] if q else [(m, n, p) for m in range(1, 5) for n in range(1, 5) for p in (1, 2, 4)]
    for op in ('add', 'sub', 'mul'):
        for kind in ('MPF', 'mp', 'np'):
            for s in shapes:
                out.append(Case('%s-%s-%dx%dx%d' % ((op, kind) + s), operator, o, op=op, kind=kind, m=s[0], n=s[1], p=s[2]))
            out.append(Case('%s-%s-mismatch' % (op, kind), mismatch, o, op=op, kind=kind, N=2 if q else 3))
    for kind in ('MPF', 'mp', 'np'):
        for m, n in [(1, 1), (1, 2), (2, 1)] + ([] if q else [(2, 2), (1, 3)]):
            for how in ('default', 'eps'):
                out.append(Case('close-%s-%s-%dx%d' % (how, kind, m, n), close, {}, how=how, kind=kind, m=m, n=n))
        out.append(Case('close-%s-sizes' % kind, closesize, o, kind=kind, N=2 if q else 3))
    for n in (1, 2):
        for p in (1, 2):
            for same in (True, False, None):
                out.append(Case('dss-%d-%d-%s' % (n, p, same), dss_close, {}, n=n, same=same, p=p))
    for op in ('add', 'sub', 'mul'):
        for k, (kind, s) in enumerate((('MPF', (5, 6, 4)), ('mp', (1, 9, 2)), ('np', (7, 2, 5)))):
            out.append(Case('large-%s-%s-%dx%dx%d' % ((op, kind) + s), operator, dict(o, sparse=(3, 30, k)), op=op, kind=kind, m=s[0], n=s[1], p=s[2]))
    for a in [(1, 1, 1, 1), (2, 2, 2, 2), (1, 2, 2, 1), (3, 1, 1, 2), (2, 1, 1, 3), (3, 3, 2, 2)] + ([] if q else [(3, 3, 3, 3), (1, 4, 3, 2), (4, 1, 2, 3)]):
        for d in (True, False):
            out.append(Case('dtf-%d%d-%d%d-%d' % (a + (d,)), dtf_close, {}, nb=a[0], na=a[1], nb2=a[2], na2=a[3], default=d))
    return out
