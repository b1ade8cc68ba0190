"""C41: worst-case peak gains are those of the current system"""
from fractions import Fraction
from symfx.harness import Case
from props import lti, sifs

BOUNDS = ('state spaces of order 1..2 (quick) / 1..3 (thorough) with up to 2 inputs and outputs, transfer functions of 1..3 / 1..5 coefficients, implicit-form realizations with up to 2 intermediate variables '
          'and states, every assigned block; gains asked before and after each change')
ASSUMPTIONS = ['double arithmetic modelled over the reals',
               'the library fixif.WCPG (not in this repository) returns the gain of the system it is given: any positive matrix of its sizes, another one for each call']


class Library:
    """stand-in of the library: remembers the response of every system it was asked for"""

    def __init__(self, env, K):
        self.env, self.K, self.calls = env, K, []
        env.hook('wcpg', self.ss)
        env.hook('wcpg_tf', self.tf)

    def new(self, p, q, resp):
        k = len(self.calls)
        W = self.env.reals('W%d_' % k, p, q, lo=Fraction(2 * k + 1), hi=Fraction(2 * k + 2))
        self.calls.append((W, resp))
        return W

    def ss(self, A, B, C, D):
        M = [self.env.grid(X) for X in (A, B, C, D)]
        p, q = self.env.shape(D)
        return self.env.npmat(self.new(int(p), int(q), lti.markov(*M, self.K)))

    def tf(self, num, den):
        env = self.env
        n, d = [v for r in env.grid(num) for v in r], [v for r in env.grid(den) for v in r]
        return self.new(1, 1, [[[h]] for h in lti.tf_response(n, d, self.K)])[0][0]

    def gain_of(self, label, W, ref):
        """W is the gain of the system of response ref"""
        env = self.env
        got = env.grid(W)
        p, q = len(ref[0]), len(ref[0][0])
        if not env.check(label + ': size', (len(got), len(got[0])) == (p, q)):
            return
        for V, resp in reversed(self.calls):
            if (len(V), len(V[0])) == (p, q) and all(bool(env.iszero(got[i][j] - env.ex(V[i][j]))) for i in range(p) for j in range(q)):
                lti.eqresp(env, label + ': system it was computed for', resp, ref)
                return
        env.check(label + ': computed by the library', False)


def space(env, n, p, q, change):
    S, M = lti.dss(env, n, p, q)
    K = 2 * n + 2
    lib = Library(env, K if change not in ('sum', 'cascade') else 2 * K)
    ref = lti.markov(*M, lib.K)
    lib.gain_of('gain', S.WCPG(), ref)
    lib.gain_of('gain asked twice', S.WCPG(), ref)
    if change == 'similarity':
        T = env.reals('T', n, n)
        det = T[0][0] if n == 1 else T[0][0] * T[1][1] - T[0][1] * T[1][0]
        env.assume(env.neg(env.iszero(env.ex(det))))
        S.similarity(env.npmat(T))
        lib.gain_of('gain after a change of basis', S.WCPG(), ref)
    elif change == 'info':
        info = {}
        W = S.WCPG(info)
        lib.gain_of('gain with the informations', W, ref)
        env.check('informations of the library', bool(info))
        lib.gain_of('gain after the informations', S.WCPG(), ref)
    elif change == 'slice':
        for i in range(p):
            for j in range(q):
                lib.gain_of('gain of a sub-system', S[i, j].WCPG(), [[[r[i][j]]] for r in ref])
        lib.gain_of('gain of the whole system', S.WCPG(), ref)
    elif change == 'sum':
        T, N = lti.dss(env, 1, p, q, 'b')
        ref2 = lti.markov(*N, lib.K)
        lib.gain_of('gain of the second system', T.WCPG(), ref2)
        lib.gain_of('gain of the sum', (S + T).WCPG(), [[[a + b for a, b in zip(x, y)] for x, y in zip(r, s)] for r, s in zip(ref, ref2)])
        lib.gain_of('gain of the difference', (S - T).WCPG(), [[[a - b for a, b in zip(x, y)] for x, y in zip(r, s)] for r, s in zip(ref, ref2)])
    elif change == 'tf':
        T = S.to_dTF()
        lib.gain_of('gain of the transfer function', T.WCPG(), ref)
        lib.gain_of('gain asked twice', T.WCPG(), ref)
    lti.same_system(env, 'system unchanged', S, M) if change != 'similarity' else None


def function(env, nb, na, a0):
    num = env.reals('b', nb)
    den = [env.real('a0', nz=True) if a0 else 1.0] + [env.real('a%d' % i) for i in range(1, na)]
    if a0:
        env.assume(den[0] != 0)
    L = env.mod('fixif.LTI')
    T = L.dTF(env.nparr(num), env.nparr(den))
    K = 2 * max(nb, na) + 2
    lib = Library(env, K)
    h = lti.tf_response([env.ex(v) for v in num], [env.ex(v) for v in den], K)
    ref = [[[v]] for v in h]
    lib.gain_of('gain', T.WCPG(), ref)
    lib.gain_of('gain asked twice', T.WCPG(), ref)
    lib.gain_of('gain of the state space', T.to_dSS().WCPG(), ref)
    lib.gain_of('gain of the opposite', (-T).WCPG(), [[[-v]] for v in h])
    F = L.Filter(tf=T)
    lib.gain_of('gain of the filter', F.dSS.WCPG(), ref)


def realization(env, size, kind, X):
    """gains of the systems of a realization, before and after an assignment"""
    l, n, p, q = size
    SIF = env.mod('fixif.SIF').SIF
    g = sifs.blocks(env, l, n, p, q, kind)
    R = SIF(sifs.args(env, g, l, n, p, q))
    lib = Library(env, 2 * n + 1)

    def ask(when):
        F = SIF(sifs.args(env, g, l, n, p, q))
        for w in ('dSS', 'Hzeta', 'Hepsilon', 'Hu'):
            S = getattr(F, w)
            lib.gain_of('gain of %s %s' % (w, when), getattr(R, w).WCPG(), lti.response(env, S, lib.K))
    ask('')
    r, c = sifs.dims(l, n, p, q)[X]
    g = dict(g, **{X: sifs.block(env, X, r, c, kind, pre='z')})
    setattr(R, X, sifs.arr(env, g[X], r, c))
    ask('after the assignment of %s' % X)


def cases(tier):
    q_ = tier == 'quick'
    out = []
    o = dict(witnesses=1, candidates=4)
    for n in (1, 2) if q_ else (1, 2, 3):
        for p in (1, 2):
            for q in (1, 2):
                for change in ('similarity', 'info', 'slice', 'sum', 'tf'):
                    if (change == 'similarity' and n > 2) or (change == 'tf' and (p, q) != (1, 1)):
                        continue
                    out.append(Case('ss-%d%d%d-%s' % (n, p, q, change), space, dict(o, cost=n * n), n=n, p=p, q=q, change=change))
    N = 3 if q_ else 5
    for nb in range(1, N + 1):
        for na in range(1, N + 1):
            out.append(Case('tf-%d-%d' % (nb, na), function, o, nb=nb, na=na, a0=bool((nb + na) % 2)))
    for size in [(0, 1, 1, 1), (1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 1), (1, 1, 2, 2)]:
        for X in sifs.NAMES:
            if all(sifs.dims(*size)[X]):
                if X == 'J' and size[0] == 1:
                    continue
                out.append(Case('sif-%d%d%d%d-%s' % (size + (X,)), realization, dict(o, cost=3), size=size, kind='unit', X=X))
    return out
