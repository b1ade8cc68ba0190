"""C38: quantised realization and its error filter (SIF_tilde_error)"""
from fractions import Fraction
from symfx.harness import Case
from props import c17, lti, sifs

F = Fraction
BOUNDS = ('l = 0..2, n = 1..2, 1..2 inputs and outputs (quick; 0..3 in the thorough tier), J unit lower-triangular; runs of 3 steps (quick) / 4 (thorough) from a null state; '
          'all coefficients, their quantised values, the inputs and the errors symbolic')
ASSUMPTIONS = ['double arithmetic modelled over the reals, numpy.linalg.inv returns the inverse',
               'the quantisation (fixif.FxP.Constant, not in this repository) is any function of the value and the word-length: each coefficient has a free quantised value']


def quantised(env, size, free=None, w=8):
    """blocks of distinct coefficients (ranges are disjoint), and their quantised values"""
    l, n, p, q = size
    D = sifs.dims(*size)
    g, t, val, k = {}, {}, [], 0
    for X in sifs.NAMES:
        r, c = D[X]
        g[X], t[X] = [], []
        for i in range(r):
            g[X].append([])
            t[X].append([])
            for j in range(c):
                if X == 'J' and i <= j:
                    g[X][i].append(float(i == j))
                    t[X][i].append(F(int(i == j)))
                    continue
                nm = '%s%d_%d' % (X, i, j)
                if nm == free:
                    v = env.real(nm, -1, 1)
                    e = env.ex(v)
                    a = env.real('q' + nm, -4, 4)
                    val.append((v, a, nm))
                    g[X][i].append(v)
                    t[X][i].append((e, env.ex(a)))
                    continue
                lo = F(9 + k, 8)
                k += 1
                s = -1 if k % 3 == 0 else 1
                v = env.real(nm, *sorted((s * (lo + F(1, 32)), s * (lo + F(3, 32)))))
                a = env.real('q' + nm, -4, 4)
                val.append((v, a, nm))
                g[X][i].append(v)
                t[X][i].append(env.ex(a))
    C = env.mod('fixif.FxP.Constant').Constant

    def approx(v, wl):
        env.check('word-length given to the quantisation', wl == w)
        v = env.ex(v)
        for x, a, nm in val:
            if bool(env.ex(x) == v):
                return a
        raise AssertionError('not a coefficient: %s' % v)
    return g, t, C, approx


def call(env, S, w, C, approx, prints=False):
    old = C._approx
    C._approx = staticmethod(approx)
    try:
        f = env.mod('fixif.SIF.SIF_tilde_error').SIFH_to_SIFHstar
        if prints:
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                return f(S, w, prints=True)
        return f(S, w)
    finally:
        C._approx = staticmethod(old)


def resolve(env, t):
    """the coefficient that may be trivial"""
    def one(x):
        if not isinstance(x, tuple):
            return x
        v, a = x
        return v if bool(v == 0) or bool(v == 1) or bool(v == -1) else a
    return {X: [[one(x) for x in r] for r in t[X]] for X in t}


def error(env, size, T, free=None):
    l, n, p, q = size
    g, t, C, approx = quantised(env, size, free)
    t = resolve(env, t)
    S = env.mod('fixif.SIF').SIF(sifs.args(env, g, *size))
    e = sifs.exact(env, g)
    St, Se = call(env, S, 8, C, approx)
    env.check('sizes of the quantised realization', tuple(St.size) == (l, n, p, q))
    D = sifs.dims(*size)
    for X in sifs.NAMES:
        if all(D[X]):
            env.eqm('quantised block ' + X, getattr(St, X), t[X])
            env.eqm('block %s unchanged' % X, getattr(S, X), e[X])
    env.check('inputs and outputs of the error filter', (Se.q, Se.p) == (q + l + n + p, p))
    U, E = c17.seqs(env, 'u', q, T), c17.seqs(env, 'e', l + n + p, T)
    Y0 = [r[3] for r in c17.run(env, e, U)]
    Y1 = [r[3] for r in c17.run(env, t, U, E)]
    Z = c17.simulate(env, Se.dSS, [u + x for u, x in zip(U, E)])
    env.eqs('error filter: output of the perturbed quantised realization minus the exact output', [(Y1[k][i] - Y0[k][i], Z[k][i]) for k in range(T) for i in range(p)])


def gains(env, size, T):
    """the systems whose worst-case peak gains are printed"""
    l, n, p, q = size
    g, t, C, approx = quantised(env, size)
    S = env.mod('fixif.SIF').SIF(sifs.args(env, g, *size))
    e = sifs.exact(env, g)
    seen = []

    def wcpg(*M):
        seen.append([env.grid(X) for X in M])
        r, c = env.shape(M[3])
        return env.npmat([[1.0] * c for _ in range(r)])
    env.hook('wcpg', wcpg)
    call(env, S, 8, C, approx, prints=True)
    U = c17.seqs(env, 'u', q, T)
    env.check('exact and quantised realizations, outputs and all the variables', len(seen) == 4)
    for k, M in enumerate(seen):
        tr = c17.run(env, e if k < 2 else t, U)
        A, B, Cc, Dd = M
        ref = [r[3] if k % 2 == 0 else r[0] + r[2] + r[3] for r in tr]
        env.check('size of the system %d' % k, (len(Cc), len(A), len(Dd[0])) == (len(ref[0]), n, q))
        H = lti.markov(A, B, Cc, Dd, T)
        out = [[sum((H[s - j][i][c] * U[j][c] for j in range(s + 1) for c in range(q)), F(0)) for i in range(len(Cc))] for s in range(T)]
        env.eqs('system %d: outputs' % k, [(x, y) for a, b in zip(out, ref) for x, y in zip(a, b)])


def cases(tier):
    q_ = tier == 'quick'
    out = []
    sizes = [(0, 1, 1, 1), (0, 2, 2, 1), (1, 1, 1, 1), (1, 1, 2, 2), (1, 2, 1, 1), (2, 1, 1, 1), (2, 1, 2, 1)]
    if not q_:
        sizes += [(2, 2, 1, 1), (2, 2, 2, 2), (3, 1, 1, 1), (0, 3, 2, 2)]
    for s in sizes:
        nm = '%d%d%d%d' % s
        T = 3 if q_ else 4 if s[0] + s[1] < 4 else 3
        out.append(Case('error-' + nm, error, dict(witnesses=1, cost=3 * s[0] + s[1]), size=s, T=T))
        out.append(Case('gains-' + nm, gains, dict(witnesses=1, cost=3 * s[0] + s[1]), size=s, T=T))
    for f in ('J1_0', 'K0_0', 'L0_0', 'M0_0', 'N1_0', 'P0_0', 'Q0_0', 'R0_0', 'S0_0'):
        out.append(Case('trivial-' + f, error, dict(witnesses=2), size=(2, 1, 1, 1), T=2, free=f))
    for k, s in enumerate([(3, 2, 1, 2), (4, 1, 2, 1), (0, 5, 1, 1)]):
        nm = '%d%d%d%d' % s
        o = dict(witnesses=1, cost=5, sparse=(31, 60, k))
        out.append(Case('large-error-' + nm, error, o, size=s, T=4))
        out.append(Case('large-gains-' + nm, gains, o, size=s, T=4))
    return out
