"""C17: error and peak systems"""
from fractions import Fraction
from symfx.harness import Case
from props import lti, sifs

BOUNDS = ('l = 0..2 (quick) / 0..3 (thorough), n = 1..2 (3), 1..2 inputs and outputs, J unit lower-triangular or any invertible matrix up to 2x2; '
          'perturbed runs of 3 (quick) / 5 (thorough) steps from any initial state of the error system 0; all coefficients, inputs and perturbations symbolic; '
          'up to 5 intermediate variables or states with sparse matrices (a part of the coefficients being constants)')
ASSUMPTIONS = ['double arithmetic modelled over the reals, numpy.linalg.inv returns the inverse']


def run(env, e, U, E=None):
    """trajectories of the implicit equations: lists of t, x (before), x (after), y"""
    l, n, p = len(e['J']), len(e['P']), len(e['S'])
    x = [Fraction(0)] * n
    T = []
    for k, u in enumerate(U):
        et, ex, ey = (E[k][:l], E[k][l:l + n], E[k][l + n:]) if E else (None, None, None)
        t, xn, y = sifs.step(env, e, x, u, et, ex, ey)
        T.append((t, x, xn, y))
        x = xn
    return T


def simulate(env, S, U):
    """outputs of the state space S"""
    A, B, C, D = [env.grid(M) for M in (S.A, S.B, S.C, S.D)]
    n = S.n
    x = [Fraction(0)] * n
    Y = []
    dot = lambda r, v: sum((a * b for a, b in zip(r, v)), Fraction(0))
    for u in U:
        Y.append([dot(C[i], x) + dot(D[i], u) for i in range(S.p)])
        x = [dot(A[i], x) + dot(B[i], u) for i in range(n)]
    return Y


def build(env, size, kind):
    g = sifs.blocks(env, *size, kind)
    sifs.invertible(env, g)
    return env.mod('fixif.SIF').SIF(sifs.args(env, g, *size)), g, sifs.exact(env, g)


def seqs(env, name, m, T):
    return [[env.ex(env.real('%s%d_%d' % (name, k, i))) for i in range(m)] for k in range(T)]


def errors(env, size, kind, T, order):
    """perturbed output - output = response of the error systems to the perturbations"""
    l, n, p, q = size
    R, g, e = build(env, size, kind)
    U = seqs(env, 'u', q, T)
    E = seqs(env, 'e', l + n + p, T)
    for s in order:
        if s == 'e':
            S = R.Hepsilon
        elif s == 'd':
            S = R.computeDeltaSIF().dSS
        else:
            R.Hzeta, R.Hu
            continue
        env.check('inputs and outputs', (S.q, S.p) == (l + n + p, p))
        Y0 = [r[3] for r in run(env, e, U)]
        Y1 = [r[3] for r in run(env, e, U, E)]
        D = simulate(env, S, E)
        env.eqs('roundoff error system' if s == 'e' else 'delta-realization', [(Y1[k][i] - Y0[k][i], D[k][i]) for k in range(T) for i in range(p)])
    for X in sifs.NAMES:
        if all(sifs.dims(*size)[X]):
            env.eqm('block %s unchanged' % X, getattr(R, X), e[X])


def delta(env, size, kind):
    """the delta-realization is the error system, and has the loops of the realization"""
    l, n, p, q = size
    R, g, e = build(env, size, kind)
    S = R.computeDeltaSIF()
    env.check('sizes', tuple(S.size) == (l, n, p, l + n + p))
    for X in 'JKLMPR':
        if all(sifs.dims(*size)[X]):
            env.eqm('delta: block ' + X, getattr(S, X), e[X])
    H = R.Hepsilon
    for X in 'ABCD':
        env.eqm('delta-realization = roundoff system: ' + X, getattr(S.dSS, X), getattr(H, X))


def peaks(env, size, kind, T):
    """trajectories of the internal signals"""
    l, n, p, q = size
    R, g, e = build(env, size, kind)
    U = seqs(env, 'u', q, T)
    tr = run(env, e, U)
    Z, H = R.Hzeta, R.Hu
    env.check('inputs and outputs', (Z.q, Z.p, H.q, H.p) == (q, l + n + p, q, l + n + p))
    YZ, YH = simulate(env, Z, U), simulate(env, H, U)
    for k, (t, x, xn, y) in enumerate(tr):
        env.eqs('Hzeta: intermediate variables, states, outputs', list(zip(YZ[k], t + x + y)))
        env.eqs('Hu: intermediate variables, next states, outputs', list(zip(YH[k], t + xn + y)))
    again = R.Hzeta
    for X in 'ABCD':
        env.eqm('asked twice: ' + X, getattr(again, X), getattr(Z, X))


def cases(tier):
    q_ = tier == 'quick'
    out = []
    sizes = [(0, 1, 1, 1), (0, 2, 2, 1), (1, 1, 1, 1), (1, 1, 2, 2), (1, 2, 1, 1), (2, 1, 1, 1), (2, 1, 2, 1), (2, 2, 1, 1)]
    if not q_:
        sizes += [(2, 2, 2, 2), (3, 1, 1, 1), (3, 2, 1, 1), (1, 3, 1, 1), (0, 3, 2, 2)]
    for s in sizes:
        for kind in ('unit', 'gen'):
            if kind == 'gen' and (s[0] == 0 or s[0] > 2):
                continue
            nm = '%d%d%d%d-%s' % (s + (kind,))
            T = 3 if q_ else (4 if s[0] + s[1] > 3 else 5)
            if kind == 'gen' and s[0] == 2:
                T = 2 if s[1] > 1 else 3
            out.append(Case('errors-%s' % nm, errors, dict(witnesses=1, cost=3 * s[0] + s[1]), size=s, kind=kind, T=T, order='ed'))
            out.append(Case('errors-after-%s' % nm, errors, dict(witnesses=1, cost=3), size=s, kind=kind, T=2, order='zde'))
            out.append(Case('delta-%s' % nm, delta, dict(witnesses=1), size=s, kind=kind))
            out.append(Case('peaks-%s' % nm, peaks, dict(witnesses=1, cost=3 * s[0] + s[1]), size=s, kind=kind, T=T))
    for k, s in enumerate([(4, 2, 1, 1), (5, 1, 2, 2), (3, 3, 1, 2), (0, 5, 1, 1), (2, 5, 2, 1)]):
        for kind in ('sp%d' % k, 'chain'):
            nm = '%d%d%d%d-%s' % (s + (kind,))
            out.append(Case('errors-%s' % nm, errors, dict(witnesses=1, cost=5), size=s, kind=kind, T=3 if kind != 'chain' else 6, order='ed'))
            out.append(Case('delta-%s' % nm, delta, dict(witnesses=1), size=s, kind=kind))
            out.append(Case('peaks-%s' % nm, peaks, dict(witnesses=1, cost=5), size=s, kind=kind, T=3 if kind != 'chain' else 6))
    return out
