"""C18: simulations"""
import sys
import types
from fractions import Fraction
from symfx.harness import Case
from props import lti, sifs
from props.c17 import run, simulate, seqs, build

BOUNDS = ('realizations: l = 0..2, n = 1..2, up to 2 inputs and outputs, 1..4 samples (quick) / 6 (thorough); sparse systems of up to 5 states or intermediate variables, chains of delays over 6 samples; multiprecision systems: n = 1..2 (3), up to 2 inputs and outputs, '
          '1..3 samples (quick) / 4 (thorough), initial state absent, numpy (of integer type too) or multiprecision, working precisions 10 and 53; worst-case inputs: up to 3 (4) samples, 2 inputs')
ASSUMPTIONS = ['double arithmetic modelled over the reals',
               'exact mode: every rounding mpmath operation is value*(1+d), |d| <= 2^-prec; mode exact=False without roundings']


def sif(env, size, kind, T, how):
    l, n, p, q = size
    R, g, e = build(env, size, kind)
    # ('int': inputs of integer type)
    u = lti.intgrid(q, T) if how.startswith('int') else env.reals('u', q, T)
    U = [[env.ex(u[i][k]) for i in range(q)] for k in range(T)]
    if how in ('mat', 'int-mat'):
        a = env.npmat(u)
    elif how in ('arr', 'int-arr'):
        a = env.nparr(u)
    elif how in ('flat', 'int-flat'):
        a = env.nparr(u[0])
    else:
        a = u
    Y = R.simulate(a)
    tr = run(env, e, U)
    env.eqm('outputs', Y, [[tr[k][3][i] for k in range(T)] for i in range(p)])
    if how == 'mat':
        env.eqm('inputs unchanged', a, [[env.ex(x) for x in r] for r in u])
    # the realization is not modified: same answer the second time
    env.eqm('simulated twice', R.simulate(a), env.grid(Y))
    for m in (q + 1, q - 1, 2 * q):
        if m > 0 and m != q:
            env.raises('wrong number of inputs', ValueError, R.simulate, env.npmat(env.reals('w%d' % m, m, T)))


def multi(env, size, T, kind, x0, exact, **k):
    n, p, q = size
    S, M = lti.dssmp(env, n, p, q)
    f = env.reals if kind == 'np' else env.mpfs
    u = lti.intgrid(q, T) if kind == 'int' else f('u', q, T)
    a = env.npmat(u) if kind != 'mp' else env.mpmat(u)
    U = [[env.ex(u[i][k]) for i in range(q)] for k in range(T)]
    x = [Fraction(0)] * n
    kw = {}
    if x0:
        v = lti.intgrid(n, 1, 2) if x0 == 'int' else (env.reals if x0 == 'np' else env.mpfs)('x', n, 1)
        x = [env.ex(r[0]) for r in v]
        kw['x0'] = env.npmat(v) if x0 != 'mp' else env.mpmat(v)
        xs = [[env.ex(r[0])] for r in v]
    if exact is not None:
        kw['exact'] = exact
    Y = S.simulate(a, **kw)
    dot = lambda r, v: sum((s * t for s, t in zip(r, v)), Fraction(0))
    A, B, C, D = M
    ref = []
    for uk in U:
        ref.append([dot(C[i], x) + dot(D[i], uk) for i in range(p)])
        x = [dot(A[i], x) + dot(B[i], uk) for i in range(n)]
    env.eqm('outputs', Y, [[ref[k][i] for k in range(T)] for i in range(p)])
    lti.same_system(env, 'system unchanged', S, M)
    env.eqm('inputs unchanged', a, [[env.ex(t) for t in r] for r in u])
    if x0:
        env.eqm('initial state unchanged', kw['x0'], xs)


class Rounded:
    def __init__(self, src, v): self.src, self.v = src, v
    def __float__(self): return self.v


def rounded(env, size, T, bits):
    """simulation where the states and the output are rounded (by any function) at each sample"""
    n, p, q = size
    S, M = lti.dssmp(env, n, p, q)
    u = env.reals('u', q, T)
    m = types.ModuleType('sollya')
    m.RN, m.RU, m.RD = 'RN', 'RU', 'RD'
    log = []

    def rnd(x, prec, mode):
        env.check('rounded to the nearest, on the given number of bits', prec == bits and mode == 'RN')
        r = Rounded(x, env.real('r%d' % len(log), lo=-8, hi=8))
        log.append(r)
        return r
    m.round = rnd
    sys.modules['sollya'] = m
    w = env.mod('fixif.LTI.dSSmp')
    w.mpf_matrix_to_sollya = lambda X: ([X[i, j] for i in range(X.rows) for j in range(X.cols)], X.rows, X.cols)      # (decided by C42)
    if hasattr(w, 'sollya'):
        w.sollya = m
    Y = S.simulate_rounded(env.npmat(u), bits) if bits != 53 else S.simulate_rounded(env.npmat(u))
    dot = lambda r, v: sum((a * b for a, b in zip(r, v)), Fraction(0))
    if not env.check('one output per sample', len(Y) == T and all(isinstance(y, Rounded) for y in Y)):
        return
    A, B, C, D = M
    x = [Fraction(0)] * n
    free = list(log)
    for k in range(T):
        uk = [env.ex(u[i][k]) for i in range(q)]
        env.eq('output before its rounding', env.ex(Y[k].src), dot(C[0], x) + dot(D[0], uk))
        if k == T - 1:
            break
        nx = []
        for i in range(n):
            want = dot(A[i], x) + dot(B[i], uk)
            hit = [r for r in free if r not in Y and env.iszero(env.ex(r.src) - want) is True]
            if not env.check('next state before its rounding', bool(hit)):
                return
            free.remove(hit[0])
            nx.append(env.ex(hit[0].v))
        x = nx
    lti.same_system(env, 'system unchanged', S, M)


def rejects(env, size):
    n, p, q = size
    S, M = lti.dssmp(env, n, p, q)
    for m in (q + 1, q + 2):
        env.raises('inputs of the wrong size', ValueError, S.simulate, env.mpmat(env.mpfs('u%d' % m, m, 2)))
        env.raises('inputs of the wrong size', ValueError, S.simulate, env.npmat(env.reals('v%d' % m, m, 2)))
    u = env.mpmat(env.mpfs('u', q, 2))
    for name, b in (('list', [[1.0, 2.0]] * q), ('None', None), ('number', 3.0), ('array', env.np.array([[1.0, 2.0]] * q))):
        env.raises('inputs given as %s' % name, ValueError, S.simulate, b)
        if b is not None:
            env.raises('initial state given as %s' % name, ValueError, S.simulate, u, True, b)
    for r, c in ((n + 1, 1), (1, n) if n > 1 else (1, 2), (n, 2)):
        for ex in (True, False):
            env.raises('initial state of the wrong size', ValueError, S.simulate, u, ex, env.mpmat(env.mpfs('x%d%d' % (r, c), r, c)))
            env.raises('initial state of the wrong size', ValueError, S.simulate, u, ex, env.npmat(env.reals('y%d%d' % (r, c), r, c)))


def worst(env, size, N, how):
    l, n, p, q = size
    R, g, e = build(env, size, 'unit')
    b = [env.real('b%d' % i, lo=0) for i in range(q)]
    ub = b if how == 'list' else (env.npmat([b]) if how == 'row' else env.npmat([[x] for x in b]))
    u = R.generate_inputs(ub, N)
    env.check('size', tuple(env.shape(u)) == (q, N))
    H = lti.markov(*[env.grid(M) for M in (R.AZ, R.BZ, R.CZ, R.DZ)], N)
    G = env.grid(u)
    for j in range(q):
        bj = env.ex(b[j])
        for i in range(N):
            h, v = H[N - 1 - i][0][j], G[j][i]
            env.check('within the bounds', env.both(env.le(v, bj), env.le(-bj, v)))
            # the contribution h(N-1-i) u(i) to the last output is the largest possible
            env.check('maximises the last output', env.both(env.le(bj * h, v * h), env.le(-bj * h, v * h)))


def worstrejects(env):
    R, g, e = build(env, (0, 1, 1, 2), 'unit')
    for s in ((3, 1), (1, 3), (2, 2), (1, 1)):
        env.raises('bounds of the wrong size', ValueError, R.generate_inputs, env.npmat([[1.0] * s[1]] * s[0]), 3)
    R, g, e = build(env, (0, 1, 2, 1), 'unit')
    env.raises('several outputs', ValueError, R.generate_inputs, [1.0], 3)


def cases(tier):
    q_ = tier == 'quick'
    out = []
    for s in [(0, 1, 1, 1), (0, 2, 1, 2), (0, 2, 2, 1), (1, 1, 1, 1), (1, 2, 1, 1), (1, 1, 2, 2), (2, 1, 1, 1), (2, 2, 1, 1)] + ([] if q_ else [(2, 2, 2, 2), (3, 2, 1, 1)]):
        for T in (1, 2, 4) if q_ else (1, 2, 3, 4, 6):
            if s[0] * s[1] > 2 and T > 3:
                T = 3
            for kind in ('unit', 'gen'):
                if kind == 'gen' and (s[0] == 0 or s[0] > 2 or T > 3):
                    continue
                for how in ('mat', 'arr', 'list', 'flat'):
                    if how != 'mat' and (T != 2 or kind == 'gen' or (how == 'flat' and s[3] != 1)):
                        continue
                    out.append(Case('sif-%d%d%d%d-%s-%d-%s' % (s + (kind, T, how)), sif, dict(witnesses=1, cost=s[0] + s[1] + T), size=s, kind=kind, T=T, how=how))
    # larger sparse systems, chains of delays: constants, and symbolic inputs
    for k, s in enumerate([(0, 3, 1, 1), (4, 2, 1, 1), (5, 1, 2, 2), (3, 3, 1, 2), (0, 5, 1, 1), (2, 4, 2, 1)]):
        out.append(Case('sif-%d%d%d%d-chain' % s, sif, dict(witnesses=1, cost=20), size=s, kind='chain', T=6, how='mat'))
        out.append(Case('sif-%d%d%d%d-sp' % s, sif, dict(witnesses=1, cost=8), size=s, kind='sp%d' % k, T=3, how='mat'))
    for s in [(1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1)] + ([] if q_ else [(3, 1, 1), (2, 2, 2)]):
        for T in (1, 2, 3) if q_ else (1, 2, 3, 4):
            for kind in ('np', 'mp'):
                for x0 in (None, 'np', 'mp'):
                    for prec in (10, 53):
                        if prec == 53 and T != 2:
                            continue
                        out.append(Case('exact-%d%d%d-%d-%s-%s-p%d' % (s + (T, kind, x0, prec)), multi, dict(rounding='delta', exact=True, prec=prec, witnesses=1, candidates=4, cost=4 * T),
                                        size=s, T=T, kind=kind, x0=x0, exact=True if T == 2 else None))
                    if T > 1:
                        out.append(Case('double-%d%d%d-%d-%s-%s' % (s + (T, kind, x0)), multi, dict(witnesses=1, bc=53, tol=1e-6, manbits=30, manexp=6, cost=T), size=s, T=T, kind=kind, x0=x0, exact=False))
    for s in [(0, 1, 1, 1), (1, 2, 1, 2), (2, 1, 2, 1)]:
        for how in ('int-mat', 'int-arr', 'int-list') + (('int-flat',) if s[3] == 1 else ()):
            out.append(Case('sif-%d%d%d%d-%s' % (s + (how,)), sif, dict(witnesses=1, cost=4), size=s, kind='unit', T=3, how=how))
    for s in [(1, 1, 1), (2, 1, 2)]:
        for kind, x0 in (('int', None), ('int', 'int'), ('int', 'mp'), ('int', 'np'), ('mp', 'int'), ('np', 'int')):
            out.append(Case('exact-int-%d%d%d-%s-%s' % (s + (kind, x0)), multi, dict(rounding='delta', exact=True, prec=10, witnesses=1, candidates=4, cost=4), size=s, T=2, kind=kind, x0=x0, exact=True))
            out.append(Case('double-int-%d%d%d-%s-%s' % (s + (kind, x0)), multi, dict(witnesses=1, bc=53, tol=1e-6, manbits=30, manexp=6), size=s, T=3, kind=kind, x0=x0, exact=False))
    for s in [(1, 1, 1), (2, 1, 1), (1, 1, 2), (2, 1, 2)] + ([] if q_ else [(3, 1, 1)]):
        for T in (1, 2, 3):
            bits = (53, 24)[T % 2]
            out.append(Case('rounded-%d%d%d-%d' % (s + (T,)), rounded, dict(rounding='delta', exact=True, prec=10, witnesses=1, cost=4 * T), size=s, T=T, bits=bits))
    for s in ((1, 1, 1), (2, 2, 1), (2, 1, 2)):
        out.append(Case('rejects-%d%d%d' % s, rejects, size=s))
    for s in ((0, 1, 1, 1), (0, 1, 1, 2), (0, 2, 1, 1), (1, 1, 1, 1)):
        for N in (1, 2, 3) if q_ or s[3] > 1 else (1, 2, 3, 4):
            if q_ and N == 3 and s != (0, 1, 1, 1):
                continue
            for how in ('list', 'row', 'col'):
                if how != 'row' and N != 2:
                    continue
                out.append(Case('worst-%d%d%d%d-%d-%s' % (s + (N, how)), worst, dict(witnesses=3, cost=3), size=s, N=N, how=how))
    out.append(Case('worst-rejects', worstrejects))
    return out
