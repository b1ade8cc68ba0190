"""C24: state-space realizations"""
from fractions import Fraction
from symfx.harness import Case
from props import structs, lti, sifs

BOUNDS = ('transfer functions of 1..4 (quick) / 1..7 (thorough) coefficients, some of integer type; state spaces of order 1..2 (quick) / 1..3 (thorough) with up to 2 (3) inputs and outputs; '
          'forms None, ctrl, obs, balanced; through the structure, its factory and by name')
ASSUMPTIONS = ['double arithmetic modelled over the reals',
               'scipy.signal.ss2tf and tf2ss are the textbook conversions (their documented contract)',
               'slycot.ab09ad (not installed: a stand-in is put in its place) returns an equivalent system: any change of basis, or the system without an unobservable state']


def make(env, F, how, **o):
    st = env.mod('fixif.Structures')
    if how == 'call':
        return st.State_Space(F, **o)
    if how == 'make':
        return st.State_Space.makeRealization(F, **o)
    return env.mod('fixif.Structures.Structure').makeARealization(F, 'dSS', **o)


def opts_of(form):
    return {} if form == 'default' else {'form': None if form == 'none' else form}


def check_ss(env, R, F, M, K):
    H = structs.response(env, R, K)
    if H is None:
        return
    env.check('filter of the realization', R.filter is F)
    ref = lti.markov(*M, K)
    p, q = len(M[3]), len(M[3][0])
    env.check('number of inputs and outputs', (R.p, R.q) == (p, q))
    env.check('no intermediate variable', R.l == 0)
    lti.eqresp(env, 'impulse response', H, ref)


def from_ss(env, n, p, q, form, how, stable, rel=None):
    if rel is None:
        S, M = lti.dss(env, n, p, q)
    else:
        # relative degree rel: the first rel samples of the response are zero
        g = [env.reals(x, r, c) for x, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q))]
        if rel:
            g[3][0][0] = 0.0
        if rel > 1:
            for i in range(n - 1):
                g[1][i][0] = 0.0
            g[2][0][n - 1] = 0.0
        if rel == 3:
            g[2][0][1] = g[0][0][2] = 0.0
        S = env.mod('fixif.LTI').dSS(*[env.npmat(x) for x in g])
        M = [env.exm(x) for x in g]
        if rel <= n:
            env.assume(env.neg(env.iszero(lti.markov(*M, n)[rel][0][0])))
    F = env.mod('fixif.LTI').Filter(ss=S, stable=stable) if how != 'call' else env.mod('fixif.LTI').Filter(A=S.A, B=S.B, C=S.C, D=S.D, stable=stable)
    o = opts_of(form)
    siso = p == q == 1
    if form in ('ctrl', 'obs') and not siso:
        env.raises('%s form of several inputs or outputs' % form, ValueError, make, env, F, how, **o)
        return
    env.check('the filter is accepted', bool(env.mod('fixif.Structures').State_Space.canAcceptFilter(F, **o)))
    R = make(env, F, how, **o)
    check_ss(env, R, F, M, 2 * n + 2)
    if form in ('none', 'default'):
        for X, Y in zip('PQRS', M):
            env.eqm('matrices of the state space', getattr(R, X), Y) if Y and Y[0] else None
    lti.same_system(env, 'state space of the filter unchanged', F.dSS, M)


def from_tf(env, nb, na, a0, zeros, form, how):
    F, num, den = structs.tf(env, None, nb, na, a0, zeros)
    R = make(env, F, how, **opts_of(form))
    env.check('no intermediate variable', R.l == 0)
    env.check('filter of the realization', R.filter is F)
    structs.siso(env, R, num, den)


def balanced(env, n, p, q, how, reduced):
    g = [env.reals(x, r, c) for x, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q))]
    if reduced:
        # the last state does not reach the outputs
        for i in range(n - 1):
            g[0][i][n - 1] = 0.0
        for i in range(p):
            g[2][i][n - 1] = 0.0
    S = env.mod('fixif.LTI').dSS(*[env.npmat(x) for x in g])
    M = [env.exm(x) for x in g]
    # change of basis T = L U, unit triangular
    m = n - 1 if reduced else n
    L = [[env.real('l%d%d' % (i, j)) if i > j else float(i == j) for j in range(m)] for i in range(m)]
    Li = [[float(i == j) for j in range(m)] for i in range(m)]
    for j in range(m):
        for i in range(j + 1, m):
            Li[i][j] = sum((-L[i][k] * Li[k][j] for k in range(j, i)), 0.0)
    calls = []

    def ab09ad(dico, job, equil, n_, m_, p_, A, B, C, nr=None, tol=0.0):
        """slycot.ab09ad(dico,job,equil,n,m,p,A,B,C,[nr,tol,ldwork]) -> (Nr,Ar,Br,Cr,hsv)"""
        calls.append(1)
        ok = (dico, (n_, m_, p_)) == ('D', (n, q, p)) and tuple(env.shape(A)) == (n, n) and tuple(env.shape(B)) == (n, q) and tuple(env.shape(C)) == (p, n)
        env.check('arguments of ab09ad', ok and (nr is None or nr == n))
        env.eqs('system given to ab09ad', [(x, y) for X, Y in zip((A, B, C), M) for a, b in zip(env.grid(X), Y) for x, y in zip(a, b)])
        mul = lambda X, Y: [[sum((X[i][k] * Y[k][j] for k in range(len(Y))), 0.0) for j in range(len(Y[0]))] for i in range(len(X))]
        a, b, c = [r[:m] for r in g[0][:m]], g[1][:m], [r[:m] for r in g[2]]
        a, b, c = mul(mul(Li, a), L), mul(Li, b), mul(c, L)
        return m, env.nparr(a), env.nparr(b), env.nparr(c), None
    env.mod('fixif.LTI.dSS').ab09ad = ab09ad
    # (the option is only declared when slycot is installed)
    env.mod('fixif.Structures').State_Space.options['form'] = (None, 'balanced', 'ctrl', 'obs')
    F = env.mod('fixif.LTI').Filter(ss=S, stable=True)
    R = make(env, F, how, form='balanced')
    check_ss(env, R, F, M, 2 * n + 2)
    env.check('ab09ad is used', len(calls) >= 1)


def accept(env, p, q, stable):
    S, M = lti.dss(env, 1, p, q)
    F = env.mod('fixif.LTI').Filter(ss=S, stable=stable)
    st = env.mod('fixif.Structures').State_Space
    env.check('form None accepts everything', bool(st.canAcceptFilter(F, form=None)))
    for f in ('ctrl', 'obs'):
        env.check('forms ctrl and obs accept single input and output only', bool(st.canAcceptFilter(F, form=f)) == (p == q == 1))
    env.check('balanced form accepts stable filters only', bool(st.canAcceptFilter(F, form='balanced')) == bool(stable))


def wrong(env, form):
    F, num, den = structs.tf(env, None, 2, 2, 'one')
    env.raises('unknown form', ValueError, make, env, F, 'call', form=form)


def cases(tier):
    q_ = tier == 'quick'
    out = []
    hows = ('call', 'make', 'name')
    k = 0
    for n, p, q in lti.sizes(2 if q_ else 3, 2 if q_ else 3, 2 if q_ else 3):
        for form in ('none', 'default', 'ctrl', 'obs'):
            if p * q > 1 and form == 'default' and n > 1:
                continue
            k += 1
            if form in ('ctrl', 'obs') and p == q == 1:
                for rel in range(n + 1) if form == 'obs' else (None, n):
                    out.append(Case('ss-%d%d%d-%s-%s' % (n, p, q, form, rel), from_ss, dict(witnesses=1, cost=1 + n), n=n, p=p, q=q, form=form, how=hows[k % 3],
                                    stable=bool(k % 2), rel=rel))
                continue
            out.append(Case('ss-%d%d%d-%s' % (n, p, q, form), from_ss, dict(witnesses=1, cost=1 + n), n=n, p=p, q=q, form=form, how=hows[k % 3], stable=bool(k % 2)))
    N = 5 if q_ else 8
    for na in range(1, N):
        for nb in range(1, N):
            for form in ('none', 'default', 'ctrl', 'obs'):
                for a0 in ('one', 'free'):
                    if abs(na - nb) > 1 and form == 'default' or a0 == 'free' and max(na, nb) > 4:
                        continue
                    k += 1
                    out.append(Case('tf-%d%d-%s-%s' % (nb, na, form, a0), from_tf, dict(witnesses=1, cost=na), nb=nb, na=na, a0=a0, zeros=(), form=form, how=hows[k % 3]))
                if na == nb > 1:
                    k += 1
                    out.append(Case('tf-%d%d-%s-z' % (nb, na, form), from_tf, dict(witnesses=1, cost=na), nb=nb, na=na, a0='one', zeros=(('b', 0), ('a', na - 1)), form=form, how=hows[k % 3]))
    for nb, na in ((3, 3), (2, 4), (4, 2)):
        for a0 in ('int', 'int1', 'intn', 'intd'):
            for form in ('none', 'default', 'ctrl', 'obs'):
                k += 1
                out.append(Case('%s-%d%d-%s' % (a0, nb, na, form), from_tf, dict(witnesses=1, cost=na), nb=nb, na=na, a0=a0, zeros=(), form=form, how=hows[k % 3]))
    for n, p, q in lti.sizes(2 if q_ else 3, 2, 2):
        for reduced in (False, True):
            if reduced and n == 1:
                continue
            k += 1
            out.append(Case('balanced-%d%d%d%s' % (n, p, q, '-reduced' if reduced else ''), balanced, dict(witnesses=1, cost=n), n=n, p=p, q=q, how=hows[k % 3], reduced=reduced))
    for j, (n, p, q) in enumerate(((5, 2, 3), (4, 1, 1), (6, 3, 1))):
        for form in ('none', 'ctrl', 'obs')[:3 if p * q == 1 else 1]:
            out.append(Case('large-ss-%d%d%d-%s' % (n, p, q, form), from_ss, dict(witnesses=1, cost=5, sparse=(11, 40, j)), n=n, p=p, q=q, form=form, how=hows[j % 3], stable=bool(j % 2),
                            **({} if form == 'none' else dict(rel=None))))
    for j, (nb, na) in enumerate(((8, 8), (3, 9), (9, 2), (6, 7))):
        for form in ('none', 'default', 'ctrl', 'obs'):
            out.append(Case('large-tf-%d%d-%s' % (nb, na, form), from_tf, dict(witnesses=1, cost=5, sparse=(6, 40, j)), nb=nb, na=na, a0=('one', 'free')[j % 2], zeros=(), form=form, how=hows[j % 3]))
    for p, q in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for s in (None, False, True):
            out.append(Case('accept-%d%d-%s' % (p, q, s), accept, dict(witnesses=1), p=p, q=q, stable=s))
    for f in ('', 'bal', 'CTRL', 'controllable', 0, False):
        out.append(Case('wrong-%r' % f, wrong, dict(witnesses=1), form=f))
    return out
