"""C25: rho Direct Form II transposed realizations"""
from fractions import Fraction
from symfx.harness import Case
from props import structs, lti

BOUNDS = ('orders 1..3 (quick) / 1..4 (thorough), all coefficients, gamma and Delta parameters symbolic (Delta non-zero; special values 0 and 1 as separate cases), '
          'numerators and denominators of different degrees, every option; coefficients and parameters of integer type')
ASSUMPTIONS = ['double arithmetic modelled over the reals (square roots exact)',
               'the scaled forms are checked for stable filters whose reachability gramian has a positive diagonal; the gramian is any positive matrix (solve_discrete_lyapunov at its contract)']

INF = {'exp': 12}


def params(env, n, kind, pre, nz):
    if kind == 'none':
        return None
    if kind == 'ones':
        return [1.0] * n
    if kind == 'int':
        return [(k + 1) % 2 for k in range(n)] if not nz else [2 - k % 2 for k in range(n)]
    if kind == 'zeros':
        return [0.0] * n
    v = [env.real('%s%d' % (pre, i), nz=nz) for i in range(n)]
    if kind == 'mix':
        v = [v[i] if i % 2 else (1.0 if nz else 0.0) for i in range(n)]
    for x in v:
        if nz and not isinstance(x, float):
            env.assume(x != 0)
    return v


def gramian(env):
    def solve(a, q, method=None):
        # any symmetric matrix with a positive diagonal
        k = env.shape(a)[0]
        X = [[None] * k for _ in range(k)]
        for i in range(k):
            for j in range(i, k):
                X[i][j] = X[j][i] = env.fresh('W%d%d' % (i, j), lo=Fraction(1, 64), hi=64) if i == j else env.fresh('W%d%d' % (i, j))
        return env.np.array(X)
    env.contract('scipy.linalg.solve_discrete_lyapunov', solve)


def rho(env, nb, na, a0, gamma, delta, form, scaling, tr, eq, how):
    if scaling.startswith('l2') and delta == 'none':
        # stable (the poles are less than 1 in modulus)
        num = [env.real('b%d' % i, lo=1, hi=2) for i in range(nb)]
        den = [1.0] + [env.real('a%d' % i, lo=Fraction(-1, 4 * na), hi=Fraction(1, 4 * na)) for i in range(1, na)]
        F = env.mod('fixif.LTI').Filter(num=num, den=den, stable=True)
        num, den = [env.ex(v) for v in num], [env.ex(v) for v in den]
    else:
        F, num, den = structs.tf(env, None, nb, na, a0)
    n = max(nb, na, 2) - 1
    o = {}
    g = params(env, n, gamma, 'g', False)
    d = params(env, n, delta, 'd', True)
    mk = {'mat': lambda v: env.npmat([v]), 'arr': lambda v: env.nparr([v]), 'list': lambda v: list(v), 'row': lambda v: env.nparr(v)}[form]
    if g is not None:
        o['gamma'] = mk(g)
    if d is not None:
        o['Delta'] = mk(d)
    if tr is not None:
        o['transposed'] = tr
    if eq is not None:
        o['equiv_dSS'] = eq
    if scaling != 'default':
        o['scaling'] = None if scaling == 'none' else scaling
    gramian(env)
    st = env.mod('fixif.Structures')
    if how == 'call':
        R = st.rhoDFII(F, **o)
    elif how == 'make':
        R = st.rhoDFII.makeRealization(F, **o)
    else:
        R = env.mod('fixif.Structures.Structure').makeARealization(F, 'rhoDFII', **o)
    env.check('filter of the realization', R.filter is F)
    env.check('number of states', R.n == n)
    if eq:
        env.check('a state space', R.l == 0)
    structs.siso(env, R, num, den)


def wrong(env, s):
    F = env.mod('fixif.LTI').Filter(num=[env.real('b0', lo=1, hi=2), env.real('b1', lo=1, hi=2)], den=[1.0, env.real('a1', lo=-0.25, hi=0.25)], stable=True)
    gramian(env)
    env.raises('unknown scaling', ValueError, env.mod('fixif.Structures').rhoDFII, F, scaling=s)


def accept(env, p, q, stable):
    S, M = lti.dss(env, 1, p, q)
    F = env.mod('fixif.LTI').Filter(ss=S, stable=stable)
    env.check('accepts stable filters with one input and one output', bool(env.mod('fixif.Structures').rhoDFII.canAcceptFilter(F)) == bool(p == q == 1 and stable))


def cases(tier):
    q_ = tier == 'quick'
    out = []
    hows = ('call', 'make', 'name')
    forms = ('mat', 'arr', 'list', 'row')
    c = 0
    OPT = [(t, e) for t in (True, False) for e in (False, True)] + [(None, None)]
    N = 5 if q_ else 6
    for na in range(1, N):
        for nb in range(1, N):
            n = max(na, nb, 2) - 1
            if n < 1 and c > 100 or (na != nb and n > 2 and q_):
                continue
            for gamma in ('none', 'ones', 'zeros', 'free', 'mix'):
                for delta in ('none', 'ones', 'free', 'mix'):
                    if n < 2 and 'mix' in (gamma, delta):
                        continue
                    for t, e in OPT:
                        c += 1
                        if t is None and (gamma != 'none' and delta != 'none'):
                            continue
                        if na != nb and (c % 3):
                            continue
                        a0 = 'free' if n < 3 and c % 2 else 'one'
                        nm = '%d%d-%s-%s-%s-%s%s' % (nb, na, a0, gamma, delta, t, e)
                        out.append(Case('rho-' + nm, rho, dict(witnesses=1, cost=na, branch_ms=1000), nb=nb, na=na, a0=a0, gamma=gamma, delta=delta, form=forms[c % 4],
                                        scaling=('default', 'none')[c % 2] if delta == 'none' else ('default', 'l2', 'none', 'l2-relaxed')[c % 4], tr=t, eq=e, how=hows[c % 3]))
            if na == nb:
                for s in ('l2', 'l2-relaxed'):
                    for t, e in OPT:
                        for gamma in ('none', 'free'):
                            c += 1
                            if q_ and gamma == 'free' and n > 1 and (t, e) not in ((True, False), (False, True)):
                                continue
                            out.append(Case('scaled-%d-%s-%s-%s%s' % (n, s, gamma, t, e), rho, dict(witnesses=1, cost=2 * na, branch_ms=500), nb=nb, na=na, a0='one', gamma=gamma, delta='none',
                                            form=forms[c % 4], scaling=s, tr=t, eq=e, how=hows[c % 3]))
    for nb, na in ((3, 3), (2, 4), (4, 2)):
        for a0, gamma, delta in (('int', 'int', 'int'), ('int1', 'int', 'none'), ('intn', 'free', 'int'), ('intd', 'int', 'free'), ('one', 'int', 'int'), ('one', 'int', 'free'), ('one', 'free', 'int')):
            for t, e in OPT[:4]:
                c += 1
                out.append(Case('%s-%d%d-%s-%s-%s%s' % (a0, nb, na, gamma, delta, t, e), rho, dict(witnesses=1, cost=na, branch_ms=1000), nb=nb, na=na, a0=a0, gamma=gamma, delta=delta,
                                form=forms[c % 4], scaling='none', tr=t, eq=e, how=hows[c % 3]))
    for k, (nb, na) in enumerate(((7, 7), (3, 6), (6, 2))):
        for gamma, delta in (('none', 'none'), ('free', 'ones'), ('zeros', 'free'), ('free', 'free')):
            for t, e in OPT[:4]:
                c += 1
                out.append(Case('large-%d%d-%s-%s-%s%s' % (nb, na, gamma, delta, t, e), rho, dict(witnesses=1, cost=5, branch_ms=1000, sparse=(9, 40, k)), nb=nb, na=na, a0='one', gamma=gamma, delta=delta,
                                form=forms[c % 4], scaling='none', tr=t, eq=e, how=hows[c % 3]))
    for s in ('', 'L2', 'l2relaxed', 1, True, 'none'):
        out.append(Case('wrong-%r' % s, wrong, dict(witnesses=1), s=s))
    for p, q in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for s in (None, False, True):
            out.append(Case('accept-%d%d-%s' % (p, q, s), accept, dict(witnesses=1), p=p, q=q, stable=s))
    return out
