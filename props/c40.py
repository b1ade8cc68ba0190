"""C40: the descriptions of a filter agree"""
from fractions import Fraction
from symfx.harness import Case
from props import lti, sifs, c09

BOUNDS = ('transfer functions of 1..3 (quick) / 1..5 (thorough) coefficients of any lengths (leading denominator coefficient not null), state spaces of order 1..2 (quick) / 1..3 (thorough) with up to '
          '2 inputs and outputs; every way to build the filter; the views asked in every order; implicit-form realizations with up to 2 intermediate variables and states')
ASSUMPTIONS = ['double arithmetic modelled over the reals',
               'scipy.signal.ss2tf and tf2ss are the textbook conversions; scipy.linalg.solve_discrete_lyapunov returns a solution of its equation']


def tfgrid(env, T):
    num, den = env.grid(T.num), env.grid(T.den)
    return [v for r in num for v in r], [v for r in den for v in r]


def view(env, F, what, ref, K):
    """the response of one description"""
    if what == 'dSS':
        lti.eqresp(env, 'response of the state space', lti.response(env, F.dSS, K), ref)
    elif what == 'dTF':
        num, den = tfgrid(env, F.dTF)
        env.eq('leading coefficient of the denominator', den[0], Fraction(1))
        env.eqs('response of the transfer function', list(zip(lti.tf_response(num, den, K), [r[0][0] for r in ref])))
    elif what == 'twice':
        env.check('the same object is given again', F.dSS is F.dSS and (not F.isSISO() or F.dTF is F.dTF))


def facts(env, F, order, p, q, name, stable):
    env.check('order', F.order == order, info=lambda: 'order %s instead of %s' % (F.order, order))
    env.check('single input and output', bool(F.isSISO()) == (p == q == 1))
    env.check('numbers of outputs and inputs', (F.p, F.q) == (p, q))
    env.check('name', F.name == name and repr(F) == name)
    env.check('stability as declared', bool(F.isStable()) == bool(stable))
    env.check('not a Butterworth filter', not F.isButter())


def from_tf(env, nb, na, how, seq):
    L = env.mod('fixif.LTI')
    num = env.reals('b', nb)
    den = [env.real('a0', nz=True)] + [env.real('a%d' % i) for i in range(1, na)]
    env.assume(den[0] != 0)
    en, ed = [env.ex(v) for v in num], [env.ex(v) for v in den]
    stable = {'list': None, 'arr': True, 'tf': False}[how]
    if how == 'list':
        F = L.Filter(num=list(num), den=list(den), name='f1')
    elif how == 'arr':
        F = L.Filter(num=env.nparr(num), den=env.nparr(den), name='f1', stable=True)
    else:
        T = L.dTF(env.nparr(num), env.nparr(den))
        F = L.Filter(tf=T, name='f1', stable=False)
        env.check('the transfer function given is kept', F.dTF is T)
    n = max(nb, na) - 1
    K = 2 * n + 2
    ref = [[[h]] for h in lti.tf_response(en, ed, K)]
    facts(env, F, n, 1, 1, 'f1', stable)
    for w in seq:
        view(env, F, w, ref, K)
        facts(env, F, n, 1, 1, 'f1', stable)


def from_ss(env, n, p, q, how, seq):
    L = env.mod('fixif.LTI')
    S, M = lti.dss(env, n, p, q)
    if how == 'ss':
        F = L.Filter(ss=S, name='g', stable=True)
        env.check('the state space given is kept', F.dSS is S)
    else:
        F = L.Filter(A=S.A, B=S.B, C=S.C, D=S.D, name='g')
    stable = how == 'ss'
    K = 2 * n + 2
    ref = lti.markov(*M, K)
    facts(env, F, n, p, q, 'g', stable)
    for w in seq:
        if w == 'dTF' and not p == q == 1:
            env.raises('transfer function of several inputs or outputs', ValueError, lambda: F.dTF)
            continue
        view(env, F, w, ref, K)
        facts(env, F, n, p, q, 'g', stable)
    lti.same_system(env, 'matrices of the filter unchanged', F.dSS, M)


def incomplete(env):
    L = env.mod('fixif.LTI')
    x = env.real('x')
    m = env.npmat([[x]])
    full = dict(num=[1.0], den=[1.0, x], A=m, B=m, C=m, D=m)
    for keys in ((), ('num',), ('den',), ('A',), ('A', 'B', 'C'), ('B', 'C', 'D'), ('A', 'B', 'D', 'num'), ('C', 'D', 'den')):
        env.raises('incomplete description (%s)' % ', '.join(keys), ValueError, lambda: L.Filter(**{k: full[k] for k in keys}))
    bad = env.npmat([[x, 1.0]])
    for k in 'ABCD':
        env.raises('inconsistent sizes (%s)' % k, Exception, lambda: L.Filter(**dict({y: m for y in 'ABCD'}, **{k: bad})))


def realization(env, size, kind, order):
    """descriptions of an implicit-form realization"""
    l, n, p, q = size
    SIF = env.mod('fixif.SIF').SIF
    g = sifs.blocks(env, l, n, p, q, kind)
    R = SIF(sifs.args(env, g, l, n, p, q))
    c09.lyap(env)
    for step in range(2):
        S = R.dSS
        M = [env.grid(x) for x in (R.AZ, R.BZ, R.CZ, R.DZ)]
        lti.same_system(env, 'state space of the realization', S, M)
        for w in order:
            if w == 'Wo':
                c09.gram_ok(env, 'observability gramian of the realization', S, R.Wo, True)
            elif w == 'Wc':
                c09.gram_ok(env, 'reachability gramian of the realization', S, R.Wc, False)
            elif w == 'dTF':
                if p == q == 1:
                    num, den = tfgrid(env, R.to_dTF())
                    env.eqs('response of the transfer function of the realization',
                            list(zip(lti.tf_response(num, den, 2 * n + 1), [r[0][0] for r in lti.markov(*M, 2 * n + 1)])))
                else:
                    env.raises('transfer function of several inputs or outputs', ValueError, R.to_dTF)
        if step == 0:
            s = env.reals('s', p, n)
            R.R = env.npmat(s)
            g = dict(g, R=s)


def cases(tier):
    q_ = tier == 'quick'
    out = []
    o = dict(witnesses=1, candidates=4)
    seqs = [('dSS', 'dTF'), ('dTF', 'dSS', 'twice'), ('dSS', 'dSS', 'dTF', 'dTF')]
    N = 3 if q_ else 5
    k = 0
    for nb in range(1, N + 1):
        for na in range(1, N + 1):
            for how in ('list', 'arr', 'tf'):
                k += 1
                out.append(Case('tf-%d-%d-%s' % (nb, na, how), from_tf, dict(o, cost=max(nb, na)), nb=nb, na=na, how=how, seq=seqs[k % 3]))
    out.append(Case('large-tf', from_tf, dict(o, cost=5, sparse=(3, 30, 1)), nb=8, na=7, how='list', seq=seqs[0]))
    for n in range(1, 3 if q_ else 4):
        for p in (1, 2):
            for q in (1, 2):
                for how in ('ss', 'mat'):
                    k += 1
                    out.append(Case('ss-%d%d%d-%s' % (n, p, q, how), from_ss, dict(o, cost=n), n=n, p=p, q=q, how=how, seq=seqs[k % 3]))
    out.append(Case('large-ss', from_ss, dict(o, cost=5, sparse=(4, 30, 1)), n=5, p=1, q=1, how='ss', seq=seqs[1]))
    out.append(Case('incomplete', incomplete, o))
    for j, size in enumerate([(0, 1, 1, 1), (1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 2), (1, 1, 2, 2)]):
        order = [('Wo', 'Wc', 'dTF'), ('dTF', 'Wc', 'Wo')][j % 2]
        out.append(Case('sif-%d%d%d%d' % size, realization, dict(o, cost=4), size=size, kind='unit', order=order))
    return out
