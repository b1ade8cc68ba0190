"""C23: Direct Form II"""
from symfx.harness import Case
from props import structs, c22

BOUNDS = c22.BOUNDS
ASSUMPTIONS = c22.ASSUMPTIONS


def dfii(env, nb, na, a0, zeros, options, how):
    F, num, den = structs.tf(env, None, nb, na, a0, zeros)
    st = env.mod('fixif.Structures')
    if how == 'call':
        R = st.DFII(F, **options)
    elif how == 'make':
        R = st.DFII.makeRealization(F, **options)
    else:
        R = env.mod('fixif.Structures.Structure').makeARealization(F, 'DFII', **options)
    structs.siso(env, R, num, den)
    env.check('filter of the realization', R.filter is F)
    env.check('number of states', R.n == max(na, nb, 2) - 1)


def mimo(env, p, q):
    from props import lti
    S, M = lti.dss(env, 1, p, q)
    F = env.mod('fixif.LTI').Filter(ss=S)
    env.check('accepts single input and output only', env.mod('fixif.Structures').DFII.canAcceptFilter(F) == (p == q == 1))


def cases(tier):
    out = []
    OPT = [{}, dict(transposed=False), dict(transposed=True)]
    for k, (nb, na, a0, z) in enumerate(c22.shapes(tier)):
        for j, o in enumerate(OPT):
            nm = '%d%d-%s-%s-%s' % (nb, na, a0, ''.join('%s%d' % x for x in z), ''.join('%s%d' % (a[0], b) for a, b in o.items()))
            out.append(Case('dfii-' + nm, dfii, dict(witnesses=1, cost=na), nb=nb, na=na, a0=a0, zeros=z, options=o, how=('call', 'make', 'name')[(k + j) % 3]))
    for k, (nb, na) in enumerate(((3, 3), (2, 4), (4, 2))):
        for a0 in ('int', 'int1', 'intn', 'intd'):
            for j, o in enumerate(OPT):
                out.append(Case('%s-%d%d-%s' % (a0, nb, na, ''.join('%s%d' % (a[0], b) for a, b in o.items())), dfii, dict(witnesses=1, cost=na), nb=nb, na=na, a0=a0, zeros=(), options=o, how=('call', 'make', 'name')[(k + j) % 3]))
    for k, (nb, na) in enumerate(((8, 8), (3, 9), (9, 2), (6, 7))):
        for j, o in enumerate(OPT):
            out.append(Case('large-%d%d-%s' % (nb, na, ''.join('%s%d' % (a[0], b) for a, b in o.items())), dfii, dict(witnesses=1, cost=na, sparse=(6, 40, k)), nb=nb, na=na,
                            a0=('one', 'free')[k % 2], zeros=(), options=o, how=('call', 'make', 'name')[(k + j) % 3]))
    for p, q in ((1, 1), (1, 2), (2, 1), (2, 2)):
        out.append(Case('accept-%d%d' % (p, q), mimo, dict(witnesses=1), p=p, q=q))
    return out
