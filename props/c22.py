"""C22: Direct Form I"""
from symfx.harness import Case
from props import structs

BOUNDS = 'orders 0..3 (quick) / 0..8 (thorough), numerators and denominators of different degrees and leading or trailing zeros included, any non-zero leading denominator coefficient (normalised for the highest orders); all coefficients symbolic; every option; numerators and/or denominators of integer type'
ASSUMPTIONS = ['double arithmetic modelled over the reals (the constructions only copy and negate; numpy.linalg.inv of a permutation is exact)',
               'responses compared on n + order + 1 samples, which decides equality for these orders']


def dfi(env, nb, na, a0, zeros, options, how):
    F, num, den = structs.tf(env, None, nb, na, a0, zeros)
    st = env.mod('fixif.Structures')
    if how == 'call':
        R = st.DFI(F, **options)
    elif how == 'make':
        R = st.DFI.makeRealization(F, **options)
    else:
        R = env.mod('fixif.Structures.Structure').makeARealization(F, 'DFI', **options)
    structs.siso(env, R, num, den)
    env.check('filter of the realization', R.filter is F)
    o = dict(options)
    if options.get('nbSum', 1) == 1:
        env.check('one sum', R.l == 1)
    else:
        env.check('two sums', R.l == 2)


def wrong(env, v):
    F, num, den = structs.tf(env, None, 2, 2)
    env.raises('wrong number of sums', ValueError, env.mod('fixif.Structures').DFI, F, nbSum=v)


def mimo(env, p, q):
    from props import lti
    S, M = lti.dss(env, 1, p, q)
    F = env.mod('fixif.LTI').Filter(ss=S)
    env.check('accepts single input and output only', env.mod('fixif.Structures').DFI.canAcceptFilter(F) == (p == q == 1))


def shapes(tier):
    q_ = tier == 'quick'
    out = []
    for na in range(1, 5 if q_ else 10):
        for nb in sorted({1, 2, na - 1, na, na + 1, na + 2} & set(range(1, 5 if q_ else 10))):
            for a0 in ('free', 'one'):
                if a0 == 'free' and na > (3 if q_ else 5):
                    continue
                out.append((nb, na, a0, ()))
        if na > 1:
            out.append((na, na, 'one', (('b', 0),)))
            out.append((na, na, 'one', (('a', na - 1),)))
            out.append((na, na, 'one', (('b', na - 1), ('a', na - 1))))
    return out


def cases(tier):
    out = []
    OPT = [dict(nbSum=s, transposed=t) for s in (1, 2) for t in (False, True)] + [{}, dict(nbSum=2), dict(transposed=True)]
    for k, (nb, na, a0, z) in enumerate(shapes(tier)):
        for j, o in enumerate(OPT):
            if len(o) < 2 and na > 3:
                continue
            nm = '%d%d-%s-%s-%s' % (nb, na, a0, ''.join('%s%d' % x for x in z), ''.join('%s%d' % (a[0], b) for a, b in o.items()))
            out.append(Case('dfi-' + nm, dfi, dict(witnesses=1, cost=na), nb=nb, na=na, a0=a0, zeros=z, options=o, how=('call', 'make', 'name')[(k + j) % 3]))
    for k, (nb, na) in enumerate(((3, 3), (2, 4), (4, 2))):
        for a0 in ('int', 'int1', 'intn', 'intd'):
            for j, o in enumerate(OPT):
                out.append(Case('%s-%d%d-%s' % (a0, nb, na, ''.join('%s%d' % (a[0], b) for a, b in o.items())), dfi, dict(witnesses=1, cost=na), nb=nb, na=na, a0=a0, zeros=(), options=o, how=('call', 'make', 'name')[(k + j) % 3]))
    for k, (nb, na) in enumerate(((8, 8), (3, 9), (9, 2), (6, 7))):
        for j, o in enumerate(OPT):
            out.append(Case('large-%d%d-%s' % (nb, na, ''.join('%s%d' % (a[0], b) for a, b in o.items())), dfi, dict(witnesses=1, cost=na, sparse=(6, 40, k)), nb=nb, na=na,
                            a0=('one', 'free')[k % 2], zeros=(), options=o, how=('call', 'make', 'name')[(k + j) % 3]))
    for v in (0, 3, -1):
        out.append(Case('wrong-%d' % v, wrong, dict(witnesses=1), v=v))
    for p, q in ((1, 1), (1, 2), (2, 1), (2, 2)):
        out.append(Case('accept-%d%d' % (p, q), mimo, dict(witnesses=1), p=p, q=q))
    return out
