"""C12: construction and normalisation of transfer functions"""
from fractions import Fraction
from symfx.harness import Case
from props import lti

BOUNDS = ('numerators and denominators of 1..4 (quick) / 1..6 (thorough) coefficients, independent lengths, row and column vectors, numpy (of integer type too) and multiprecision, '
          'leading denominator coefficient any non-zero value; working precisions 10, 53 for the rounding cases')
ASSUMPTIONS = ['double arithmetic modelled over the reals; multiprecision divisions exact, or value*(1+d), |d| <= 2^-prec in the rounding cases']


def coeffs(env, kind, ln, ld, one, ints=''):
    """ints: 'n' and/or 'd': coefficients of integer type"""
    inum, iden = lti.intcoeffs(ln, ld, one)
    f = env.real if kind == 'np' else env.mpf
    num = [f('n%d' % i) for i in range(ln)]
    d0 = f('d0', nz=True) if not one else (1.0 if kind == 'np' else env.mp.mpf(1))
    den = [d0] + [f('d%d' % i) for i in range(1, ld)]
    return inum if 'n' in ints else num, iden if 'd' in ints else den


def vec(env, kind, v, col):
    g = [[x] for x in v] if col else [v]
    return env.npmat(g) if kind == 'np' else env.mpmat(g)


def flat(env, M):
    return [x for r in env.grid(M) for x in r]


def double(env, ln, ld, one, how, ints=''):
    num, den = coeffs(env, 'np', ln, ld, one, ints)
    n, d = [env.ex(x) for x in num], [env.ex(x) for x in den]
    if how == 'mat':
        N, D = env.npmat([num]), env.npmat([den])
    elif how == 'arr':
        N, D = env.nparr(num), env.nparr(den)
    else:
        N, D = list(num), list(den)
    H = env.mod('fixif.LTI').dTF(N, D)
    gn, gd = env.grid(H.num), env.grid(H.den)
    env.check('vectors', len(gn) == 1 and len(gd) == 1)
    env.eq('leading denominator coefficient', gd[0][0], Fraction(1))
    K = ln + ld + 1
    env.eqs('response', list(zip(lti.tf_response(gn[0], gd[0], K), lti.tf_response(n, d, K))))
    if how == 'mat':
        env.eqm('numerator of the caller unchanged', N, [n])
        env.eqm('denominator of the caller unchanged', D, [d])
    m = max(ln, ld) - 1
    env.check('order', H.order == m)
    G = H.to_dTFmp()
    env.check('order', G.order == m)
    env.eq('to_dTFmp: leading denominator coefficient', flat(env, G.den)[0], Fraction(1))
    env.eqs('to_dTFmp: response', list(zip(lti.tf_response(flat(env, G.num), flat(env, G.den), K), lti.tf_response(n, d, K))))


def multi(env, ln, ld, one, kind, cn, cd, ints=''):
    num, den = coeffs(env, kind, ln, ld, one, ints)
    n, d = [env.ex(x) for x in num], [env.ex(x) for x in den]
    N, D = vec(env, kind, num, cn), vec(env, kind, den, cd)
    H = env.mod('fixif.LTI').dTFmp(N, D)
    gn, gd = flat(env, H.num), flat(env, H.den)
    env.check('column vectors', env.shape(H.num)[1] == 1 and env.shape(H.den)[1] == 1)
    env.eq('leading denominator coefficient', gd[0], Fraction(1))
    K = ln + ld + 1
    env.eqs('response', list(zip(lti.tf_response(gn, gd, K), lti.tf_response(n, d, K))))
    env.eqs('numerator of the caller unchanged', list(zip(flat(env, N), n)))
    env.eqs('denominator of the caller unchanged', list(zip(flat(env, D), d)))
    env.check('order', H.order == max(ln, ld) - 1)
    if kind == 'np':
        G = H.to_dTF()
        env.eqs('to_dTF: response', list(zip(lti.tf_response(flat(env, G.num), flat(env, G.den), K), lti.tf_response(n, d, K))))


def rounding(env, ln, ld, prec, one):
    num, den = coeffs(env, 'mp', ln, ld, one)
    n, d = [env.ex(x) for x in num], [env.ex(x) for x in den]
    N, D = vec(env, 'mp', num, True), vec(env, 'mp', den, True)
    H = env.mod('fixif.LTI').dTFmp(N, D)
    gn, gd = flat(env, H.num), flat(env, H.den)
    env.eq('leading denominator coefficient', gd[0], Fraction(1))
    u = Fraction(1, 2 ** prec)
    for lab, got, ref in (('numerator', gn, n), ('denominator', gd, d)):
        env.check('length of the %s' % lab, len(got) >= len(ref))
        env.eqs('%s completed with zeros' % lab, [(g, Fraction(0)) for g in got[len(ref):]])
        for g, r in zip(got, ref):
            e = g * d[0] - r
            if one:
                env.eq('%s exact when the leading coefficient is 1' % lab, e, Fraction(0))
            else:
                env.check('%s rounded to the working precision or better' % lab, env.both(env.le(e * e, u * u * r * r)))
    env.eqs('numerator of the caller unchanged', list(zip(flat(env, N), n)))
    env.eqs('denominator of the caller unchanged', list(zip(flat(env, D), d)))


def reject(env, kind):
    cls = env.mod('fixif.LTI').dTF if kind == 'dTF' else env.mod('fixif.LTI').dTFmp
    k = 'mp' if kind == 'dTFmp' else 'np'
    f = env.real if k == 'np' else env.mpf
    for ln in (1, 2, 3):
        num = [f('n%d%d' % (ln, i)) for i in range(ln)]
        den = [0.0 if k == 'np' else env.mp.mpf(0)] + [f('d%d%d' % (ln, i), nz=True) for i in range(1, ln)]
        env.raises('zero leading denominator coefficient', Exception, lambda: cls(vec(env, k, num, False), vec(env, k, den, False)))
    M = [[f('m%d%d' % (i, j), nz=True) for j in range(2)] for i in range(2)]
    M = env.npmat(M) if k == 'np' else env.mpmat(M)
    v = vec(env, k, [f('v0', nz=True), f('v1')], False)
    env.raises('numerator is not a vector', Exception, lambda: cls(M, v))
    env.raises('denominator is not a vector', Exception, lambda: cls(v, M))
    if kind != 'dTF':
        for name, x in (('None', None), ('list', [1.0, 2.0]), ('str', 'abc')):
            env.raises('numerator given as %s' % name, Exception, lambda: cls(x, v))
            env.raises('denominator given as %s' % name, Exception, lambda: cls(v, x))


def cases(tier):
    q = tier == 'quick'
    out = []
    R = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)
    for ln in R:
        for ld in R:
            for one in (0, 1):
                for how in ('mat', 'arr', 'list'):
                    if how != 'mat' and (ln != ld or ln == 1):
                        continue
                    out.append(Case('double-%d%d-%d-%s' % (ln, ld, one, how), double, dict(witnesses=1, bc=53), ln=ln, ld=ld, one=one, how=how))
                for kind in ('mp', 'np'):
                    for cn, cd in ((0, 0), (1, 1), (0, 1), (1, 0)):
                        if q and (ln + ld) % 2 and cn != cd:
                            continue
                        out.append(Case('multi-%d%d-%d-%s-%d%d' % (ln, ld, one, kind, cn, cd), multi, dict(witnesses=1, bc=53), ln=ln, ld=ld, one=one, kind=kind, cn=cn, cd=cd))
    for ints in ('n', 'd', 'nd'):
        for ln, ld in ((2, 3), (3, 3), (1, 2), (3, 1)):
            for one in (0, 1):
                s = 'int-%s-%d%d-%d' % (ints, ln, ld, one)
                for how in ('mat', 'arr', 'list'):
                    out.append(Case('%s-double-%s' % (s, how), double, dict(witnesses=1, bc=53), ln=ln, ld=ld, one=one, how=how, ints=ints))
                out.append(Case(s + '-multi', multi, dict(witnesses=1, bc=53), ln=ln, ld=ld, one=one, kind='np', cn=0, cd=ln % 2, ints=ints))
    for k, (ln, ld) in enumerate(((7, 8), (9, 2), (2, 9), (1, 7), (6, 6))):
        for one in (0, 1):
            o = dict(witnesses=1, bc=53, sparse=(5, 40, k))
            out.append(Case('large-double-%d%d-%d' % (ln, ld, one), double, o, ln=ln, ld=ld, one=one, how='mat'))
            for kind in ('mp', 'np'):
                out.append(Case('large-multi-%d%d-%d-%s' % (ln, ld, one, kind), multi, o, ln=ln, ld=ld, one=one, kind=kind, cn=k % 2, cd=ln % 2))
    for prec in (10, 53):
        for ln, ld in ((1, 1), (2, 2), (2, 3), (3, 2)) + (() if q else ((4, 4),)):
            for one in (0, 1):
                out.append(Case('rounding-%d%d-%d-p%d' % (ln, ld, one, prec), rounding, dict(rounding='delta', exact=True, prec=prec, witnesses=1, candidates=4, cost=3),
                                ln=ln, ld=ld, prec=prec, one=one))
    for kind in ('dTF', 'dTFmp', 'dTFmp-np'):
        out.append(Case('reject-' + kind, reject, kind=kind))
    return out
