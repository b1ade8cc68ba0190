"""C13: transfer function to state space"""
from fractions import Fraction
from symfx.harness import Case
from props import lti

BOUNDS = ('orders 0..4 (quick) / 0..7 (thorough), all coefficients symbolic, leading denominator coefficient 1 or any non-zero value, '
          'numpy (of integer type too) and multiprecision coefficients; numerators and denominators of different lengths (1..3 / 1..5 coefficients each); working precisions 10, 53 for the rounding cases')
ASSUMPTIONS = ['double arithmetic modelled over the reals; in the rounding cases every rounding mpmath operation is value*(1+d), |d| <= 2^-prec',
               'scipy.signal.tf2ss (observable form) is the textbook companion realization of the (trimmed) fraction']


def uneven(env, ln, ld, what):
    """numerator and denominator of different lengths"""
    f = env.mpf if what == 'mp' else env.real
    num = [f('n%d' % i) for i in range(ln)]
    den = [f('d0', nz=True)] + [f('d%d' % i) for i in range(1, ld)]
    n, d = [env.ex(x) for x in num], [env.ex(x) for x in den]
    L = env.mod('fixif.LTI')
    if what in ('mp', 'np'):
        mk = env.npmat if what == 'np' else env.mpmat
        S = L.dTFmp(mk([num]), mk([den])).to_dSSmp()
    else:
        S = L.dTF(env.npmat([num]), env.npmat([den])).to_dSS(what)
    K = ln + ld + 4
    R = lti.response(env, S, K)
    env.check('SISO', (S.p, S.q) == (1, 1))
    env.eqs('response', [(R[k][0][0], h) for k, h in enumerate(lti.tf_response(n, d, K))])


def coeffs(env, f, n, one, z, ints=''):
    """z leading numerator coefficients and z last denominator coefficients are zero"""
    num = [0.0 if i < z else f('n%d' % i) for i in range(n + 1)]
    d0 = 1.0 if one else f('d0', nz=True)
    den = [d0] + [0.0 if i > n - z else f('d%d' % i) for i in range(1, n + 1)]
    inum, iden = lti.intcoeffs(n + 1, n + 1, one)
    return inum if 'n' in ints else num, iden if 'd' in ints else den


def double(env, n, form, one, z, ints=''):
    num, den = coeffs(env, env.real, n, one, z, ints)
    a, b = [env.ex(x) for x in num], [env.ex(x) for x in den]
    H = env.mod('fixif.LTI').dTF(env.npmat([num]), env.npmat([den]))
    S = H.to_dSS() if form == 'default' else H.to_dSS(form)
    env.check('SISO', (S.p, S.q) == (1, 1))
    K = 2 * n + 3
    R = lti.response(env, S, K)
    env.eqs('response', [(R[k][0][0], h) for k, h in enumerate(lti.tf_response(a, b, K))])
    env.eqs('transfer function unchanged', list(zip(lti.tf_response(env.grid(H.num)[0], env.grid(H.den)[0], K), lti.tf_response(a, b, K))))


def multi(env, n, one, kind, z, ints=''):
    f = env.real if kind == 'np' else env.mpf
    num, den = coeffs(env, f, n, one, z, ints)
    if kind == 'mp':
        num, den = [env.mp.mpf(x) if isinstance(x, float) else x for x in num], [env.mp.mpf(x) if isinstance(x, float) else x for x in den]
    mk = env.npmat if kind == 'np' else env.mpmat
    H = env.mod('fixif.LTI').dTFmp(mk([num]), mk([den]))
    gn, gd = [r[0] for r in env.grid(H.num)], [r[0] for r in env.grid(H.den)]
    S = H.to_dSSmp()
    env.check('SISO', (S.p, S.q) == (1, 1))
    env.check('order', S.n == n)
    K = 2 * n + 3
    R = lti.response(env, S, K)
    # exactly the response of the (normalised) fraction: no rounding in the conversion
    env.eqs('response', [(R[k][0][0], h) for k, h in enumerate(lti.tf_response(gn, gd, K))])
    env.eqs('transfer function unchanged', list(zip([r[0] for r in env.grid(H.num)] + [r[0] for r in env.grid(H.den)], gn + gd)))


def reject(env):
    H = env.mod('fixif.LTI').dTF(env.npmat([[env.real('a'), env.real('b')]]), env.npmat([[1.0, env.real('c')]]))
    for f in ('foo', '', None, 1, 'CTRL', 'controllable', 'obsv', 'ctr'):
        env.raises('form %r rejected' % (f,), ValueError, H.to_dSS, f)


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, (5 if q else 8)):
        for one in (0, 1):
            for z in range(0, min(n, 2) + 1):
                for form in ('ctrl', 'obs', 'default'):
                    if form == 'default' and (z or not one):
                        continue
                    if n > 5 and not one:
                        continue
                    out.append(Case('double-%d-%s-%d-z%d' % (n, form, one, z), double, dict(witnesses=1, cost=n), n=n, form=form, one=one, z=z))
                for kind in ('mp', 'np'):
                    if n > 5 and not one:
                        continue
                    out.append(Case('multi-%d-%s-%d-z%d' % (n, kind, one, z), multi, dict(witnesses=1, bc=53, cost=n), n=n, one=one, kind=kind, z=z))
    for ints in ('n', 'd', 'nd'):
        for n in (1, 2, 3):
            for one in (0, 1):
                s = 'int-%s-%d-%d' % (ints, n, one)
                for form in ('ctrl', 'obs', 'default'):
                    out.append(Case('%s-double-%s' % (s, form), double, dict(witnesses=1), n=n, form=form, one=one, z=0, ints=ints))
                out.append(Case(s + '-multi', multi, dict(witnesses=1, bc=53), n=n, one=one, kind='np', z=0, ints=ints))
    for k, n in enumerate((6, 8, 9)):
        for one in (0, 1):
            o = dict(witnesses=1, bc=53, cost=n, sparse=(5, 40, k))
            for form in ('ctrl', 'obs'):
                out.append(Case('large-double-%d-%s-%d' % (n, form, one), double, o, n=n, form=form, one=one, z=0))
            for kind in ('mp', 'np'):
                out.append(Case('large-multi-%d-%s-%d' % (n, kind, one), multi, o, n=n, one=one, kind=kind, z=0))
    for k, (ln, ld) in enumerate(((8, 5), (4, 9), (1, 7), (7, 2))):
        for what in ('ctrl', 'obs', 'mp', 'np'):
            out.append(Case('large-uneven-%d%d-%s' % (ln, ld, what), uneven, dict(witnesses=1, bc=53, sparse=(5, 40, k)), ln=ln, ld=ld, what=what))
    for ln in range(1, 4 if q else 6):
        for ld in range(1, 4 if q else 6):
            for what in ('ctrl', 'obs', 'mp', 'np'):
                if ln != ld:
                    out.append(Case('uneven-%d%d-%s' % (ln, ld, what), uneven, dict(witnesses=1, bc=53, cost=ln + ld), ln=ln, ld=ld, what=what))
    for prec in (10, 53):
        for n in (1, 2, 3) + (() if q else (4, 5)):
            for kind in ('mp', 'np'):
                out.append(Case('rounding-%d-%s-p%d' % (n, kind, prec), multi, dict(rounding='delta', exact=True, prec=prec, witnesses=1, candidates=4, cost=3),
                                n=n, one=1, kind=kind, z=0))
    out.append(Case('reject', reject))
    return out
