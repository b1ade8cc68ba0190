"""helpers for the structured realizations"""
import re
from fractions import Fraction
from props import lti, sifs


def tf(env, n, nb, na=None, a0='free', zeros=(), pre=''):
    """a SISO filter from a symbolic transfer function: nb numerator and na denominator coefficients"""
    na = n + 1 if na is None else na
    num = [0.0 if ('b', i) in zeros else env.real('%sb%d' % (pre, i)) for i in range(nb)]
    den = [0.0 if ('a', i) in zeros else env.real('%sa%d' % (pre, i)) for i in range(na)]
    if a0 == 'one':
        den[0] = 1.0
    else:
        den[0] = env.real('%sa0' % pre, nz=True)
        env.assume(den[0] != 0)
    if a0.startswith('int'):
        # coefficients of integer type: all of them ('int', 'int1': leading denominator coefficient 1), or the numerator ('intn'), the denominator ('intd')
        inum, iden = lti.intcoeffs(nb, na, a0 == 'int1')
        num, den = num if a0 == 'intd' else inum, den if a0 == 'intn' else iden
    F = env.mod('fixif.LTI').Filter(num=num, den=den)
    return F, [env.ex(v) for v in num], [env.ex(v) for v in den]


def blocks(env, R):
    return {X: env.grid(getattr(R, X)) for X in sifs.NAMES}


def response(env, R, K, traj=None):
    """impulse response by the implicit equations, and the form of the realization"""
    l, n, p, q = R.size
    e = blocks(env, R)
    D = sifs.dims(l, n, p, q)
    for X in sifs.NAMES:
        env.check('sizes of the blocks', all(D[X]) is False or tuple(env.shape(getattr(R, X))) == D[X])
    for X in sifs.NAMES:
        r, c = D[X]
        if not (r and c):
            e[X] = [[Fraction(0)] * c for _ in range(r)]
    ok = env.eqs('J is unit lower-triangular', [(e['J'][i][j], Fraction(int(i == j))) for i in range(l) for j in range(i, l)])
    if not ok:
        return None
    H = [[[None] * q for _ in range(p)] for _ in range(K + 1)]
    dot = lambda r, v: sum((a * b for a, b in zip(r, v)), Fraction(0))
    for j in range(q):
        x = [Fraction(0)] * n
        for k in range(K + 1):
            u = [Fraction(int(i == j and k == 0)) for i in range(q)]
            t = []
            for i in range(l):
                t.append(dot(e['M'][i], x) + dot(e['N'][i], u) - dot(e['J'][i][:i], t))
            y = [dot(e['L'][i], t) + dot(e['R'][i], x) + dot(e['S'][i], u) for i in range(p)]
            if traj is not None:
                traj.append((u, t, x, y))
            x = [dot(e['K'][i], t) + dot(e['P'][i], x) + dot(e['Q'][i], u) for i in range(n)]
            for i in range(p):
                H[k][i][j] = y[i]
    return H


def surnames(env, R, traj, K):
    """the variables given the name of another signal have its value"""
    T, X = getattr(R, '_varNameT', None), getattr(R, '_varNameX', None)
    if T is None or X is None:
        return
    sig = {'u': lambda k: traj[k][0][0], 'y': lambda k: traj[k][3][0]}

    def parse(v, shift):
        m = re.match(r'^([A-Za-z_]+)(\d*)\(k([+-]\d+)?\)$', v.toStr(withTime=True, withSurname=True, shift=shift))
        return (m.group(1), int(m.group(3) or 0)) if m and not m.group(2) else (None, 0)
    for i, v in enumerate(T):
        s, sh = parse(v, 1)
        if s == 't':
            continue
        if s in sig:
            env.eqs('intermediate variable %d is %s' % (i, s), [(traj[k][1][i], sig[s](k + sh)) for k in range(K + 1) if 0 <= k + sh <= K])
        elif s is not None:
            sig[s] = lambda k, i=i, sh=sh: traj[k - sh][1][i]
            env.check('time of %s' % s, sh == 0)
    for i, v in enumerate(X):
        s, sh = parse(v, 0)
        if s in sig:
            env.eqs('state %d is %s(k%+d)' % (i, s, sh), [(traj[k][2][i], sig[s](k + sh) if k + sh >= 0 else Fraction(0)) for k in range(K + 1) if k + sh <= K])


def siso(env, R, num, den, extra=0):
    """the realization has the transfer function num/den"""
    l, n, p, q = R.size
    env.check('one input, one output', (p, q) == (1, 1))
    K = n + max(len(num), len(den)) + extra
    traj = []
    H = response(env, R, K, traj)
    if H is None:
        return
    surnames(env, R, traj, K)
    h = [m[0][0] for m in H]
    # den * h = num, for all the samples that matter (two systems of orders n and m are equal
    # when their first n+m+1 samples are)
    pairs = []
    for k in range(K + 1):
        s = sum((den[i] * h[k - i] for i in range(min(k, len(den) - 1) + 1)), Fraction(0))
        pairs.append((s, num[k] if k < len(num) else Fraction(0)))
    env.eqs('impulse response', pairs)
