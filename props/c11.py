"""C11: transfer function arithmetic"""
from fractions import Fraction
from symfx.harness import Case
from props import lti

BOUNDS = ('numerators and denominators of 1..3 (quick) / 1..5 (thorough) coefficients, all four lengths independent, arbitrary coefficients '
          '(zero leading coefficients included, leading denominator coefficient non-zero); impulse responses compared on as many samples as the orders need; '
          'chains of two operations; integer coefficients (integer matrices) for one operand or both')
ASSUMPTIONS = ['double arithmetic modelled over the reals']


def tf(env, ln, ld, pre, ints=''):
    """ints: 'a' ('A' with a leading denominator coefficient of 1): transfer function 'a' is given by matrices of integers"""
    num = env.reals(pre + 'n', ln)
    den = [env.real(pre + 'd0', nz=True)] + [env.real('%sd%d' % (pre, i)) for i in range(1, ld)]
    if pre in ints.lower():
        num, den = lti.intcoeffs(ln, ld, pre not in ints, ord(pre))
    H = env.mod('fixif.LTI').dTF(env.npmat([num]), env.npmat([den]))
    return H, [env.ex(x) for x in num], [env.ex(x) for x in den]


def get(env, H):
    n, d = env.grid(H.num), env.grid(H.den)
    env.check('vectors', len(n) == 1 and len(d) == 1)
    env.eq('leading denominator coefficient is 1', d[0][0], Fraction(1))
    return n[0], d[0]


def resp(env, H, K):
    return lti.tf_response(*get(env, H), K)


def conv(a, b):
    return [sum((a[i] * b[k - i] for i in range(k + 1)), Fraction(0)) for k in range(len(a))]


def binary(env, op, l1, l2, ints=''):
    H1, n1, d1 = tf(env, *l1, 'a', ints)
    H2, n2, d2 = tf(env, *l2, 'b', ints)
    K = max(l1[0] + l2[1], l1[1] + l2[0], l1[1] + l2[1], l1[0] + l2[0])
    r1, r2 = lti.tf_response(n1, d1, K), lti.tf_response(n2, d2, K)
    if op == '*':
        H, ref = H1 * H2, conv(r1, r2)
    elif op == '+':
        H, ref = H1 + H2, [x + y for x, y in zip(r1, r2)]
    else:
        H, ref = H1 - H2, [x - y for x, y in zip(r1, r2)]
    check(env, 'H1 %s H2' % op, H, ref, K)
    check(env, 'left operand unchanged', H1, r1, K)
    check(env, 'right operand unchanged', H2, r2, K)


def check(env, label, H, ref, K):
    env.eqs(label, list(zip(resp(env, H, K), ref)))


def scalar(env, op, l, kind, neg=False, ints=''):
    H1, n1, d1 = tf(env, *l, 'a', ints)
    s = env.int('s', -5, 5) if kind == 'int' else env.real('s')
    e = env.ex(s)
    K = l[0] + l[1] + 1
    r = lti.tf_response(n1, d1, K)
    imp = [e] + [Fraction(0)] * K
    if op == 'neg':
        H, ref = -H1, [-x for x in r]
    elif op == '*':
        H, ref = H1 * s, [x * e for x in r]
    elif op == 'r*':
        H, ref = s * H1, [x * e for x in r]
    elif op == '+':
        H, ref = H1 + s, [x + y for x, y in zip(r, imp)]
    elif op == 'r+':
        H, ref = s + H1, [x + y for x, y in zip(r, imp)]
    elif op == '-':
        H, ref = H1 - s, [x - y for x, y in zip(r, imp)]
    elif op == 'r-':
        H, ref = s - H1, [y - x for x, y in zip(r, imp)]
    check(env, op, H, ref, K)
    check(env, 'operand unchanged', H1, r, K)


def chain(env, ops):
    """H1 op1 H2 op2 H3 on first order transfer functions"""
    Hs, rs = [], []
    K = 7
    for i in range(3):
        H, n, d = tf(env, 2, 2, 'abc'[i])
        Hs.append(H)
        rs.append(lti.tf_response(n, d, K))
    H, r = Hs[0], rs[0]
    for o, G, s in zip(ops, Hs[1:], rs[1:]):
        if o == '*':
            H, r = H * G, conv(r, s)
        elif o == '+':
            H, r = H + G, [x + y for x, y in zip(r, s)]
        else:
            H, r = H - G, [x - y for x, y in zip(r, s)]
    check(env, 'chain %s' % ops, H, r, K)


def foreign(env):
    H, _, _ = tf(env, 2, 2, 'a')
    for name, v in (('str', 'x'), ('None', None), ('list', [1, 2]), ('dict', {})):
        env.raises('H*%s' % name, Exception, lambda: H * v)
        env.raises('H+%s' % name, Exception, lambda: H + v)
        env.raises('H-%s' % name, Exception, lambda: H - v)
        env.raises('%s*H' % name, Exception, lambda: v * H)
        env.raises('%s+H' % name, Exception, lambda: v + H)
        env.raises('%s-H' % name, Exception, lambda: v - H)


def cases(tier):
    q = tier == 'quick'
    out = []
    R = (1, 2, 3) if q else (1, 2, 3, 4)
    for op in '+-*':
        for a in R:
            for b in R:
                for c in R:
                    for d in R:
                        if q and sorted((a, b, c, d)) not in ([1, 1, 1, 1], [2, 2, 2, 2], [3, 3, 3, 3], [1, 1, 2, 2], [2, 2, 3, 3], [1, 1, 2, 3], [1, 2, 2, 3]):
                            continue
                        out.append(Case('tf%s-%d%d-%d%d' % (op, a, b, c, d), binary, dict(witnesses=1, cost=a + b + c + d), op=op, l1=(a, b), l2=(c, d)))
    if not q:
        for op in '+-*':
            out.append(Case('tf%s-55-55' % op, binary, dict(witnesses=1, cost=30), op=op, l1=(5, 5), l2=(5, 5)))
    for k, (a, b, c, d) in enumerate(((7, 6, 5, 8), (1, 8, 7, 2), (9, 2, 1, 6), (5, 5, 5, 5), (3, 9, 9, 3))):
        for op in '+-*':
            out.append(Case('large%s-%d%d-%d%d' % (op, a, b, c, d), binary, dict(witnesses=1, cost=8, sparse=(6, 40, k)), op=op, l1=(a, b), l2=(c, d)))
        for op in ('neg', '*', 'r*', '+', 'r+', '-', 'r-'):
            out.append(Case('large-%s-%d%d' % (op, a, b), scalar, dict(witnesses=1, sparse=(6, 40, k)), op=op, l=(a, b), kind='float'))
    for ints in ('a', 'A', 'b', 'B', 'ab', 'AB', 'aB'):
        for op in '+-*':
            for a, b, c, d in ((2, 3, 3, 2), (3, 2, 1, 2), (1, 1, 2, 2)):
                out.append(Case('int-%s%s-%d%d-%d%d' % (ints, op, a, b, c, d), binary, dict(witnesses=1), op=op, l1=(a, b), l2=(c, d), ints=ints))
        if ints in 'aA':
            for op in ('neg', '*', 'r*', '+', 'r+', '-', 'r-'):
                for l in ((2, 3), (3, 2)):
                    for kind in ('int', 'float'):
                        out.append(Case('int-%s%s-%s-%d%d' % (ints, op, kind, *l), scalar, dict(witnesses=1), op=op, l=l, kind=kind, ints=ints))
    for op in ('neg', '*', 'r*', '+', 'r+', '-', 'r-'):
        for l in [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)]:
            for kind in ('int', 'float'):
                out.append(Case('tf-%s-%s-%d%d' % (op, kind, *l), scalar, dict(witnesses=1), op=op, l=l, kind=kind))
    for ops in ('++', '+*', '*+', '-*', '*-', '--', '**', '-+'):
        out.append(Case('chain' + ops, chain, dict(witnesses=1, cost=9), ops=ops))
    out.append(Case('foreign', foreign))
    return out
