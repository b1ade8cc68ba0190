"""C06: polynomial products"""
from fractions import Fraction
from symfx.harness import Case

BOUNDS = 'degrees 0..3 each (quick) / 0..6 (thorough), real and complex coefficients; root products up to 4 (quick) / 6 (thorough) roots, every excluded index'
ASSUMPTIONS = ['arithmetic modelled over the reals (rounding to the working precision ignored)']


def cplx(env, name, c):
    if c:
        return env.mp.mpc(env.mpf(name + 're'), env.mpf(name + 'im'))
    return env.mpf(name)


class C:
    """exact complex number of the oracle"""

    def __init__(self, re, im=Fraction(0)):
        self.re, self.im = re, im

    def __mul__(self, o):
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def __add__(self, o):
        return C(self.re + o.re, self.im + o.im)


def cx(env, v):
    return C(env.ex(v.real), env.ex(v.imag)) if hasattr(v, 'imag') else C(env.ex(v))


def conv(p, q):
    r = [C(Fraction(0)) for _ in range(len(p) + len(q) - 1)]
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = r[i + j] + a * b
    return r


def compare(env, label, c, r):
    if env.check(label + ': size', (int(c.rows), int(c.cols)) == (len(r), 1), info=lambda: '%dx%d' % (c.rows, c.cols)):
        got = [cx(env, c[i, 0]) for i in range(len(r))]
        env.eqs(label, [(x.re, y.re) for x, y in zip(got, r)] + [(x.im, y.im) for x, y in zip(got, r)])


def mult(env, dp, dq, cp, cq):
    p = [cplx(env, 'p%d' % i, cp) for i in range(dp + 1)]
    q = [cplx(env, 'q%d' % i, cq) for i in range(dq + 1)]
    P, Q = env.mpmat([[x] for x in p]), env.mpmat([[x] for x in q])
    r = env.mod('fixif.func_aux').mpf_poly_mult(P, Q)
    compare(env, 'product', r, conv([cx(env, x) for x in p], [cx(env, x) for x in q]))
    pairs = [(cx(env, P[i, 0]), cx(env, x)) for i, x in enumerate(p)] + [(cx(env, Q[i, 0]), cx(env, x)) for i, x in enumerate(q)]
    env.eqs('operands unchanged', [(a.re, b.re) for a, b in pairs] + [(a.im, b.im) for a, b in pairs])


def roots(env, n, c, j):
    p = [cplx(env, 'r%d' % i, c) for i in range(n)]
    f = env.mod('fixif.func_aux').mp_poly_product
    r = f(p) if j is None else f(p, j)
    e = [C(Fraction(1))]
    for i in range(n):
        if i != j:
            e = conv(e, [C(Fraction(1)), cx(env, p[i])])
    compare(env, 'product over roots', r, e)


def reject(env):
    fa = env.mod('fixif.func_aux')
    P = env.mpmat([[env.mpf('a')], [env.mpf('b')]])
    for name, bad in (('list', [1, 2]), ('None', None), ('scalar', env.mpf('c'))):
        env.raises('left ' + name, Exception, lambda: fa.mpf_poly_mult(bad, P))
        env.raises('right ' + name, Exception, lambda: fa.mpf_poly_mult(P, bad))


def cases(tier):
    q = tier == 'quick'
    N = 4 if q else 7
    out = [Case('reject', reject)]
    for dp in range(N):
        for dq in range(N):
            for cp, cq in ((0, 0), (1, 1), (1, 0), (0, 1)) if dp + dq < 6 else ((0, 0),):
                out.append(Case('mult-%d-%d%s%s' % (dp, dq, '-c' if cp else '', '-c' if cq else ''), mult, dict(witnesses=2), dp=dp, dq=dq, cp=cp, cq=cq))
    for n in range(1, 5 if q else 7):
        for c in (0, 1):
            for j in [None] + list(range(n)):
                out.append(Case('roots-%d%s-j%s' % (n, '-c' if c else '', j), roots, dict(witnesses=2), n=n, c=c, j=j))
    for k, (dp, dq) in enumerate(((9, 8), (2, 11), (12, 3), (0, 9), (7, 7))):
        for cp, cq in ((0, 0), (1, 1), (1, 0), (0, 1)):
            out.append(Case('large-mult-%d-%d%s%s' % (dp, dq, '-c' if cp else '', '-c' if cq else ''), mult, dict(witnesses=1, sparse=(3, 40, k)), dp=dp, dq=dq, cp=cp, cq=cq))
    for n in (6, 8):
        for c in (0, 1):
            for j in (None, 0, n - 2):
                out.append(Case('large-roots-%d%s-j%s' % (n, '-c' if c else '', j), roots, dict(witnesses=1, sparse=(4, 20, n)), n=n, c=c, j=j))
    return out
