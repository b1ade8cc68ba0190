"""C42: values handed to other tools"""
import re
import sys
import types
from fractions import Fraction
from symfx.harness import Case
from props import sifs, c05, c20

BOUNDS = ('matrices up to 1x2 and 2x1 (thorough: 2x2), and up to 4x3 with a part of the entries being constants; multiprecision entries with odd mantissa below 2^12 and exponent in [-6,6] (thorough: 2^24 and [-12,12]), and 13 exponents from -3000 to 1500 (60-bit mantissas), either sign, and zero; transfer functions of 1..3 (4) '
          'coefficients; realizations with up to 2 intermediate variables, states, inputs and outputs, 2 coefficients of any value at a time')
ASSUMPTIONS = ['Sollya (not installed) is replaced by a stand-in: integers, powers of two, products and polynomials are exact',
               'the mpf structure (sign, odd mantissa, exponent, bit count) is modelled as mpmath documents it',
               'a format that rounds denotes one value per coefficient (the rounding asked for); float.hex is exact']


class Sol:
    """number of the stand-in: y * 2^n"""

    def __new__(cls, y, n=0):
        if isinstance(y, Sol):
            return y
        return object.__new__(cls)

    def __init__(self, y, n=0):
        if not isinstance(y, Sol):
            self.y, self.n = y, n

    def __mul__(self, o):
        if isinstance(o, Pow):
            return Sol(self.y, o.n if isinstance(self.n, int) and self.n == 0 else self.n + o.n)
        if isinstance(o, SPoly):
            return o * self
        return NotImplemented
    __rmul__ = __mul__

    def __rpow__(self, base):
        if base != 2:
            raise ValueError('power of %r' % (base,))
        return Pow(self.y)

    def __float__(self):
        raise TypeError('a Sollya object is not a float')


class Pow:
    """2^n"""

    def __init__(self, n): self.n = n


class SPoly:
    def __init__(self, d): self.d = d
    def __pow__(self, n): return SPoly({n * k: v for k, v in self.d.items()})

    def __mul__(self, o):
        if not isinstance(o, Sol):
            return NotImplemented
        return SPoly({k: o for k in self.d})
    __rmul__ = __mul__

    def __add__(self, o):
        if not isinstance(o, SPoly):
            if isinstance(o, int) and o == 0:
                return self
            return NotImplemented
        if set(self.d) & set(o.d):
            raise ValueError('the same power twice')
        return SPoly(dict(self.d, **{}) | o.d)
    __radd__ = __add__


class Rounded:
    """value rounded by the stand-in to the precision of a double (exact here)"""

    def __init__(self, v): self.v = v
    def __float__(self): return self.v


def stand_in(env):
    m = types.ModuleType('sollya')
    m.RN, m.RU, m.RD = 'RN', 'RU', 'RD'
    m.SollyaObject = Sol
    m._x_ = SPoly({1: Sol(1)})
    m.horner = lambda p: p
    sys.modules['sollya'] = m
    for n in ('fixif.LTI.dTF', 'fixif.LTI.dTFmp'):
        g = env.mod(n)
        if hasattr(g, 'sollya'):
            g.sollya = m
    return m


def number(env, label, a, s, R):
    """the Sollya number s is a"""
    if not env.check(label + ': a Sollya number', isinstance(s, Sol)):
        return
    if isinstance(s.n, int) and s.n == 0:
        env.eq(label, env.ex(s.y), env.ex(a))
    else:
        c05.lossless(env, label, a, s.y, s.n, R)


def matrix(env, how, m, n, R):
    stand_in(env)
    g = env.mpfs('a', m, n)
    A = env.mpmat(g, n)
    if how == 'class':
        S, r, c = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(A).to_sollya()
    else:
        S, r, c = env.mod('fixif.func_aux').mpf_matrix_to_sollya(A)
    env.check('sizes', (r, c, len(S)) == (m, n, m * n))
    for i in range(m):
        for j in range(n):
            number(env, 'entry (row by row)', g[i][j], S[i * n + j], R)
    env.eqm('source unchanged', A, g)


def reject(env):
    stand_in(env)
    f = env.mod('fixif.func_aux').mpf_matrix_to_sollya
    C = env.mpmat([[1, 2]])
    C[0, 0] = env.mp.mpc(env.mpf('r'), env.mpf('i'))
    for name, bad in (('numpy matrix', env.npmat([[env.real('x')]])), ('list', [1]), ('None', None), ('complex matrix', C)):
        env.raises('rejects a ' + name, ValueError, f, bad)
    I = env.mpmat([[1, 2], [3, 4]])
    I[1, 0] = env.mp.mpf('inf')
    env.raises('rejects an infinite entry', ValueError, f, I)


def back(env, m, n):
    """list of Sollya numbers to numpy"""
    s = stand_in(env)
    g = env.reals('a', m, n)
    calls = []

    def rnd(x, prec, mode):
        calls.append((prec, mode))
        return x
    s.round = rnd
    L = [v for r in g for v in r]
    B = env.mod('fixif.func_aux').sollya_matrix_to_numpy(L, m, n)
    env.eqm('entries', B, g)
    env.check('rounded to the nearest double', all(c == (53, 'RN') for c in calls) and len(calls) == m * n)


def poly(env, label, P, coefs, R):
    if isinstance(P, Sol):
        P = SPoly({0: P})
    if not env.check(label + ': a polynomial', isinstance(P, SPoly)):
        return
    env.check(label + ': powers', set(P.d) <= set(range(len(coefs))), info=lambda: str(sorted(P.d)))
    for k, c in enumerate(coefs):
        number(env, '%s: coefficient of x^k' % label, c, P.d.get(k, Sol(0)), R)


def transfer(env, nb, na, mp, R):
    stand_in(env)
    L = env.mod('fixif.LTI')
    if mp:
        num = env.mpfs('b', nb)
        den = [env.mp.mpf(1)] + [env.mpf('a%d' % i) for i in range(1, na)]
        T = L.dTFmp(env.mpmat([[v] for v in num]), env.mpmat([[v] for v in den]))
    else:
        num, den = env.reals('b', nb), [1.0] + env.reals('a', na)[1:]
        T = L.dTF(env.nparr(num), env.nparr(den))
    for when in ('', ' (asked again)'):
        P, Q = T.to_Sollya()
        k = max(nb, na)
        poly(env, 'numerator' + when, P, list(num) + [Fraction(0)] * (k - nb), R)
        poly(env, 'denominator' + when, Q, list(den) + [Fraction(0)] * (k - na), R)


class Out:
    """file"""

    def __init__(self): self.t = ''
    def write(self, s): self.t = self.t + s


def hexfile(env, m, n, delim):
    g = env.reals('a', m, n)
    M = env.npmat(g)
    f = Out()
    env.mod('fixif.func_aux').write_matrix_hex(f, M, delim)
    rows = f.t.split('\n')
    env.check('one line per row', len(rows) == m + 1 and rows[m] == '')
    for i in range(m):
        cells = [c.strip() for c in rows[i].split(delim)]
        if not env.check('one text per entry', len(cells) == n + 1 and cells[n] == ''):
            continue
        for j in range(n):
            t = cells[j]
            env.eq('entry', c20.number(env, t.startswith('-'), t.lstrip('-')), env.ex(g[i][j]))
    env.eqm('source unchanged', M, g)


CELL = re.compile(r'(-?)(_sym\d+_+|\d+\.?\d*(?:[eE][-+]?\d+)?)$')


def picture(env, size, free, pat, sparse, fmt):
    """LaTeX matrix of the coefficients"""
    l, n, p, q = size
    g = c20_blocks(env, size, free, pat)
    R = env.mod('fixif.SIF').SIF(sifs.args(env, g, *size))
    kw = {} if sparse is None else {'sparse': sparse}
    t = R.getZtpmatrixLaTeX(**(kw if fmt is None else dict(kw, strFormat=fmt)))
    e = sifs.exact(env, g)
    Z = [[-x for x in e['J'][i]] + e['M'][i] + e['N'][i] for i in range(l)]
    Z += [e['K'][i] + e['P'][i] + e['Q'][i] for i in range(n)] + [e['L'][i] + e['R'][i] + e['S'][i] for i in range(p)]
    lines = re.findall(r'dashed\]\{(\d+)\}', t)
    s = max(l, 1)
    env.check('separators', [int(x) for x in lines] == [s, s + n, s, s + n])
    b = t[t.index('{}\n') + 3:t.index(r'\end{tpmatrix}')]
    rows = [[c.strip() for c in r.split(r'\&')] for r in b.strip().split('\\\\\n')]
    if l == 0:
        env.check('an empty first row', all(c == '' for c in rows[0]))
        env.check('an empty first column', all(r[0] == '' for r in rows[1:]))
        rows = [r[1:] for r in rows[1:]]
    if not env.check('sizes', [len(r) for r in rows] == [l + n + q] * (l + n + p), info=lambda: t):
        return
    f = fmt or '%.4g'
    for i in range(l + n + p):
        for j in range(l + n + q):
            c, v = rows[i][j], Z[i][j]
            zero = bool(v == 0)
            if c == '':
                env.check('only null coefficients are not shown', zero and sparse is not False)
                continue
            if not env.check('a number', bool(CELL.match(c)), info=lambda: repr(c)):
                continue
            got = c20.number(env, c.startswith('-'), c.lstrip('-'))
            if zero:
                env.check('null coefficients are shown when asked only', sparse is False)
            elif isinstance(v, Fraction):
                env.check('coefficient at its place', got == v or got == Fraction(f % float(v)))
            elif env.symbolic:
                # an integer is printed with %d, another value with the format
                env.check('coefficient at its place', env.either(got == v, got == c20.printed(env, f, v)))
            else:
                env.check('coefficient at its place', got in (v, Fraction((f % v).strip())))
    env.eqm('realization unchanged', R.Z, Z)


def c20_blocks(env, size, free, pat):
    """blocks with given coefficients; those numbered in `free` are any value"""
    D = sifs.dims(*size)
    k = 0
    g = {}
    for X in sifs.NAMES:
        r, c = D[X]
        B = []
        for i in range(r):
            row = []
            for j in range(c):
                if X == 'J' and i <= j:
                    row.append(float(i == j))
                    continue
                row.append(env.real('%s%d_%d' % (X, i, j), lo=-100, hi=100) if k in free else {'0': 0.0, '1': 1.0, '-': -1.0, 'h': 0.5 + k, 'i': 3.0 + k}[pat[k % len(pat)]])
                k += 1
            B.append(row)
        g[X] = B
    return g


def cases(tier):
    q = tier == 'quick'
    R, B = (6, 12) if q else (12, 24)
    o = dict(exact=True, manexp=R, manbits=B, witnesses=4, prec=53)
    out = [Case('reject', reject, o)]
    for how in ('free', 'class'):
        for m, n in ((1, 1), (1, 2), (2, 1)) if q else ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2)):
            out.append(Case('matrix-%s-%dx%d' % (how, m, n), matrix, dict(o, cost=5, max_paths=4000), how=how, m=m, n=n, R=R))
        for k, (m, n) in enumerate(((2, 3), (3, 2), (4, 3))):
            out.append(Case('large-%s-%dx%d' % (how, m, n), matrix, dict(o, cost=5, max_paths=4000, sparse=(3, 20, k)), how=how, m=m, n=n, R=R))
        out.append(Case('far-%s' % how, matrix, dict(o, cost=5, manexp=c05.FAR, manbits=60), how=how, m=1, n=2, R=c05.FAR))
    for m, n in ((1, 1), (2, 3), (3, 2)):
        out.append(Case('back-%dx%d' % (m, n), back, dict(witnesses=1), m=m, n=n))
    N = 2 if q else 3
    for nb in range(1, N + 1):
        for na in range(1, N + 1):
            out.append(Case('dTFmp-%d-%d' % (nb, na), transfer, dict(o, cost=5, max_paths=4000), nb=nb, na=na, mp=True, R=R))
    for nb in range(1, 5):
        for na in range(1, 5):
            out.append(Case('dTF-%d-%d' % (nb, na), transfer, dict(witnesses=1), nb=nb, na=na, mp=False, R=R))
    for m, n, d in ((1, 1, ' '), (2, 3, '\t'), (3, 2, ', ')):
        out.append(Case('hex-%dx%d' % (m, n), hexfile, dict(textsign=True, witnesses=2), m=m, n=n, delim=d))
    k = 0
    for size in [(0, 1, 1, 1), (0, 2, 2, 1), (1, 1, 1, 1), (2, 1, 1, 2), (1, 2, 1, 1), (2, 2, 2, 2)]:
        T = sum(r * c for r, c in sifs.dims(*size).values()) - size[0] * (size[0] + 1) // 2
        for f in range(0, T, 2):
            if q and T > 12 and f % 6:
                continue
            for sparse in (None, False):
                k += 1
                out.append(Case('picture-%d%d%d%d-%d-%s' % (size + (f, sparse)), picture, dict(textsign=True, witnesses=2, cost=2, max_paths=2000), size=size, free=(f, f + 1), pat=('0h1-i', 'h0-i01')[k % 2],
                                sparse=sparse, fmt=(None, '%.3f', '%e')[k % 3]))
    return out
