"""Sparse multivariate polynomials and rational functions over Q.

Monomials are packed exponent vectors (12 bits per variable) in a Python int, so the
product of monomials is an integer addition.  A polynomial is a dict monomial -> coeff
(int or Fraction, never 0).  Rational functions keep their denominator factored.
"""
from fractions import Fraction
from math import gcd

W = 12
MASK = (1 << W) - 1
MAXTERMS = 400000


class TooBig(BaseException):
    """an expression outgrew the bound of the engine (reported as inconclusive)"""


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Space:
    """variables, reduction rules (algebraic variables) and denominator factors of one path"""

    def __init__(self):
        self.names = []
        self.rules = {}        # var index -> (poly of var^2)
        self.rulemask = 0
        self.factors = []      # fid -> poly
        self.fkey = {}

    def var(self, name):
        self.names.append(name)
        return len(self.names) - 1


# ---------------------------------------------------------------- polynomials
def p_const(c):
    c = norm(c)
    return {0: c} if c else {}


def p_var(i):
    return {1 << (W * i): 1}


def p_add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: norm(c * k) for m, c in a.items()}


def p_mul(a, b, sp=None):
    if not a or not b:
        return {}
    if len(a) == 1 and 0 in a:
        return p_scale(b, a[0])
    if len(b) == 1 and 0 in b:
        return p_scale(a, b[0])
    if len(a) * len(b) > 40 * MAXTERMS:
        raise TooBig("polynomial product of %d x %d terms" % (len(a), len(b)))
    r = {}
    get = r.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    r = {m: norm(c) for m, c in r.items() if c}
    if len(r) > MAXTERMS:
        raise TooBig("polynomial with %d terms" % len(r))
    if sp is not None and sp.rules:
        r = p_reduce(r, sp)
    return r


def p_reduce(a, sp):
    """apply v^2 -> rule(v) until no monomial has an exponent >= 2 of a rule variable"""
    work = a
    while True:
        out = {}
        again = {}
        for m, c in work.items():
            hit = None
            if m & sp.rulemask:
                for v in sp.rules:
                    e = (m >> (W * v)) & MASK
                    if e >= 2:
                        hit = v
                        break
            if hit is None:
                out[m] = c
            else:
                again[m] = (c, hit)
        if not again:
            return work if work is a else out
        for m, (c, v) in again.items():
            base = m - (2 << (W * v))
            for mr, cr in sp.rules[v].items():
                k = base + mr
                s = out.get(k, 0) + c * cr
                if s:
                    out[k] = s
                else:
                    out.pop(k, None)
        work = out


def p_subst(a, sub, mask, sp=None):
    """a with the variables of sub (index -> polynomial without these variables) replaced"""
    out = {}
    pw = {}
    hit = False
    for m, c in a.items():
        if not m & mask:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        hit = True
        t = None
        mm = m
        for i, q in sub.items():
            e = (m >> (W * i)) & MASK
            if e:
                mm -= e << (W * i)
                if (i, e) not in pw:
                    r = q
                    for _ in range(e - 1):
                        r = p_mul(r, q, sp)
                    pw[i, e] = r
                t = pw[i, e] if t is None else p_mul(t, pw[i, e], sp)
        for k, v in t.items():
            k += mm
            v = out.get(k, 0) + v * c
            if v:
                out[k] = v
            else:
                out.pop(k, None)
        if len(out) > MAXTERMS:
            raise TooBig('substitution')
    if not hit:
        return a
    out = {m: norm(c) for m, c in out.items()}
    return p_reduce(out, sp) if sp is not None and sp.rules else out


def p_solve(n, avoid=0):
    """a variable that occurs once in n, to the first power and alone in its monomial: (index, value) such that n = 0"""
    cand = []
    for m, c in n.items():
        if m and not m & (m - 1) and (m.bit_length() - 1) % W == 0:
            i = (m.bit_length() - 1) // W
            if sum(1 for k in n if (k >> (W * i)) & MASK) == 1:
                cand.append((i, m, c))
    if not cand:
        return None
    i, m, c = max(cand)
    return i, {k: norm(Fraction(-v) / c) for k, v in n.items() if k != m}


def p_content(a):
    """positive rational c such that a/c has coprime integer coefficients"""
    g, l = 0, 1
    for c in a.values():
        if type(c) is Fraction:
            l = l * c.denominator // gcd(l, c.denominator)
    for c in a.values():
        v = c * l
        g = gcd(g, int(v))
    return Fraction(g, l)


def p_divexact(a, b):
    """a/b if b divides a, else None (lexicographic order on packed monomials)"""
    if not a:
        return {}
    lb = max(b)
    cb = b[lb]
    rest = [(m, c) for m, c in b.items() if m != lb]
    if not rest:
        q = {}
        for m, c in a.items():
            if not mono_div(m, lb):
                return None
            q[m - lb] = norm(Fraction(c) / cb)
        return q
    r = dict(a)
    q = {}
    import heapq
    heap = [-m for m in r]
    heapq.heapify(heap)
    limit = 4 * len(a) * max(1, len(b)) + 1000
    while heap:
        la = -heapq.heappop(heap)
        c = r.pop(la, None)
        if c is None:
            continue
        if not mono_div(la, lb):
            return None
        k = norm(Fraction(c) / cb)
        mq = la - lb
        q[mq] = k
        for m, cc in rest:
            t = mq + m
            old = r.get(t)
            if old is None:
                r[t] = -k * cc
                heapq.heappush(heap, -t)
            else:
                v = old - k * cc
                if v:
                    r[t] = norm(v)
                else:
                    del r[t]
        limit -= 1
        if limit < 0:
            return None
    return q


def mono_div(a, b):
    """does monomial b divide monomial a (fieldwise a >= b)?"""
    while b:
        if (a & MASK) < (b & MASK):
            return False
        a >>= W
        b >>= W
    return True


def p_vars(a):
    s = set()
    acc = 0
    for m in a:
        acc |= m
    i = 0
    while acc:
        if acc & MASK:
            s.add(i)
        acc >>= W
        i += 1
    return s


def p_eval(a, val):
    tot = 0
    for m, c in a.items():
        t = c
        i = 0
        while m:
            e = m & MASK
            if e:
                t = t * val[i] ** e
            m >>= W
            i += 1
        tot += t
    return tot


# ---------------------------------------------------------------- rational functions
class RF:
    __slots__ = ("n", "d", "sp")

    def __init__(self, n, d, sp):
        self.n = n          # numerator polynomial
        self.d = d          # tuple of (fid, exp) sorted
        self.sp = sp

    @staticmethod
    def const(c, sp):
        return RF(p_const(c), (), sp)

    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def value(self):
        return self.n.get(0, 0)

    def denpoly(self):
        p = {0: 1}
        for f, e in self.d:
            for _ in range(e):
                p = p_mul(p, self.sp.factors[f], self.sp)
        return p

    def add(self, o):
        sp = self.sp
        if self.d == o.d:
            return RF(p_add(self.n, o.n), self.d, sp)._cancel()
        da, db = dict(self.d), dict(o.d)
        na, nb = self.n, o.n
        out = {}
        for f in set(da) | set(db):
            ea, eb = da.get(f, 0), db.get(f, 0)
            m = max(ea, eb)
            out[f] = m
            for _ in range(m - ea):
                na = p_mul(na, sp.factors[f], sp)
            for _ in range(m - eb):
                nb = p_mul(nb, sp.factors[f], sp)
        return RF(p_add(na, nb), tuple(sorted(out.items())), sp)._cancel()

    def neg(self):
        return RF(p_neg(self.n), self.d, self.sp)

    def mul(self, o):
        sp = self.sp
        if not self.n or not o.n:
            return RF({}, (), sp)
        if not self.d and not o.d:
            return RF(p_mul(self.n, o.n, sp), (), sp)
        d = dict(self.d)
        for f, e in o.d:
            d[f] = d.get(f, 0) + e
        na, nb = self.n, o.n
        # cancel before multiplying
        na, d = _cancel_poly(na, d, sp)
        nb, d = _cancel_poly(nb, d, sp)
        return RF(p_mul(na, nb, sp), tuple(sorted(d.items())), sp)

    def _cancel(self):
        if not self.n:
            return RF({}, (), self.sp)
        if not self.d:
            return self
        n, d = _cancel_poly(self.n, dict(self.d), self.sp)
        return RF(n, tuple(sorted(d.items())), self.sp)

    def inv(self):
        """1/self (self.n must be nonzero as a polynomial)"""
        sp = self.sp
        n = {0: 1}
        for f, e in self.d:
            for _ in range(e):
                n = p_mul(n, sp.factors[f], sp)
        p = self.n
        c = p_content(p)
        lead = p[max(p)]
        if lead < 0:
            c = -c
        p = p_scale(p, Fraction(1) / c)
        n = p_scale(n, Fraction(1) / c)
        d = {}
        # monomial content
        g = None
        for m in p:
            g = m if g is None else mono_gcd(g, m)
        if g:
            p = {m - g: c2 for m, c2 in p.items()}
            i, gg = 0, g
            while gg:
                e = gg & MASK
                if e:
                    f = factor_id(p_var(i), sp)
                    d[f] = d.get(f, 0) + e
                gg >>= W
                i += 1
        if len(p) == 1 and 0 in p:
            n = p_scale(n, Fraction(1) / p[0])
        else:
            # try the known factors first
            if frozenset(p.items()) not in sp.fkey:
                for fid, fp in enumerate(sp.factors):
                    if len(fp) == 1:
                        continue
                    while len(p) > 1:
                        q = p_divexact(p, fp)
                        if q is None:
                            break
                        p = q
                        d[fid] = d.get(fid, 0) + 1
                if len(p) == 1 and 0 in p:
                    n = p_scale(n, Fraction(1) / p[0])
                    p = None
            if p is not None:
                f = factor_id(p, sp)
                d[f] = d.get(f, 0) + 1
        return RF(n, tuple(sorted(d.items())), sp)._cancel()

    def div(self, o):
        return self.mul(o.inv())


def mono_gcd(a, b):
    r, s = 0, 0
    while a and b:
        r |= min(a & MASK, b & MASK) << s
        a >>= W
        b >>= W
        s += W
    return r


def factor_id(p, sp):
    k = frozenset(p.items())
    f = sp.fkey.get(k)
    if f is None:
        f = len(sp.factors)
        sp.factors.append(p)
        sp.fkey[k] = f
    return f


def _cancel_poly(n, d, sp):
    for f in list(d):
        fp = sp.factors[f]
        while d.get(f, 0):
            if len(fp) > len(n) * 4 and len(n) < len(fp):
                break
            q = p_divexact(n, fp)
            if q is None:
                break
            n = q
            d[f] -= 1
            if not d[f]:
                del d[f]
    return n, d
