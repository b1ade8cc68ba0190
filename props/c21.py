"""C21: names of variables"""
from fractions import Fraction
from symfx.harness import Case

TECHNIQUE = 'symbolic execution of VarName with symbolic indices and time shifts; the texts become z3 string terms (literals and decimal numerals) and z3 decides equality and distinctness'
BOUNDS = 'indices 1..9999, time shifts -9999..9999 (sums of two shifts included), 0..8 (quick) / 0..24 (thorough) variables in a list; names t, x, u, y and given names'
ASSUMPTIONS = ['names given by the user contain letters only (digits in them could make two names alike)', 'pylatexenc.utf8tolatex is the real library (concrete names)']


def z(env, text):
    """z3 string of a printed text"""
    import re
    from symfx import sym as S
    parts, pos = [], 0
    for m in re.finditer(r'_sym(\d+)_+', text):
        if m.start() > pos:
            parts.append(S.z3.StringVal(text[pos:m.start()]))
        v = S.token_value(int(m.group(1)))
        parts.append(S.z3.IntToStr(S.z3.ToInt(S.cur().z_rf(v._r))))
        pos = m.end()
    if pos < len(text):
        parts.append(S.z3.StringVal(text[pos:]))
    if not parts:
        return S.z3.StringVal('')
    return S.z3.Concat(*parts) if len(parts) > 1 else parts[0]


def same(env, a, b):
    """condition: the two texts are equal"""
    if not env.symbolic:
        return a == b
    if '_sym' not in a and '_sym' not in b:
        return a == b
    import re
    from symfx import sym as S
    T = re.compile(r'_sym(\d+)_+')
    # same literals, numerals between characters that are not digits: equal iff the numbers
    # (not negative: the sign is printed apart) are equal
    la, lb = T.split(a)[::2], T.split(b)[::2]
    if la == lb and not any(x[-1:].isdigit() for x in la[:-1]) and not any(x[:1].isdigit() for x in la[1:]) and all(la[1:-1]):
        va, vb = ([S.token_value(int(m)) for m in T.findall(x)] for x in (a, b))
        if all(S.cur().check(S.zbool(v < 0)) == S.z3.unsat for v in va + vb):
            return env.both(*[x == y for x, y in zip(va, vb)])
    return S.mkbool(z(env, a) == z(env, b))


def dec(env, v):
    return '%d' % v if not env.symbolic or isinstance(v, int) else _dec(v)


def _dec(v):
    from symfx import sym as S
    return S.token(v)


def timed(env, total):
    if total == 0:
        return '(k)'
    if total > 0:
        return '(k+%s)' % dec(env, total)
    return '(k-%s)' % dec(env, -total)


def expected(env, name, index, total, withTime, latex):
    s = name
    if index is not None:
        s += '_{%s}' % dec(env, index) if latex else dec(env, index)
    if withTime:
        s += timed(env, total)
    return '$%s$' % s if latex else s


def shift(env, surname, hasindex, latex, withSurname):
    V = env.mod('fixif.SoP').VarName
    i = env.int('i', 1, 9999) if hasindex else None
    j = env.int('j', 1, 9999) if hasindex else None
    own = env.int('own', -4000, 4000)
    a, b = env.int('a', -4000, 4000), env.int('b', -4000, 4000)
    v = V('x', i, surname, j, own) if surname is not None else V('x', i)
    if withSurname and surname is not None:
        nm, ind, off = surname, j, own
    elif withSurname:
        nm, ind, off = 'x', None, 0
        v = V('x', None)
    else:
        nm, ind, off = 'x', i, 0
    kw = dict(withSurname=withSurname, LaTeX=latex)
    ta, tb = v.toStr(shift=a, **kw), v.toStr(shift=b, **kw)
    env.check('text of the variable', same(env, ta, expected(env, nm, ind, off + a, True, latex)), info=lambda: ta)
    # two times, two texts
    eq = same(env, ta, tb)
    env.check('same time iff same text', env.both(env.implies(eq, a == b), env.implies(a == b, eq)))
    t0 = v.toStr(withTime=False, shift=a, **kw)
    env.check('text without time', same(env, t0, expected(env, nm, ind, 0, False, latex)), info=lambda: t0)
    env.check('default time', same(env, v.toStr(**kw), v.toStr(withTime=True, shift=0, suffix='', **kw)))
    env.check('name', v.name == 'x')


def distinct(env, r1, r2, m1, m2, latex, time):
    """two variables of a realization in one notation (role: name, time shift, suffix)"""
    V = env.mod('fixif.SoP').VarName
    i = env.int('i', 1, 9999) if m1 else None
    j = env.int('j', 1, 9999) if m2 else None
    (n1, s1, p1), (n2, s2, p2) = r1, r2
    ta = V(n1, i).toStr(withTime=time, shift=s1, suffix=p1, LaTeX=latex)
    tb = V(n2, j).toStr(withTime=time, shift=s2, suffix=p2, LaTeX=latex)
    eq = same(env, ta, tb)
    if r1 == r2:
        if m1 and m2:
            env.check('different variables, different texts', env.both(env.implies(eq, i == j), env.implies(i == j, eq)), info=lambda: '%s %s' % (ta, tb))
    else:
        env.check('different variables, different texts', env.neg(eq), info=lambda: '%s %s' % (ta, tb))


def generate(env, nb, how):
    G = env.mod('fixif.SoP').generateNames
    S = None
    if how == 'str':
        S = ['ab' + 'c' * k for k in range(nb)]
    elif how == 'tuple':
        S = [('v', env.int('i%d' % k, 1, 9999), env.int('s%d' % k, -50, 50)) for k in range(nb)]
    elif how == 'noindex':
        S = [('v' + 'w' * k, None, env.int('s%d' % k, -50, 50)) for k in range(nb)]
    L = G('x', nb) if S is None else G('x', nb, surnames=S)
    env.check('number of names', len(L) == nb)
    for latex in (False, True):
        for time in (False, True):
            T = [v.toStr(withTime=time, LaTeX=latex) for v in L]
            env.check('names are distinct', len(set(T)) == nb, info=lambda: str(T))
            for k, t in enumerate(T):
                env.check('text of the variable', same(env, t, expected(env, 'x', k + 1 if nb > 1 else None, 0, time, latex)), info=lambda: t)
        for k, v in enumerate(L):
            env.check('name', v.name == 'x')
            t = v.toStr(withSurname=True, LaTeX=latex)
            if S is None:
                e = expected(env, 'x', k + 1 if nb > 1 else None, 0, True, latex)
            elif how == 'str':
                e = expected(env, S[k], None, 0, True, latex)
            else:
                e = expected(env, S[k][0], S[k][1], S[k][2], True, latex)
            env.check('text of the given name', same(env, t, e), info=lambda: t)


def wrong(env, nb):
    G = env.mod('fixif.SoP').generateNames
    for k in range(nb + 3):
        if k != nb:
            env.raises('wrong number of names', ValueError, G, 'x', nb, ['a'] * k)
            env.raises('wrong number of names', ValueError, G, 'x', nb, [('a', None, 0)] * k)


def sop(env, n):
    """a sum of products: as many names as constants"""
    S = env.mod('fixif.SoP').SoP
    c = env.reals('c', n)
    for k in range(n + 3):
        if k != n:
            env.raises('wrong number of names', ValueError, S, c, ['v%d' % i for i in range(k)], 'r')


def cases(tier):
    q_ = tier == 'quick'
    out = []
    o = lambda: dict(textsign=True, witnesses=2, query_ms=30000, branch_ms=4000)
    for surname in (None, 'v', 'zeta'):
        for hasindex in (False, True):
            for latex in (False, True):
                for ws in (False, True):
                    out.append(Case('shift-%s-%d%d%d' % (surname, hasindex, latex, ws), shift, o(), surname=surname, hasindex=hasindex, latex=latex, withSurname=ws))
    for time in (False, True):
        roles = [('t', 1, ''), ('x', 0, ''), ('x', 1, 'p'), ('u', 0, ''), ('y', 0, '')] + ([('x', 1, '')] if time else [])
        for a in range(len(roles)):
            for b in range(a, len(roles)):
                for m1 in (False, True):
                    for m2 in (False, True):
                        if roles[a][0] == roles[b][0] and m1 != m2 or (a == b and not m1):
                            continue        # one realization: either one variable or several
                        for latex in (False, True):
                            out.append(Case('distinct-%s%d%s-%s%d%s-%d%d-%d%d' % (roles[a] + roles[b] + (m1, m2, latex, time)), distinct, o(),
                                            r1=roles[a], r2=roles[b], m1=m1, m2=m2, latex=latex, time=time))
    for nb in range(9 if q_ else 25):
        for how in ('default', 'str', 'tuple', 'noindex'):
            if nb > 3 and how in ('tuple', 'noindex') and (q_ or nb > 6):
                continue
            out.append(Case('generate-%d-%s' % (nb, how), generate, dict(o(), max_paths=20000), nb=nb, how=how))
        out.append(Case('wrong-%d' % nb, wrong, o(), nb=nb))
        out.append(Case('sop-%d' % nb, sop, o(), n=nb))
    return out
