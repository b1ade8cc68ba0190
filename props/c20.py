"""C20: algorithm text"""
import re
from fractions import Fraction
from symfx.harness import Case
from props import sifs
from props.c19 import flat, coefs

LEVEL = 'translation_validation'
TECHNIQUE = ('the text generator runs symbolically (coefficients 0, 1, -1 and of either sign are separate paths), each text is read back as assignments over symbolic inputs and '
             'states and z3 decides that it computes the equations')
BOUNDS = ('l = 0..2, n = 0..3, up to 2 inputs and 2 outputs (thorough: l, n up to 3 and 4); text and LaTeX, with and without time, default and given names, coefficients in hexadecimal or in '
          'a %-format; per case 2 (quick) / 3 (thorough) coefficients take any value incl. 0, 1, -1, the others follow a pattern of 0/1/-1/any other value of a fixed sign')
ASSUMPTIONS = ['a %-format that rounds denotes one value per coefficient (the rounding asked for); float.hex is exact',
               'printed numbers are shorter than 60 characters, except in the cases "long"']

NAME = r'[A-Za-z]\w*(?:\(k(?:[+-]\d+)?\))?'
TERM = re.compile(r'\s*(?:(?P<sign>[+-]?)(?P<num>_sym\d+_+|0x[0-9a-f.]+p[-+]?\d+|\d+\.?\d*(?:[eE][-+]?\d+)?)\s*(?:\*\s*(?P<v1>%s))?|(?P<s2>-?)(?P<v2>%s))\s*' % (NAME, NAME))


class BadText(Exception):
    pass


def number(env, sign, text):
    if text.startswith('_sym'):
        from symfx import sym as S
        v = env.ex(S.token_value(int(text[4:].rstrip('_'))))
    elif text.startswith('0x'):
        v = Fraction(float.fromhex(text))
    else:
        v = Fraction(text)
    return -v if sign else v


def printed(env, fmt, v):
    """value denoted by the printed coefficient"""
    if fmt is None:
        return env.ex(v)
    if not env.symbolic:
        return Fraction((fmt % v).strip())
    from symfx import npshim
    t = npshim.sym_format(fmt, v).strip()
    return number(env, t.startswith('-'), t[1:] if t[0] in '+-' else t)


def lines(text, arrow):
    """assignments: the text is wrapped, a new one starts at each line with an arrow"""
    out = []
    for l in text.split('\n'):
        l = l.strip()
        if not l or re.match(r'^/.*/$', l) or l.startswith('\\tcp'):
            continue
        if arrow in l:
            out.append(l)
        elif out:
            out[-1] += ' ' + l
        else:
            raise BadText('text before the first assignment: %r' % l)
    return [tuple(x.strip() for x in l.split(arrow)) for l in out]


def unlatex(text):
    b = text[text.index('\\Begin{') + 7:]
    b = b[:b.rindex('}\n\\end{algorithm}')]
    swap = 'x \\leftarrow xp' in b
    b = b.replace('$x \\leftarrow xp$', '').replace('$\\leftarrow$', '<-').replace('\\\\', '').replace('$', '')
    b = re.sub(r'_\{(\d+)\}(p?)', r'\1\2', b)
    b = re.sub(r'\\tcp\{[^}]*\}', '', b)
    return b, swap


def evaluate(env, rhs, val):
    """value of a sum of products"""
    tot, pos, first = Fraction(0), 0, True
    if not rhs:
        raise BadText('empty right-hand side')
    while pos < len(rhs):
        minus = False
        if not first:
            m = re.compile(r'\s*([+-])\s').match(rhs, pos)
            if not m:
                raise BadText('cannot read %r' % rhs[pos:])
            minus = m.group(1) == '-'
            pos = m.end()
        m = TERM.match(rhs, pos)
        if not m:
            raise BadText('cannot read %r' % rhs[pos:])
        pos = m.end()
        if m.group('num'):
            c = number(env, m.group('sign') == '-', m.group('num'))
            v = m.group('v1')
        else:
            c = Fraction(-1 if m.group('s2') else 1)
            v = m.group('v2')
        if v is not None:
            if v not in val:
                raise BadText('%s is used before it has a value' % v)
            t = c * val[v]
        else:
            t = c
            if not (isinstance(c, Fraction) and c == 0):
                raise BadText('constant term')
        tot = tot - t if minus else tot + t
        first = False
    return tot


def names(base, nb):
    return [base] if nb == 1 else [base + str(i + 1) for i in range(nb)]


def realization(env, size, free, pat, upper, sT=None, sX=None, g=None):
    if g is None:
        g = coefs(env, size, free, pat, upper)
    F = env.mod('fixif.LTI').Filter(num=[2.0, 1.0], den=[1.0, 0.5])
    R = env.mod('fixif.SIF').Realization(F, sifs.args(env, g, *size), structureName='test', surnameVarT=sT, surnameVarX=sX)
    return R, g


def denoted(env, g, fmt):
    """coefficients as they are printed; 0 and +-1 are not printed"""
    def f(v, X, i, j):
        e = env.ex(v)
        if isinstance(e, Fraction) and e in (0, 1, -1):
            return e
        if X == 'J' and i == j:
            return Fraction(1)
        if fmt is not None and (e == 0 or e == 1 or e == -1):
            return e
        if X == 'J':
            return -printed(env, fmt, -v)
        return printed(env, fmt, v)
    return {X: [[f(v, X, i, j) for j, v in enumerate(r)] for i, r in enumerate(g[X])] for X in g}


def text(env, size, free, pat, upper, mode, fmt, **kw):
    l, n, p, q = size
    g = coefs(env, size, free, pat, upper)
    if mode.endswith('R0'):
        # no state in the outputs
        g['R'] = [[0.0] * n for _ in range(p)]
    R, g = realization(env, size, free, pat, upper, g=g)
    e = denoted(env, g, fmt)
    x = [env.ex(v) for v in env.reals('x', n)]
    u = [env.ex(v) for v in env.reals('u', q)]
    t, xn, y = sifs.step(env, e, x, u)
    time = 'notime' not in mode
    swap = False
    kw = {} if fmt is None else {'coefFormat': fmt}
    if 'latex' in mode:
        out = R.algorithmLaTeX(withTime=time, **kw)
        out, swap = unlatex(out)
    else:
        out = R.algorithmTxt(withTime=time, comments='comments' in mode, **kw)
    k0, k1 = ('(k)', '(k+1)') if time else ('', '')
    T, X, U, Y = names('t', l), names('x', n), names('u', q), names('y', p)
    val = {}
    for nm, v in zip(X, x):
        val[nm + k0] = v
    for nm, v in zip(U, u):
        val[nm + k0] = v
    want = {}
    for nm, v in zip(T, t):
        want[nm + k1] = ('intermediate variable', v)
    for nm, v in zip(X, xn):
        want[nm + k1] = want[nm + 'p' + k1] = ('next state', v)
    for nm, v in zip(Y, y):
        want[nm + k0] = ('output', v)
    done = {}
    inplace = False
    try:
        for dst, rhs in lines(out, '<-'):
            if not env.check('assigned once', dst not in done and dst in want, info=lambda: '%s\n%s' % (dst, out)):
                return
            v = evaluate(env, rhs, val)
            done[dst] = val[dst] = v
            kind = want[dst][0]
            if kind == 'next state' and not time and not dst.endswith('p'):
                inplace = True
            if inplace and kind == 'output':
                if mode.startswith('inplace') or mode.endswith('R0'):
                    env.eq('output: value (after states updated in place)', v, want[dst][1])
            else:
                env.eq('%s: value' % kind, v, want[dst][1])
    except BadText as b:
        env.check('the text can be read', False, info=lambda: '%s\n%s' % (b, out))
        return
    for nm in T + Y:
        d = nm + (k1 if nm in T else k0)
        if l + n + p and d not in done:
            env.check('every variable is assigned', False, info=lambda: '%s\n%s' % (d, out))
    for i, nm in enumerate(X):
        a, b = nm + k1 in done, nm + 'p' + k1 in done
        if not time and not a and not b:
            # x <- x is not written
            env.eq('next state: not written', x[i], xn[i])
            continue
        env.check('every variable is assigned', a != b, info=lambda: '%s\n%s' % (nm, out))
    if 'latex' in mode and not time:
        env.check('states swapped at the end', swap == any(d.endswith('p') for d in done))


def surnames(env, kind, order, free, fmt, latex):
    """realizations whose states are delayed inputs, outputs or intermediate variables, with these names"""
    m = order
    r = lambda n, k: env.real(n) if k in free else env.real(n, lo=0.015625)
    eye = lambda a, b, sh: [[float(j == i + sh) for j in range(b)] for i in range(a)]
    if kind == 'yu':
        # t = sum a_i y(k-i) + sum b_i u(k-i); states y(k-m)..y(k-1), u(k-m)..u(k-1)
        n, l = 2 * m, 1
        a = [r('a%d' % i, i) for i in range(m)]
        b = [r('b%d' % i, m + i) for i in range(m + 1)]
        blk = lambda i, j: float(j == i + 1 and i != m - 1)
        g = dict(J=[[1.0]], K=[[float(i == m - 1)] for i in range(n)], L=[[1.0]], M=[a + b[:m]], N=[[b[m]]],
                 P=[[blk(i, j) for j in range(n)] for i in range(n)], Q=[[float(i == n - 1)] for i in range(n)], R=[[0.0] * n], S=[[0.0]])
        sX = [('y', None, -(m - i)) for i in range(m)] + [('u', None, -(m - i)) for i in range(m)]
        sT = None
    else:
        # v = u + sum a_i v(k-i), y = b0 v + sum b_i v(k-i)
        n, l = m, 1
        a = [r('a%d' % i, i) for i in range(m)]
        b = [r('b%d' % i, m + i) for i in range(m + 1)]
        g = dict(J=[[1.0]], K=[[float(i == m - 1)] for i in range(n)], L=[[b[m]]], M=[a], N=[[1.0]],
                 P=[[float(j == i + 1) for j in range(n)] for i in range(n)], Q=[[0.0] for i in range(n)], R=[b[:m]], S=[[0.0]])
        sX = [('v', None, -(m - i)) for i in range(m)]
        sT = [('v', None, -1)]
    size = (l, n, 1, 1)
    R, g = realization(env, size, (), '', False, sT, sX, g)
    e = denoted(env, g, fmt)
    x = [env.ex(v) for v in env.reals('x', n)]
    u = [env.ex(v) for v in env.reals('u', 1)]
    t, xn, y = sifs.step(env, e, x, u)
    kw = {} if fmt is None else {'coefFormat': fmt}
    if latex:
        out, _ = unlatex(R.algorithmLaTeX(withTime=True, withSurname=True, **kw))
    else:
        out = R.algorithmTxt(withTime=True, withSurname=True, comments=False, **kw)

    def nm(s, k):
        s, i, sh = s
        return s + '(k)' if sh + k == 0 else s + '(k%+d)' % (sh + k)
    val = {'u(k)': u[0]}
    for s, v in zip(sX, x):
        val[nm(s, 0)] = v
    tn = sT[0] if sT else ('t', None, 0)
    done = set()
    try:
        for dst, rhs in lines(out, '<-'):
            if not env.check('assigned once', dst not in done, info=lambda: '%s\n%s' % (dst, out)):
                return
            done.add(dst)
            v = evaluate(env, rhs, val)
            val[dst] = v
            if dst == tn[0]:
                # the intermediate variable, written without time
                val[nm(tn, 1)] = v
    except BadText as b:
        env.check('the text can be read', False, info=lambda: '%s\n%s' % (b, out))
        return
    want = [(tn[0], t[0], 'intermediate variable')] + [(nm(s, 1), v, 'next state') for s, v in zip(sX, xn)] + [('y(k)', y[0], 'output')]
    for d, v, k in want:
        if env.check('%s has a value' % k, d in val, info=lambda: '%s\n%s' % (d, out)):
            env.eq('%s: value (given names)' % k, val[d], v)
    env.raises('given names without time', ValueError, R.algorithmTxt, None, False, True)


def structure(env, form, opts_, order, free, fmt, latex):
    """direct forms: with the names of the structure, the text is the difference equation over the past inputs and outputs (or the inner signal v)"""
    r = lambda nm, k: env.real(nm) if k in free else env.real(nm, lo=1.125)
    b = [r('b%d' % i, i) for i in range(order + 1)]
    a = [1.0] + [r('a%d' % i, order + i) for i in range(1, order + 1)]
    F = env.mod('fixif.LTI').Filter(num=b, den=a)
    R = getattr(env.mod('fixif.Structures'), form).makeRealization(F, transposed=False, **opts_)
    # printed values
    d = lambda v, neg: (lambda e: e if isinstance(e, Fraction) and e in (0, 1, -1) else e if fmt is not None and (e == 0 or e == 1 or e == -1)
                        else -printed(env, fmt, -v) if neg else printed(env, fmt, v))(env.ex(v))
    eb, ea = [d(v, False) for v in b], [d(v, True) for v in a]
    hist = {s: [env.ex(v) for v in env.reals(s, order + 1)] for s in (('u', 'y') if form == 'DFI' else ('v', 'u'))}
    val = {'u(k)': hist['u'][0]}
    for i in range(1, order + 1):
        if form == 'DFI':
            val['u(k-%d)' % i], val['y(k-%d)' % i] = hist['u'][i], hist['y'][i]
        else:
            val['v(k-%d)' % i] = hist['v'][i]
    given = dict(val)
    past = sum((-ea[i] * hist['y' if form == 'DFI' else 'v'][i] for i in range(1, order + 1)), Fraction(0))
    if form == 'DFI':
        want = past + sum((eb[i] * hist['u'][i] for i in range(order + 1)), Fraction(0))
    else:
        v0 = hist['u'][0] + past
        want = eb[0] * v0 + sum((eb[i] * hist['v'][i] for i in range(1, order + 1)), Fraction(0))
    kw = {} if fmt is None else {'coefFormat': fmt}
    if latex:
        out, _ = unlatex(R.algorithmLaTeX(withTime=True, withSurname=True, **kw))
    else:
        out = R.algorithmTxt(withTime=True, withSurname=True, comments=False, **kw)
    done = set()
    try:
        for dst, rhs in lines(out, '<-'):
            v = evaluate(env, rhs, val)
            if dst in given:
                env.eq('a signal already known keeps its value', v, given[dst])
            elif dst in done:
                env.eq('the same value at each assignment', v, val[dst])
            done.add(dst)
            val[dst] = v
            if dst == 'v':
                val['v(k)'] = v
    except BadText as e:
        env.check('the text can be read', False, info=lambda: '%s\n%s' % (e, out))
        return
    if env.check('the output has a value', 'y(k)' in val, info=lambda: out):
        env.eq('output: difference equation', val['y(k)'], want)


def cases(tier):
    q_ = tier == 'quick'
    out = []
    sizes = [(0, 1, 1, 1), (0, 2, 1, 1), (0, 2, 2, 2), (1, 1, 1, 1), (1, 2, 1, 2), (1, 0, 1, 1), (2, 1, 1, 1), (2, 2, 2, 2), (2, 2, 1, 1)]
    if not q_:
        sizes += [(0, 3, 1, 1), (1, 3, 1, 1), (2, 3, 2, 1), (3, 2, 1, 2), (3, 4, 1, 1)]
    pats = ['pn', 'p0n1-', '01-00', '0000', '1-'] if q_ else ['pn', 'np', 'p0n1-', '01-00', '0000', '1-', '0010', 'n000p']
    fmts = [None, '%.4f', '%d', '%e', '%10.3g'] if q_ else [None, '%.4f', '%d', '%e', '%10.3g', '%.17g', '%+.2f', '%r']
    modes = ['time', 'time-comments', 'latex-time', 'notime', 'latex-notime', 'notime-comments-R0']
    nf = 2 if q_ else 3
    c = 0
    for s in sizes:
        N = len(flat(s))
        groups = [tuple(range(k, min(k + nf, N))) for k in range(0, N, nf)]
        for upper in (False, True):
            if upper and s[1] < 2:
                continue
            for mi, mode in enumerate(modes):
                for k, f in enumerate(groups):
                    # patterns, formats: rotated over the groups of free coefficients
                    reps = 1 if q_ and (N > 6 or mi) else 2 if q_ else 4
                    if q_ and N > 6 and (k + mi + upper) % 3:
                        continue        # each group in one mode out of three
                    for r in range(reps):
                        c += 1
                        pat = pats[c % len(pats)]
                        fmt = fmts[(c // len(pats)) % len(fmts)]
                        if q_ and N > 20:
                            fmt = None
                        if fmt is not None:
                            # the other coefficients are constants
                            pat = pat.replace('p', '2').replace('n', '3')
                        nm = '%s-%d%d%d%d-%s%d%s-%s-%s' % ((mode,) + s + ('u' if upper else '', k, 'abcd'[r], pat, (fmt or 'hex').strip('%')))
                        out.append(Case(nm, text, dict(textsign=True, witnesses=1 if c % 3 == 0 else 0, random=0, cost=2 + N / 8, max_paths=4000),
                                        size=s, free=f, pat=pat, upper=upper, mode=mode, fmt=fmt))
    for k, s in enumerate([(11, 1, 1, 1), (0, 11, 1, 1), (0, 1, 12, 1), (0, 1, 1, 12), (3, 4, 2, 3), (5, 3, 3, 2), (1, 6, 1, 1)]):
        N = len(flat(s))
        for mi, mode in enumerate(modes):
            if (k + mi) % 2 and q_:
                continue
            f, pat = (((3, N // 2), '01000-0200003000'), ((N // 3, N - 1), '000p000-00n0100'))[mi % 2]
            out.append(Case('large-%s-%d%d%d%d' % ((mode,) + s), text, dict(textsign=True, witnesses=1, random=0, cost=6, max_paths=4000), size=s, free=f, pat=pat, upper=bool((k + mi) % 3 == 0),
                            mode=mode, fmt=None))
    for mode in ('time', 'latex-time'):
        # numbers longer than a line
        out.append(Case('long-' + mode, text, dict(textsign=True, toklen=90, witnesses=2, random=0, cost=3), size=(1, 1, 1, 1), free=(), pat='b', upper=False, mode=mode, fmt='%.4f'))
    for s in [(0, 1, 1, 1), (1, 2, 1, 1)]:
        for latex in ('', '-latex'):
            out.append(Case('inplace%s-%d%d%d%d' % ((latex,) + s), text, dict(textsign=True, witnesses=0, random=0, cost=3), size=s, free=(), pat='p2n1', upper=True,
                            mode='inplace-notime' + latex, fmt=None))
    for kind in ('yu', 'v'):
        for order in (1, 2) if q_ else (1, 2, 3):
            K = (2 * order + 1)
            for k in range(0, K, 2):
                f = (k, min(k + 1, K - 1))
                for latex in (False, True):
                    for fmt in (None, '%.4f'):
                        out.append(Case('names-%s%d-%d-%s%s' % (kind, order, k, 'latex' if latex else 'txt', '' if fmt is None else '-f'), surnames,
                                        dict(textsign=True, witnesses=1, random=0, cost=3), kind=kind, order=order, free=f, fmt=fmt, latex=latex))
    for form, o in (('DFI', dict(nbSum=1)), ('DFI', dict(nbSum=2)), ('DFII', {})):
        for order in (1, 2, 3) if q_ else (1, 2, 3, 4, 5):
            for k in range(0, 2 * order + 1, 2):
                for latex in (False, True):
                    if q_ and (k // 2 + latex + order) % 2:
                        continue
                    fmt = (None, '%.4f')[(k // 2 + order) % 2]
                    out.append(Case('structure-%s%s-%d-%d-%s' % (form, o.get('nbSum', ''), order, k, 'latex' if latex else 'txt'), structure, dict(textsign=True, witnesses=1, random=0, cost=3),
                                    form=form, opts_=o, order=order, free=(k, min(k + 1, 2 * order)), fmt=fmt, latex=latex))
    return out
