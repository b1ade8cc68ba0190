"""C31: word-lengths and least significant bits for a given output error"""
import re
import shutil
import tempfile
from fractions import Fraction
from symfx.harness import Case
from props import c30
from props.c20 import number
from props.c30 import p2, vec

BOUNDS = ('realizations with up to 3 (quick) / 5 (thorough) rounded variables and up to 2 outputs; every worst-case peak gain and every error bound is symbolic, within 2^-10 .. 2^10 '
          '(signal bounds: within 2^-6 .. 2^6, a power of two or at least 2^-12 below the next one)')
ASSUMPTIONS = ['the worst-case peak gains (library fixif.WCPG) are arbitrary positive numbers',
               'the error of a variable on w bits is at most half of its least significant bit, its most significant bit is the one of the naive computation or the next one as the thresholds of C30 say',
               'the least significant bits are for realizations with one output, as documented']


MSB = [-1, 2, 0, 1, -2]


def gains2(env, R, lo, hi, few=False):
    """arbitrary gains of Hzeta and Hepsilon"""
    out = {}

    def wcpg(A, B, C, D):
        names = [k for k in ('Hzeta', 'Hepsilon') if env.shape(getattr(R, k).D) == env.shape(D)]
        env.check('one of the systems of the realization', len(names) == 1)
        H = getattr(R, names[0])
        env.check('system whose gain is needed', all(bool(env.iszero(x - y)) for X, Y in ((A, H.A), (B, H.B), (C, H.C), (D, H.D)) for rx, ry in zip(env.grid(X), env.grid(Y)) for x, y in zip(rx, ry)))
        r, c = env.shape(D)
        a, b = (lo, hi) if names[0] == 'Hepsilon' else (Fraction(1, 4), Fraction(4))
        out[names[0]] = env.reals('W' + names[0][1], r, c, lo=a, hi=b)
        if few and names[0] == 'Hepsilon':
            # the gains to the second output are known
            out[names[0]][1] = [1.5, 0.75, 3.0, 1.0, 2.5, 0.5][:c]
        return env.npmat(out[names[0]])
    env.hook('wcpg', wcpg)
    return out


def error(env, We, M, w, delta):
    """worst-case output errors when all variables are on w bits"""
    return [sum((env.ex(x) * m * p2(env, d - k) for x, m, k, d in zip(r, M, w, delta)), Fraction(0)) for r in We]


def uniform(env, l, n, p, q, free, few=False):
    """all word-lengths are the same: enough, and one bit less is not"""
    R = c30.realization(env, l, n, p, q, 'R')
    G = gains2(env, R, Fraction(1, 4), Fraction(4))
    eps = env.reals('eps', p, lo=Fraction(1, 2**4), hi=1)
    u = vec(env, [1.0] * q)
    if not free:
        # the thresholds are given
        msb = MSB[:l + n + p]
        thr = [env.choice('inf', [float('inf'), 4]) if i == l + n + p - 1 else 3 if i and few else env.int('t%d' % i, 1, 9) for i in range(l + n + p)]
        R.computeNaiveMSB = lambda *a: list(msb)
        R._w_tilde = lambda *a: list(thr)
    w = R.optimalUniformWL(u, vec(env, eps))
    if free:
        msb, thr = R.computeNaiveMSB(u), R._w_tilde(u)
    k = env.ex(w)
    env.check('one word-length', not hasattr(w, '__len__'))
    M = [p2(env, env.ex(x)) for x in msb]

    def delta(k):
        return [Fraction(1) if isinstance(t, float) or bool(k < env.ex(t)) else Fraction(0) for t in thr]
    N = len(M)
    e1 = error(env, G['Hepsilon'], M, [k] * N, delta(k))
    for e, b in zip(e1, eps):
        env.check('the error is at most the bound', env.le(e, env.ex(b)))
    e0 = error(env, G['Hepsilon'], M, [k - 1] * N, delta(k - 1))
    env.check('and would not be less than the bound with one bit less', env.either(*[env.le(env.ex(b), e) for e, b in zip(e0, eps)]))


def multiple(env, l, n, p, q):
    """several word-lengths: sufficient when no most significant bit has to be increased"""
    R = c30.realization(env, l, n, p, q, 'R')
    G = gains2(env, R, Fraction(1, 4), Fraction(4), p > 1)
    eps = env.reals('eps', p, lo=Fraction(1, 2**4), hi=1)
    if p > 1:
        eps[1] = 0.625
    u = vec(env, [1.0] * q)
    msb = MSB[:l + n + p]
    R.computeNaiveMSB = lambda *a: list(msb)
    thr = [env.int('t%d' % i, 1, 9) for i in range(l + n + p)]
    R._w_tilde = lambda *a: list(thr)
    d = '/tmp' if env.symbolic else tempfile.mkdtemp()
    # (in the symbolic runs, the files written are kept in memory)
    try:
        w = R.optimalWL(u, vec(env, eps), AMPLfilename='x.dat', AMPLpath=d, wmax=40)
        if env.symbolic:
            text = env.world.fs.files[env.world.fs.path(d + '/x.dat')]
        else:
            with open(d + '/x.dat') as f:
                text = f.read()
    finally:
        if not env.symbolic:
            shutil.rmtree(d)
    data(env, text, G['Hepsilon'], msb, eps, thr, l + n + p, p)
    env.check('one word-length per variable', len(w) == l + n + p)
    M = [p2(env, env.ex(x)) for x in msb]
    for e, b in zip(error(env, G['Hepsilon'], M, [env.ex(x) for x in w], [Fraction(0)] * len(M)), eps):
        env.check('the error is at most the bound', env.le(e, env.ex(b)))


def data(env, text, W, msb, eps, thr, N, p):
    """the data given to the solver are those of the problem (values are printed with 6 decimals)"""
    text = re.sub(r'#.*', '', text)
    env.check('a data file', text.strip().startswith('data;'))
    par = {}
    for name, head, body in re.findall(r'param\s+(\w+)\s*(?::([^=;]*?))?:=([^;]*);', text):
        rows = [ln.split() for ln in body.strip().split('\n')]
        if head:
            cols = head.split()
            par[name] = {(r[0], c): x for r in rows for c, x in zip(cols, r[1:])}
            env.check('as many values as columns', all(len(r) == len(cols) + 1 for r in rows) and len(par[name]) == len(cols) * len(rows))
        elif len(rows) == 1 and len(rows[0]) == 1:
            par[name] = {(): rows[0][0]}
        else:
            par[name] = {(r[0],): r[1] for r in rows}
            env.check('one value per index', all(len(r) == 2 for r in rows) and len(par[name]) == len(rows))
    J, I = range(1, N + 1), range(1, p + 1)
    ref = {'p': {(): p}, 'np': {(): N}, 'u': {(str(j),): 40 for j in J}, 'wtilde': {(str(j),): thr[j - 1] for j in J}, 'eps': {(str(i),): eps[i - 1] for i in I},
           'E': {(str(i), str(j)): env.ex(W[i - 1][j - 1]) * p2(env, msb[j - 1]) for i in I for j in J}}
    for name in ref:
        ok = env.check('indices of ' + name, name in par and set(par[name]) == set(ref[name]), lambda: '%s' % (sorted(par.get(name, ())),))
        for k in ref[name] if ok else ():
            t = par[name][k]
            v, r = number(env, t.startswith('-'), t.lstrip('-')), env.ex(ref[name][k])
            env.check('value of ' + name, env.both(env.le(v, r + Fraction(1, 10**6)), env.le(r, v + Fraction(1, 10**6))), lambda: '%s: %s' % (k, t))


def lsb(env, l, n, q, cls):
    """the propagated errors 2^lsb stay below half of the output's least significant bit"""
    R = c30.realization(env, l, n, 1, q, cls)
    out = {}

    def wcpg(A, B, C, D):
        r, c = env.shape(D)
        env.check('from the errors to the output', (r, c) == (1, l + n + 1))
        H = R.Hepsilon
        env.check('system whose gain is needed', all(bool(env.iszero(x - y)) for X, Y in ((A, H.A), (B, H.B), (C, H.C), (D, H.D)) for rx, ry in zip(env.grid(X), env.grid(Y)) for x, y in zip(rx, ry)))
        # the output is an error's own output: gain 1
        out['W'] = [env.reals('W', 1, c - 1, lo=Fraction(1, 2**8), hi=2**8)[0] + [1.0]]
        return env.npmat(out['W'])
    env.hook('wcpg', wcpg)
    ly = env.choice('ly', list(range(-20, 6, 3)))
    L, budget = R._compute_LSB(ly)
    g = env.grid(L)
    env.check('one position per variable', env.shape(L) == (1, l + n + 1))
    tot = sum((env.ex(w) * p2(env, k) for w, k in zip(out['W'][0], g[0])), Fraction(0))
    env.check('the error is less than half of the bit of the output', env.lt(tot, Fraction(2) ** (ly - 1)))
    env.raises('one output', ValueError, R._compute_LSB, [ly])


def cases(tier):
    q_ = tier == 'quick'
    out = []
    o = {'exprange': 8, 'powrange': 18, 'logpairs': True}
    for l, n, p, q in [(0, 1, 1, 1), (0, 1, 2, 1), (1, 1, 1, 2)] + ([] if q_ else [(1, 2, 1, 1), (1, 1, 2, 2), (2, 2, 1, 2)]):
        s = '%d%d%d%d' % (l, n, p, q)
        out.append(Case('uniform-' + s, uniform, o, l=l, n=n, p=p, q=q, free=False, few=q_ and p > 1))
        out.append(Case('multiple-' + s, multiple, o, l=l, n=n, p=p, q=q))
        if l + n + p == 2 and not q_:
            out.append(Case('whole-' + s, uniform, o, l=l, n=n, p=p, q=q, free=True))
    for cls in 'RN':
        for l, n in [(0, 1), (1, 1), (0, 2)] + ([] if q_ else [(2, 2), (1, 3)]):
            out.append(Case('lsb-%s-%d%d' % (cls, l, n), lsb, o, l=l, n=n, q=1, cls=cls))
    return out
