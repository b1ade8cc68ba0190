"""C28: random generators of filters and systems"""
from fractions import Fraction
from symfx.harness import Case

BOUNDS = ('every draw is an arbitrary value of its documented range; band, ripple and order ranges are symbolic (orders in 1..8); state spaces with 1..2 (quick) / 1..3 (thorough) states, '
          'at most 2 inputs and outputs; rejection loops followed up to the bound on the number of draws (12..60)')
ASSUMPTIONS = ['scipy.signal.butter and ellip are deterministic functions of their arguments',
               'the change of basis of random_dSS (normal draws) is symbolic for 1 state and for one half of the 2-state cases, and a fixed invertible matrix for the others',
               'cosine and sine of a drawn phase are any point of the unit circle',
               'a draw of exactly 0 may give a pole of modulus 1 (closed disk)']

FORMS = ('lowpass', 'highpass', 'bandpass', 'bandstop')


def designs(env):
    """butter / ellip: deterministic functions of their arguments"""
    def fn(name):
        def f(N, *a, **k):
            sig = {'butter': ('Wn', 'btype'), 'ellip': ('rp', 'rs', 'Wn', 'btype')}[name]
            d = dict(zip(sig, a))
            d.update(k)
            extra = sorted(set(d) - set(sig))
            W = d['Wn']
            W = list(W) if isinstance(W, (list, tuple)) or hasattr(W, '__len__') else [W]
            idx = 1 + [b[:5] for b in FORMS].index((d.get('btype', 'low') + 'pass')[:5] if len(d.get('btype', 'low')) < 5 else d['btype'][:5])
            num = [1.0 * N] + W + [0.0] * (2 - len(W)) + [1.0 * d.get('rp', 0.0), 1.0 * d.get('rs', 0.0)]
            den = [1.0, float(idx), float(len(extra)), 0.0, 0.0]
            return env.nparr(num), env.nparr(den)
        return f
    for n in ('butter', 'ellip'):
        env.contract('scipy.signal.' + n, fn(n))


def rng(env, name, lo, hi):
    a, b = env.real(name + '0', lo, hi), env.real(name + '1', lo, hi)
    env.assume(a < b)
    return (a, b)


def inside(env, label, v, r, strict=False, quant=None):
    a, b, v = env.ex(r[0]), env.ex(r[1]), env.ex(v)
    if quant:
        k = v * quant
        env.check('a multiple of 1/quant', k.floor() == k if hasattr(k, 'floor') else abs(k - round(k)) < Fraction(1, 10**6), lambda: '%s / %s' % (v, quant))
        a, b = a - Fraction(1, 2 * quant), b + Fraction(1, 2 * quant)
    if not strict:
        # the rounding of (b-a)*u+a is not the matter here
        a, b = a - Fraction(1, 10**9), b + Fraction(1, 10**9)
    env.check(label, env.both(env.le(a, v), env.lt(v, b) if strict else env.le(v, b)))


def order_range(env, even):
    # an even order must exist
    a, b = env.int('n0', 1, 8), env.int('n1', 2, 9)
    env.assume(b - a >= (2 if even else 1))
    return (a, b)


def make(env, kind, r, n, form, even, seed, quant=None):
    L = env.mod('fixif.LTI')
    k = dict(n=n, Wc=r['Wc'], W1=r['W1'], W2=r['W2'], form=form, seed=seed)
    if seed == 'none':
        k.pop('seed')
    if kind == 'butter':
        return L.random_Butter(onlyEven=even, **k)
    if quant:
        k['quant'] = quant
    return L.random_Elliptic(rp=r['rp'], rs=r['rs'], **k)


def check_design(env, F, kind, r, n, form, even, quant=None):
    L = env.mod('fixif.LTI')
    env.check('class', type(F) is (L.Butter if kind == 'butter' else L.Elliptic))
    t = F.btype if kind == 'butter' else F.etype
    env.check('type of the filter', t in FORMS if form is None else t == form, (t, form))
    W = F.Wn
    if t in ('bandpass', 'bandstop'):
        W = list(W)
        env.check('two edges', len(W) == 2)
        inside(env, 'first edge in its range', W[0], r['W1'], quant=quant)
        inside(env, 'second edge in its range', W[1], r['W2'], quant=quant)
        env.check('edges in increasing order', env.lt(W[0], W[1]))
    else:
        inside(env, 'cut frequency in its range', W, r['Wc'], quant=quant)
    inside(env, 'order in its range', F.n, n, True)
    if even:
        env.check('even order', F.n % 2 == 0)
    if kind == 'ellip':
        inside(env, 'ripple in its range', F.rp, r['rp'], quant=quant)
        inside(env, 'attenuation in its range', F.rs, r['rs'], quant=quant)
        env.check('a ripple that is not null', env.lt(0, F.rp))
    env.check('stable', bool(F.isStable()))
    # the transfer function is the design of these parameters
    s = env.mod('scipy.signal')
    num, den = s.butter(F.n, F.Wn, t) if kind == 'butter' else s.ellip(F.n, F.rp, F.rs, F.Wn, t)
    ref = L.dTF(num, den)
    env.eqm('numerator', F.dTF.num, env.exm(env.grid(ref.num)))
    env.eqm('denominator', F.dTF.den, env.exm(env.grid(ref.den)))


def ranges(env, kind, overlap):
    r = {'Wc': rng(env, 'Wc', 0.01, 0.99)}
    if overlap:
        r['W1'], r['W2'] = rng(env, 'Wa', 0.01, 0.99), rng(env, 'Wb', 0.01, 0.99)
        env.assume(r['W2'][1] > r['W1'][0])
    else:
        r['W1'], r['W2'] = rng(env, 'Wa', 0.01, 0.45), rng(env, 'Wb', 0.5, 0.99)
    if kind == 'ellip':
        r['rp'], r['rs'] = rng(env, 'rp', 0.5, 15), rng(env, 'rs', 20, 90)
    return r


def design(env, kind, form, even, seed, overlap, iterated):
    designs(env)
    env.max_draws = 12 if not iterated else 24
    r = ranges(env, kind, overlap)
    n = order_range(env, even)
    L = env.mod('fixif.LTI')
    if iterated:
        k = dict(n=n, Wc=r['Wc'], W1=r['W1'], W2=r['W2'], form=form, seeded=seed is not None)
        it = L.iter_random_Butter(iterated, onlyEven=even, **k) if kind == 'butter' else L.iter_random_Elliptic(iterated, rp=r['rp'], rs=r['rs'], **k)
        Fs = list(it)
        env.check('number of filters', len(Fs) == iterated)
        seeds = [e for e in env.log if e[0] == 'seed' and e[2] is not None]
        env.check('seeded as asked', len(seeds) == (iterated if seed is not None else 0), len(seeds))
    else:
        Fs = [make(env, kind, r, n, form, even, seed)]
        seeds = [e[2] for e in env.log if e[0] == 'seed' and e[2] is not None]
        env.check('seeded as asked', seeds == ([] if seed in (None, 'none') else [seed]), seeds)
    for F in Fs:
        check_design(env, F, kind, r, n, form, even)


def quantified(env, form, seed, quant, narrow, iterated):
    """parameters rounded to multiples of 1/quant"""
    designs(env)
    env.max_draws = 10 if not iterated else 20
    r = {'Wc': (0.125, 0.75), 'W1': (0.125, 0.5), 'W2': (0.5, 0.875), 'rp': (0, 10), 'rs': (30, 80)}
    if narrow:
        r.update(W1=(0.25, 0.5), W2=(0.375, 0.75), rp=(0, 1))
    n = (2, 5)
    L = env.mod('fixif.LTI')
    if iterated:
        Fs = list(L.iter_random_Elliptic(iterated, n=n, form=form, seeded=seed is not None, quant=quant, **r))
        env.check('number of filters', len(Fs) == iterated)
    else:
        Fs = [make(env, 'ellip', r, n, form, False, seed, quant)]
    for F in Fs:
        check_design(env, F, 'ellip', r, n, form, False, quant)


def wrong(env, kind):
    """the second range is under the first one: refused"""
    designs(env)
    env.max_draws = 12
    r = ranges(env, kind, False)
    r['W1'], r['W2'] = r['W2'], r['W1']
    n = (2, 5)
    for f in ('bandpass', 'bandstop'):
        env.raises('empty ranges of the edges', ValueError, make, env, kind, r, n, f, False, None)


def defaults(env, kind):
    """the default ranges: a filter can always be designed"""
    designs(env)
    env.max_draws = 16
    L = env.mod('fixif.LTI')
    F = L.random_Butter() if kind == 'butter' else L.random_Elliptic()
    check_design(env, F, kind, {'Wc': (0.1, 0.8), 'W1': (0.1, 0.5), 'W2': (0.5, 0.8), 'rp': (0, 1000), 'rs': (0, 1000)}, (5, 10), None, kind == 'butter')
    if kind == 'ellip':
        env.check('attenuation greater than the ripple', env.lt(F.rp, F.rs))


def same_filter(env, A, B):
    if hasattr(A, 'Wn'):
        env.check('same seed, same type', (A.btype if hasattr(A, 'btype') else A.etype) == (B.btype if hasattr(B, 'btype') else B.etype))
        x, y = A.dTF, B.dTF
        env.eqm('same seed, same numerator', x.num, env.exm(env.grid(y.num)))
        env.eqm('same seed, same denominator', x.den, env.exm(env.grid(y.den)))
        env.eq('same seed, same order', env.ex(A.n), env.ex(B.n))
        env.check('same seed, same name', A.name == B.name)
        return
    for X in 'ABCD':
        a, b = getattr(A.dSS, X), getattr(B.dSS, X)
        env.check('same seed, same sizes', tuple(env.shape(a)) == tuple(env.shape(b)))
        env.eqm('same seed, same %s' % X, a, env.exm(env.grid(b)))


def rule(env, uniform=None):
    """the change of basis (the first normal draws) is a fixed matrix, the other normal draws are fixed too"""
    c = [2.0, -2.0, 1.5, -1.0, 1.5, 2.0, 3.0, -1.0, 2.0, -2.0, 3.0, 1.0, 3.0]     # any consecutive n*n of them make an invertible matrix (n <= 4)
    def f(kind, k):
        if kind == 'uniform':
            return uniform
        if kind != 'normal':
            return None
        return c[k % len(c)]
    env.draw_rule = f


def again(env, kind, seed, form, size):
    """the same seed gives the same filter, whatever was drawn before and in between"""
    designs(env)
    # three times the draws of one filter, and some retries
    env.max_draws = 60
    if kind == 'filter':
        env.max_stream = {(1, 1, 1): 12, (1, 2, 1): 15, (2, 1, 1): 21}[size]
    if kind == 'filter' and size[0] > 1:
        rule(env)
    L = env.mod('fixif.LTI')
    rnd = env.mod('numpy').random
    if kind == 'filter':
        mk = lambda: L.random_Filter(*size, seed=seed)
    else:
        r = ranges(env, kind, False)
        mk = lambda: make(env, kind, r, (2, 7), form, True, seed)
    rnd.rand(1)
    A = mk()
    rnd.rand(2)
    B = mk()
    same_filter(env, A, B)
    if kind == 'filter':
        env.check('name', A.name == 'RandomFilter-%d/%d/%d-%d' % (*size, seed), A.name)
        rnd.rand(1)
        same_filter(env, L.random_Filter(name=A.name), A)


def names(env):
    L = env.mod('fixif.LTI')
    for nm in ('RandomFilter', 'RandomFilter-1/2', 'Butterworth-random-12', 'RandomFilter-a/1/1-5', 'noname'):
        env.raises('name that is not the one of a random filter', ValueError, L.random_Filter, name=nm)


def disk(env, A, n):
    """the eigenvalues are in the closed unit disk (Schur-Cohn conditions; for 3 states the necessary ones)"""
    lab = 'eigenvalues in the unit disk'
    one = Fraction(1)
    if n == 1:
        env.check(lab, env.both(env.le(A[0][0], one), env.le(-one, A[0][0])))
    elif n == 2:
        t = A[0][0] + A[1][1]
        d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        env.check(lab + ' (determinant)', env.both(env.le(d, one), env.le(-one, d)))
        env.check(lab + ' (trace)', env.both(env.le(t, one + d), env.le(-one - d, t)))
    elif n == 3:
        a = -(A[0][0] + A[1][1] + A[2][2])
        b = sum((A[i][i] * A[j][j] - A[i][j] * A[j][i] for i, j in ((0, 1), (0, 2), (1, 2))), Fraction(0))
        det = sum((s * A[0][i] * A[1][j] * A[2][k] for s, i, j, k in ((1, 0, 1, 2), (1, 1, 2, 0), (1, 2, 0, 1), (-1, 0, 2, 1), (-1, 1, 0, 2), (-1, 2, 1, 0))), Fraction(0))
        c = -det
        env.check(lab + ' (determinant)', env.both(env.le(c, one), env.le(-one, c)))
        env.check(lab + ' (at 1 and -1)', env.both(env.le(Fraction(0), one + a + b + c), env.le(Fraction(0), one - a + b - c)))


def sizes_of(env, S, n, p, q, lab=''):
    env.check('sizes' + lab, [tuple(env.shape(getattr(S, X))) for X in 'ABCD'] == [(n, n), (n, q), (p, n), (p, q)])


def system(env, n, p, q, how, normal, probs, maxd=30):
    """random stable systems"""
    env.max_draws = maxd
    L = env.mod('fixif.LTI')
    if not normal:
        rule(env)
    if probs == 'sym':
        k = {x: env.real(x, 0, 1) for x in ('pRepeat', 'pReal', 'pBCmask', 'pDmask', 'pDzero')}
    elif probs == 'one':
        # nothing is masked: nothing to draw again
        k = dict(pBCmask=1.0, pDmask=1.0, pDzero=0.5)
        env.draws_label = 'no endless loop'
    else:
        k = dict(probs)
    if how == 'dSS':
        S = L.random_dSS(n, p, q, **k)
    elif how == 'dSSmp':
        S = L.random_dSSmp(n, p, q, **k)
    else:
        F = L.random_Filter(n, p, q)
        env.check('stable', bool(F.isStable()))
        env.check('sizes of the filter', (F.order, F.dSS.p, F.dSS.q) == (n, p, q))
        S = F.dSS
    sizes_of(env, S, n, p, q)
    A = env.exm(env.grid(S.A))
    disk(env, A, n)
    if not normal:
        for X in 'BC':
            env.check('%s is not entirely masked out' % X, any(bool(v != 0) for row in env.grid(getattr(S, X)) for v in row))
    if probs == 'one':
        env.check('nothing masked out', all(bool(v != 0) for X in 'BC' for row in env.grid(getattr(S, X)) for v in row))


def invalid(env):
    L = env.mod('fixif.LTI')
    v = env.int('v', -5, 0)
    for k in range(3):
        a = [2, 2, 2]
        a[k] = v
        env.raises('number of states, inputs or outputs below 1', ValueError, L.random_dSS, *a)
    env.raises('number of states not an integer', ValueError, L.random_dSS, 1.5, 1, 1)


def iter_sys(env, kind, number, n, p, q, stable):
    """sizes in the requested ranges"""
    env.max_draws = 60
    rule(env)
    L = env.mod('fixif.LTI')
    it = L.iter_random_dSS if kind == 'dSS' else L.iter_random_dSSmp
    k = dict(pReal=1.0, pRepeat=0.0, pBCmask=1.0, pDzero=1.0) if stable else {}
    Ss = list(it(number, stable, n=n, p=p, q=q, **k))
    env.check('number of systems', len(Ss) == number)
    for S in Ss:
        nn, pp, qq = S.n, S.p, S.q
        sizes_of(env, S, nn, pp, qq)
        for lab, v, r in (('states', nn, n), ('outputs', pp, p), ('inputs', qq, q)):
            r = (1, 2) if r == 1 else r
            env.check('number of %s in its range' % lab, r[0] <= v < r[1], (v, r))
        if stable:
            disk(env, env.exm(env.grid(S.A)), nn)


def iter_filter(env, number, n, p, q, ftype, seeded):
    rule(env, uniform=0.25)
    L = env.mod('fixif.LTI')
    Fs = list(L.iter_random_Filter(number, n=n, p=p, q=q, ftype=ftype, seeded=seeded))
    env.check('number of filters', len(Fs) == number)
    env.check('seeded as asked', sum(1 for e in env.log if e[0] == 'seed' and e[2] is not None) == (number if seeded else 0))
    for F in Fs:
        S = F.dSS
        nn, pp, qq = S.n, S.p, S.q
        env.check('stable', bool(F.isStable()))
        env.check('number of states in its range', n[0] <= nn < n[1], (nn, n))
        P, Q = p, q
        if ftype in ('SISO', 'MISO'):
            P = (1, 2)
        if ftype in ('SISO', 'SIMO'):
            Q = (1, 2)
        if ftype == 'all':
            P, Q = (min(1, p[0]), p[1]), (min(1, q[0]), q[1])
        env.check('number of outputs in its range', P[0] <= pp < P[1], (pp, P))
        env.check('number of inputs in its range', Q[0] <= qq < Q[1], (qq, Q))


def tf(env, kind, how, n):
    L = env.mod('fixif.LTI')
    env.max_draws = 40
    rule(env, uniform=0.25)      # the drawn coefficients do not matter here (a leading one of exactly 0 would be refused)
    if how == 'one':
        Hs = [(L.random_dTF if kind == 'dTF' else L.random_dTFmp)(n)]
    else:
        Hs = list((L.iter_random_dTF if kind == 'dTF' else L.iter_random_dTFmp)(2, n))
        env.check('number of transfer functions', len(Hs) == 2)
    for H in Hs:
        env.check('order in its range', (n[0] <= H.order < n[1]) or n[0] == n[1] == H.order, (H.order, n))
        env.check('sizes', H.num.rows * H.num.cols == H.order + 1 == H.den.rows * H.den.cols if kind == 'dTFmp'
                  else env.shape(H.num)[1] == H.order + 1 == env.shape(H.den)[1])
        env.check('every coefficient is drawn', not any(bool(env.iszero(x)) for M in (H.num, H.den) for r in env.grid(M) for x in r))


def cases(tier):
    q_ = tier == 'quick'
    out = []
    for kind in ('butter', 'ellip'):
        for form in (None,) + FORMS:
            for even in ((False, True) if kind == 'butter' else (False,)):
                for seed in (None, 0, 7) if not q_ or form in (None, 'bandpass') else (0,):
                    out.append(Case('%s-%s-%s-%s' % (kind, form, even, seed), design, kind=kind, form=form, even=even, seed=seed, overlap=False, iterated=0))
            if form in ('bandpass', 'bandstop'):
                out.append(Case('%s-%s-overlap' % (kind, form), design, kind=kind, form=form, even=False, seed='none', overlap=True, iterated=0))
            if form is not None:
                for seed in (0, None):
                    out.append(Case('iter-%s-%s-%s' % (kind, form, seed), design, kind=kind, form=form, even=kind == 'butter', seed=seed, overlap=False, iterated=2))
                for seed in (0, 3) if q_ else (0, 3, 999999999):
                    out.append(Case('again-%s-%s-%d' % (kind, form, seed), again, kind=kind, seed=seed, form=form, size=None))
            else:
                out.append(Case('again-%s-any-0' % kind, again, kind=kind, seed=0, form=form, size=None))
        out.append(Case('wrong-%s' % kind, wrong, kind=kind))
        if kind == 'ellip':
            for i, form in enumerate(FORMS):
                for quant in (10, 64, 1000):
                    out.append(Case('quant-%s-%d' % (form, quant), quantified, form=form, seed=(None, 0, 'none', 5)[i], quant=quant, narrow=quant == 10, iterated=0))
                out.append(Case('quant-iter-%s' % form, quantified, form=form, seed=(None, 0)[i % 2], quant=32, narrow=False, iterated=2 if not q_ or i == 1 else 1))
        out.append(Case('defaults-%s' % kind, defaults, kind=kind))
    for size in [(1, 1, 1), (1, 2, 1), (2, 1, 1)]:
        for seed in (0, 8, 123456789) if not q_ or size == (1, 1, 1) else (0,) if size[0] > 1 else (8,):
            out.append(Case('again-filter-%d%d%d-%d' % (*size, seed), again, kind='filter', seed=seed, form=None, size=size))
    out.append(Case('names', names))
    hows = ['dSS', 'filter', 'dSSmp']
    k = 0
    few = dict(pBCmask=1.0, pDzero=1.0)
    for n, p, q in [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 1, 2)] + ([] if q_ else [(1, 2, 2), (2, 2, 2), (3, 1, 1)]):
        for how in hows:
            if how == 'filter' and n * (p + q) > 3 and q_:
                continue
            out.append(Case('system-%d%d%d-%s' % (n, p, q, how), system, n=n, p=p, q=q, how=how, normal=False, probs={} if n * (p + q) < 4 else few, maxd=n * n + n * (p + q) + p * q + 3 * n + 5 + n * (p + q)))
        out.append(Case('system-%d%d%d-one' % (n, p, q), system, n=n, p=p, q=q, how='dSS', normal=False, probs='one', maxd=100))
        if n < 3:
            out.append(Case('system-%d%d%d-basis' % (n, p, q), system, n=n, p=p, q=q, how='dSS', normal=True, probs=few, maxd=40))
    out.append(Case('system-111-sym', system, n=1, p=1, q=1, how='dSS', normal=False, probs='sym', maxd=12))
    out.append(Case('system-3-poles', system, n=3, p=1, q=1, how='dSS', normal=False, probs=few, maxd=60))
    if not q_:
        out.append(Case('system-4-poles', system, n=4, p=1, q=1, how='dSS', normal=False, probs=few, maxd=60))
        out.append(Case('system-211-sym', system, n=2, p=1, q=1, how='dSS', normal=False, probs='sym', maxd=16))
    out.append(Case('invalid', invalid))
    for kind in ('dSS', 'dSSmp'):
        for stable in (True, False):
            for n, p, q in [((1, 3), (1, 2), (1, 3)), ((2, 3), (1, 3), (1, 2)), ((1, 2), (2, 3), (1, 3))]:
                out.append(Case('iter-%s-%s-%d%d%d' % (kind, stable, n[0], p[0], q[1]), iter_sys, kind=kind, number=2 if q_ else 3, n=n, p=p, q=q, stable=stable))
        if kind == 'dSS':
            for stable in (True, False):
                for p, q in ((1, 1), (1, (1, 3)), ((1, 3), 1)):
                    out.append(Case('iter-%s-%s-one-%s-%s' % (kind, stable, p, q), iter_sys, kind=kind, number=2, n=(1, 3), p=p, q=q, stable=stable))
    for t in ('SISO', 'MISO', 'SIMO', 'MIMO', 'all'):
        for seeded in (True, False):
            out.append(Case('iter-filter-%s-%s' % (t, seeded), iter_filter, number=2 if q_ else 3, n=(1, 3), p=(2, 4) if t != 'all' else (1, 3), q=(2, 3) if t != 'all' else (1, 2), ftype=t, seeded=seeded))
    for kind in ('dTF', 'dTFmp'):
        for how in ('one', 'iter'):
            for n in ((1, 4), (2, 3), (3, 3)):
                out.append(Case('%s-%s-%d%d' % (kind, how, *n), tf, kind=kind, how=how, n=n))
    for c in out:
        c.opts['random'] = True
    return out
