"""C29: frequency specifications (Gabarit)"""
import itertools
import sys
import types
from fractions import Fraction
from symfx.harness import Case

BOUNDS = ('every kind of up to 4 bands (5 thorough), given in every order; all edges, gains, margins and sampling frequencies are symbolic (gains within 200 dB); '
          'at most two bands with an issue in the margin search; drawings of up to 3 bands')
ASSUMPTIONS = ['scipy.signal.iirdesign and the Matlab design functions are replaced by stand-ins that record the required edges and attenuations and return an arbitrary filter '
               '(they are assumed to meet them, with a gain of at most 0 dB in the pass bands)',
               'Sollya is replaced by a stand-in over the reals (directed roundings move by an arbitrary small amount); its check reports the arbitrary given ranges of the modulus that are out of their band',
               '10**x is an arbitrary positive increasing function, 1 at 0']
LIM = 200


def band_inputs(env, kinds, FS, gain_order=(0, 1), top=True):
    """disjoint bands in increasing order: (F1, F2 or None, gain, kind)"""
    half = (FS / 2 if FS is not None else Fraction(1))
    out, prev = [], None
    for i, k in enumerate(kinds):
        F1 = env.real('Fa%d' % i, 0)
        if prev is not None:
            env.assume(prev < F1)
        if i == len(kinds) - 1 and top:
            env.assume(F1 < half)
            F2 = None
        else:
            F2 = env.real('Fb%d' % i, 0)
            env.assume(F1 < F2)
            env.assume(F2 < half) if i < len(kinds) - 1 else env.assume(F2 <= half)
        prev = F2
        if k:
            g = (env.real('Ga%d' % i, -LIM, LIM), env.real('Gb%d' % i, -LIM, LIM))
            g = g if gain_order[i % 2] == 0 else list(g)
        else:
            g = env.real('Ga%d' % i, -LIM, LIM)
        out.append((F1, F2, g, k))
    return out


def fs_of(env, has):
    if not has:
        return None
    return env.real('Fs', Fraction(1, 2), 10**6)


def gabarit(env, Fs, bands, order=None):
    order = order or range(len(bands))
    G = env.mod('fixif.LTI').Gabarit
    return G(Fs, [(bands[i][0], bands[i][1]) for i in order], [bands[i][2] for i in order])


TYPES = {(1, 0): 'lowpass', (0, 1): 'highpass', (1, 0, 1): 'bandstop', (0, 1, 0): 'bandpass'}


def vmax(env, vals):
    m = env.ex(vals[0])
    for v in vals[1:]:
        v = env.ex(v)
        if bool(v > m):
            m = v
    return m


def low(env, g): return g[0] if bool(env.ex(g[0]) <= env.ex(g[1])) else g[1]
def high(env, g): return g[1] if bool(env.ex(g[0]) <= env.ex(g[1])) else g[0]


def kept(env, kinds, order, fs, lists, top, ordered=None):
    """the bands are those given, sorted; edges normalised; gains ordered; type and greatest gain"""
    Fs = fs_of(env, fs)
    bands = band_inputs(env, kinds, Fs, (0, 1) if lists else (0, 0), top)
    for i, b in enumerate(bands):
        if b[3] and ordered is not None:
            env.assume(b[2][0] < b[2][1] if (i + ordered) % 2 else b[2][1] < b[2][0])
    G = gabarit(env, Fs, bands, order)
    env.check('as many bands as given', len(G.bands) == len(bands))
    for b, (F1, F2, g, k) in zip(G.bands, bands):
        f = Fs if fs else Fraction(2)
        half = env.ex(f) / 2
        env.eq('first frequency', b.F1, F1)
        env.eq('second frequency', b.F2, half if F2 is None else F2)
        env.eq('first normalised frequency', b.w1, 2 * env.ex(F1) / env.ex(f))
        env.eq('second normalised frequency', b.w2, Fraction(1) if F2 is None else 2 * env.ex(F2) / env.ex(f))
        env.check('kind of band', b.isPassBand == bool(k), (b.isPassBand, k))
        if k:
            env.check('no stop gain for a pass band', b.stopGain is None)
            env.eq('lower gain', b.passGains[0], low(env, g))
            env.eq('upper gain', b.passGains[1], high(env, g))
        else:
            env.check('no pass gains for a stop band', b.passGains is None)
            env.eq('stop gain', b.stopGain, g)
    env.check('type', G.type == TYPES.get(tuple(kinds), 'multiband'), G.type)
    env.eq('maximum gain', G.maxGain(), vmax(env, [high(env, g) if k else g for _, _, g, k in bands]))
    env.check('type asked again', G.type == TYPES.get(tuple(kinds), 'multiband'), G.type)


def minus(env, k, top, margin):
    """band - gain; design margin"""
    Fs = fs_of(env, True)
    (F1, F2, g, _), = band_inputs(env, (k,), Fs, (0, 0), top)
    d = env.real('d', -LIM, LIM)
    G = gabarit(env, Fs, [(F1, F2, g, k)])
    b = G.bands[0]
    c = b - d
    m = Fraction(0)
    if margin:
        m = env.real('m', -LIM, LIM)
        c.applyDesignMargin(m)
        m = env.ex(m)
    env.check('kind of band', c.isPassBand == bool(k))
    for x in ('F1', 'F2', 'w1', 'w2', 'Fs'):
        env.eq('same ' + x, getattr(c, x), getattr(b, x))
    D = env.ex(d)
    if k:
        env.eq('lower gain', c.passGains[0], env.ex(low(env, g)) - D + m)
        env.eq('upper gain', c.passGains[1], env.ex(high(env, g)) - D - m)
        env.eq('lower gain of the original band', b.passGains[0], low(env, g))
        env.eq('upper gain of the original band', b.passGains[1], high(env, g))
    else:
        env.eq('stop gain', c.stopGain, env.ex(g) - D - m)
        env.eq('stop gain of the original band', b.stopGain, g)
    env.raises('something else than a gain', ValueError, lambda: b - 'a')


def drawn(env, kinds, dB, order):
    """plot draws a rectangle per band: its frequencies, and its gains (pass bands) or what is below its gain (stop bands)"""
    Fs = fs_of(env, True)
    bands = band_inputs(env, kinds, Fs, (0, 1))
    G = gabarit(env, Fs, bands, order)
    env.mod('fixif.LTI.Gabarit')
    import matplotlib.pyplot as plt
    plt.switch_backend('Agg')
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure
    axis, shown = [], []
    old = plt.show, Figure.show, Axes.add_patch
    plt.show = Figure.show = lambda *a, **k: shown.append(1)
    Axes.add_patch = lambda ax, r: axis.append(r)
    try:
        G.plot(dB=dB)
    finally:
        plt.show, Figure.show, Axes.add_patch = old
        plt.close('all')
    if not env.check('one rectangle per band, drawn once', len(axis) == len(bands) and len(shown) == 1):
        return
    rect = [[env.ex(v) for v in (r.get_x(), r.get_y(), r.get_width(), r.get_height())] for r in axis]
    for (x, y, w, h), (F1, F2, g, k) in zip(rect, bands):
        a, b = env.ex(F1), env.ex(F2) if F2 is not None else env.ex(Fs) / 2
        env.check('frequencies', env.either(env.both(env.iszero(x - a), env.iszero(x + w - b)), env.both(env.iszero(x - b), env.iszero(x + w - a))))
        val = env.ex if dB else lambda v: lin(env, v)
        if k:
            lo, hi = val(low(env, g)), val(high(env, g))
            env.check('gains of a pass band', env.either(env.both(env.iszero(y - lo), env.iszero(y + h - hi)), env.both(env.iszero(y - hi), env.iszero(y + h - lo))))
        else:
            # from the gain, downwards (linear scale: down to 0)
            t = val(g)
            e = [y, y + h]
            env.check('gain of a stop band', env.either(*[env.both(env.iszero(u - t), env.lt(v, t) if dB else env.iszero(v)) for u, v in (e, e[::-1])]))


def refused(env, na, nb):
    """as many gains as bands"""
    G = env.mod('fixif.LTI').Gabarit
    env.raises('numbers of bands and gains', ValueError, G, 48000, [(i, i + 0.5) for i in range(na)], [env.real('g%d' % i) for i in range(nb)])


def stand_in(env, matlab, calls):
    """an arbitrary filter is returned by the design functions; their arguments are kept"""
    num, den = [env.real('num%d' % i) for i in range(3)], [1.0, env.real('den1'), env.real('den2')]

    def iirdesign(wp, ws, gpass, gstop, analog=False, ftype='ellip', output='ba', fs=None):
        env.check('digital filter as a ratio of polynomials', not analog and output == 'ba' and fs is None)
        calls.append(('scipy', wp, ws, gpass, gstop, ftype))
        return env.nparr(num), env.nparr(den)
    env.replace('scipy.signal.iirdesign', iirdesign)
    m = env.mod('fixif.LTI.Gabarit')
    m.isMatlabInstalled = lambda: matlab
    if matlab:
        class Fdesign:
            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                return lambda *a: (name,) + a

        class Data:
            def __init__(self, v):
                self._data = self
                self.v = v

            def tolist(self):
                return list(self.v)

        class Engine:
            fdesign = Fdesign()

            def design(self, de, ftype, *a):
                calls.append(('matlab', de, ftype))
                return 'h'

            def tf(self, h, nargout=1):
                return Data(num), Data(den)
        m.MatlabHelper = lambda raiseError=True: Engine()
    return num, den


def lin(env, e):
    return env.ex(10 ** (e / 20.0)) if env.symbolic else Fraction(10.0 ** (float(e) / 20.0))


def designed(env, kinds, matlab, margin, centered, same):
    """the design asked for satisfies the specification"""
    Fs = fs_of(env, True)
    bands = band_inputs(env, kinds, Fs, (0, 1), True)
    calls = []
    num, den = stand_in(env, matlab, calls)
    pas = [i for i, k in enumerate(kinds) if k]
    stp = [i for i, k in enumerate(kinds) if not k]
    for i in pas:
        env.assume(bands[i][2][0] < bands[i][2][1])
    k = dict(ftype='cheby2', method='matlab' if matlab else 'scipy', centeredZero=centered)
    m = Fraction(0)
    if margin:
        k['designMargin'] = env.real('m', 0, 40)
        m = env.ex(k['designMargin'])
        for i in pas:
            env.assume(env.lt(2 * m, env.ex(bands[i][2][1]) - env.ex(bands[i][2][0])))
    # several bands of the same kind: scipy needs the same gains
    group = pas if len(pas) == 2 else stp if len(stp) == 2 else []
    if group and same:
        a, b = [bands[i] for i in group]
        bands[group[1]] = (b[0], b[1], a[2], b[3])
    elif group:
        a, b = [bands[i][2] for i in group]
        a, b = (list(a), list(b)) if isinstance(a, (tuple, list)) else ([a], [b])
        env.assume(env.either(*[x != y for x, y in zip(a, b)]))
    G = gabarit(env, Fs, bands)
    if group and not same and not matlab:
        env.raises('scipy designs with the same gains for the bands of a kind', ValueError, G.to_dTF, **k)
        return
    H = G.to_dTF(**k)
    env.check('one design', len(calls) == 1)
    c = calls[0]
    w = [(2 * env.ex(F1) / env.ex(Fs), Fraction(1) if F2 is None else 2 * env.ex(F2) / env.ex(Fs)) for F1, F2, _, _ in bands]
    t = TYPES[tuple(kinds)]
    # zones of the design: (from, to, attenuation)
    one, zero = Fraction(1), Fraction(0)
    if c[0] == 'scipy':
        env.check('scipy asked', not matlab)
        wp, ws, gp, gs, ft = c[1:]
        wp, ws = [[env.ex(v) for v in x] if hasattr(x, '__len__') else [env.ex(x)] for x in (wp, ws)]
        gp, gs = env.ex(gp), env.ex(gs)
        if t in ('lowpass', 'highpass'):
            env.check('two edges', len(wp) == 1 and len(ws) == 1)
            P, S_ = ((zero, wp[0], gp), (ws[0], one, gs)) if t == 'lowpass' else ((wp[0], one, gp), (zero, ws[0], gs))
            zones = [P, S_] if t == 'lowpass' else [S_, P]
            env.check('type of the designed filter', env.lt(wp[0], ws[0]) if t == 'lowpass' else env.lt(ws[0], wp[0]))
        else:
            env.check('four edges', len(wp) == 2 and len(ws) == 2)
            if t == 'bandpass':
                zones = [(zero, ws[0], gs), (wp[0], wp[1], gp), (ws[1], one, gs)]
                env.check('type of the designed filter', env.lt(ws[0], wp[0]))
            else:
                zones = [(zero, wp[0], gp), (ws[0], ws[1], gs), (wp[1], one, gp)]
                env.check('type of the designed filter', env.lt(wp[0], ws[0]))
    else:
        env.check('Matlab asked', bool(matlab))
        (name, *a), ft = c[1], c[2]
        a = [env.ex(x) for x in a]
        env.check('type of the designed filter', name == t)
        env.check('number of parameters', len(a) == (4 if len(kinds) == 2 else 7))
        if len(kinds) == 2:
            zones = [(zero, a[0], a[2]), (a[1], one, a[3])]
        else:
            zones = [(zero, a[0], a[4]), (a[1], a[2], a[5]), (a[3], one, a[6])]
    env.check('kind of filter', ft == 'cheby2')
    centre = vmax(env, [(env.ex(bands[i][2][0]) + env.ex(bands[i][2][1])) / 2 for i in pas])
    for i, (z0, z1, att) in enumerate(zones):
        env.check('zone covers the band', env.both(env.le(z0, w[i][0]), env.le(w[i][1], z1)))
        g = bands[i][2]
        if kinds[i]:
            env.check('pass gain: lower', env.le(env.ex(g[0]) + m, centre - att))
            if same or not group:
                env.check('pass gain: upper', env.le(centre, env.ex(g[1]) - m))
        else:
            env.check('stop gain', env.le(centre - att, env.ex(g) - m))
        # not more demanding than asked
        env.check('attenuation not more than needed', env.le(att, centre - (env.ex(g[0]) + m if kinds[i] else env.ex(g) - m)))
    s = Fraction(1) if centered else lin(env, (bands[pas[0]][2][0] + bands[pas[0]][2][1]) / 2.0 if len(pas) == 1 or same else env.tofloat(centre) if not env.symbolic else centre)
    ref = env.mod('fixif.LTI').dTF(env.nparr([env.ex(x) * s for x in num] if env.symbolic else [float(env.ex(x) * s) for x in num]), env.nparr(den))
    env.eqm('numerator', H.num, env.grid(ref.num))
    env.eqm('denominator', H.den, env.grid(ref.den))


def multi(env, kinds):
    Fs = fs_of(env, True)
    calls = []
    stand_in(env, False, calls)
    G = gabarit(env, Fs, band_inputs(env, kinds, Fs))
    env.raises('no design for these bands', ValueError, G.to_dTF)
    env.check('nothing designed', calls == [])


def random_one(env, seed, form):
    L = env.mod('fixif.LTI')
    env.max_draws = 20
    G = L.random_Gabarit(form=form) if seed == 'none' else L.random_Gabarit(form=form, seed=seed)
    well(env, G)
    env.check('a seed is stored', G.seed is not None and (seed in (None, 'none') or G.seed == seed), G.seed)


def well(env, G):
    env.check('low-pass', G.type == 'lowpass')
    a, b = G.bands
    e = [env.ex(x) for x in (a.F1, a.F2, b.F1, b.F2)]
    env.check('edges in increasing order', env.both(e[0] == 0, *[env.le(x, y) for x, y in zip(e, e[1:])]))
    env.eq('up to the half of the sampling frequency', e[3], env.ex(b.Fs) / 2)
    env.check('sampling frequency', env.both(env.le(Fraction(500), env.ex(b.Fs)), env.le(env.ex(b.Fs), Fraction(100000))))
    g = [env.ex(x) for x in a.passGains]
    env.check('gains in increasing order', env.le(g[0], g[1]))
    env.check('width of the pass band', env.both(env.le(Fraction(1, 10) - Fraction(1, 10**6), g[1] - g[0]), env.le(g[1] - g[0], 5 + Fraction(1, 10**6))))
    env.check('gains in their range', env.both(env.le(Fraction(-5), g[1]), env.le(g[1], Fraction(5)), env.le(Fraction(-80), env.ex(b.stopGain))))


def random_again(env, seed):
    """a given seed always gives the same specification"""
    L = env.mod('fixif.LTI')
    env.max_draws = 40
    rnd = env.mod('numpy').random
    rnd.rand(1)
    A = L.random_Gabarit(seed=seed)
    rnd.rand(2)
    s = A.seed if seed is None else seed
    B = L.random_Gabarit(seed=s)
    env.check('same seed stored', bool(A.seed == B.seed))
    for a, b in zip(A.bands, B.bands):
        for x in ('F1', 'F2', 'Fs'):
            env.eq('same seed, same %s' % x, getattr(a, x), env.ex(getattr(b, x)))
        if a.isPassBand:
            env.eqs('same seed, same gains', list(zip(a.passGains, [env.ex(v) for v in b.passGains])))
        else:
            env.eq('same seed, same stop gain', a.stopGain, env.ex(b.stopGain))


def random_iter(env, number):
    L = env.mod('fixif.LTI')
    Gs = list(L.iter_random_Gabarit(number))
    env.check('number of specifications', len(Gs) == number)
    for G in Gs:
        well(env, G)
    env.raises('unknown form', ValueError, L.random_Gabarit, form='other')


# ------------------------------------------------------------------ with Sollya
class Poly:
    """polynomials of the stand-in"""

    def __init__(self, d): self.d = d
    def __pow__(self, n): return Poly({n: 1})
    def __mul__(self, o): return Poly({k: v * o for k, v in self.d.items()})
    __rmul__ = __mul__

    def __add__(self, o):
        o = o.d if isinstance(o, Poly) else {0: o}
        d = dict(self.d)
        for k, v in o.items():
            d[k] = d[k] + v if k in d else v
        return Poly(d)
    __radd__ = __add__


class Interval:
    def __init__(self, a, b=None):
        self.a, self.b = a, a if b is None else b


class Num:
    """a number of the stand-in: the usual operations, powers included"""

    def __new__(cls, v): return v


def sollya_stand_in(env, eps, checker):
    m = types.ModuleType('sollya')
    m.RU, m.RD, m.RN = 'RU', 'RD', 'RN'
    m.pi = 'pi'
    m._x_ = Poly({1: 1})
    m.SollyaObject = Num
    m.Interval = Interval
    m.horner = lambda p: p
    m.inf = lambda i: i.a if isinstance(i, Interval) else i
    m.sup = lambda i: i.b if isinstance(i, Interval) else i
    m.execute = lambda *a: None
    m.suppressmessage = lambda *a: None

    def rnd(x, prec, mode):
        return x + eps if mode == 'RU' else x - eps if mode == 'RD' else x
    m.round = rnd

    def mx(*a):
        r = a[0]
        for x in a[1:]:
            if bool(env.ex(x) > env.ex(r)):
                r = x
        return r

    def mn(*a):
        r = a[0]
        for x in a[1:]:
            if bool(env.ex(x) < env.ex(r)):
                r = x
        return r
    m.max, m.min = mx, mn
    m.parse = lambda s: checker if s == 'checkModulusFilterInSpecification' else (lambda *a: None)
    sys.modules['sollya'] = m
    g = env.mod('fixif.LTI.Gabarit')
    g.sollya = m
    g.Gabarit.isSollyaRunning = None
    return m


def zero_tf(env, n=1):
    return env.mod('fixif.LTI').dTF(env.nparr([env.real('b%d' % i) for i in range(n + 1)]), env.nparr([1.0] + [env.real('a%d' % i) for i in range(1, n + 1)]))


def constraints(env, kinds, margin):
    """what is given to the checker: the filter, the bands enlarged by the margin, with roundings inwards"""
    Fs = fs_of(env, True)
    bands = band_inputs(env, kinds, Fs)
    eps = env.real('eps', Fraction(1, 1000), Fraction(1, 100))
    m = env.real('m', -5, 5) if margin else 0
    for F1, F2, g, k in bands:
        # not an empty constraint
        if k:
            env.assume(lin(env, low(env, g)) - env.ex(m) + Fraction(1, 10) < lin(env, high(env, g)) + env.ex(m))
        else:
            env.assume(lin(env, g) + env.ex(m) > Fraction(1, 10))
    seen = []
    ok = env.choice('ok', [True, False])

    def checker(num, den, cons, prec):
        seen.append((num, den, cons, prec))
        return [('okay', ok), ('results', [])]
    sollya_stand_in(env, eps, checker)
    G = gabarit(env, Fs, bands)
    H = zero_tf(env, 2)
    isok, res = G.check_dTF(H, margin=m, prec=100) if margin else G.check_dTF(H, prec=100)
    env.check('answer of the checker', isok is ok and dict(res)['okay'] is ok)
    env.check('one check', len(seen) == 1)
    num, den, cons, prec = seen[0]
    env.check('precision', prec == 100)
    for lab, p, ref in (('numerator', num, H.num), ('denominator', den, H.den)):
        r = env.grid(ref)[0]
        env.check(lab + ' degree', set(p.d) <= set(range(len(r))))
        env.eqs(lab, [(p.d.get(i, 0), x) for i, x in enumerate(r)])
    env.check('one constraint per band', len(cons) == len(bands))
    M = env.ex(m)
    E = env.ex(eps)
    for c, (F1, F2, g, k) in zip(cons, bands):
        env.eq('beginning of the band', c['Omega'].a, 2 * env.ex(F1) / env.ex(Fs))
        env.eq('end of the band', c['Omega'].b, Fraction(1) if F2 is None else 2 * env.ex(F2) / env.ex(Fs))
        env.check('in radians', c['omegaFactor'] == 'pi')
        sup = (lin(env, high(env, g)) if k else lin(env, g)) + M
        env.check('upper bound, rounded downwards', env.both(env.le(env.ex(c['betaSup']), sup - E), env.le(sup - E, env.ex(c['betaSup']))))
        inf = lin(env, low(env, g)) - M if k else Fraction(0)
        env.check('lower bound, rounded upwards', env.both(env.le(inf, env.ex(c['betaInf'])), env.le(env.ex(c['betaInf']), inf + E)))


def minimum(env, kinds, sides, straddle):
    """the margin found is the smallest one with which the filter is in the specification"""
    Fs = fs_of(env, True)
    bands = band_inputs(env, kinds, Fs)
    hs, errs = [], [Fraction(0)]
    for i, (F1, F2, g, k) in enumerate(bands):
        h0 = env.real('h%d' % i, 0, 10**4)
        h1 = env.real('k%d' % i, 0, 10**4)
        env.assume(h0 <= h1)
        if k:
            env.assume(g[0] < g[1])
        hs.append((h0, h1))
        b = lin(env, g[1]) if k else lin(env, g)
        errs.append(env.ex(h1) - b)
        if k:
            errs.append(lin(env, g[0]) - env.ex(h0))
    cnt = [0]

    def checker(num, den, cons, prec):
        cnt[0] += 1
        res = []
        for c, (h0, h1) in zip(cons, hs):
            ok = bool(env.both(env.le(env.ex(c['betaInf']), env.ex(h0)), env.le(env.ex(h1), env.ex(c['betaSup']))))
            res.append([('okay', ok), ('issue', [] if ok else [[('H', Interval(h0, h1)), ('specification', list(c.items()))]])])
        return [('okay', all(dict(r)['okay'] for r in res)), ('results', res)]
    sollya_stand_in(env, 0, checker)
    G = gabarit(env, Fs, bands)
    mg = G.findMinimumMargin(zero_tf(env))
    need = vmax(env, errs)
    env.eq('smallest margin', mg, need)
    env.check('checked', cnt[0] >= 1)


def cases(tier):
    q_ = tier == 'quick'
    out = []
    for n in range(1, 5 if q_ else 6):
        for kinds in itertools.product((1, 0), repeat=n):
            orders = list(itertools.permutations(range(n)))
            if n > 3:
                orders = [orders[0], orders[-1], orders[len(orders) // 2]]
                if q_ or n > 4:
                    orders = [orders[sum(kinds) % 3]]
            for j, o in enumerate(orders if n > 1 else orders):
                fs = (sum(kinds) + j) % 3 != 2
                out.append(Case('kept-%s-%s-%s' % (''.join(map(str, kinds)), ''.join(map(str, o)), fs), kept, kinds=kinds, order=o, fs=fs, lists=j % 2 == 0, top=j % 3 != 1,
                                ordered=None if n < 3 or (n == 3 and j == 0) or not q_ and n == 3 else j % 2))
    for k in (1, 0):
        for top in (True, False):
            for margin in (False, True):
                out.append(Case('minus-%d-%s-%s' % (k, top, margin), minus, k=k, top=top, margin=margin))
    for kinds, order in (((1,), (0,)), ((0,), (0,)), ((1, 0), (1, 0)), ((0, 1, 0), (1, 2, 0))):
        for dB in (True, False):
            out.append(Case('drawn-%s-%s' % (''.join(map(str, kinds)), 'dB' if dB else 'linear'), drawn, {'tol': 1e-5}, kinds=kinds, dB=dB, order=order))
    for na, nb in ((2, 3), (3, 2), (1, 0), (0, 1)):
        out.append(Case('refused-%d-%d' % (na, nb), refused, na=na, nb=nb))
    for kinds in TYPES:
        for matlab in (False, True):
            for margin in (False, True):
                for centered in (False, True):
                    for same in (True, False) if len(kinds) == 3 else (True,):
                        out.append(Case('design-%s-%s%s%s%s' % (TYPES[kinds], 'matlab' if matlab else 'scipy', '-margin' * margin, '-centered' * centered, '' if same else '-different'), designed,
                                        kinds=kinds, matlab=matlab, margin=margin, centered=centered, same=same))
    for kinds in ((1,), (1, 1), (1, 0, 0), (0, 1, 0, 1), (1, 1, 0)):
        out.append(Case('multi-%s' % ''.join(map(str, kinds)), multi, kinds=kinds))
    for seed in ('none', None, 0, 5):
        for form in (None, 'lowpass'):
            out.append(Case('random-%s-%s' % (seed, form), random_one, {'random': True}, seed=seed, form=form))
    for seed in (None, 0, 1, 16777214):
        out.append(Case('again-%s' % seed, random_again, {'random': True}, seed=seed))
    out.append(Case('random-iter', random_iter, {'random': True}, number=2))
    for kinds in ((1, 0), (0, 1), (0, 1, 0), (1, 0, 1)) + (() if q_ else ((1, 0, 1, 0),)):
        for margin in (False, True):
            out.append(Case('sollya-%s-%s' % (''.join(map(str, kinds)), margin), constraints, {'tol': 1e-5}, kinds=kinds, margin=margin))
    for kinds in ((1,), (0,), (1, 0), (0, 1)) + (() if q_ else ((1, 0, 1), (0, 1, 0))):
        out.append(Case('margin-%s' % ''.join(map(str, kinds)), minimum, kinds=kinds, sides=0, straddle=0))
    return out
