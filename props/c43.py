"""C43: transfer functions handed to scipy, frequency diagrams"""
from fractions import Fraction
from symfx.harness import Case
from props import lti

BOUNDS = ('numerators and denominators of 1..4 (quick) / 1..6 (thorough) coefficients, independent lengths, all coefficients symbolic (integer type too), leading denominator coefficient any non-zero value; '
          'diagrams of 3 to 5 points whose values are symbolic; drawings of specifications in both scales')
ASSUMPTIONS = ['scipy.signal.dbode and freqz return arbitrary values for the transfer function they are given (functions of powers of z, resp. of 1/z, as documented); '
               'the drawing functions of matplotlib (semilogx, plot, add_patch of the axes) are replaced by stand-ins that record the curves; a magnitude in dB is compared for given values only',
               'double arithmetic modelled over the reals']


class TF:
    """scipy.signal.TransferFunction(num, den, dt=...): decreasing powers of z"""

    def __init__(self, *system, **k):
        if len(system) != 2:
            raise ValueError('numerator and denominator expected')
        self.num, self.den = [[x for x in (v.tolist() if hasattr(v, 'tolist') else list(v))] for v in system]
        self.dt = k.get('dt')


def zresponse(env, num, den, K):
    """impulse response of a ratio of polynomials in decreasing powers of z"""
    num, den = [env.ex(x) for x in num], [env.ex(x) for x in den]
    m = max(len(num), len(den))
    num, den = [Fraction(0)] * (m - len(num)) + num, [Fraction(0)] * (m - len(den)) + den
    while len(den) > 1 and env.iszero(den[0]) is True and env.iszero(num[0]) is True:
        num, den = num[1:], den[1:]
    return lti.tf_response(num, den, K)


def build(env, ln, ld, ints):
    num = env.reals('n', ln)
    den = [env.real('d0', nz=True)] + [env.real('d%d' % i) for i in range(1, ld)]
    if ints:
        num, den = lti.intcoeffs(ln, ld)
    H = env.mod('fixif.LTI').dTF(env.npmat([num]), env.npmat([den]))
    return H, [env.ex(x) for x in num], [env.ex(x) for x in den]


def same(env, label, T, n, d, K):
    env.check(label + ': sampled system', T.dt not in (None, 0))
    env.check(label + ': leading coefficient', bool(env.neg(env.iszero(env.ex(T.den[0])))) if T.den else False)
    env.eqs(label + ': response', list(zip(zresponse(env, T.num, T.den, K), lti.tf_response(n, d, K))))


def scipy(env, ln, ld, ints):
    env.replace('scipy.signal.TransferFunction', TF)
    H, n, d = build(env, ln, ld, ints)
    K = ln + ld + 1
    T = H.toTransferFunction()
    same(env, 'transfer function of scipy', T, n, d, K)
    env.eqs('unchanged', list(zip(lti.tf_response(env.grid(H.num)[0], env.grid(H.den)[0], K), lti.tf_response(n, d, K))))


class Drawing:
    """records what is drawn with matplotlib (through pyplot or through the axes); the rectangles of a specification are left out (C29 checks them)"""

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        self.plt, self.curves, self.shown = plt, [], 0
        self.old = []

        def rec(ax, x, y, *a, **k):
            self.curves.append((ax, x, y))
            return []

        def show(*a, **k):
            self.shown += 1
        for o, n, f in ((plt, 'show', show), (Figure, 'show', show), (Axes, 'plot', rec), (Axes, 'semilogx', rec), (Axes, 'add_patch', lambda ax, r: r)):
            self.old.append((o, n, getattr(o, n)))
            setattr(o, n, f)
        return self

    def __exit__(self, *a):
        for o, n, f in self.old:
            setattr(o, n, f)
        self.plt.close('all')


def seq(v):
    v = v.tolist() if hasattr(v, 'tolist') else list(v)
    while len(v) == 1 and isinstance(v[0], list):
        v = v[0]
    return [x[0] if isinstance(x, list) else x for x in v]


def bode(env, ln, ld, N, wmin):
    env.replace('scipy.signal.TransferFunction', TF)
    mag, phase = env.reals('m', N), env.reals('p', N)
    asked, out = [], []

    def dbode(system, w=None, n=100):
        T = system if isinstance(system, TF) else TF(*system[:2], dt=system[2])
        asked.append((T, None if w is None else [float(x) for x in seq(w)]))
        ws = [0.5 * (i + 1) for i in range(N)]
        out.append(ws)
        return env.np.array(ws), env.nparr(mag), env.nparr(phase)
    env.replace('scipy.signal.dbode', dbode)
    H, n, d = build(env, ln, ld, False)
    with Drawing() as D:
        H.bode() if wmin is None else H.bode(wmin)
        if not env.check('asked once, shown once', len(asked) == 1 and D.shown == 1):
            return
        same(env, 'system of the diagram', asked[0][0], n, d, ln + ld + 1)
        w = asked[0][1]
        env.check('frequencies', w is not None and abs(w[0] - (1e-3 if wmin is None else wmin)) < 1e-9 and 3.14 < w[-1] < 3.1416 and len(w) >= 100 and all(a < b for a, b in zip(w, w[1:])))
        if env.check('two curves, each one in its own axes', len(D.curves) == 2 and D.curves[0][0] is not D.curves[1][0]):
            for (ax, x, y), ref, name in zip(D.curves, (mag, phase), ('magnitude', 'phase')):
                env.eqs('frequencies of the ' + name, list(zip([env.ex(v) for v in seq(x)], [env.ex(v) for v in out[0]])))
                env.check('as many points', len(seq(x)) == len(seq(y)) == N)
                env.eqs(name, list(zip([env.ex(v) for v in seq(y)], [env.ex(v) for v in ref])))
                env.check('name of the axis', name in ax.get_ylabel().lower(), lambda: ax.get_ylabel())


GAINS = [2.0, 0.125, 10.0, -0.5, 0.001]


def spec(env, ln, ld, N, dB):
    """the modulus of a transfer function over a specification"""
    import math
    import numpy
    h = [GAINS[i] for i in range(N)] if dB else env.reals('h', N)
    asked = []
    ws = [0.6 * i for i in range(N)]

    def freqz(b, a=1, *args, **k):
        env.check('default points', not args and not k)
        asked.append(([x for x in seq(b)], [x for x in seq(a)]))
        return env.np.array(ws), numpy.array(h) if dB else env.nparr(h)
    env.replace('scipy.signal.freqz', freqz)
    H, n, d = build(env, ln, ld, False)
    Fs = env.real('Fs', Fraction(1, 2), 10**6)
    f = env.real('f', 0)
    env.assume(f < Fs / 2)
    G = env.mod('fixif.LTI').Gabarit(Fs, [(f, None)], [(-1.0, 1.0)])
    with Drawing() as D:
        G.plot(H, dB)
        if not env.check('modulus asked once, one curve, shown once', (len(asked), len(D.curves), D.shown) == (1, 1, 1)):
            return
        b, a = [env.ex(x) for x in asked[0][0]], [env.ex(x) for x in asked[0][1]]
        K = ln + ld + 1
        env.eqs('system of the diagram', list(zip(lti.tf_response(b, a, K), lti.tf_response(n, d, K))))
        ax, x, y = D.curves[0]
        x, y = seq(x), seq(y)
        if not env.check('as many points', len(x) == len(y) == N):
            return
        for u, w in zip(x, ws):
            e = env.ex(u) - env.ex(Fs) * Fraction(w / (2 * math.pi))
            t = env.ex(Fs) * Fraction(1, 10**9)
            env.check('frequency', env.both(env.le(e, t), env.le(-e, t)))
        for v, m in zip(y, h):
            if dB:
                env.check('modulus in dB', abs(float(v) - 20 * math.log10(abs(m))) < 1e-9)
            else:
                v, m = env.ex(v), env.ex(m)
                env.check('modulus', env.both(env.iszero(v * v - m * m), env.le(Fraction(0), v)))


def cases(tier):
    q_ = tier == 'quick'
    out = []
    R = range(1, 5 if q_ else 7)
    for ln in R:
        for ld in R:
            out.append(Case('scipy-%d%d' % (ln, ld), scipy, dict(witnesses=1), ln=ln, ld=ld, ints=False))
            if ln + ld in (3, 5):
                out.append(Case('scipy-int-%d%d' % (ln, ld), scipy, dict(witnesses=1), ln=ln, ld=ld, ints=True))
    for ln, ld in ((1, 1), (2, 2), (3, 2), (2, 4), (1, 3)):
        for wmin in (None, 0.01):
            out.append(Case('bode-%d%d-%s' % (ln, ld, wmin), bode, dict(witnesses=1), ln=ln, ld=ld, N=3 if ln < 3 else 5, wmin=wmin))
        for dB in (True, False):
            out.append(Case('spec-%d%d-%s' % (ln, ld, 'dB' if dB else 'linear'), spec, dict(witnesses=1), ln=ln, ld=ld, N=3 if dB else 4, dB=dB))
    for k, (ln, ld) in enumerate(((9, 6), (3, 10))):
        out.append(Case('large-scipy-%d%d' % (ln, ld), scipy, dict(witnesses=1, sparse=(6, 40, k)), ln=ln, ld=ld, ints=False))
    return out
