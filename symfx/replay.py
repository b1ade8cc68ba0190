"""Concrete replay: the same harness against the real code of /repo with the real numpy, mpmath
and scipy.  Runs in its own process:  replay.py JOBS.json OUT.json
"""
import importlib
import io
import json
import math
import os
import signal
import sys
import traceback
import types
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('FIXIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)
warnings.simplefilter('ignore')

from symfx.harness import BaseEnv, AssumeFailed, Stop  # noqa


class Mismatch(BaseException):
    pass


class ConcEnv(BaseEnv):
    symbolic = False

    def __init__(self, case, inputs, loose=False):
        import numpy
        import mpmath
        self.np = numpy
        self.mp = mpmath
        self.case = case
        self.inputs = {n: (k, Fraction(v)) for n, (k, v) in inputs.items()}
        self.violations = []
        self.used = {}
        self.tol = 1e-3 if loose else case.opts.get('tol', 1e-6)
        self.exact = case.opts.get('exact', False)
        self.hooks = {}
        self._seed = {}
        self._drawn = {}
        self._intname = {}
        self.log = []
        self.Fraction = Fraction

    def mod(self, name):
        return importlib.import_module(name)

    def hook(self, name, fn):
        HOOKS[name] = fn

    def contract(self, name, fn):
        pass        # the real library function is used

    def replace(self, name, fn):
        m, f = name.rsplit('.', 1)
        old = getattr(importlib.import_module(m), f)
        for n, v in list(sys.modules.items()):
            if n == m or n.startswith('fixif'):
                for k, x in list(vars(v).items()):
                    if x is old:
                        setattr(v, k, fn)

    # ------------------------------------------------------------ inputs
    def _get(self, name, lo, hi, nz):
        if name not in self.inputs:
            # the assignment leaves it free
            v = Fraction(1)
            if lo is not None:
                v = Fraction(lo) if hi is None else (Fraction(lo) + Fraction(hi)) / 2
                if lo is not None and hi is None:
                    v = v + 1
            elif hi is not None:
                v = Fraction(hi) - 1
        else:
            v = self.inputs[name][1]
        return v

    def _chk(self, v, lo, hi, nz):
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (nz and v == 0):
            raise AssumeFailed()

    def real(self, name, lo=None, hi=None, nz=False):
        v = self.constant(name, lo, hi, nz)
        if v is not None:
            return float(v)
        v = float(self._get(name, lo, hi, nz))
        self._chk(Fraction(v), lo, hi, nz)
        self.used[name] = v
        return v

    def mpf(self, name, lo=None, hi=None, nz=False, width=None):
        v = self.constant(name, lo, hi, nz)
        if v is not None:
            return mpf_of(self.mp, v, width)
        v = self._get(name, lo, hi, nz)
        m = mpf_of(self.mp, v, width)
        self._chk(self.ex(m), lo, hi, nz)
        self.used[name] = str(self.ex(m))
        return m

    def int(self, name, lo, hi):
        v = self._get(name, lo, hi, False)
        v = int(v)
        self._chk(v, lo, hi, False)
        self._intname.setdefault(v, name)
        self.used[name] = v
        return v

    def intreal(self, name, lo, hi):
        return float(self.int(name, lo, hi))

    def fresh(self, name, kind='f', lo=None, hi=None):
        raise Mismatch('fresh value in a concrete run')

    def choice(self, name, options):
        return options[self.int('choice_' + name, 0, len(options) - 1)]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    # ------------------------------------------------------------ randomness
    def draw_seed(self, which, args):
        v = args[0] if args else None
        self.log.append(('seed', which, v))
        self._seed[which] = None if v is None else self._seedkey(v)
        if v is not None:
            self._drawn[which, self._seedkey(v)] = 0

    def _seedkey(self, v):
        n = self._intname.get(int(v))
        return '<%s>' % n if n else str(v)

    def _draw(self, which):
        s = self._seed.get(which)
        k = self._drawn.get((which, s), 0)
        self._drawn[which, s] = k + 1
        return 'draw_%s_%s_%d' % (which, s, k)

    draw_rule = None
    max_draws = None
    draws_label = None
    max_stream = None
    ndraws = 0

    def _ruled(self, kind, which):
        k, self.ndraws = self.ndraws, self.ndraws + 1
        j = self._drawn.get((which, (self._seed or {}).get(which)), 0)     # position in the stream of the seed
        if self.max_stream is not None and j >= self.max_stream:
            raise AssumeFailed()
        if self.max_draws is not None and k >= self.max_draws:
            if self.draws_label:
                self.check(self.draws_label, False)
                raise Stop()
            raise AssumeFailed()
        return self.draw_rule(kind, j) if self.draw_rule else None

    def draw_real(self, lo, hi, closed=False, which='numpy'):
        v = self._ruled('normal' if lo is None else 'uniform', which)
        if v is not None:
            self._draw(which)
            return float(v) if lo is None else lo + float(v) * (hi - lo)
        if lo is None:
            return self.real(self._draw(which))
        n = self._draw(which)
        u = float(self._get(n, 0, 1, False)) if n in self.inputs else 0.5
        if not (0 <= u <= 1) or (u == 1 and not closed):
            raise AssumeFailed()
        self.used[n] = u
        return lo + u * (hi - lo)

    def draw_int(self, lo, hi, which='numpy'):
        v = self._ruled('int', which)
        if v is not None:
            self._draw(which)
            return v
        n = self._draw(which)
        v = int(self.inputs[n][1]) if n in self.inputs else lo
        if not lo <= v <= hi:
            raise AssumeFailed()
        self.used[n] = v
        if hi - lo > 1000:
            self._intname.setdefault(v, n)
        return v

    # ------------------------------------------------------------ values
    def ex(self, v):
        if isinstance(v, Fraction):
            return v
        if isinstance(v, complex) or hasattr(v, '_mpc_'):
            re, im = self.ex(v.real), self.ex(v.imag)
            if im == 0:
                return re
            return complex(float(re), float(im))
        if hasattr(v, '_mpf_'):
            s, m, e, b = v._mpf_
            if not m and e:
                return float(v)
            r = Fraction(int(m)) * Fraction(2) ** int(e)
            return -r if s else r
        if isinstance(v, self.np.generic):
            return self.ex(v.item())
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
                return v
            return Fraction(v)
        if isinstance(v, self.np.ndarray) and v.size == 1:
            return self.ex(v.reshape(-1)[0] if not isinstance(v, self.np.matrix) else v[0, 0])
        return v

    def tomp1(self, v):
        return mpf_of(self.mp, self.ex(v), 200)

    def mpc(self, re, im):
        return self.mp.mpc(self.tomp1(re), self.tomp1(im))

    # comparisons with the slack of floating point
    def le(self, a, b):
        a, b = self.ex(a), self.ex(b)
        if isinstance(a, float) or isinstance(b, float):
            return a <= b
        if self.exact:
            return a <= b
        return a <= b + Fraction(self.tol) * max(1, abs(a), abs(b))

    lt = le

    def both(self, *cs): return all(cs)
    def either(self, *cs): return any(cs)
    def neg(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)

    def iszero(self, v):
        v = self.ex(v)
        if self.exact:
            return v == 0
        return abs(v) <= self.tol

    def _same(self, a, b, tol, scale=1):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if a == b:
                return True
            if self.exact and tol is None:
                return False
            t = Fraction(self.tol if tol is None else tol)
            return abs(a - b) <= t * max(1, abs(a), abs(b), scale)
        if isinstance(a, (Fraction, float, complex)) and isinstance(b, (Fraction, float, complex)):
            try:
                x, y = complex(a), complex(b)
            except OverflowError:
                return False
            if x == y:
                return True
            if x != x or y != y:
                return (x != x) and (y != y)
            if abs(x) == math.inf or abs(y) == math.inf:
                return False
            return abs(x - y) <= (self.tol if tol is None else tol) * max(1, abs(x), abs(y), float(scale))
        try:
            return bool(a == b)
        except Exception:
            return False

    def eq(self, label, a, b, tol=None):
        x, y = self.ex(a), self.ex(b)
        return self.check(label, self._same(x, y, tol), info=lambda: 'got %s, expected %s' % (_s(x), _s(y)))

    def eqs(self, label, pairs, tol=None):
        ps = [(self.ex(a), self.ex(b)) for a, b in pairs]
        sc = 1
        for a, b in ps:
            for v in (a, b):
                if isinstance(v, Fraction):
                    sc = max(sc, abs(v))
        for i, (a, b) in enumerate(ps):
            if not self._same(a, b, tol, sc):
                return self.check(label, False, info=lambda: 'element %d: got %s, expected %s' % (i, _s(a), _s(b)))
        return self.check(label, True)

    def check(self, label, cond, info=None):
        try:
            ok = bool(cond)
        except Exception:
            ok = False
        if not ok:
            self.violations.append((label, str((info() if callable(info) else info) if info is not None else '')[:400]))
        return ok

    def note(self, *a):
        self.log.append(a)


def _s(x):
    try:
        if isinstance(x, Fraction):
            return '%s (~%.9g)' % (x, float(x)) if len(str(x)) < 80 else '~%.17g' % float(x)
    except OverflowError:
        pass
    return repr(x)[:120]


def mpf_of(mp, v, width=None):
    """the mpf nearest to v (exact for dyadic v)"""
    from mpmath.libmp import from_rational, from_man_exp
    d = v.denominator
    if d & (d - 1) == 0:
        return mp.mp.make_mpf(from_man_exp(v.numerator, -(d.bit_length() - 1)))
    return mp.mp.make_mpf(from_rational(v.numerator, v.denominator, width or 53, 'n'))


HOOKS = {}


def install_stubs():
    from symfx import fxpstub
    w = types.ModuleType('fixif.WCPG')

    def WCPG_ABCD(A, B, C, D, info=None):
        if info is not None:
            info['N'] = 1
        return HOOKS['wcpg'](A, B, C, D)

    def WCPG_TF(num, den):
        return HOOKS['wcpg_tf'](num, den)
    w.WCPG_ABCD, w.WCPG_TF = WCPG_ABCD, WCPG_TF
    sys.modules['fixif.WCPG'] = w
    for n, m in fxpstub.modules().items():
        sys.modules[n] = m


class _CurEnv:
    """the environment of the current job (the modules of the repository keep the patched functions)"""
    env = None
    patched = False

    def __getattr__(self, name):
        return getattr(_CurEnv.env, name)


def patch_random(env):
    """the random sources deliver the draws of the counterexample"""
    first = not _CurEnv.patched
    _CurEnv.env = env
    _CurEnv.patched = True
    if not first:
        return
    env = _CurEnv()
    import random
    import numpy as np
    r = np.random

    def arr(shape, one):
        if shape is None or shape == ():
            return one()
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(tuple(int(s) for s in shape))
        for i in np.ndindex(a.shape):
            a[i] = one()
        return a
    u = lambda lo, hi: env.draw_real(lo, hi)
    r.rand = lambda *s: arr(s, lambda: u(0, 1))
    r.random = r.random_sample = r.ranf = r.sample = lambda size=None: arr(size, lambda: u(0, 1))
    r.uniform = lambda low=0.0, high=1.0, size=None: arr(size, lambda: u(low, high))
    r.randn = lambda *s: arr(s, lambda: u(None, None))
    r.normal = lambda loc=0.0, scale=1.0, size=None: arr(size, lambda: u(None, None))
    r.standard_normal = lambda size=None: arr(size, lambda: u(None, None))

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if low >= high:
            raise ValueError('low >= high')
        if size is None:
            return env.draw_int(low, high - 1)
        return arr(size, lambda: env.draw_int(low, high - 1)).astype(int)
    r.randint = randint
    r.seed = lambda *a: env.draw_seed('numpy', a)
    r.get_state = lambda *a, **k: ('state',)
    r.set_state = lambda s: env.draw_seed('numpy', (s,))

    def npchoice(a, size=None, **k):
        n = a if isinstance(a, int) else len(a)
        i = env.draw_int(0, n - 1)
        return i if isinstance(a, int) else a[i]
    r.choice = npchoice
    mt = r.mtrand
    for n in ('rand', 'random', 'random_sample', 'uniform', 'randn', 'normal', 'standard_normal', 'randint', 'seed',
              'get_state', 'set_state', 'choice'):
        setattr(mt, n, getattr(r, n))
    random.random = lambda: env.draw_real(0, 1, False, 'random')

    def uniform(a, b):
        return env.draw_real(a, b, True, 'random') if a <= b else env.draw_real(b, a, True, 'random')
    random.uniform = uniform

    def rint(a, b):
        if a > b:
            raise ValueError('empty range for randint')
        return env.draw_int(a, b, 'random')
    random.randint = rint

    def rrange(a, b=None, step=1):
        if b is None:
            a, b = 0, a
        n = len(range(a, b, step))
        if n == 0:
            raise ValueError('empty range for randrange')
        if step != 1:
            return a + step * env.draw_int(0, n - 1, 'random')
        return env.draw_int(a, b - 1, 'random')
    random.randrange = rrange
    random.choice = lambda seq: seq[env.draw_int(0, len(seq) - 1, 'random')]
    random.seed = lambda *a: env.draw_seed('random', a)
    random.Random = lambda *a: (env.draw_seed('random', a), random)[1]
    random.getstate = lambda: ()
    random.setstate = lambda s: env.draw_seed('random', (s,))


def run_job(case, job):
    env = ConcEnv(case, job['inputs'], job.get('loose', False))
    import mpmath
    mpmath.mp.prec = case.opts.get('prec', 53)
    if case.opts.get('random') or _CurEnv.patched:
        patch_random(env)
    out = {'violations': [], 'assume_failed': False, 'error': None}
    try:
        case.fn(env, **case.params)
    except AssumeFailed:
        out['assume_failed'] = True
    except Stop:
        pass
    except Mismatch as e:
        out['error'] = 'mismatch: %s' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if f.filename.startswith(REPO)]
        at = ' at %s:%s' % (os.path.relpath(fr[-1].filename, REPO), fr[-1].lineno) if fr else ''
        if not fr and not any(f.filename.startswith(REPO) for f in tb):
            # raised by the harness itself, not by the code under test
            hf = tb[-1]
            out['harness_exc'] = '%s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(hf.filename), hf.lineno)
        env.violations.append(('no exception (%s)' % type(e).__name__, '%s: %s%s' % (type(e).__name__, str(e)[:200], at)))
    if not out['assume_failed']:
        out['violations'] = env.violations
    out['used'] = {k: str(v) for k, v in env.used.items()}
    return out


def load_cases(prop, tier):
    m = importlib.import_module('props.' + prop.lower())
    return {c.name: c for c in m.cases(tier)}, m


def preload(m):
    """import, before the runs are forked off, what the harnesses of the property use"""
    import inspect
    import re
    names = ['numpy', 'scipy.linalg', 'scipy.signal', 'mpmath', 'jinja2']
    for mod in [m] + [v for v in vars(m).values() if isinstance(v, types.ModuleType) and v.__name__.startswith('props')]:
        names += sorted(set(re.findall(r"'(fixif\.[\w.]+)'", inspect.getsource(mod))))
    for n in names:
        try:
            importlib.import_module(n)
        except Exception:
            pass


def main(jobsfile, outfile):
    with open(jobsfile) as f:
        spec = json.load(f)
    cases, m = load_cases(spec['property'], spec['tier'])
    install_stubs()
    if any(c.opts.get('random') for c in cases.values()):
        patch_random(None)
    preload(m)
    results = []
    limit = spec.get('limit', 60)
    for job in spec['jobs']:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                signal.alarm(limit)
                dn = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get('REPLAY_VERBOSE'):
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                res = run_job(cases[job['case']], job)
            except BaseException as e:
                res = {'violations': [], 'assume_failed': False, 'error': '%s: %s' % (type(e).__name__, e), 'used': {}}
                if os.environ.get('REPLAY_VERBOSE'):
                    traceback.print_exc()
            data = json.dumps(res).encode()
            while data:
                k = os.write(w, data)
                data = data[k:]
            os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if data:
            results.append(json.loads(data))
        else:
            results.append({'violations': [], 'assume_failed': False, 'error': 'replay died (status %d)' % st, 'used': {}})
    with open(outfile, 'w') as f:
        json.dump(results, f)


if __name__ == '__main__':
    if len(sys.argv) == 2:
        # a stored replay file
        with open(sys.argv[1]) as f:
            v = json.load(f)
        cases, m = load_cases(v['property'], 'thorough')
        if v['case'] not in cases:
            cases, m = load_cases(v['property'], 'quick')
        install_stubs()
        r = run_job(cases[v['case']], v)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r['violations'] else 0)
    main(sys.argv[1], sys.argv[2])
