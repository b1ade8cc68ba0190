"""Symbolic execution of a harness over all its paths; discharge of its assertions with z3."""
import os
import random as pyrandom
import sys
import time
import traceback
from fractions import Fraction

from . import sym as S
from . import loader, npshim
from .sym import Sym, SymBool, SymC, Path, PathAbort, Unsupported, Budget, z3
from .poly import TooBig
from .harness import BaseEnv, Stop, nice, wide

if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)        # the solver's rational values can be long

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, path, world, case, res):
        self.p = path
        self.world = world
        world.fs.reset()
        self.case = case
        self.res = res
        self.np = world.numpy
        self.mp = world.mpmath
        self._seed = None
        self._drawn = {}
        self.log = []
        self.Fraction = Fraction

    def mod(self, name):
        return self.world.load(name)

    def hook(self, name, fn):
        """contract used for a library function whose code is not encoded"""
        self.p.notes[name] = fn

    contract = hook

    def replace(self, name, fn):
        """fn is used instead of a library function, in the symbolic runs and in the replays"""
        self.p.notes[name] = fn

    # ---------------------------------------------------------------- inputs
    def _input(self, name, kind, lo=None, hi=None, nz=False, w=False, integer=False):
        p = self.p
        if name in p.inputs:
            return p.inputs[name]['sym']
        i = p.newvar(name, integer)
        s = Sym.make(p.rf_var(i), kind)
        p.inputs[name] = {'i': i, 'kind': kind, 'lo': lo, 'hi': hi, 'sym': s, 'wide': w, 'int': integer}
        z = p.zv[i]
        if lo is not None:
            p.assume(z >= _q(lo))
        if hi is not None:
            p.assume(z <= _q(hi))
        if nz:
            p.assume(z != 0)
        return s

    def real(self, name, lo=None, hi=None, nz=False):
        v = self.constant(name, lo, hi, nz)
        if v is not None:
            return float(v)
        s = self._input(name, 'f', lo, hi, nz)
        S.set_width(s._r, 53)
        return s

    def mpf(self, name, lo=None, hi=None, nz=False, width=None):
        v = self.constant(name, lo, hi, nz)
        if v is not None:
            return self.mp.mpf(float(v))
        s = self._input(name, 'm', lo, hi, nz, w=(width is None))
        if width is not None:
            S.set_width(s._r, width)
        return s

    def int(self, name, lo, hi):
        return self._input(name, 'i', lo, hi, integer=True)

    def intreal(self, name, lo, hi):
        """a float whose value is an integer"""
        return self._input(name, 'f', lo, hi, integer=True)

    def fresh(self, name, kind='f', lo=None, hi=None):
        """an unconstrained value that is not an input (used by contracts)"""
        p = self.p
        i = p.newvar(p.freshname(name))
        if lo is not None:
            p.assume(p.zv[i] >= _q(lo))
        if hi is not None:
            p.assume(p.zv[i] <= _q(hi))
        return Sym.make(p.rf_var(i), kind)

    def choice(self, name, options):
        s = self._input('choice_' + name, 'i', 0, len(options) - 1, integer=True)
        z = self.p.zv[self.p.inputs['choice_' + name]['i']]
        for k in range(len(options) - 1):
            if self.p.branch(z == k):
                return options[k]
        self.p.assume(z == len(options) - 1)
        return options[-1]

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.p.assume(cond.c)
        elif not cond:
            raise PathAbort('assume')

    # ---------------------------------------------------------------- randomness
    # each generator (numpy / random) is a stream of arbitrary draws; after seed(s) the draws are
    # a function of (s, position) only
    def draw_seed(self, which, args):
        v = args[0] if args else None
        self.log.append(('seed', which, v))
        self._seed = getattr(self, '_seed', None) or {}
        self._seed[which] = None if v is None else self._seedkey(v)
        if v is not None:
            self._drawn[which, self._seedkey(v)] = 0

    def _seedkey(self, v):
        if isinstance(v, Sym) and not v._is_const():
            for n, d in self.p.inputs.items():
                if S.rfkey(d['sym']._r) == S.rfkey(v._r):
                    return '<%s>' % n
            raise Unsupported('seed computed from several values')
        return str(v)

    def _draw(self, which):
        s = (self._seed or {}).get(which)
        k = self._drawn.get((which, s), 0)
        self._drawn[which, s] = k + 1
        return 'draw_%s_%s_%d' % (which, s, k)

    # a harness may fix some draws (draw_rule(kind, k) -> value or None) or bound their number
    draw_rule = None
    max_draws = None
    draws_label = None
    max_stream = None
    ndraws = 0

    def _ruled(self, kind, which):
        k, self.ndraws = self.ndraws, self.ndraws + 1
        j = self._drawn.get((which, (self._seed or {}).get(which)), 0)     # position in the stream of the seed
        if self.max_stream is not None and j >= self.max_stream:
            raise PathAbort('draws')
        if self.max_draws is not None and k >= self.max_draws:
            if self.draws_label:
                self.check(self.draws_label, False)
            raise PathAbort('draws')
        return self.draw_rule(kind, j) if self.draw_rule else None

    def draw_real(self, lo, hi, closed=False, which='numpy'):
        v = self._ruled('normal' if lo is None else 'uniform', which)
        if v is not None:
            self._draw(which)
            v = S.lift(float(v), 'f')
            return v if lo is None or (lo == 0 and hi == 1) else v * (hi - lo) + lo
        if lo is None:
            return self._input(self._draw(which), 'f')
        u = self._input(self._draw(which), 'f', 0, 1)
        if not closed:
            self.p.assume(self.p.z_rf(u._r) < 1)
        if lo == 0 and hi == 1:
            return u
        return u * (hi - lo) + lo

    def draw_int(self, lo, hi, which='numpy'):
        v = self._ruled('int', which)
        if v is not None:
            self._draw(which)
            return v
        n = self._draw(which)
        s = self._input(n, 'i', integer=True)
        self.assume(s >= lo)
        self.assume(s <= hi)
        if not isinstance(lo, Sym) and not isinstance(hi, Sym):
            self.p.inputs[n]['lo'], self.p.inputs[n]['hi'] = lo, hi
        return s

    # ---------------------------------------------------------------- values
    def ex(self, v):
        if isinstance(v, SymBool):
            return Fraction(S.toint(v))
        if isinstance(v, Sym):
            if v._is_const():
                return Fraction(v._value())
            return Sym.make(v._r, 'f')
        if isinstance(v, SymC):
            im = self.ex(v.imag)
            return SymC(self.ex(v.real), im)
        if hasattr(v, '_mpc_') or isinstance(v, complex):
            re, im = self.ex(v.real), self.ex(v.imag)
            if im == 0:
                return re
            return SymC(re, im)
        try:
            f = S.tofrac(v)
        except TypeError:
            return v
        return float(v) if f is None else Fraction(f)

    def tomp1(self, v):
        v = self.ex(v)
        if isinstance(v, Sym):
            return Sym.make(v._r, 'm')
        return self.mp.mp.mpf(v.numerator) if v.denominator == 1 else Sym.make(S.lift(v, 'f')._r, 'm')

    def mpc(self, re, im):
        return self.mp.mpc(self.tomp1(re), self.tomp1(im))

    def lt(self, a, b): return _b(self.ex(a) < self.ex(b))
    def le(self, a, b): return _b(self.ex(a) <= self.ex(b))

    def both(self, *cs):
        c = [S.zbool(x) for x in cs]
        return S.mkbool(z3.And(*c)) if c else True

    def either(self, *cs):
        return S.mkbool(z3.Or(*[S.zbool(x) for x in cs]))

    def neg(self, c):
        return S.not_(c)

    def implies(self, a, b):
        return S.mkbool(z3.Implies(S.zbool(a), S.zbool(b)))

    def iszero(self, v):
        """exact zero test as a (symbolic) condition"""
        return self.ex(v) == 0

    # ---------------------------------------------------------------- assertions
    def eq(self, label, a, b, tol=None):
        a0, b0 = a, b
        a, b = self.ex(a), self.ex(b)
        try:
            c = (a == b)
        except TypeError:
            c = False
        if c is True and (isinstance(a, Sym) or isinstance(b, Sym)):
            return self._same_form(label, [(a, b)])
        if isinstance(c, SymBool) or isinstance(c, (bool,)):
            return self.check(label, c, info=lambda: '%s vs %s' % (_short(a), _short(b)), pairs=[(a, b)])
        return self.check(label, bool(c), info=lambda: '%r vs %r' % (a0, b0))

    def eqs(self, label, pairs, tol=None):
        """all pairs are equal: one query"""
        cs = []
        for a, b in pairs:
            a, b = self.ex(a), self.ex(b)
            try:
                c = (a == b)
            except TypeError:
                c = False
            if isinstance(c, SymBool):
                cs.append(c.c)
            elif not c:
                return self.check(label, False, info=lambda: '%s vs %s' % (_short(a), _short(b)))
        if not cs:
            return self._same_form(label, pairs)
        return self.check(label, S.mkbool(z3.And(*cs)), pairs=pairs)

    def _loud(self, pairs):
        """goal: some of the pairs differ by more than the tolerance of the concrete comparison"""
        p, cs = self.p, []
        for a, b in pairs:
            try:
                a, b = self.ex(a), self.ex(b)
                if not (isinstance(a, Sym) or isinstance(b, Sym)):
                    continue
                za, zb = p.z_rf(S.lift(a)._r), p.z_rf(S.lift(b)._r)
                d = za - zb
                for e in (d, -d):
                    cs.append(z3.And(e > 1, za < 1000 * e, -za < 1000 * e))
            except Exception:
                continue
        return z3.Or(*cs) if cs else None

    def _same_form(self, label, pairs):
        """both sides have the same normal form (rational functions): put to the solver as well
        while the terms are small"""
        p, st = self.p, self.res.stats
        diff = []
        n = 0
        for a, b in pairs:
            a, b = self.ex(a), self.ex(b)
            if isinstance(a, Sym) or isinstance(b, Sym):
                a, b = S.lift(a), S.lift(b)
                n += len(a._r.n) + len(b._r.n)
                if n > 400:
                    break
                # cross-multiplied: denominators are non-zero on the path
                zp = lambda n: p.z_poly(p.known(n))
                ta = zp(a._r.n) * zp(b._r.denpoly()) if b._r.d else zp(a._r.n)
                tb = zp(b._r.n) * zp(a._r.denpoly()) if a._r.d else zp(b._r.n)
                diff.append(ta != tb)
        if n > 400 or not diff:
            return self.check(label, True)
        st['assertions'] += 1
        st['queries'] += 1
        import time as _t
        t = _t.time()
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(z3.Or(*diff))
        r = s.check()
        st['solver_s'] += _t.time() - t
        if r == z3.unsat:
            st['discharged'] += 1
        elif r == z3.sat:
            raise Unsupported('normal form disagrees with the solver')
        else:
            st['decided_by_normal_form'] += 1
        return True

    def check(self, label, cond, info=None, pairs=()):
        st = self.res.stats
        st['assertions'] += 1
        p = self.p
        p.tick()
        if isinstance(cond, SymBool):
            neg = z3.Not(cond.c)
        else:
            try:
                ok = bool(cond)
            except Exception:
                ok = False
            if ok:
                # the normal form of the assertion is `true`: nothing left to search
                st['decided_by_normal_form'] += 1
                return True
            neg = z3.BoolVal(True)
        r = self._query(neg)
        if r == z3.unsat:
            st['discharged'] += 1
            return True
        failed = self.res.fail(self, label, neg, 'sat' if r == z3.sat else 'unknown',
                               (info() if callable(info) else str(info)) if info is not None else '',
                               lambda: self._loud(pairs))
        return False

    def _query(self, neg):
        p, st = self.p, self.res.stats
        st['queries'] += 1
        t = time.time()
        ms = p.opts.get('query_ms', 15000)
        p.solver.set('timeout', ms)
        try:
            r = p.solver.check(neg)
            if r == z3.unknown:
                s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
                s2.set('timeout', ms)
                s2.add(p.solver.assertions())
                s2.add(neg)
                try:
                    r = s2.check()
                except z3.Z3Exception:
                    r = z3.unknown
            if r == z3.unknown and self.res.extra > 0:
                # a slow machine: a longer time, for a few queries of the case
                more = min(self.res.extra, 4 * ms)
                t2 = time.time()
                p.solver.set('timeout', more)
                r = p.solver.check(neg)
                self.res.extra -= int(1000 * (time.time() - t2)) + 1
        finally:
            p.solver.set('timeout', p.opts.get('branch_ms', 4000))
            st['solver_s'] += time.time() - t
        return r

    def note(self, *a):
        self.log.append(a)


def _b(c):
    return c


def _q(v):
    v = Fraction(v)
    return z3.Q(v.numerator, v.denominator)


def _short(x):
    s = repr(x)
    if isinstance(x, Sym):
        try:
            p = S.cur()
            s = str(z3.simplify(p.z_rf(x._r))).replace('\n', ' ')
        except BaseException:
            pass
    return s[:160]


# ====================================================================== results
def newstats():
    return dict(paths=0, branches=0, feasibility_queries=0, queries=0, assertions=0, discharged=0,
                decided_by_normal_form=0, solver_s=0.0, aborted=0, witnesses=0)


class Result:
    """what one case produced"""

    def __init__(self, case):
        self.case = case.name
        self.stats = newstats()
        self.failures = {}       # label -> dict(status, info, cands)
        self.inconclusive = []
        self.witnesses = []
        self.functions = set()
        self.files = set()
        self.maxcand = case.opts.get('candidates', 6)
        self.extra = case.opts.get('extra_ms', 60000)      # for the queries without an answer
        self.rng = pyrandom.Random('%s/%s' % (SEED, case.name))

    def fail(self, env, label, neg, status, info, loud=None):
        f = self.failures.setdefault(label, dict(status=status, info=info, cands=[], n=0))
        f['n'] += 1
        if status == 'sat':
            f['status'] = 'sat'
        if len(f['cands']) < 3 * self.maxcand:
            f['cands'] += candidates(env.p, neg, self.rng, self.maxcand, env.case.opts)
            goal = loud() if loud is not None else None
            if goal is not None and env.p.opts.get('rounding') != 'delta' and len(f['cands']) < 6 * self.maxcand:
                # values for which the difference exceeds what the concrete comparison tolerates
                f['cands'] += candidates(env.p, z3.And(neg, goal), self.rng, 2, dict(env.case.opts, cand_s=6))
            # also values the model of the path does not reach (encoded number formats are bounded)
            f['cands'] += blind(env.p, self.rng, self.maxcand if env.p.opts.get('rounding') == 'delta' else 2)
        return f


def _val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(25)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(0)


def _model_inputs(p, m):
    out = {}
    for n, d in p.inputs.items():
        v = _val(m, p.zv[d['i']])
        d_ = v.denominator
        if d_.bit_length() > (1000 if d_ & (d_ - 1) else 8000):
            v = v.limit_denominator(2**60)       # (the concrete run decides)
        out[n] = [d['kind'], str(v)]
    return out


def blind(p, rng, n):
    out = []
    delta = p.opts.get('rounding') == 'delta'
    for _ in range(n if p.inputs else 0):
        a = {}
        for name, d in p.inputs.items():
            if delta and not d['int'] and d['lo'] is None and d['hi'] is None:
                v = wide(rng, 120 if d['wide'] else 53)
            else:
                v = nice(rng, d['kind'] if not d['int'] else 'i', d['lo'], d['hi'])
            a[name] = [d['kind'], str(v)]
        out.append(a)
    return out


def candidates(p, neg, rng, n, opts):
    """input assignments for which `path and neg` holds, as varied and as plain as possible"""
    out = []
    ins = list(p.inputs.items())
    delta = p.opts.get('rounding') == 'delta'
    goal = [] if neg is None or delta else [neg]
    s = p.solver
    t0 = time.time()
    lim = opts.get('cand_s', 20)
    s.set('timeout', 3000)
    try:
        if goal or not ins:
            if s.check(*goal) == z3.sat:
                out.append(_model_inputs(p, s.model()))
        if not ins:
            return out
        tries = 0
        while len(out) < n and tries < 4 * n and time.time() - t0 < lim:
            tries += 1
            pins = []
            for name, d in ins:
                if delta and not d['int'] and d['lo'] is None and d['hi'] is None:
                    v = wide(rng, 120 if d['wide'] else 53)
                else:
                    v = nice(rng, d['kind'] if not d['int'] else 'i', d['lo'], d['hi'])
                pins.append(p.zv[d['i']] == _q(v))
            if s.check(*(goal + pins)) == z3.sat:
                out.append(_model_inputs(p, s.model()))
                continue
            if tries % 3 == 2:
                # pin one input after the other
                kept = []
                order = list(range(len(ins)))
                rng.shuffle(order)
                model = None
                for k in order:
                    if time.time() - t0 > lim:
                        break
                    if s.check(*(goal + kept + [pins[k]])) == z3.sat:
                        model = s.model()
                        kept.append(pins[k])
                if model is not None:
                    out.append(_model_inputs(p, model))
        if not out and not goal:
            if s.check() == z3.sat:
                out.append(_model_inputs(p, s.model()))
    except z3.Z3Exception:
        pass
    finally:
        s.set('timeout', p.opts.get('branch_ms', 4000))
    return out


# ====================================================================== function coverage
class Coverage:
    TOOL = 4

    def __init__(self):
        self.found = set()

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'symfx')
        except ValueError:
            return self
        root = os.path.join(loader.REPO, '')

        def start(code, off):
            if code.co_filename.startswith(root):
                self.found.add('%s:%s' % (code.co_filename[len(root):], code.co_qualname))
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)


# ====================================================================== exploration
def explore(case, tier='quick'):
    res = Result(case)
    opts = dict(case.opts)
    budget = opts.get('budget_s', 240 if tier == 'quick' else 1500)
    opts['deadline'] = time.time() + budget
    maxpaths = opts.get('max_paths', 4000)
    nwit = opts.get('witnesses', 3 if tier == 'quick' else 8)
    stack = [[]]
    t0 = time.time()
    with Coverage() as cov:
        while stack:
            if res.stats['paths'] >= maxpaths:
                res.inconclusive.append('path limit %d reached' % maxpaths)
                break
            prefix = stack.pop()
            p = Path(prefix, opts, res.stats)
            S.CUR = p
            npshim.reset() if hasattr(npshim, 'reset') else None
            world = loader.World(third_party=opts.get('third_party', ()))
            env = SymEnv(p, world, case, res)
            p.env = env
            if 'prec' in opts:
                world.ctx.prec = opts['prec']
            done = False
            try:
                case.fn(env, **case.params)
                done = True
            except PathAbort:
                res.stats['aborted'] += 1
            except Stop:
                done = True
            except (Unsupported, TooBig) as e:
                res.inconclusive.append('%s: %s' % (type(e).__name__, e) + _where(e))
                _probe(env, res)
            except Budget as e:
                res.inconclusive.append('Budget: %s' % e)
                _probe(env, res)
                break
            except RecursionError as e:
                res.inconclusive.append('RecursionError')
                _probe(env, res)
            except Exception as e:
                if os.environ.get('SYMFX_TRACE'):
                    traceback.print_exc()
                # an exception nobody expects: is the path feasible?
                label = 'no exception (%s)' % type(e).__name__
                if len(res.failures.get(label, {'cands': []})['cands']) < 3 * res.maxcand:
                    r = env._query(z3.BoolVal(True))
                    if r != z3.unsat:
                        res.fail(env, label, z3.BoolVal(True), 'sat' if r == z3.sat else 'unknown',
                                 '%s: %s%s' % (type(e).__name__, e, _where(e)))
            stack.extend(p.pending)
            if done:
                res.stats['paths'] += 1
                if len(res.witnesses) < nwit or (res.stats['paths'] % 7 == 0 and len(res.witnesses) < 4 * nwit):
                    w = candidates(p, None, res.rng, 1, dict(opts, cand_s=5))
                    if w:
                        res.stats['witnesses'] += 1
                        res.witnesses.append(w[0])
            res.files |= set(world.loaded_files)
            S.CUR = None
            if len(res.inconclusive) > 20:
                break
            if res.failures and not opts.get('all_failures'):
                # enough to replay; the case cannot pass any more
                first = res.first_failure = getattr(res, 'first_failure', None) or time.time()
                if time.time() - first > opts.get('after_failure_s', 25 if tier == 'quick' else 120):
                    res.cut = True
                    break
            if sum(len(f['cands']) for f in res.failures.values()) > 40 * 1 and len(res.failures) > 12:
                res.inconclusive.append('too many failing assertions')
                break
    res.functions = cov.found
    res.wall = time.time() - t0
    if not res.stats['paths'] and not res.failures and not res.inconclusive:
        res.inconclusive.append('vacuous: no path reaches the end of the harness')
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(loader.REPO)]
    f = fr[-1] if fr else (tb[-1] if tb else None)
    return ' @%s:%s' % (os.path.relpath(f.filename, loader.REPO) if fr else os.path.basename(f.filename), f.lineno) if f else ''


def _probe(env, res):
    """inputs on the path of an operation outside the encoding: replayed concretely, a violation
    they show is a violation; otherwise the case stays inconclusive"""
    if len(res.witnesses) < 40:
        try:
            res.witnesses += candidates(env.p, None, res.rng, 3, dict(env.case.opts, cand_s=5))
        except BaseException:
            pass
