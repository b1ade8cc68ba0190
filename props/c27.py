"""C27: the registry of the structures"""
from fractions import Fraction
from itertools import product
from symfx.harness import Case
from props import lti, structs

BOUNDS = ('declared structures with 0..2 (quick) / 0..3 (thorough) options of 1..3 values (symbolic integers, distinct) and any acceptance rule over the combinations (up to 8 combinations); '
          'several structures at once; the registered structures with 1..2 inputs and outputs, orders 0..3, any stability')
ASSUMPTIONS = ['structures other than the direct forms and the state space are enumerated, not built, here (their realizations are C25 and C26)']

# what the documentation of the structures declares
REAL = {'DFI': {'nbSum': (1, 2), 'transposed': (False, True)},
        'DFII': {'transposed': (False, True)},
        'dSS': {'form': (None, 'ctrl', 'obs')},
        'rhoDFII': {'transposed': (True, False), 'equiv_dSS': (False, True), 'scaling': (None, 'l2', 'l2-relaxed')},
        'LGS': {'transposed': (False, True)},
        'LCW': {'transposed': (False, True)}}


def fil(env, n, p, q, stable, pre=''):
    S, M = lti.dss(env, n, p, q, pre=pre)
    return env.mod('fixif.LTI').Filter(ss=S, stable=stable)


def key(o):
    return tuple(sorted((k, v) for k, v in (o or {}).items()))


def declare(env, S, name, sizes, log, n, p, q, rule, empty):
    """a structure with len(sizes) options; rule(indices) is the (symbolic) acceptance of a combination"""
    names = ['opt%d' % i for i in range(len(sizes))]
    vals = []
    for i, s in enumerate(sizes):
        v = [env.int('%s_v%d%d' % (name, i, j), -50, 50) for j in range(s)]
        for a in range(s):
            for b in range(a):
                env.assume(v[a] != v[b])
        vals.append(tuple(v))
    opts = dict(zip(names, vals))

    def index(o):
        # the values are given back unchanged: found by identity, then by value
        out = []
        for nm, vs in zip(names, vals):
            hit = [j for j, v in enumerate(vs) if v is o[nm]]
            out.append(hit[0] if hit else [j for j, v in enumerate(vs) if v == o[nm]][0])
        return tuple(out)
    rules = {c: rule(name, c) for c in product(*[range(s) for s in sizes])}

    def accept(filt, **o):
        # the answer may only use the options given; all of them are expected
        env.check('all the options are given to the acceptance function', sorted(o) == sorted(names), (name, sorted(o)))
        return rules[index(o)]

    def make(filt, **o):
        env.check('all the options are given to the factory', sorted(o) == sorted(names), (name, sorted(o)))
        log.append((name, index(o), filt))
        g = [[[0.0] * c for _ in range(r)] for r, c in ((n, n), (n, q), (p, n), (p, q))]
        m = lambda r, c: env.npmat([[0.0] * c for _ in range(r)])
        # one intermediate variable; S counts the combination
        w = 1.0
        for x in index(o):
            w = 10 * w + x
        return {'JtoS': (env.npmat([[1.0]]), m(n, 1), m(p, 1), m(1, n), m(1, q), m(n, n), m(n, q), m(p, n), env.npmat([[w] * q for _ in range(p)]))}
    st = S.Structure(shortName=name, fullName='Structure ' + name, make=make, accept=accept,
                     options=(opts if sizes else ({} if empty else None)))
    return st, vals, rules, index, names


def fake(env, shapes, p, q, empty=False):
    S = env.mod('fixif.Structures.Structure')
    n = 1
    F = fil(env, n, p, q, False)
    log = []
    flags = {}

    def rule(name, c):
        v = env.int('acc_%s_%s' % (name, '_'.join(map(str, c))), 0, 1)
        flags[name, c] = v
        return v == 1
    sts = []
    for i, sizes in enumerate(shapes):
        sts.append(declare(env, S, 'fake%d' % i, sizes, log, n, p, q, rule, empty))
    # the structures are registered
    for i, s in enumerate(sts):
        env.check('structure found by its name', S.Structure.getFromName('fake%d' % i) is s[0])
        env.check('structure listed once', sum(1 for x in S.Structure.iterAllStructures() if x is s[0]) == 1)
    # realizations of the filter
    ours = []
    for R in F.iterAllRealizations():
        env.check('filter of the realizations', R.filter is F)
        if R.l == 1 and log and len(log) > len(ours):
            ours.append((log[-1], R))
    seen = [(a, b) for (a, b, f), R in ours]
    env.check('one realization per construction', len(ours) == len(log))
    env.check('no combination twice', len(set(seen)) == len(seen), seen)
    for (nm, c), v in flags.items():
        env.check('a combination is built if and only if it is accepted', (v == 1) if (nm, c) in seen else (v == 0), (nm, c))
    for (nm, c, f), R in ours:
        w = Fraction(1)
        for x in c:
            w = 10 * w + x
        env.check('filter given to the factory', f is F)
        env.eqm('matrices of the factory', R.S, [[w] * q for _ in range(p)])
    # structures and options
    pairs = []
    for st, o in S.iterStructuresAndOptions(F):
        for i, s in enumerate(sts):
            if st is s[0]:
                env.check('options listed', sorted(o or {}) == sorted(s[4]))
                pairs.append(('fake%d' % i, s[3](o) if s[4] else ()))
    env.check('structures and options: the same combinations, once', sorted(pairs) == sorted(seen), (pairs, seen))


def defaults(env, sizes, given, how):
    """options not given: the first value"""
    S = env.mod('fixif.Structures.Structure')
    n, p, q = 1, 1, 1
    F = fil(env, n, p, q, False)
    log = []
    st, vals, rules, index, names = declare(env, S, 'fake0', sizes, log, n, p, q, lambda nm, c: True, False)
    o = {names[i]: vals[i][j] for i, j in given.items()}
    R = st(F, **o) if how == 'call' else st.makeRealization(F, **o) if how == 'make' else S.makeARealization(F, 'fake0', **o)
    env.check('built once', len(log) == 1)
    exp = tuple(given.get(i, 0) for i in range(len(sizes)))
    env.check('first value of the options not given, the value given for the others', log[0][1] == exp, (log[0][1], exp))
    env.check('filter', R.filter is F and log[0][2] is F)
    # names
    R2 = st.makeRealization(F, structName='abc', shortName='de', **o)
    env.check('name of the structure', 'abc' in R2.name, R2.name)
    # a second filter: no memory of the first call
    F2 = fil(env, n, p, q, False, pre='z')
    R3 = st(F2)
    env.check('first values again', log[-1][1] == tuple(0 for _ in sizes) and log[-1][2] is F2 and R3.filter is F2)
    env.check('options of the structure unchanged', sorted(st.options) == names and all(st.options[k] == v for k, v in zip(names, vals)))


def reject(env, sizes, what):
    S = env.mod('fixif.Structures.Structure')
    F = fil(env, 1, 1, 1, False)
    log = []
    st, vals, rules, index, names = declare(env, S, 'fake0', sizes, log, 1, 1, 1, lambda nm, c: True, False)
    if what == 'value':
        bad = env.int('bad', -60, 60)
        for v in vals[-1]:
            env.assume(bad != v)
        env.raises('unknown value of an option', (ValueError, TypeError, KeyError), st.makeRealization, F, **{names[-1]: bad})
        env.raises('unknown value of an option, by name', (ValueError, TypeError, KeyError), S.makeARealization, F, 'fake0', **{names[-1]: bad})
        env.check('nothing is built', not log)
    else:
        env.raises('unknown structure', (ValueError, KeyError), S.Structure.getFromName, 'fake00')
        env.raises('unknown structure, other case', (ValueError, KeyError), S.Structure.getFromName, 'Fake0')
        env.raises('unknown structure', (ValueError, KeyError), S.makeARealization, F, 'no such structure')
        env.raises('unknown structure', (ValueError, KeyError), S.makeARealization, F, '')


BAD = [('DFI', 'nbSum', 3), ('DFI', 'nbSum', 0), ('DFI', 'transposed', 'no'), ('DFI', 'nbsum', 1), ('DFII', 'transposed', 2), ('DFII', 'nbSum', 1),
       ('dSS', 'form', 'canonical'), ('dSS', 'transposed', True), ('rhoDFII', 'scaling', 'L2'), ('rhoDFII', 'equiv_dSS', 'yes'), ('rhoDFII', 'form', None),
       ('LGS', 'transposed', 'T'), ('LCW', 'transposed', 'T'), ('LGS', 'nbSum', 1)]


def reject_real(env):
    S = env.mod('fixif.Structures.Structure')
    F, num, den = structs.tf(env, None, 3, 3, 'one')
    F._stable = True
    for name, opt, val in BAD:
        env.raises('%s with %s=%r' % (name, opt, val), (ValueError, TypeError, KeyError), S.makeARealization, F, name, **{opt: val})


def expected(name, o, n, p, q, stable):
    siso = p == q == 1
    if name in ('DFI', 'DFII'):
        return siso
    if name == 'dSS':
        return True if o['form'] is None else siso if o['form'] in ('ctrl', 'obs') else stable
    if name == 'rhoDFII':
        return siso and stable
    return siso and stable and n > 1


def registry(env, n, p, q, tf, build, balanced=False):
    """the registered structures"""
    S = env.mod('fixif.Structures.Structure')
    env.mod('fixif.Structures')
    if build:
        stable = False
    else:
        stable = env.int('stable', 0, 1) == 1
    if tf:
        F, num, den = structs.tf(env, None, n + 1, n + 1, 'one')
        F = env.mod('fixif.LTI').Filter(tf=F.dTF, stable=stable)
    else:
        F = fil(env, n, p, q, stable)
    decl = {st._shortName: st for st in S.Structure.iterAllStructures()}
    env.check('registered structures', set(REAL) <= set(decl), sorted(decl))
    for k, o in REAL.items():
        d = {a: tuple(b) for a, b in decl[k].options.items()}
        if k == 'dSS' and 'balanced' in d.get('form', ()):
            d['form'] = tuple(x for x in d['form'] if x != 'balanced')
        env.check('options of %s' % k, d == o, d)
    got = {}
    if build:
        last = []
        orig = {}
        for R in F.iterAllRealizations():
            got.setdefault(R.name, []).append(R)
            env.check('filter', R.filter is F)
            H = structs.response(env, R, 2)
        tot = sum(len(x) for x in got.values())
        exp = sum(1 for k, o in REAL.items() for c in product(*o.values()) if expected(k, dict(zip(o, c)), n, p, q, False))
        env.check('number of realizations', tot == exp, (tot, exp))
        return
    st_bool = bool(F.isStable())
    for st, o in S.iterStructuresAndOptions(F):
        k = (st._shortName, key(o) if st._shortName != 'dSS' else (('form', o['form']),))
        got[k] = got.get(k, 0) + 1
    env.check('no combination twice', all(v == 1 for v in got.values()), got)
    for k, o in REAL.items():
        for c in product(*o.values()):
            d = dict(zip(o, c))
            env.check('%s %s accepted' % (k, d), ((k, key(d)) in got) == bool(expected(k, d, n, p, q, st_bool)), (n, p, q, st_bool))
    extra = [k for k in got if k[0] in REAL and dict(k[1]) not in [dict(zip(REAL[k[0]], c)) for c in product(*REAL[k[0]].values())]]
    env.check('only the declared values', all(k == ('dSS', (('form', 'balanced'),)) for k in extra), extra)


def many(env, number):
    """all the realizations of several filters: those of the first one, then those of the second one..."""
    S = env.mod('fixif.Structures.Structure')
    Fs = [fil(env, 1, p, q, False, pre='f%d' % i) for i, (p, q) in enumerate([(1, 1), (2, 2), (1, 1), (1, 2)][:number])]
    calls = []

    def gen(number, n=(5, 10), p=(1, 5), q=(1, 5), seeded=True, ftype='all', **k):
        calls.append((number, n, p, q, seeded, ftype))
        return iter(Fs)
    env.check('generator of random filters', hasattr(S, 'iter_random_Filter'))
    S.iter_random_Filter = gen
    got = [R.filter for R in S.iterAllRealizationsRandomFilter(number, n=(1, 2), p=(1, 3), q=(1, 4), seeded=False, ftype='random')]
    env.check('arguments of the generator', calls == [(number, (1, 2), (1, 3), (1, 4), False, 'random')], calls)
    exp = []
    for F in Fs:
        exp += [F] * sum(1 for R in F.iterAllRealizations())
    env.check('all the realizations of all the filters', len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), (len(got), len(exp)))


def cases(tier):
    q_ = tier == 'quick'
    out = []
    shapes = [[()], [(1,)], [(2,)], [(3,)], [(2, 2)], [(1, 3)], [(2, 1)], [(), (2,)], [(2,), (2,)]]
    if not q_:
        shapes += [[(4,)], [(2, 3)], [(3, 2)], [(2, 2, 2)], [(1, 2, 1, 2)], [(2, 2), (2,)], [(), (), ()], [(3,), (), (2, 1)]]
    for i, s in enumerate(shapes):
        p, q = [(1, 1), (2, 2), (1, 2), (2, 1)][i % 4]
        out.append(Case('fake-%s' % '-'.join('x'.join(map(str, x)) or '0' for x in s), fake, shapes=s, p=p, q=q, opts=dict(max_paths=4000)))
    out.append(Case('fake-empty', fake, shapes=[(), (2,)], p=1, q=2, empty=True))
    hows = ['call', 'make', 'name']
    k = 0
    for sizes, gs in (((1,), ({}, {0: 0})), ((3,), ({}, {0: 1}, {0: 2})), ((2, 2), ({}, {1: 1}, {0: 1}, {0: 1, 1: 1})), ((3, 1, 2), ({}, {2: 1}, {0: 2, 2: 0}, {0: 1, 1: 0, 2: 1}))):
        for g in gs:
            for how in hows if not q_ else [hows[k % 3]]:
                k += 1
                out.append(Case('default-%s-%s-%s' % ('x'.join(map(str, sizes)), '_'.join('%d%d' % x for x in g.items()) or 'none', how), defaults, sizes=sizes, given=g, how=how))
    for sizes in ((1,), (2,), (2, 3)):
        out.append(Case('reject-value-%s' % 'x'.join(map(str, sizes)), reject, sizes=sizes, what='value'))
    out.append(Case('reject-name', reject, sizes=(2,), what='name'))
    out.append(Case('reject-real', reject_real))
    for k in (0, 1, 2) if q_ else (0, 1, 2, 3, 4):
        out.append(Case('many-%d' % k, many, number=k))
    for n, p, q in [(1, 1, 1), (2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2)] + ([] if q_ else [(1, 1, 2), (3, 2, 2), (3, 2, 1), (4, 1, 1)]):
        out.append(Case('registry-%d-%d-%d' % (n, p, q), registry, n=n, p=p, q=q, tf=False, build=False))
        if n > 3 or q_ and n > 2:
            continue
        out.append(Case('build-%d-%d-%d' % (n, p, q), registry, n=n, p=p, q=q, tf=False, build=True))
    for n in (0, 1, 2) if q_ else (0, 1, 2, 3, 4):
        out.append(Case('registry-tf-%d' % n, registry, n=n, p=1, q=1, tf=True, build=False))
        out.append(Case('build-tf-%d' % n, registry, n=n, p=1, q=1, tf=True, build=True))
    return out
