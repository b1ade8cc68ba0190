"""C01: exact matrix sums and differences"""
from symfx.harness import Case

BOUNDS = ('matrices up to 3x3 (quick) / 5x5 (thorough), each operand numpy or multiprecision, entries are arbitrary reals '
          '(doubles for numpy operands, unbounded mantissas for multiprecision ones), working precisions 10, 53 (thorough: also 200)')
ASSUMPTIONS = ['every rounded multiprecision operation is modelled as value*(1+d), |d| <= 2^-prec, d arbitrary; exact=True operations as exact',
               'finite values (no NaN/Inf entries)']


def operands(env, kind, name, m, n, cplx=False):
    if kind == 'np':
        return env.npmat(env.reals(name, m, n))
    if kind == 'arr':
        return env.np.array(env.reals(name, m, n))
    return env.mpmat(env.mpfs(name, m, n))


def sumdiff(env, op, ka, kb, m, n, aliased=False):
    A = operands(env, ka, 'a', m, n)
    B = A if aliased else operands(env, kb, 'b', m, n)
    a, b = env.grid(A), env.grid(B)
    cls = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix
    if op in ('add_exact', 'sub_exact'):
        X = cls(A)
        Y = X if aliased else cls(B)
        C = getattr(X, op)(Y).matrix
        env.eqm('left operand object unchanged', X.matrix, a)
        env.eqm('right operand object unchanged', Y.matrix, b)
    else:
        fa = env.mod('fixif.func_aux')
        C = getattr(fa, op)(A, B)
    expect = env.madd(a, b) if 'add' in op else env.msub(a, b)
    env.eqm(op, C, expect)
    env.eqm('left operand unchanged', A, a)
    env.eqm('right operand unchanged', B, b)


def reject(env, op, ka, kb):
    cls = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix
    fa = env.mod('fixif.func_aux')
    for i, (m, n, p, q) in enumerate([(2, 2, 2, 1), (2, 2, 1, 2), (2, 1, 1, 2), (1, 3, 3, 1), (2, 3, 3, 2), (1, 1, 2, 2), (3, 1, 3, 2), (1, 2, 2, 2)]):
        A = operands(env, ka, 'a%d_' % i, m, n)
        B = operands(env, kb, 'b%d_' % i, p, q)
        lab = 'sizes %dx%d and %dx%d rejected' % (m, n, p, q)
        if op in ('add_exact', 'sub_exact'):
            env.raises(lab, Exception, lambda: getattr(cls(A), op)(cls(B)))
        else:
            env.raises(lab, Exception, lambda: getattr(fa, op)(A, B))
    A = operands(env, 'mp', 'c', 2, 2)
    L = [[env.real('l%d%d' % (i, j)) for j in range(2)] for i in range(2)]
    if op in ('add_exact', 'sub_exact'):
        for name, bad in (('list', L), ('scalar', env.real('s')), ('None', None), ('mpmath matrix', A), ('numpy matrix', env.npmat(L))):
            env.raises('foreign right operand rejected: ' + name, Exception, lambda: getattr(cls(A), op)(bad))
    else:
        for name, bad in (('list', L), ('scalar', env.real('s')), ('None', None), ('str', 'abc')):
            env.raises('foreign right operand rejected: ' + name, Exception, lambda: getattr(fa, op)(A, bad))
            env.raises('foreign left operand rejected: ' + name, Exception, lambda: getattr(fa, op)(bad, A))
        Z = env.mpmat(env.mpfs('z', 2, 2))
        Z[0, 0] = env.mp.mpc(env.mpf('re'), env.mpf('im', nz=True))
        env.raises('complex right operand rejected', Exception, lambda: getattr(fa, op)(A, Z))
        env.raises('complex left operand rejected', Exception, lambda: getattr(fa, op)(Z, A))


def cases(tier):
    out = []
    precs = [10, 53] if tier == 'quick' else [2, 10, 53, 200]
    sizes = [(1, 1), (2, 1), (1, 3), (2, 3), (3, 3)] if tier == 'quick' else [(i, j) for i in range(1, 6) for j in range(1, 6)]
    for p in precs:
        for op in ('mpf_matrix_fadd', 'mpf_matrix_fsub', 'add_exact', 'sub_exact'):
            for ka in ('mp', 'np'):
                for kb in ('mp', 'np'):
                    for m, n in sizes:
                        out.append(Case('%s-%s-%s-%dx%d-p%d' % (op, ka, kb, m, n, p), sumdiff,
                                        dict(rounding='delta', exact=True, prec=p, witnesses=1, candidates=3), op=op, ka=ka, kb=kb, m=m, n=n))
            out.append(Case('%s-alias-p%d' % (op, p), sumdiff, dict(rounding='delta', exact=True, prec=p, witnesses=1, candidates=3),
                            op=op, ka='mp', kb='mp', m=2, n=2, aliased=True))
    for op in ('mpf_matrix_fadd', 'mpf_matrix_fsub', 'add_exact', 'sub_exact'):
        for k, (m, n) in enumerate(((7, 2), (2, 8), (6, 6), (1, 11), (11, 1))):
            ka, kb = (('mp', 'mp'), ('np', 'mp'), ('mp', 'np'), ('np', 'np'))[k % 4]
            out.append(Case('large-%s-%s-%s-%dx%d' % (op, ka, kb, m, n), sumdiff, dict(rounding='delta', exact=True, prec=53, witnesses=1, candidates=3, sparse=(3, 30, k)), op=op, ka=ka, kb=kb, m=m, n=n))
        for ka, kb in (('mp', 'mp'), ('np', 'mp'), ('mp', 'np'), ('np', 'np')):
            out.append(Case('%s-reject-%s-%s' % (op, ka, kb), reject, dict(rounding='delta', exact=True, witnesses=1), op=op, ka=ka, kb=kb))
    return out
