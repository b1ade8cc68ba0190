"""C02: exact matrix products"""
from symfx.harness import Case
from props.c01 import operands

BOUNDS = ('shapes m x n times n x p with m,n,p <= 3 (quick) / 4 (thorough) and every mismatched pair of sizes <= 3; arbitrary real entries; '
          'working precisions 10, 53 (thorough: also 2, 200)')
ASSUMPTIONS = ['every rounded multiprecision operation is modelled as value*(1+d), |d| <= 2^-prec, d arbitrary; exact=True operations as exact',
               'finite values (no NaN/Inf entries)']


def mul(env, how, A, B):
    if how == 'mul_exact':
        cls = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix
        X, Y = cls(A), cls(B)
        a, b = env.grid(X.matrix), env.grid(Y.matrix)
        C = X.mul_exact(Y).matrix
        env.eqm('left operand object unchanged', X.matrix, a)
        env.eqm('right operand object unchanged', Y.matrix, b)
        return C
    return env.mod('fixif.func_aux').mpf_matrix_fmul(A, B)


def product(env, how, ka, kb, m, n, p):
    A = operands(env, ka, 'a', m, n)
    B = operands(env, kb, 'b', n, p)
    a, b = env.grid(A), env.grid(B)
    env.eqm('product', mul(env, how, A, B), env.mmul(a, b))
    env.eqm('left operand unchanged', A, a)
    env.eqm('right operand unchanged', B, b)


def square(env, how):
    A = operands(env, 'mp', 'a', 2, 2)
    a = env.grid(A)
    if how == 'mul_exact':
        X = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix(A)
        env.eqm('square', X.mul_exact(X).matrix, env.mmul(a, a))
    else:
        env.eqm('square', env.mod('fixif.func_aux').mpf_matrix_fmul(A, A), env.mmul(a, a))


def reject(env, how, ka, kb, N):
    k = 0
    for m in range(1, N + 1):
        for n in range(1, N + 1):
            for p in range(1, N + 1):
                for q in range(1, N + 1):
                    if n == p:
                        continue
                    k += 1
                    A = operands(env, ka, 'a%d_' % k, m, n)
                    B = operands(env, kb, 'b%d_' % k, p, q)
                    env.raises('sizes %dx%d times %dx%d rejected' % (m, n, p, q), Exception, lambda: mul(env, how, A, B))
    A = operands(env, 'mp', 'c', 2, 2)
    fa = env.mod('fixif.func_aux')
    bads = [('list', [[env.real('l%d%d' % (i, j)) for j in range(2)] for i in range(2)]), ('scalar', env.real('s')), ('None', None)]
    for name, bad in bads:
        if how == 'mul_exact':
            cls = env.mod('fixif.func_aux.MPFMatrix').MPFMatrix
            env.raises('foreign operand rejected: ' + name, Exception, lambda: cls(A).mul_exact(bad))
        else:
            env.raises('foreign right operand rejected: ' + name, Exception, lambda: fa.mpf_matrix_fmul(A, bad))
            env.raises('foreign left operand rejected: ' + name, Exception, lambda: fa.mpf_matrix_fmul(bad, A))


def cases(tier):
    out = []
    q = tier == 'quick'
    precs = [10, 53] if q else [2, 10, 53, 200]
    if q:
        shapes = [(1, 1, 1), (2, 2, 2), (1, 3, 1), (3, 1, 3), (2, 3, 1), (1, 2, 3), (3, 2, 3), (2, 3, 2), (3, 3, 3)]
    else:
        shapes = [(m, n, p) for m in range(1, 5) for n in range(1, 5) for p in range(1, 5)]
    o = dict(rounding='delta', exact=True, witnesses=1, candidates=3)
    for how in ('mpf_matrix_fmul', 'mul_exact'):
        for prec in precs:
            for ka, kb in (('mp', 'mp'), ('np', 'mp'), ('mp', 'np'), ('np', 'np')):
                for m, n, p in shapes:
                    out.append(Case('%s-%s-%s-%dx%dx%d-p%d' % (how, ka, kb, m, n, p, prec), product, dict(o, prec=prec),
                                    how=how, ka=ka, kb=kb, m=m, n=n, p=p))
            for k, (m, n, p) in enumerate(((5, 6, 4), (1, 9, 2), (7, 2, 5), (2, 5, 8))):
                ka, kb = (('mp', 'mp'), ('np', 'mp'), ('mp', 'np'), ('np', 'np'))[k]
                out.append(Case('large-%s-%s-%s-%dx%dx%d-p%d' % (how, ka, kb, m, n, p, prec), product, dict(o, prec=prec, sparse=(3, 30, k)), how=how, ka=ka, kb=kb, m=m, n=n, p=p))
            out.append(Case('%s-square-p%d' % (how, prec), square, dict(o, prec=prec), how=how))
        for ka, kb in (('mp', 'mp'), ('np', 'mp'), ('mp', 'np'), ('np', 'np')):
            out.append(Case('%s-reject-%s-%s' % (how, ka, kb), reject, dict(o, prec=53), how=how, ka=ka, kb=kb, N=2 if q else 3))
    return out
