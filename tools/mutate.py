#!/usr/bin/env python3
"""mutate.py N SEED WORKERS OUT [path substring]: mutation campaign.  Draws N single-site mutants of the functions some check
encodes, runs on each (in a scratch clone) the checks that encode the function, and lists the survivors for reading.
The function -> checks map comes from the evidence files of a quick run of every check."""
import ast, glob, json, os, random, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ANCH = {p['id']: p['anchors']['files'] for p in map(json.loads, open(os.path.join(VERIF, 'properties.jsonl')))}


def checks_of():
    m, wall = {}, {}
    for f in glob.glob(os.path.join(VERIF, 'evidence', '*.json')):
        d = json.load(open(f))
        wall[d['property']] = d.get('wall_s', 60)
        for fn in d['coverage'].get('functions_encoded', []):
            m.setdefault(fn, set()).add(d['property'])
    return m, wall


SW = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+', ast.Pow: '*', ast.LShift: '>>', ast.RShift: '<<'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def mutants(path, rel):
    src = open(path, encoding='utf-8').read()
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    seg = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*seg(n))].decode()

    def walk(node, qual, infn):
        for ch in ast.iter_child_nodes(node):
            q, i = qual, infn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                q = qual + [ch.name]
                i = infn or isinstance(ch, ast.FunctionDef)
            if isinstance(ch, (ast.Raise, ast.Assert)) and 0:
                continue
            if i:
                fn = q
                def m(n, new, what):
                    s, e = seg(n)
                    return (rel, '.'.join(fn), n.lineno, what, s, e, new)
                if isinstance(ch, ast.BinOp) and type(ch.op) in SW:
                    if not (isinstance(ch.op, ast.Mod) and isinstance(ch.left, ast.Constant) and isinstance(ch.left.value, str)):
                        yield m(ch, '(%s) %s (%s)' % (txt(ch.left), SW[type(ch.op)], txt(ch.right)), 'binop')
                        if isinstance(ch.op, (ast.Sub, ast.Mult)):
                            yield m(ch, '(%s) %s (%s)' % (txt(ch.right), '-' if isinstance(ch.op, ast.Sub) else '*', txt(ch.left)), 'swap')
                        if isinstance(ch.op, (ast.Add, ast.Sub)):
                            yield m(ch, '(%s)' % txt(ch.left), 'dropright')
                if isinstance(ch, ast.Compare) and len(ch.ops) == 1 and type(ch.ops[0]) in CMP:
                    yield m(ch, '%s %s %s' % (txt(ch.left), CMP[type(ch.ops[0])], txt(ch.comparators[0])), 'cmp')
                if isinstance(ch, ast.Constant) and type(ch.value) is int:
                    yield m(ch, str(ch.value + 1), 'const+1')
                    if ch.value:
                        yield m(ch, str(ch.value - 1), 'const-1')
                if isinstance(ch, ast.Constant) and type(ch.value) is bool:
                    yield m(ch, str(not ch.value), 'bool')
                if isinstance(ch, ast.BoolOp):
                    op = ' or ' if isinstance(ch.op, ast.And) else ' and '
                    yield m(ch, '(' + op.join('(%s)' % txt(v) for v in ch.values) + ')', 'boolop')
                    for v in ch.values:
                        yield m(ch, txt(v), 'boolkeep')
                if isinstance(ch, (ast.If, ast.While, ast.IfExp)):
                    yield m(ch.test, 'not (%s)' % txt(ch.test), 'negate')
                if isinstance(ch, ast.UnaryOp) and isinstance(ch.op, (ast.USub, ast.Not)):
                    yield m(ch, '(%s)' % txt(ch.operand), 'unary')
                if isinstance(ch, ast.Call) and len(ch.args) >= 2 and not any(isinstance(a, ast.Starred) for a in ch.args[:2]):
                    s, _ = seg(ch.args[0]); _, e = seg(ch.args[1])
                    yield (rel, '.'.join(fn), ch.lineno, 'swapargs', s, e, '%s, %s' % (txt(ch.args[1]), txt(ch.args[0])))
                if isinstance(ch, ast.Subscript) and isinstance(ch.slice, ast.Tuple) and len(ch.slice.elts) == 2:
                    a, c = ch.slice.elts
                    s, _ = seg(a); _, e = seg(c)
                    yield (rel, '.'.join(fn), ch.lineno, 'swapidx', s, e, '%s, %s' % (txt(c), txt(a)))
                if isinstance(ch, ast.Attribute) and ch.attr in ('T', 'transpose') and ch.attr == 'T':
                    yield m(ch, txt(ch.value), 'dropT')
                if isinstance(ch, (ast.AugAssign, ast.Assign)) or (isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Call)):
                    yield m(ch, 'pass', 'delete')
                if isinstance(ch, ast.AugAssign) and isinstance(ch.op, (ast.Add, ast.Sub)):
                    yield m(ch, '%s %s %s' % (txt(ch.target), '-=' if isinstance(ch.op, ast.Add) else '+=', txt(ch.value)), 'aug')
                if isinstance(ch, (ast.Break, ast.Continue)):
                    yield m(ch, 'continue' if isinstance(ch, ast.Break) else 'break', 'jump')
                if isinstance(ch, ast.ListComp) and 0:
                    pass
                if isinstance(ch, ast.Attribute) and len(ch.attr) == 1 and isinstance(ch.value, ast.Name) and ch.attr in 'ABCDJKLMNPQRSlnpq':
                    o = {'A': 'B', 'B': 'C', 'C': 'B', 'D': 'A', 'J': 'K', 'K': 'L', 'L': 'K', 'M': 'N', 'N': 'M', 'P': 'R', 'Q': 'P', 'R': 'Q', 'S': 'L', 'l': 'n', 'n': 'l', 'p': 'q', 'q': 'p'}[ch.attr]
                    yield m(ch, '%s.%s' % (txt(ch.value), o), 'attr')
            yield from walk(ch, q, i)
    for mu in walk(tree, [], False):
        yield mu + (b,)


def main():
    n, seed, workers, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sub = sys.argv[5] if len(sys.argv) > 5 else ''
    maxc = int(os.environ.get('MAXCHECKS', 5))
    fmap, wall = checks_of()
    names = {}
    for k, v in fmap.items():
        f, q = k.split(':', 1)
        names.setdefault((f, q.split('.')[-1]), set()).update(v)
    allm = []
    seen = set()
    for f in sorted({k[0] for k in names}):
        p = os.path.join('/repo', f)
        if sub not in f or not os.path.exists(p):
            continue
        for mu in mutants(p, f):
            key = (mu[0], mu[4], mu[5], mu[6])
            if key in seen:
                continue
            seen.add(key)
            parts = mu[1].split('.')
            cs = None
            for q in reversed(parts):
                if (f, q) in names:
                    cs = names[f, q]
                    break
            if cs is None:
                continue
            cs = sorted(cs, key=lambda c: (f not in ANCH.get(c, []), wall.get(c, 60)))
            allm.append((mu, cs[:maxc]))
    print(len(allm), 'mutants possible')
    random.Random(seed).shuffle(allm)
    # at most a few per function
    per, pick = {}, []
    for mu, cs in allm:
        k = (mu[0], mu[1])
        per[k] = per.get(k, 0) + 1
        if per[k] <= int(os.environ.get('PERFN', 4)):
            pick.append((mu, cs))
    pick = pick[:n]
    tmp = tempfile.mkdtemp(prefix='mut_')
    clones = []
    for w in range(workers):
        c = os.path.join(tmp, 'r%d' % w)
        subprocess.run(['git', 'clone', '-q', '/repo', c])
        clones.append(c)
    ver = os.path.join(tmp, 'v')
    subprocess.run(['git', 'clone', '-q', VERIF, ver])
    fo = open(out, 'a')

    def one(job):
        mu, cs = job
        rel, fn, ln, what, s, e, new, b = mu
        nb = b[:s] + new.encode() + b[e:]
        try:
            compile(nb, rel, 'exec')
        except SyntaxError:
            return
        while True:
            try:
                c = clones.pop()
                break
            except IndexError:
                time.sleep(0.2)
        res = []
        caught = None
        try:
            open(os.path.join(c, rel), 'wb').write(nb)
            for ck in cs:
                try:
                    r = subprocess.run([os.path.join(ver, 'check'), ck, 'quick'], env=dict(os.environ, FIXIF_REPO=c), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, cwd=ver)
                    res.append((ck, r.returncode))
                except subprocess.TimeoutExpired:
                    res.append((ck, 'timeout'))
                if res[-1][1] == 1:
                    caught = ck
                    break
        finally:
            subprocess.run(['git', 'checkout', '-q', '.'], cwd=c)
            clones.append(c)
        lno = b[:s].count(b'\n') + 1
        old = b[s:e].decode()
        fo.write(json.dumps(dict(file=rel, fn=fn, line=lno, what=what, old=old[:160], new=new[:160], caught=caught, res=res)) + '\n')
        fo.flush()
    try:
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, pick))
    finally:
        shutil.rmtree(tmp)


main()
