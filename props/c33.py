"""C33: importing block diagrams"""
import contextlib
import io
import os
import shutil
import tempfile
import zipfile
from fractions import Fraction
from symfx.harness import Case
from props import sifs

F = Fraction
BOUNDS = ('diagrams with up to 3 inputs, 3 delays, 5 sums of 2 or 3 ports and 3 outputs (in some cases 11 inputs, delays or outputs), gains anywhere between them, one level (quick) or two levels of subsystems; every wiring of the families described in the module; '
          'every gain is symbolic; the outputs are compared for 2 n + 2 samples from a null state (n delays), for arbitrary inputs')
ASSUMPTIONS = ['the zip and xml libraries are not encoded: they give the blocks and lines of the diagram',
               'gains are given by the dictionary of constants (their texts are not parsed)', 'diagrams have no algebraic loop']


class Diagram:
    """blocks and links; oracle of its equations"""

    def __init__(self):
        self.blocks = {}        # sid -> (type, dict)
        self.inp = {}           # sid -> {port: source}
        self.order = []
        self.links = []
        self.sub = {}           # sid of a subsystem -> sids of its blocks

    def add(self, sid, typ, src=(), **k):
        sid = str(sid)
        self.blocks[sid] = (typ, k)
        self.order.append(sid)
        for p, s in enumerate(src):
            self.links.append((str(s), sid, p + 1))
            self.inp.setdefault(sid, {})[p + 1] = str(s)
        return sid

    def source(self, sid, port):
        """the port feeding a port: (block, output port)"""
        return self.inp[sid][port]

    def run(self, env, u, T, gains):
        """outputs, by port number"""
        ins = sorted([s for s, (t, k) in self.blocks.items() if t == 'Inport'], key=lambda s: self.blocks[s][1]['port'])
        outs = sorted([s for s, (t, k) in self.blocks.items() if t == 'Outport'], key=lambda s: self.blocks[s][1]['port'])
        state = {s: F(0) for s, (t, k) in self.blocks.items() if t == 'Delay'}
        res = []
        for i in range(T):
            val = {s: u[k][i] for k, s in enumerate(ins)}
            val.update(state)

            def get(s):
                if s not in val:
                    t, k = self.blocks[s]
                    a = [get(self.inp[s][p]) for p in sorted(self.inp[s])]
                    if t == 'Gain':
                        val[s] = a[0] * gains[k['gain']]
                    elif t == 'Sum':
                        x = F(0)
                        for v, c in zip(a, k['signs']):
                            x = x + v if c == '+' else x - v
                        val[s] = x
                    elif t == 'Outport':
                        val[s] = a[0]
                return val[s]
            res.append([get(s) for s in outs])
            state = {s: get(self.inp[s][1]) for s in state}
        return res


def xml(d, perm=None, branch=True, groups=None):
    """text of the diagram: blocks in the order perm; groups: {sid of a subsystem: set of its blocks}"""
    order = list(d.order) if perm is None else perm(list(d.order))
    groups = groups or {}
    home = {b: g for g, bs in groups.items() for b in bs}
    # cut the links at the borders of the subsystems: one inner port per link
    extra = {g: [] for g in groups}
    links = {None: []}
    links.update({g: [] for g in groups})
    nin, nout = {g: 0 for g in groups}, {g: 0 for g in groups}
    sid = [1000]
    outmap = {}

    def port(g, typ, n):
        sid[0] += 1
        s = str(sid[0])
        extra[g].append((s, typ, n))
        return s
    lk = list(d.links) if perm is None else perm(list(d.links))
    for a, b, p in lk:
        ga, gb = home.get(a), home.get(b)
        src = (a, 1)
        if ga == gb:
            links[ga].append((src, (b, p)))
            continue
        if ga is not None:
            if a not in outmap:
                nout[ga] += 1
                s = port(ga, 'Outport', nout[ga])
                links[ga].append((src, (s, 1)))
                outmap[a] = (ga, nout[ga])
            src = outmap[a]
        dst = (b, p)
        if gb is not None:
            nin[gb] += 1
            s = port(gb, 'Inport', nin[gb])
            links[gb].append(((s, 1), dst))
            dst = (gb, nin[gb])
        links[None].append((src, dst))

    def block(s, typ, k):
        ps = ''
        if typ in ('Inport', 'Outport'):
            n = k['port']
            # the number of the first port is not always written
            if n != 1 or k.get('all'):
                ps = '<P Name="Port">%d</P>' % n
        elif typ == 'Gain':
            ps = '<P Name="Gain">%s</P>' % k['gain']
        elif typ == 'Delay':
            ps = '<P Name="DelayLength">1</P>' if k.get('written') else ''
        elif typ == 'Sum':
            # the default signs are not always written
            ps = '' if k['signs'] == '++' and k.get('bare') else '<P Name="Inputs">%s</P>' % (k.get('bar', '|') + k['signs'])
            ps = '<P Name="Ports">[%d, 1]</P>' % len(k['signs']) + ps
        return '<Block BlockType="%s" Name="%s%s" SID="%s">%s</Block>' % (typ, typ, s, s, ps)

    def lines(ls):
        out = ''
        if not branch:
            for (a, pa), (b, pb) in ls:
                out += '<Line><P Name="ZOrder">1</P><P Name="Src">%s#out:%d</P><P Name="Dst">%s#in:%d</P></Line>' % (a, pa, b, pb)
            return out
        srcs = []
        for s, _ in ls:
            if s not in srcs:
                srcs.append(s)
        for s in srcs:
            ds = [x for y, x in ls if y == s]
            t = '<Line><P Name="Src">%s#out:%d</P>' % s
            if len(ds) == 1:
                t += '<P Name="Dst">%s#in:%d</P>' % ds[0]
            else:
                t += ''.join('<Branch><P Name="Dst">%s#in:%d</P></Branch>' % x for x in ds)
            out += t + '</Line>'
        return out
    body = ''
    seen = set()
    for s in order:
        g = home.get(s)
        if g is None:
            body += block(s, *d.blocks[s])
        elif g not in seen:
            seen.add(g)
            inner = ''.join(block(x, *d.blocks[x]) for x in order if home.get(x) == g)
            inner += ''.join(block(x, typ, {'port': n}) for x, typ, n in extra[g])
            body += '<Block BlockType="SubSystem" Name="S%s" SID="%s"><P Name="Ports">[%d, %d]</P><System>%s%s</System></Block>' % (g, g, nin[g], nout[g], inner, lines(links[g]))
    return '<?xml version="1.0"?><ModelInformation><Model><System><P Name="x">y</P>%s%s</System></Model></ModelInformation>' % (body, lines(links[None]))


def imported(env, d, gains, **k):
    tmp = tempfile.mkdtemp()
    try:
        f = os.path.join(tmp, 'd.slx')
        with zipfile.ZipFile(f, 'w') as z:
            z.writestr('simulink/blockdiagram.xml', xml(d, **k))
            z.writestr('metadata/other.xml', '<x/>')
        with contextlib.redirect_stdout(io.StringIO()):
            return env.mod('fixif.Structures.Simulink').importSimulink(f, dict(gains))
    finally:
        shutil.rmtree(tmp)


def compare(env, d, gains, **k):
    R = imported(env, d, gains, **k)
    q = sum(1 for t, _ in d.blocks.values() if t == 'Inport')
    p = sum(1 for t, _ in d.blocks.values() if t == 'Outport')
    n = sum(1 for t, _ in d.blocks.values() if t == 'Delay')
    ok = env.check('inputs, outputs and states', (R.q, R.p, R.n) == (q, p, n), lambda: '%s' % (R.size,))
    if not ok:
        return
    e = {X: env.exm(getattr(R, X)) for X in 'JKLMNPQRS'}
    for i, r in enumerate(e['J']):
        env.eqs('J is lower triangular, with ones', [(x, F(int(i == j))) for j, x in enumerate(r) if j >= i])
    T = 2 * n + 2
    # one impulse per input: the responses are the columns of the impulse response
    gx = {g: env.ex(v) for g, v in gains.items()}
    for c in range(q):
        u = [[F(int(i == c and k_ == 0)) for k_ in range(T)] for i in range(q)]
        ref = d.run(env, u, T, gx)
        x = [F(0)] * n
        for i in range(T):
            t = []
            uu = [u[k_][i] for k_ in range(q)]
            for r in range(R.l):
                v = dot(e['M'][r], x) + dot(e['N'][r], uu)
                for s in range(r):
                    v = v - e['J'][r][s] * t[s]
                t.append(v)
            y = [dot(e['L'][r], t) + dot(e['R'][r], x) + dot(e['S'][r], uu) for r in range(p)]
            x = [dot(e['K'][r], t) + dot(e['P'][r], x) + dot(e['Q'][r], uu) for r in range(n)]
            env.eqs('output', list(zip(y, ref[i])))


def dot(r, v):
    s = F(0)
    for a, b in zip(r, v):
        s = s + a * b
    return s


class Gains:
    """a gain block in front of a source, when asked"""

    def __init__(self, env, d, first=50):
        self.env, self.d, self.k, self.g = env, d, first, {}

    def __call__(self, src):
        self.k += 1
        name = 'k%d' % self.k
        self.g[name] = self.env.real(name, -2, 2)
        return self.d.add(self.k, 'Gain', [src], gain=name)

    def ref(self, s):
        """'x' or 'gx'"""
        return self(s[1:]) if s[0] == 'g' else s


PERMS = {'as': None, 'rev': lambda v: v[::-1], 'rot': lambda v: v[len(v) // 2:] + v[:len(v) // 2], 'mix': lambda v: v[1::2] + v[::2]}


def pair(env, ports1, signs, out, perm):
    """two sums, one delay: the second sum is fed by anything, the state and the output come from one of them"""
    d = Diagram()
    G = Gains(env, d)
    d.add(1, 'Inport', port=1)
    i1, i2 = ports1
    a = env.choice('a', ['1', '2', '3', 'g1', 'g2', 'g3'])
    b = env.choice('b', ['1', '2', '3', 'g1', 'g2', 'g3'])
    nx = env.choice('x', ['3', '4', 'g3', '1'])
    d.add(3, 'Sum', [G.ref(i1), G.ref(i2)], signs=signs[0])
    d.add(4, 'Sum', [G.ref(a), G.ref(b)], signs=signs[1], bare=perm in ('as', 'mix'))
    d.add(2, 'Delay', [G.ref(nx)])
    o = out if out[0] != 'g' else G(out[1:])
    d.add(9, 'Outport', [o], port=1)
    compare(env, d, G.g, perm=PERMS[perm])


def chain(env, k, shape, perm, outs):
    """cascades of sums, used once or several times"""
    d = Diagram()
    G = Gains(env, d)
    d.add(1, 'Inport', port=1)
    d.add(2, 'Inport', port=2)
    prev = None
    for i in range(k):
        s = 10 + i
        if prev is None:
            src, sg = ['1', G.ref('g2')], '+-'
        elif shape == 'line':
            src, sg = [prev, env.choice('c%d' % i, ['1', '2', '30'])], '-+'
        elif shape == 'twice':
            src, sg = [prev, prev, '30'], '+-+' if i % 2 else '++-'
        elif shape == 'all':
            src, sg = [prev, G(prev), '1'], '++-'
        else:
            # of the same blocks
            src, sg = [prev, '1', G.ref('g1')], '+-+'
        prev = d.add(s, 'Sum', src, signs=sg)
    d.add(30, 'Delay', [G(prev)], written=True)
    n = 0
    for o in outs:
        n += 1
        d.add(90 + n, 'Outport', [o if not o.startswith('g') else G(o[1:])], port=n)
    compare(env, d, G.g, perm=PERMS[perm])


def biquad(env, form, perm, groups, sids):
    """the usual structures, cut in subsystems"""
    d = Diagram()
    G = Gains(env, d)
    d.add(1, 'Inport', port=1, all=True)
    if form == 'DFII':
        d.add(4, 'Sum', ['1', G('2'), G('3')], signs='+--')
        d.add(2, 'Delay', ['4'])
        d.add(3, 'Delay', ['2'])
        d.add(5, 'Sum', [G('4'), G('2'), G('3')], signs='+++')
        d.add(9, 'Outport', ['5'], port=1, all=True)
    elif form == 'DFIIt':
        d.add(5, 'Sum', [G('1'), '2'], signs='++')
        d.add(6, 'Sum', ['3', G('1'), G('5')], signs='++-')
        d.add(7, 'Sum', [G('1'), G('5')], signs='+-')
        d.add(2, 'Delay', ['6'])
        d.add(3, 'Delay', ['7'])
        d.add(9, 'Outport', ['5'], port=1)
    elif form == 'lattice':
        # outputs of several sums
        d.add(4, 'Sum', ['1', '2'], signs='-+')
        d.add(5, 'Sum', [G('4'), '2'], signs='++')
        d.add(6, 'Sum', ['5', '4'], signs='+-')
        d.add(2, 'Delay', ['6'])
        d.add(7, 'Sum', ['5', '3'], signs='++')
        d.add(3, 'Delay', [G('7')])
        d.add(8, 'Outport', ['7'], port=1)
        d.add(9, 'Outport', ['5'], port=2)
    compare(env, d, G.g, perm=PERMS[perm], groups=groups, branch=perm != 'mix')


def ports(env, perm, nin, nout):
    """inputs and outputs are those of the port numbers, whatever the order of the blocks"""
    d = Diagram()
    G = Gains(env, d)
    po = env.choice('ports', [(1, 2, 3), (3, 1, 2), (2, 3, 1), (2, 1, 3)])
    ip = [x for x in po if x <= nin]
    op = [x for x in po[::-1] if x <= nout]
    for i, x in enumerate(ip):
        d.add(1 + i, 'Inport', port=x)
    for i in range(nout):
        d.add(10 + i, 'Sum', [G('%d' % (1 + j)) for j in range(nin)] + ['%d' % (10 + i - 1) if i else '30'], signs='+' * nin + '-')
    for i, x in enumerate(op):
        d.add(40 + i, 'Outport', ['%d' % (10 + i)], port=x)
    d.add(30, 'Delay', ['10'])
    compare(env, d, G.g, perm=PERMS[perm])


def wide(env, perm, what, N):
    """more than nine inputs, outputs, delays or sums"""
    d = Diagram()
    G = Gains(env, d, 300)
    ip = [x for k in range(3) for x in range(1, N + 1) if x % 3 == k] if what != 'out' else [1]
    op = [x for k in (2, 0, 3, 1) for x in range(N + 1, 0, -1) if x % 4 == k] if what != 'in' else [1]
    nd = N if what == 'delays' else 2
    if what == 'delays':
        ip, op = [1], [1, 2]
    for i, x in enumerate(ip):
        d.add(101 - i if perm == 'rev' else 101 + i, 'Inport', port=x)
    ins = sorted((s for s in d.blocks), key=int)
    for i in range(nd):
        # a line of delays, every third one with a gain before it
        s = '200' if i == 0 else '%d' % (119 + i)
        d.add(120 + i, 'Delay', [G(s) if i % 3 == 0 else s])
    last = '%d' % (119 + nd)
    d.add(200, 'Sum', [G(s) if k % 4 == 1 else s for k, s in enumerate(ins)] + [G(last), '120'], signs='+-' * (len(ins) // 2) + '+' * (len(ins) % 2) + '-+')
    for i, x in enumerate(op):
        d.add(201 + i, 'Sum', ['%d' % (200 + i), ins[i % len(ins)] if i % 4 != 2 else G(ins[i % len(ins)]), '%d' % (120 + i % nd)], signs=('+-+', '-++', '++-')[i % 3])
    for i, x in enumerate(op):
        d.add(240 + i, 'Outport', ['%d' % (201 + i)], port=x)
    compare(env, d, G.g, perm=PERMS[perm])


def sids(env, perm):
    """the numbers of the blocks are not consecutive"""
    d = Diagram()
    G = Gains(env, d, env.choice('first', [20, 2, 5]))
    N = env.choice('N', list(range(8, 16)))
    d.add(1, 'Inport', port=1)
    a, b = str(N), str(N + 1)
    d.add(N, 'Sum', ['1', G('99')], signs='+-')
    d.add(N + 1, 'Sum', [a, G('99')], signs='++')
    d.add(99, 'Delay', [a])
    d.add(98, 'Outport', [a], port=1)
    d.add(97, 'Outport', [b], port=2)
    compare(env, d, G.g, perm=PERMS[perm])


def unsupported(env, which):
    """what is not supported is rejected, or imported well"""
    d = Diagram()
    G = Gains(env, d)
    d.add(1, 'Inport', port=1)
    d.add(3, 'Sum', ['1', G('2')], signs='++')
    if which == 'delays':
        d.add(2, 'Delay', ['3'])
        d.add(9, 'Outport', ['3'], port=1)
        t = xml(d).replace('SID="2"></Block>', 'SID="2"><P Name="DelayLength">2</P></Block>')
    elif which == 'other':
        d.add(2, 'Delay', ['3'])
        d.add(9, 'Outport', ['3'], port=1)
        t = xml(d).replace('BlockType="Delay"', 'BlockType="Product"')
    elif which == 'loop':
        d.add(4, 'Sum', ['3', '5'], signs='++')
        d.add(5, 'Sum', ['4', '3'], signs='++')
        d.add(2, 'Delay', ['5'])
        d.add(9, 'Outport', ['4'], port=1)
        t = xml(d)
    elif which == 'selfloop':
        g = env.real('self', -2, 2)
        env.assume((g > F(1, 8)) | (g < F(-1, 8)))
        G.g['self'] = g
        d.add(6, 'Gain', ['4'], gain='self')
        d.add(4, 'Sum', ['3', '6'], signs='+-')
        d.add(2, 'Delay', ['3'])
        d.add(9, 'Outport', ['4'], port=1)
        t = xml(d)
    elif which == 'gainloop':
        G.g['g6'], G.g['g7'] = env.real('g6', -2, 2), env.real('g7', -2, 2)
        d.add(6, 'Gain', ['7'], gain='g6')
        d.add(7, 'Gain', ['6'], gain='g7')
        d.add(4, 'Sum', ['3', '6'], signs='+-')
        d.add(2, 'Delay', ['4'])
        d.add(9, 'Outport', ['4'], port=1)
        t = xml(d)
    tmp = tempfile.mkdtemp()
    try:
        f = os.path.join(tmp, 'd.slx')
        with zipfile.ZipFile(f, 'w') as z:
            z.writestr('simulink/blockdiagram.xml', t)
        with contextlib.redirect_stdout(io.StringIO()):
            env.raises('rejected: ' + which, (Exception, SystemExit), env.mod('fixif.Structures.Simulink').importSimulink, f, dict(G.g))
    finally:
        shutil.rmtree(tmp)


def direct(env, what, perm):
    """outputs that are not those of a sum, gains in cascade: rejected, or imported well"""
    d = Diagram()
    G = Gains(env, d)
    d.add(1, 'Inport', port=1)
    d.add(3, 'Sum', ['1', G('2')], signs='+-')
    d.add(2, 'Delay', ['3'])
    o = {'delay': '2', 'input': '1'}.get(what, '3')
    if what == 'cascade':
        d.add(4, 'Sum', [G(G('3')), '2'], signs='+-')
        o = '4'
    if what == 'gain':
        o = G('3')
    if what == 'gains':
        o = G(G('2'))
    d.add(9, 'Outport', [o], port=1)
    if what == 'two':
        d.add(8, 'Outport', ['3'], port=2)
    try:
        compare(env, d, G.g, perm=PERMS[perm])
    except ValueError as e:
        env.check('rejected: not supported', 'importSimulink' in str(e))


def cases(tier):
    q = tier == 'quick'
    o = {}
    out = []
    P1 = [('1', '2'), ('1', 'g2'), ('g1', 'g2'), ('2', '2'), ('g2', '1')]
    k = 0
    for ports1 in P1:
        for oo in ('3', '4', 'g4'):
            for perm in (('as', 'rev', 'rot', 'mix') if not q else (['as', 'rev', 'rot', 'mix'][k % 4],)):
                k += 1
                sg = [('++', '+-'), ('-+', '++'), ('+-', '--')][k % 3]
                out.append(Case('pair-%s%s-%s-%s' % (ports1 + (oo, perm)), pair, o, ports1=ports1, signs=sg, out=oo, perm=perm))
    for shape in ('line', 'twice', 'all', 'same'):
        for n in (2, 3, 6) if q else (2, 3, 4, 5):
            last = str(9 + n)
            for j, outs in enumerate([(last,), ('10', last), (last, '10'), ('g' + last, '10')]):
                for perm in (('as', 'rev', 'rot', 'mix') if not q else (['as', 'rev', 'rot', 'mix'][(n + j) % 4],)):
                    out.append(Case('chain-%s-%d-%s-%s' % (shape, n, '_'.join(outs), perm), chain, o, k=n, shape=shape, perm=perm, outs=outs))
    gr = {'DFII': [None, {'60': {'2', '4'}}, {'60': {'2', '3', '4', '5'}}], 'DFIIt': [None, {'60': {'6', '7', '2'}}, {'60': {'5'}, '61': {'3', '7'}}], 'lattice': [None, {'60': {'5', '6'}, '61': {'7'}}]}
    for f in gr:
        for j, g in enumerate(gr[f]):
            for perm in PERMS:
                out.append(Case('%s-%d-%s' % (f, j, perm), biquad, o, form=f, perm=perm, groups=g, sids=None))
    for perm in PERMS:
        for a, b in [(2, 1), (1, 2), (2, 3)] if q else [(2, 1), (1, 2), (2, 3), (3, 3), (3, 2)]:
            out.append(Case('ports-%d%d-%s' % (a, b, perm), ports, o, nin=a, nout=b, perm=perm))
        out.append(Case('sids-' + perm, sids, o, perm=perm))
        for w in ('delay', 'input', 'cascade', 'gain', 'gains', 'two', 'plain'):
            out.append(Case('direct-%s-%s' % (w, perm), direct, o, what=w, perm=perm))
    for k, (w, N) in enumerate((('in', 11), ('out', 11), ('delays', 11), ('both', 10))):
        for perm in PERMS if not q else (['as', 'rev', 'rot', 'mix'][k], ['mix', 'as', 'rev', 'rot'][k]):
            out.append(Case('wide-%s-%d-%s' % (w, N, perm), wide, dict(cost=8, witnesses=1), perm=perm, what=w, N=N))
    for w in ('delays', 'other', 'loop', 'selfloop', 'gainloop'):
        out.append(Case('unsupported-' + w, unsupported, o, which=w))
    return out
