"""A small C subset, interpreted over exact (symbolic) values: functions on double and double*,
declarations, assignments, for/if on integers, return.  Reading an indeterminate value, an index
out of range or a type error is reported as CError (the code has no defined meaning)."""
import re
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Unsupported


class CError(Exception):
    """not valid C, or undefined behaviour"""


TOK = re.compile(r'''\s*(?:
   (?P<sym>_symL?\d+_+)
 | (?P<hex>0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*(?:[pP][-+]?\d+)?)
 | (?P<num>(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?[fFlL]?)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<op>\+\+|--|\+=|-=|\*=|/=|==|!=|<=|>=|&&|\|\||[-+*/%=<>!&|(){}\[\];,?:])
 )''', re.X)


def lex(text):
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    text = re.sub(r'//[^\n]*', ' ', text)
    text = re.sub(r'^\s*#[^\n]*$', ' ', text, flags=re.M)
    out, pos = [], 0
    text = text.rstrip()
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m or m.end() == pos:
            raise CError('cannot read %r' % text[pos:pos + 30])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    out.append(('end', ''))
    return out


TYPES = ('double', 'void', 'int', 'float', 'const', 'static', 'unsigned', 'long', 'register', 'extern', 'inline')


class Uninit:
    pass


UNINIT = Uninit()


class Program:
    def __init__(self, text):
        self.text = text
        self.t = lex(text)
        self.i = 0
        self.functions = {}
        self.globals = {}
        while self.t[self.i][0] != 'end':
            self.top()

    # ---- parser helpers
    def pk(self, k=0): return self.t[self.i + k][1] if self.i + k < len(self.t) else ''

    def kind(self): return self.t[self.i][0]

    def nx(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def ex(self, s):
        if self.pk() != s or self.kind() == 'end':
            raise CError('expected %r before %r' % (s, self.pk()))
        self.i += 1

    def ident(self):
        if self.kind() != 'id' or self.pk() in TYPES:
            raise CError('expected an identifier before %r' % self.pk())
        return self.nx()

    def type_(self):
        words = []
        while self.kind() == 'id' and self.pk() in TYPES:
            words.append(self.nx())
        base = [w for w in words if w not in ('const', 'static', 'register', 'extern', 'inline')]
        if base not in (['double'], ['void'], ['int'], ['unsigned'], ['unsigned', 'int'], ['long']):
            raise Unsupported('C type %r' % (words,))
        return 'int' if base[0] in ('unsigned', 'long') else base[0], 'static' in words

    def top(self):
        if self.pk() == ';':
            self.nx()
            return
        if not (self.kind() == 'id' and self.pk() in TYPES):
            raise CError('expected a declaration before %r' % self.pk())
        ty, st = self.type_()
        while self.pk() == '*':
            ty += self.nx()
        name = self.ident()
        if self.pk() != '(':
            raise Unsupported('global variable')
        self.nx()
        params = []
        while self.pk() != ')':
            if self.pk() == 'void' and self.pk(1) == ')':
                self.nx()
                break
            t, _ = self.type_()
            while self.pk() in ('*', 'const', 'restrict'):
                if self.nx() == '*':
                    t += '*'
            n = self.ident()
            if self.pk() == '[':
                self.nx()
                if self.pk() != ']':
                    self.nx()
                self.ex(']')
                t += '*'
            if n in [x for _, x in params]:
                raise CError('parameter %s twice' % n)
            params.append((t, n))
            if self.pk() == ',':
                self.nx()
                if self.pk() == ')':
                    raise CError('expected a parameter')
            elif self.pk() != ')':
                raise CError('expected , or )')
        self.ex(')')
        if self.pk() == ';':
            self.nx()
            return
        body = self.block()
        self.functions[name] = Function(name, ty, params, body)

    def block(self):
        self.ex('{')
        out = []
        while self.pk() != '}':
            if self.kind() == 'end':
                raise CError('missing }')
            out.append(self.stmt())
        self.ex('}')
        return ('block', out)

    def stmt(self):
        p = self.pk()
        if p == '{':
            return self.block()
        if p == ';':
            self.nx()
            return ('block', [])
        if p == 'return':
            self.nx()
            e = None if self.pk() == ';' else self.expr()
            self.ex(';')
            return ('return', e)
        if p == 'for':
            self.nx()
            self.ex('(')
            init = self.stmt()
            cond = None if self.pk() == ';' else self.expr()
            self.ex(';')
            step = None if self.pk() == ')' else self.expr()
            self.ex(')')
            return ('for', init, cond, step, self.stmt())
        if p == 'if':
            self.nx()
            self.ex('(')
            c = self.expr()
            self.ex(')')
            a = self.stmt()
            b = None
            if self.pk() == 'else':
                self.nx()
                b = self.stmt()
            return ('if', c, a, b)
        if p in ('while', 'do', 'goto', 'switch', 'break', 'continue'):
            raise Unsupported('C statement %s' % p)
        if self.kind() == 'id' and p in TYPES:
            ty, st = self.type_()
            if st:
                raise Unsupported('static variable')
            ds = []
            while True:
                t = ty
                while self.pk() == '*':
                    t += self.nx()
                n = self.ident()
                dim = init = None
                if self.pk() == '[':
                    self.nx()
                    dim = self.expr()
                    self.ex(']')
                if self.pk() == '=':
                    self.nx()
                    if self.pk() == '{':
                        raise Unsupported('initializer')
                    init = self.assign()
                ds.append((t, n, dim, init))
                if self.pk() == ',':
                    self.nx()
                    continue
                break
            self.ex(';')
            return ('decl', ds)
        e = self.expr()
        self.ex(';')
        return ('expr', e)

    # ---- expressions
    def expr(self):
        e = self.assign()
        while self.pk() == ',':
            self.nx()
            e = ('comma', e, self.assign())
        return e

    def assign(self):
        e = self.cond()
        if self.pk() in ('=', '+=', '-=', '*=', '/='):
            op = self.nx()
            if e[0] not in ('var', 'index', 'deref'):
                raise CError('lvalue required')
            return ('assign', op, e, self.assign())
        return e

    def cond(self):
        e = self.binary(0)
        if self.pk() == '?':
            self.nx()
            a = self.expr()
            self.ex(':')
            return ('cond', e, a, self.cond())
        return e

    LEVELS = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('+', '-'), ('*', '/', '%')]

    def binary(self, l):
        if l == len(self.LEVELS):
            return self.unary()
        e = self.binary(l + 1)
        while self.kind() == 'op' and self.pk() in self.LEVELS[l]:
            op = self.nx()
            e = ('bin', op, e, self.binary(l + 1))
        return e

    def unary(self):
        p = self.pk()
        if self.kind() == 'op':
            if p in ('-', '+', '!'):
                self.nx()
                return ('un', p, self.unary())
            if p == '*':
                self.nx()
                return ('deref', self.unary())
            if p in ('++', '--'):
                self.nx()
                return ('assign', p[0] + '=', self.unary(), ('num', Fraction(1), 'int'))
            if p == '(' and self.t[self.i + 1][1] in TYPES:
                self.nx()
                ty, _ = self.type_()
                self.ex(')')
                return ('cast', ty, self.unary())
            if p == '&':
                raise Unsupported('C address')
        return self.postfix()

    def postfix(self):
        k, p = self.t[self.i]
        if k == 'sym':
            self.nx()
            if p.startswith('_symL'):
                raise Unsupported('token')
            e = ('num', S.token_value(int(p[4:].rstrip('_'))), 'double')
        elif k == 'hex':
            self.nx()
            if 'p' not in p.lower():
                if '.' in p:
                    raise CError('hexadecimal constant without exponent: ' + p)
                e = ('num', Fraction(int(p, 16)), 'int')
            else:
                try:
                    e = ('num', Fraction(float.fromhex(p)), 'double')
                except ValueError:
                    raise CError('bad constant ' + p)
        elif k == 'num':
            self.nx()
            if p[-1] in 'fF':
                raise Unsupported('float constant')
            if re.fullmatch(r'\d+', p):
                if len(p) > 1 and p[0] == '0' and int(p):
                    raise Unsupported('octal constant')
                e = ('num', Fraction(int(p)), 'int')
            else:
                e = ('num', Fraction(float(p.rstrip('lL'))), 'double')
        elif p == '(' and k == 'op':
            self.nx()
            e = self.expr()
            self.ex(')')
        elif k == 'id' and p not in TYPES:
            self.nx()
            e = ('var', p)
        else:
            raise CError('expected an expression before %r' % p)
        while self.kind() == 'op':
            p = self.pk()
            if p == '[':
                self.nx()
                i = self.expr()
                self.ex(']')
                e = ('index', e, i)
            elif p in ('++', '--'):
                self.nx()
                e = ('post', p, e)
            elif p == '(':
                raise Unsupported('call in generated code')
            else:
                break
        return e

    def function(self, name):
        return self.functions[name]


class Var:
    __slots__ = ('ty', 'v')

    def __init__(self, ty, v):
        self.ty, self.v = ty, v


class Return(Exception):
    pass


class Function:
    def __init__(self, name, ret, params, body):
        self.name, self.ret, self.params, self.body = name, ret, params, body

    def call(self, args):
        """args: ('double', v) or ('double*', memory)"""
        if [a[0] for a in args] != [t for t, _ in self.params]:
            raise CError('call with (%s) instead of (%s)' % (', '.join(a[0] for a in args), ', '.join(t for t, _ in self.params)))
        self.scopes = [{n: Var(t, a[1]) for (t, n), a in zip(self.params, args)}]
        self.steps = 0
        try:
            self.scopes.append(self.scopes[0])      # the body shares the scope of the parameters
            for s in self.body[1]:
                self.run(s)
        except Return as r:
            v = r.args[0]
            if self.ret == 'void':
                if v is not None:
                    raise CError('return with a value in a void function')
                return None
            if v is None:
                raise CError('return without a value')
            return v[1]
        return UNINIT if self.ret != 'void' else None

    def find(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        raise CError('%s undeclared' % n)

    def run(self, s):
        self.steps += 1
        if self.steps > 100000:
            raise Unsupported('long C program')
        k = s[0]
        if k == 'block':
            self.scopes.append({})
            for x in s[1]:
                self.run(x)
            self.scopes.pop()
        elif k == 'decl':
            for t, n, dim, init in s[1]:
                if n in self.scopes[-1]:
                    raise CError('redeclaration of %s' % n)
                if t == 'void':
                    raise CError('variable %s declared void' % n)
                if dim is not None:
                    d = self.integer(dim)
                    v = np.empty(d, dtype=object)
                    v[:] = UNINIT
                    self.scopes[-1][n] = Var(t + '*', v)
                    continue
                x = Var(t, UNINIT)
                self.scopes[-1][n] = x
                if init is not None:
                    self.store(('var', n), self.ev(init))
        elif k == 'expr':
            self.ev(s[1])
        elif k == 'return':
            raise Return(None if s[1] is None else self.rv(s[1]))
        elif k == 'for':
            self.scopes.append({})
            self.run(s[1])
            while s[2] is None or self.integer(s[2]):
                self.run(s[4])
                if s[3] is not None:
                    self.ev(s[3])
            self.scopes.pop()
        elif k == 'if':
            if self.integer(s[1]):
                self.run(s[2])
            elif s[3] is not None:
                self.run(s[3])

    def integer(self, e):
        t, v = self.rv(e)
        if t == 'double':
            return bool(v != 0)
        if t != 'int':
            raise Unsupported('pointer condition')
        return int(v)

    def rv(self, e):
        """type and value; indeterminate values are errors"""
        t, v = self.ev(e)
        if v is UNINIT:
            raise CError('use of an uninitialized value')
        return t, v

    def cell(self, e):
        if e[0] == 'index':
            t, mem = self.rv(e[1])
            if not t.endswith('*'):
                raise CError('subscripted value is not an array')
            ti, _ = self.rv(e[2])
            if ti != 'int':
                raise CError('array subscript is not an integer')
            i = self.integer_value(e[2])
        else:
            t, mem = self.rv(e[1])
            if not t.endswith('*'):
                raise CError('invalid type argument of unary *')
            i = 0
        if not 0 <= i < len(mem):
            raise CError('index %d out of range (size %d)' % (i, len(mem)))
        return t[:-1], mem, i

    def integer_value(self, e):
        t, v = self.rv(e)
        return int(v)

    def store(self, lv, tv):
        t, v = tv
        if lv[0] == 'var':
            x = self.find(lv[1])
            if x.ty.endswith('*') != t.endswith('*'):
                raise CError('incompatible types when assigning to %s' % lv[1])
            if x.ty == 'int' and t == 'double':
                raise Unsupported('conversion to int')
            x.v = v
            return x.ty, v
        tt, mem, i = self.cell(lv)
        if t.endswith('*'):
            raise CError('incompatible types when assigning to an element')
        mem[i] = v
        return tt, v

    def ev(self, e):
        k = e[0]
        if k == 'num':
            return e[2], e[1]
        if k == 'var':
            x = self.find(e[1])
            return x.ty, x.v
        if k in ('index', 'deref'):
            t, mem, i = self.cell(e)
            return t, mem[i]
        if k == 'comma':
            self.ev(e[1])
            return self.ev(e[2])
        if k == 'cast':
            t, v = self.rv(e[2])
            if e[1] == 'int' and t == 'double':
                raise Unsupported('conversion to int')
            return e[1], v
        if k == 'assign':
            op, lv = e[1], e[2]
            r = self.rv(e[3])
            if op != '=':
                r = self.arith(op[0], self.rv(lv), r)
            return self.store(lv, r)
        if k == 'post':
            old = self.rv(e[2])
            self.store(e[2], self.arith(e[1][0], old, ('int', Fraction(1))))
            return old
        if k == 'un':
            t, v = self.rv(e[2])
            if t.endswith('*'):
                raise CError('wrong type argument to unary %s' % e[1])
            if e[1] == '!':
                return 'int', Fraction(int(not bool(v != 0)))
            return t, (-v if e[1] == '-' else v)
        if k == 'cond':
            return self.rv(e[2] if self.integer(e[1]) else e[3])
        if k == 'bin':
            if e[1] == '&&':
                return 'int', Fraction(int(bool(self.integer(e[2])) and bool(self.integer(e[3]))))
            if e[1] == '||':
                return 'int', Fraction(int(bool(self.integer(e[2])) or bool(self.integer(e[3]))))
            return self.arith(e[1], self.rv(e[2]), self.rv(e[3]))
        raise Unsupported(k)

    def arith(self, op, a, b):
        (ta, x), (tb, y) = a, b
        if ta.endswith('*') or tb.endswith('*'):
            if op in '+-' and ta.endswith('*') and tb == 'int':
                if op == '+':
                    return ta, x[int(y):]
                raise Unsupported('pointer arithmetic')
            raise CError('invalid operands to binary %s' % op)
        t = 'double' if 'double' in (ta, tb) else 'int'
        if t == 'double':
            x, y = val(x), val(y)
        if op == '+':
            return t, x + y
        if op == '-':
            return t, x - y
        if op == '*':
            return t, x * y
        if op == '/':
            if t == 'int':
                if y == 0:
                    raise CError('division by zero')
                return t, Fraction(int(x / y))
            return t, x / y
        if op == '%':
            if t != 'int':
                raise CError('invalid operands to %')
            return t, x - y * Fraction(int(x / y))
        r = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        return 'int', Fraction(int(bool(r)))


def val(x):
    if isinstance(x, (S.Sym, Fraction)):
        return x
    f = S.tofrac(x)
    return Fraction(f) if f is not None else x
