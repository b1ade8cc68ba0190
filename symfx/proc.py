"""Stand-ins for the operating system calls around generated code, in symbolic runs: written files
are kept in memory, the compiler only records what it is asked to build, and a loaded library runs
the C source with minic.  subprocess, ctypes, tempfile, os.system/popen, open(.., 'w')."""
import builtins
import ctypes as rct
import io
import os as ros
import re
import shlex
import tempfile as rtf
import types

import numpy as np

from . import sym as S
from . import npshim
from .sym import Sym, Unsupported


class FS:
    def __init__(self):
        self.files = {}         # path -> text (or Lib)
        self.loaded = {}        # path -> Lib (dlopen returns the library already loaded)
        self.n = 0

    def path(self, p, cwd=None):
        return ros.path.realpath(ros.path.join(cwd or ros.getcwd(), ros.fspath(p)))

    def reset(self):
        self.__init__()


class _W(io.StringIO):
    def __init__(self, fs, path, text=''):
        io.StringIO.__init__(self, text)
        self.seek(0, 2)
        self.fs, self.p, self.name = fs, path, path

    def close(self):
        if not self.closed:
            self.fs.files[self.p] = self.getvalue()
        io.StringIO.close(self)

    def flush(self):
        self.fs.files[self.p] = self.getvalue()

    def write(self, s):
        return io.StringIO.write(self, s.decode() if isinstance(s, bytes) else s)


class Built:
    """result of the compiler: the source of a shared library"""

    def __init__(self, src):
        self.src = src


class Proc:
    def __init__(self, rc=0, out='', err=''):
        self.returncode = rc
        b = err.encode()
        self.stdout, self.stderr = io.BytesIO(out.encode()), io.BytesIO(b)
        self.stdin = io.BytesIO()
        self._o, self._e = out.encode(), b

    def wait(self, timeout=None): return self.returncode

    def poll(self): return self.returncode

    def communicate(self, input=None, timeout=None): return self._o, self._e

    def kill(self): pass

    def __enter__(self): return self

    def __exit__(self, *a): return False


def install(world):
    fs = FS()
    world.fs = fs

    def vopen(file, mode='r', *a, **k):
        if not isinstance(file, (str, ros.PathLike)):
            if isinstance(file, int) and file in fds:
                return _W(fs, fds.pop(file))
            return builtins.open(file, mode, *a, **k)
        p = fs.path(file)
        if any(c in mode for c in 'wax+'):
            if not ros.path.isdir(ros.path.dirname(p)):
                raise FileNotFoundError(p)
            w = _W(fs, p, fs.files.get(p, '') if 'a' in mode else '')
            fs.files[p] = w.getvalue()
            return w
        if p in fs.files and isinstance(fs.files[p], str):
            return io.StringIO(fs.files[p])
        return builtins.open(file, mode, *a, **k)
    world.bi['open'] = vopen

    # ------------------------------------------------------------ compiler
    def run_cmd(cmd, shell, cwd=None):
        if isinstance(cmd, (list, tuple)) and not (shell and len(cmd) == 1):
            parts = [[str(c) for c in cmd]]
        else:
            cmd = cmd if isinstance(cmd, str) else cmd[0]
            parts = [shlex.split(c) for c in re.split(r'&&|;', cmd)]
        for w in parts:
            if not w:
                continue
            if w[0] == 'cd':
                cwd = fs.path(w[1], cwd)
                continue
            if ros.path.basename(w[0]) in ('cc', 'gcc', 'clang'):
                o, src, i = 'a.out', [], 1
                while i < len(w):
                    if w[i] == '-o':
                        o = w[i + 1]
                        i += 1
                    elif w[i].startswith('-o'):
                        o = w[i][2:]
                    elif not w[i].startswith('-'):
                        src.append(w[i])
                    i += 1
                if len(src) != 1:
                    raise Unsupported('compiler command %r' % (w,))
                sp = fs.path(src[0], cwd)
                if sp not in fs.files:
                    return Proc(1, '', 'no input file %s\n' % sp)
                fs.files[fs.path(o, cwd)] = Built(fs.files[sp])
                continue
            raise Unsupported('command %r' % (w,))
        return Proc()

    sp = types.ModuleType('subprocess')
    import subprocess as rsp
    for n in ('PIPE', 'STDOUT', 'DEVNULL', 'CalledProcessError', 'SubprocessError', 'TimeoutExpired'):
        setattr(sp, n, getattr(rsp, n))
    sp.Popen = lambda args, *a, shell=False, cwd=None, **k: run_cmd(args, shell, cwd)
    sp.run = sp.Popen

    def ccall(args, *a, shell=False, cwd=None, **k):
        r = run_cmd(args, shell, cwd)
        if r.returncode:
            raise rsp.CalledProcessError(r.returncode, args)
        return r.returncode
    sp.check_call = ccall
    sp.call = lambda args, *a, shell=False, cwd=None, **k: run_cmd(args, shell, cwd).returncode
    sp.check_output = lambda args, *a, **k: (ccall(args, *a, **k), b'')[1]
    world.table['subprocess'] = sp

    # ------------------------------------------------------------ os, tempfile
    o = types.ModuleType('os')
    for n in dir(ros):
        if not n.startswith('__'):
            setattr(o, n, getattr(ros, n))
    o.system = lambda cmd: run_cmd(cmd, True).returncode
    fds = {}
    o.close = lambda fd: fds.pop(fd, None)

    def unlink(p, *a, **k):
        if fs.files.pop(fs.path(p), None) is None:
            raise FileNotFoundError(p)
    o.remove = o.unlink = unlink

    def rename(a, b, *x, **k):
        fs.files[fs.path(b)] = fs.files.pop(fs.path(a))
    o.rename = o.replace = rename
    o.makedirs = o.mkdir = lambda *a, **k: None
    world.table['os'] = o
    world.table['os.path'] = ros.path

    t = types.ModuleType('tempfile')

    def mkstemp(suffix=None, prefix=None, dir=None, text=False):
        fs.n += 1
        p = fs.path(ros.path.join(dir or rtf.gettempdir(), '%s%d%s' % (prefix or 'tmp', fs.n, suffix or '')))
        fs.files[p] = ''
        fd = 100000 + fs.n
        fds[fd] = p
        return fd, p
    t.mkstemp = mkstemp
    t.gettempdir = rtf.gettempdir
    t.mktemp = lambda *a, **k: mkstemp(*a, **k)[1]

    def mkdtemp(suffix=None, prefix=None, dir=None):
        return rtf.gettempdir()
    t.mkdtemp = mkdtemp

    class TemporaryDirectory:
        def __init__(self, *a, **k): self.name = rtf.gettempdir()

        def __enter__(self): return self.name

        def __exit__(self, *a): return False

        def cleanup(self): pass
    t.TemporaryDirectory = TemporaryDirectory

    def ntf(mode='w+b', *a, suffix=None, prefix=None, dir=None, **k):
        return _W(fs, mkstemp(suffix, prefix, dir)[1])
    t.NamedTemporaryFile = ntf
    world.table['tempfile'] = t

    # ------------------------------------------------------------ ctypes
    c = types.ModuleType('ctypes')
    for n in dir(rct):
        if not n.startswith('__'):
            setattr(c, n, getattr(rct, n))
    DP = rct.POINTER(rct.c_double)

    class Fn:
        def __init__(self, prog, name):
            self.prog, self.name = prog, name
            self.argtypes, self.restype = None, rct.c_int

        def __call__(self, *args):
            f = self.prog.function(self.name)
            at = self.argtypes
            if at is not None and len(args) < len(at):
                raise TypeError('this function takes at least %d argument(s) (%d given)' % (len(at), len(args)))
            vals = []
            for i, a in enumerate(args):
                vals.append(conv(a, at[i] if at is not None and i < len(at) else None))
            r = f.call(vals)
            if self.restype is None:
                return None
            if f.ret != 'double' or self.restype is not rct.c_double:
                # not the returned value: anything
                return S.cur().env.fresh('garbage')
            return r

    def conv(a, t):
        """-> ('double', value) or ('double*', memory)"""
        if isinstance(a, np.ndarray) and a.dtype == object and a.size == 1 and t is rct.c_double:
            a = a.reshape(-1)[0] if not isinstance(a, np.matrix) else a[0, 0]
        num = isinstance(a, (int, float, Sym, np.floating, np.integer)) and not isinstance(a, bool)
        ptr = hasattr(a, '_arr')
        if t is None:
            if isinstance(a, rct.c_double):
                return ('double', a.value)
            if ptr:
                return ('double*', memory(a))
            raise rct.ArgumentError("don't know how to convert parameter")
        if t is rct.c_double:
            if not num:
                raise rct.ArgumentError('wrong type')
            return ('double', a)
        if t is DP or t is rct.c_void_p:
            if not ptr or (t is DP and not isinstance(a, DP)):
                raise rct.ArgumentError('expected LP_c_double instance')
            return ('double*', memory(a))
        raise Unsupported('ctypes argument of type %r' % (t,))

    def memory(p):
        arr = np.asarray(p._arr)
        if arr.dtype != object:
            raise Unsupported('ctypes pointer on an array of %s' % arr.dtype)
        if arr.flags.c_contiguous:
            return arr.reshape(-1).view()
        base = arr
        while isinstance(base.base, np.ndarray):
            base = base.base
        base = np.asarray(base)
        if base.flags.c_contiguous:
            off = (arr.__array_interface__['data'][0] - base.__array_interface__['data'][0]) // 8
            return base.reshape(-1)[off:]
        if base.flags.f_contiguous:
            off = (arr.__array_interface__['data'][0] - base.__array_interface__['data'][0]) // 8
            return base.T.reshape(-1)[off:]
        raise Unsupported('memory of an array')

    class CDLL:
        def __init__(self, name, *a, **k):
            from . import minic
            p = fs.path(name)
            b = fs.loaded.get(p)
            if b is None:
                b = fs.files.get(p)
                if not isinstance(b, Built):
                    raise OSError('%s: cannot open shared object file' % name)
                fs.loaded[p] = b
            self.__dict__['_prog'] = minic.Program(b.src)

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            if n not in self._prog.functions:
                raise AttributeError('undefined symbol: ' + n)
            f = Fn(self._prog, n)
            self.__dict__[n] = f
            return f

        __getitem__ = __getattr__
    c.CDLL = CDLL
    c.cdll = types.SimpleNamespace(LoadLibrary=CDLL)
    world.table['ctypes'] = c
    return fs
