"""The real code, compiled from /repo's working tree into a shared object, driven from Python.
Used to (a) replay counterexamples of failed obligations, (b) cross-check every discharged
contract on concrete inputs (the executable reading of the same specification term), and
(c) run the bounded stand-ins."""
import ctypes, os, subprocess, glob, struct, math, itertools
from . import ir
from .term import *

LIBS = ['/opt/vp/deps/hdf5/lib/libhdf5.a', '/opt/vp/deps/zlib/lib/libz.a', '/opt/vp/deps/lua/src/liblua.a']
libc = ctypes.CDLL(None)
libc.malloc.restype = ctypes.c_void_p; libc.malloc.argtypes = [ctypes.c_size_t]


class BuildError(Exception): pass


def shim_common():
    return '''
extern "C" { const char* libvvhd_gitrev="rev"; const char* libvvhd_gitinfo="info"; const char* libvvhd_gitdiff=""; }
'''


def build(shim='', srcs=None, extra_srcs=(), flags=(), openmp=True, opt='-O1', tag='n', common=True):
    """-> path of the shared object"""
    d = os.path.join(ir.scratch(), tag); os.makedirs(d, exist_ok=True)
    if srcs is None: srcs = sorted(glob.glob(os.path.join(ir.REPO, 'libvvhd/src/*.cpp')))
    srcs = [s if os.path.isabs(s) else ir.src(s) for s in srcs] + [s if os.path.isabs(s) else ir.src(s) for s in extra_srcs]
    g = os.path.join(d, 'gitinfo_shim.cpp')
    gi = open(ir.src('libvvhd/gitinfo.cpp.in')).read()
    import re
    open(g, 'w').write(re.sub(r'@\w+@', 'x', gi)); srcs.append(g)
    if shim:
        f = os.path.join(d, 'shim.cpp'); open(f, 'w').write(shim); srcs.append(f)
    procs = []; objs = []
    for k, s in enumerate(srcs):
        o = os.path.join(d, 'o%d.o' % k); objs.append(o)
        fl = ['-fno-access-control'] if s.endswith('shim.cpp') else []
        cmd = ['g++', opt, '-w', '-fPIC', '-DNDEBUG', '-ffp-contract=off'] + (['-fopenmp'] if openmp else []) + fl + ir.CXXFLAGS + list(flags) + ['-c', s, '-o', o]
        procs.append((s, subprocess.Popen(cmd, stderr=subprocess.PIPE, universal_newlines=True)))
    err = ''
    for s, p in procs:
        e = p.communicate()[1]
        if p.returncode: err += '%s: %s\n' % (s, e[-1500:])
    if err: raise BuildError(err)
    so = os.path.join(d, 'lib%s.so' % tag)
    r = subprocess.run(['g++', '-shared', '-o', so] + objs + (['-fopenmp'] if openmp else []) + ['-Wl,--allow-multiple-definition'] + LIBS + ['-llapack', '-lblas', '-ldl', '-lm'],
                       stderr=subprocess.PIPE, universal_newlines=True)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    return so


class TVecS(ctypes.Structure): _fields_ = [('x', ctypes.c_double), ('y', ctypes.c_double)]
class TVec3S(ctypes.Structure): _fields_ = [('x', ctypes.c_double), ('y', ctypes.c_double), ('o', ctypes.c_double)]


class Byval:
    """struct passed in memory: a copy of region `r`"""
    def __init__(self, r, size): self.r = r; self.size = size


class Mem:
    """concrete memory image of the symbolic regions under an environment"""
    def __init__(self, unit, env):
        self.u = unit; self.env = env; self.addr = {}; self.cnt = {}; self.keep = []
        regs = unit.decl
        for name, r in regs.items():
            for outer, n in self.blocks(r):
                S = r.stride if r.stride else r.size
                sz = (n + 3) * S if r.stride else S
                a = libc.malloc(max(sz, 16)); ctypes.memset(a, 0, max(sz, 16))
                self.addr[(name, outer)] = a; self.cnt[(name, outer)] = n
        self.orig = {}
        for (name, outer), a in list(self.addr.items()):
            r = regs[name]; n = self.cnt[(name, outer)]
            for j in range(n if r.stride else 1):
                idx = outer + ((j,) if r.stride else ())
                for off, (ty, fname) in r.leaves.items():
                    if ty is None: continue
                    v = self.initial(r, off, idx, ty, fname)
                    if v is None: continue
                    self.write(a + (j * r.stride if r.stride else 0) + off, ty, v)
    def blocks(self, r):
        """[(outer idx tuple, count)]"""
        dims = r.dims or []
        if not r.stride:
            out = [()]
            for d in dims: out = [o + (j,) for o in out for j in range(int(self.bound(d, o)))]
            return [(o, 1) for o in out]
        out = [()]
        for d in dims[:-1]: out = [o + (j,) for o in out for j in range(int(self.bound(d, o)))]
        return [(o, int(self.bound(dims[-1], o))) for o in out]
    def bound(self, d, o):
        if callable(d): d = d(*[I(x) for x in o])
        return ev(I(d), self.env)
    def initial(self, r, off, idx, ty, fname):
        f = r.init.get(off)
        ii = tuple(I(x) for x in idx)
        if f:
            v = f(*ii)
            return self.value(v)
        if ty.k == 'ptr': return None
        if not fname and ty.k == 'int': return None
        name = self.u.E0.field(r.name, off)
        v = self.env(name, list(idx))
        if ty.k == 'int': v = int(v)
        return v
    def value(self, v):
        if isinstance(v, Ptr): return self.address(v)
        if isinstance(v, bool): return int(v)
        if isinstance(v, B): return int(ev(v, self.env))
        return ev(v, self.env)
    def address(self, p):
        if p.op == 'null': return 0
        if p.op == 'ite': return self.address(p.args[1] if ev(p.args[0], self.env) else p.args[2])
        if p.op != 'p': raise EvalError('address %r' % p)
        o = tuple(int(ev(i, self.env)) for i in p.args[1])
        a = self.addr.get((p.args[0], o))
        if a is None: return ('nowhere', p.args[0], o, int(ev(p.args[2], self.env)))
        return a + int(ev(p.args[2], self.env))
    def write(self, a, ty, v):
        if ty.k == 'double': ctypes.memmove(a, struct.pack('<d', float(v)), 8)
        elif ty.k == 'float': ctypes.memmove(a, struct.pack('<f', float(v)), 4)
        elif ty.k == 'ptr': ctypes.memmove(a, struct.pack('<Q', int(v) if not isinstance(v, tuple) else 0), 8)
        elif ty.k == 'int':
            n = (ty.n + 7) // 8
            ctypes.memmove(a, struct.pack('<Q', int(v) & ((1 << 64) - 1))[:n], n)
    def read(self, a, ty):
        if ty.k == 'double': return struct.unpack('<d', ctypes.string_at(a, 8))[0]
        if ty.k == 'float': return struct.unpack('<f', ctypes.string_at(a, 4))[0]
        if ty.k == 'ptr': return struct.unpack('<Q', ctypes.string_at(a, 8))[0]
        n = (ty.n + 7) // 8; b = ctypes.string_at(a, n); x = int.from_bytes(b, 'little', signed=ty.n > 8)
        return x
    def celladdr(self, name, idx, off):
        r = self.u.decl[name]
        if r.stride: return self.addr[(name, tuple(idx[:-1]))] + idx[-1] * r.stride + off
        return self.addr[(name, tuple(idx))] + off
    def cells(self):
        """all live cells: (region, off, ty, idx)"""
        for (name, outer), a in self.addr.items():
            r = self.u.decl[name]; n = self.cnt[(name, outer)]
            for j in range(n if r.stride else 1):
                idx = outer + ((j,) if r.stride else ())
                for off, (ty, fname) in r.leaves.items():
                    if ty is None: continue
                    yield name, off, ty, idx
    def snapshot(self):
        return {(n, o, i): self.read(self.celladdr(n, i, o), ty) for n, o, ty, i in self.cells()}
