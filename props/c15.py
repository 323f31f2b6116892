"""Field files: storage of the grid, lookups, minimum, maximum, percentile; writing and reading back."""
import struct, math
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.check import fail
from .common import *

SRC = 'libvvhd/src/XField.cpp'
WRAP = '''
#include "XField.hpp"
#include <sstream>
#include <cstring>
#include <cstdlib>
extern "C" {
float f_at(const XField* f, int xi, int yj) { return f->at(xi, yj); }
}
'''
SHIM = WRAP + '''
extern "C" {
// the texts of the exceptions are not compared; 0 = ok, 1 = rejected with an error
int f_new(float x, float y, float d, int xr, int yr, XField** out) { try { *out = new XField(x, y, d, xr, yr); return 0; } catch (const std::exception&) { return 1; } }
int f_parse(const char* b, size_t n, XField** out) { char* exact = (char*)malloc(n ? n : 1); memcpy(exact, b, n); std::string s(exact, n); free(exact); try { *out = new XField(s); return 0; } catch (const std::exception&) { return 1; } }
void f_delete(XField* f) { delete f; }
void f_fill(XField* f, const float* v) { memcpy(f->map, v, sizeof(float)*f->xres*f->yres); f->evaluated = true; }
void f_info(XField* f, double* o) { o[0] = f->xmin; o[1] = f->ymin; o[2] = f->dxdy; o[3] = f->xres; o[4] = f->yres; }
int f_stat(XField* f, int what, float p, float* out) { try { *out = what == 0 ? f->min() : what == 1 ? f->max() : f->percentile(p); return 0; } catch (const std::exception&) { return 1; } }
size_t f_write(XField* f, char* out, size_t room) { try { std::ostringstream s; s << *f; std::string b = s.str(); if (b.size() <= room) memcpy(out, b.data(), b.size()); return b.size(); } catch (const std::exception&) { return (size_t)-1; } }
}
'''


def calls(lib):
    import ctypes as C
    V, F = C.c_void_p, C.c_float
    for n, at, rt in (('f_new', [F, F, F, C.c_int, C.c_int, V], C.c_int), ('f_parse', [C.c_char_p, C.c_size_t, V], C.c_int), ('f_delete', [V], None), ('f_fill', [V, V], None), ('f_info', [V, V], None), ('f_stat', [V, C.c_int, F, V], C.c_int), ('f_write', [V, V, C.c_size_t], C.c_size_t), ('f_at', [V, C.c_int, C.c_int], F)):
        f = getattr(lib, n); f.argtypes = at; f.restype = rt
    return C


def f32(x): return struct.unpack('<f', struct.pack('<f', x))[0]


def expected_file(np, x, y, d, xr, yr, v):
    """N, x1..xN, then y and the values of every row; all in single precision"""
    out = [struct.pack('<f', xr), struct.pack('<%df' % xr, *[f32(x + f32(d * i)) for i in range(xr)])]
    for j in range(yr): out += [struct.pack('<f', f32(y + f32(d * j))), struct.pack('<%df' % xr, *v[j])]
    return b''.join(out)


def labels_close(got, want, scale): return all(abs(a - b) <= 4e-7 * (scale + abs(b)) for a, b in zip(got, want))


class Files:
    def __init__(self, lib, rnd, progress):
        import numpy as np
        self.np = np; self.C = calls(lib); self.lib = lib; self.rnd = rnd; self.progress = progress
    def grid(self, small=False):
        r = self.rnd; xr, yr = r.choice([2, 2, 3, 5, 8, r.randint(2, 40)]), r.choice([2, 2, 3, 5, 8, r.randint(2, 40)])
        if small: xr, yr = r.randint(2, 4), r.randint(2, 4)
        d = f32(r.choice([1, .5, .1, .01, 3, r.uniform(.001, 10)])); far = r.choice([0, 0, 1, 100, 20000]) * d
        return f32(r.choice([0, -far, far, r.uniform(-far, far)])), f32(r.choice([0, -far, far, r.uniform(-far, far)])), d, xr, yr
    def values(self, xr, yr):
        r = self.rnd; kind = r.choice(['any', 'few', 'zeros', 'big', 'distinct'])
        f = {'any': lambda: r.uniform(-5, 5), 'few': lambda: r.choice([0, 1, -1, 2]), 'zeros': lambda: r.choice([0, 0, 0, r.uniform(-1, 1)]), 'big': lambda: r.choice([-1, 1]) * 10 ** r.uniform(-30, 30), 'distinct': lambda: 0}[kind]
        v = [[f32(f()) for _ in range(xr)] for _ in range(yr)]
        if kind == 'distinct':
            c = list(range(1, xr * yr + 1)); r.shuffle(c); v = [[float(c[j * xr + i]) for i in range(xr)] for j in range(yr)]
        return v
    def make(self, g, v):
        p = self.C.c_void_p()
        if self.lib.f_new(*g, self.C.byref(p)): fail('a field of %r is refused' % (g,))
        if v is not None: self.lib.f_fill(p, (self.C.c_float * (g[3] * g[4]))(*[x for row in v for x in row]))
        return p
    def parse(self, b):
        p = self.C.c_void_p(); rc = self.lib.f_parse(b, len(b), self.C.byref(p)); return None if rc else p
    def info(self, p): o = (self.C.c_double * 5)(); self.lib.f_info(p, o); return list(o)
    def write(self, p):
        n = self.lib.f_write(p, None, 0)
        if n == (1 << 64) - 1: return None
        b = self.C.create_string_buffer(n + 1); self.lib.f_write(p, b, n); return b.raw[:n]


def roundtrip(lib, rnd, chk, progress):
    F = Files(lib, rnd, progress); done = 0; np = F.np
    for it in range(chk.n(600, 6000)):
        g = F.grid(); v = F.values(g[3], g[4]); progress('field %r %r' % (g, v)); p = F.make(g, v); done += 1
        x, y, d, xr, yr = g; what = 'field with origin (%r, %r), spacing %r, %d by %d nodes' % g
        b = F.write(p); e = expected_file(np, x, y, d, xr, yr, v)
        if b is None or len(b) != len(e): fail('%s: %s bytes are written, expected %d' % (what, None if b is None else len(b), len(e)))
        A, B = np.frombuffer(b, '<f4').reshape(yr + 1, xr + 1), np.frombuffer(e, '<f4').reshape(yr + 1, xr + 1); far = max(abs(x), abs(y))
        if A[0, 0] != xr or not (A[1:, 1:] == B[1:, 1:]).all(): fail('%s: the written values differ: %r for %r' % (what, A.tolist(), B.tolist()))
        if not labels_close(A[0, 1:], B[0, 1:], far) or not labels_close(A[1:, 0], B[1:, 0], far): fail('%s: the written coordinates differ: %r %r' % (what, A[0].tolist(), A[:, 0].tolist()))
        for _ in range(4):
            i, j = rnd.randrange(xr), rnd.randrange(yr)
            if lib.f_at(p, i, j) != v[j][i]: fail('%s: value at column %d row %d is %r, not %r' % (what, i, j, lib.f_at(p, i, j), v[j][i]))
        q = F.parse(b)
        if q is None: fail('%s: its own file is refused' % what)
        I_ = F.info(q)
        if I_[3:] != [xr, yr]: fail('%s: read back as %r' % (what, I_))
        for i in (0, 1, xr // 2, xr - 1):
            if abs(I_[0] + i * I_[2] - (x + i * d)) > 1e-6 * (abs(x) + xr * d): fail('%s: column %d is read back at %r, it was at %r' % (what, i, I_[0] + i * I_[2], x + i * d))
        for j in (0, 1, yr // 2, yr - 1):       # the common spacing is known only as well as the coordinates of the columns are rounded
            if abs(I_[1] + j * I_[2] - (y + j * d)) > 1e-6 * (abs(y) + yr * d) + 4 * 6e-8 * abs(x) * max(1, j / (xr - 1)) + 4 * 6e-8 * abs(y) * max(1, j / (yr - 1)): fail('%s: row %d is read back at %r, it was at %r' % (what, j, I_[1] + j * I_[2], y + j * d))
        for i in range(xr):
            for j in range(yr):
                if lib.f_at(q, i, j) != v[j][i]: fail('%s: value at column %d row %d is read back as %r, not %r' % (what, i, j, lib.f_at(q, i, j), v[j][i]))
        o = F.C.c_float()
        for p_ in (p, q):
            for k, f in ((0, min), (1, max)):
                if lib.f_stat(p_, k, 0, F.C.byref(o)) or o.value != f(f(r) for r in v): fail('%s: %s of %r is %r' % (what, ('minimum', 'maximum')[k], v, o.value))
        lib.f_delete(p); lib.f_delete(q)
    return done


def statistics(lib, rnd, chk, progress):
    """the p-percentile: below one half the value that floor(n*p) of the n non-zero values do not exceed, above it from the other end"""
    F = Files(lib, rnd, progress); done = 0; o = F.C.c_float(); ref = F.C.byref(o)
    for it in range(chk.n(1500, 15000)):
        g = F.grid(rnd.random() < .3); v = F.values(g[3], g[4]); p = F.make(g, v); s = sorted(x for r in v for x in r if x != 0); n = len(s)
        for q in [rnd.uniform(0, 1), rnd.choice([.02, .98, .5, .25, .75, .1, .9, .001, .999])]:
            q = f32(q)
            if not 0 < q < 1: continue
            progress('percentile %r of %r' % (q, v)); done += 1; rc = lib.f_stat(p, 2, q, ref); got = o.value
            if rc: fail('the %r-percentile of %r is refused' % (q, v))
            if n == 0: ok = [0.0]
            else:
                t = n * (q if q < .5 else 1 - q); ks = {max(1, math.floor(t * (1 + e) + e)) for e in (-1e-5, 0, 1e-5)}
                ok = [s[k - 1] if q < .5 else s[n - k] for k in ks]
            if got not in ok: fail('the %r-percentile of %r is %r, not %r' % (q, v, got, ok))
        for q in (0.0, 1.0, -.5, 2.0, float('nan')):
            if not lib.f_stat(p, 2, q, ref): fail('a percentile of %r is accepted' % q)
        lib.f_delete(p)
        e = F.make(g, None)
        for k in (0, 1, 2):
            if not lib.f_stat(e, k, .3, ref): fail('a statistic of a field without values is given')
        if F.write(e) is not None: fail('a field without values is written')
        lib.f_delete(e)
    return done


def damaged(lib, rnd, chk, progress):
    """every truncation of a file, files with additional bytes, and damaged widths and coordinates"""
    F = Files(lib, rnd, progress); done = 0
    def expect(b, ok, what):
        nonlocal done; progress('%s: %s' % (what, b.hex())); done += 1; q = F.parse(b)
        if (q is not None) != ok: fail('%s is %s: floats %r' % (what, 'refused' if ok else 'accepted', struct.unpack('<%df' % (len(b) // 4), b[:len(b) // 4 * 4])))
        if q is not None:
            I_ = F.info(q)
            for i in range(int(I_[3])):
                for j in range(int(I_[4])):
                    w = struct.unpack_from('<f', b, 4 * ((j + 1) * (int(I_[3]) + 1) + i + 1))[0]
                    if lib.f_at(q, i, j) != w and w == w: fail('%s: value at column %d row %d is %r, the file has %r' % (what, i, j, lib.f_at(q, i, j), w))
            lib.f_delete(q)
    for it in range(chk.n(60, 600)):
        g = F.grid(True) if rnd.random() < .7 else F.grid(); x, y, d, xr, yr = g; v = F.values(xr, yr); b = expected_file(F.np, x, y, d, xr, yr, v); name = 'a file of %d by %d nodes' % (xr, yr); row = 4 * (xr + 1)
        if len(b) > 2000: continue
        expect(b, True, name)
        for n in range(len(b)): expect(b[:n], n % row == 0 and n // row - 1 >= 2 and abs(x) < 1e3 * d and abs(y) < 1e3 * d, '%s cut after %d bytes' % (name, n)) if n % row or n // row - 1 < 2 else None
        for n in (1, 2, 3, 4, 8, row - 4, row + 4): n % row and expect(b + b'\0' * n, False, '%s with %d more bytes' % (name, n))
        for w in (0, 1, -1, -xr, xr + .5, 1e30, -1e30, float('inf'), float('nan'), xr + 1, xr - 1, len(b) / 4, len(b) / 4 - 1, len(b) / 4 - 2, 2 ** 31, 2 ** 32 + xr):
            w = f32(w); cells = len(b) // 4; ok = w == xr or (w == w and abs(w) < 1e6 and w > 1 and w == int(w) and cells % (w + 1) == 0 and cells // (w + 1) >= 3)
            if ok and w != xr: continue          # another rectangular grid: its coordinates decide
            expect(struct.pack('<f', w) + b[4:], ok, '%s with the width %r' % (name, w))
        inside = abs(x) < 100 * d and abs(y) < 100 * d
        if inside:
            # coordinates of the columns spread over another range than those of the rows
            for s in (0., -1., 2., .5, 1.1, .9, float('nan'), float('inf')):
                c = bytearray(b)
                for i in range(xr): struct.pack_into('<f', c, 4 * (i + 1), x + d * s * i if i or s == s else x)
                expect(bytes(c), False, '%s whose columns are %r times as far apart as its rows' % (name, s))
            c = bytearray(b)
            for i in range(xr): struct.pack_into('<f', c, 4 * (i + 1), x - d * i)
            for j in range(yr): struct.pack_into('<f', c, row * (j + 1), y - d * j)
            expect(bytes(c), False, '%s with decreasing coordinates' % name)
    return done


def setup(chk):
    chk.wrapfile(SHIM)
    for g in (storing, lookups, making, reading): chk.group(g)
    chk.battery('round trip', roundtrip, True, 'random fields written, compared byte for byte with the format, and read back')
    chk.battery('statistics', statistics, True, 'percentiles of random fields against the sorted values')
    chk.battery('damaged files', damaged, True, 'every truncation of random files, additional bytes, damaged widths and coordinates')


MEM = ('xmin', 'ymin', 'dxdy', 'xres', 'yres', 'map', 'evaluated')


def unit(chk, ni=(), name='F', reg=True):
    chk.probe([('XField', m) for m in MEM]); m = chk.extract([SRC, chk.wrapfile(WRAP)], noinline=list(ni), types=[('XField', 'XField.hpp')]); u = chk.unit(m)
    u.region('F', 'XField', [x for x in MEM if x != 'map']); nx, ny = var('n_x', 'I'), var('n_y', 'I'); u.matrix('V', ny, nx, 'float')
    return u, nx, ny


def evaluated(u, nx, ny):
    u.setptr('F', 'map', lambda: ptr('V')); u.setptr('F', 'xres', lambda: nx); u.setptr('F', 'yres', lambda: ny)
    return [nx > 1, ny > 1, nx < 1 << 15, ny < 1 << 15]


def storing(chk):
    """the file: the number of columns, their coordinates, then of every row its coordinate and its values"""
    u, nx, ny = unit(chk, ['_ZNSo5writeEPKcl']); pre = evaluated(u, nx, ny); x, y, d = (u.F('F', k)() for k in ('xmin', 'ymin', 'dxdy')); FL = ir.Ty('float')
    def write(E, st, a, i):
        p = E.pnorm(st, a[1]); n = a[2]
        if p.op == 'p' and p.args[0] == 'V': ct.emit(st, 'values', p.args[2], n)
        elif n.const() == 4: ct.emit(st, 'number', E.load(st, p, FL))
        else: raise sym.Unsupported('write of %r bytes at %r' % (n, p))
        return a[0]
    u.contracts = [(r'^std::(ostream|basic_ostream<.*>)::write\(', write)]; u.region('OS', None, elem='i64')
    ev = [Ev('number', i2r(nx)), For(nx, lambda k: [Ev('number', x + d * i2r(k))]), For(ny, lambda j: [Ev('number', y + d * i2r(j)), Ev('values', j * nx * 4, nx * 4)])]
    chk.case('writing a field', u, r'^operator<<\(std::ostream&, XField const&\)|^operator<<\(std::basic_ostream', [ptr('OS'), ptr('F')], pre, {}, samples=0, events=ev, exc=eq(u.F('F', 'evaluated')(), I(0)))


def lookups(chk):
    u, nx, ny = unit(chk); pre = evaluated(u, nx, ny); i, j = var('xi', 'I'), var('yj', 'I'); V = u.F('V', 'v')
    chk.case('value at a node', u, r'^f_at$', [ptr('F'), i, j], pre + [i >= 0, i < nx, j >= 0, j < ny], {}, ret=V(j, i), samples=0)


def making(chk):
    """a new field keeps its grid; grids without an extent are refused"""
    u, nx, ny = unit(chk); x, y, d = (var(k) for k in ('x', 'y', 'd')); bad = Or(nx <= 1, ny <= 1, d <= 0)
    def new(E, st, a, i): E.obl.append(('room for every value', st.facts + (nx > 1, ny > 1), a[0] >= nx * ny * 4)); return ptr('V')
    u.contracts = [(r'^operator new\[\]', new), (r'^operator delete', lambda E, st, a, i: None)]
    chk.case('a new field', u, r'^XField::XField\(float, float, float, int, int\)', [ptr('F'), x, y, d, nx, ny], [nx * ny < 1 << 29, nx > -(1 << 31), ny > -(1 << 31)], {('F', 'xmin'): x, ('F', 'ymin'): y, ('F', 'dxdy'): d, ('F', 'xres'): nx, ('F', 'yres'): ny, ('F', 'evaluated'): I(0)}, samples=0, exc=bad, merge=False, ignore=[('F', '*')])


def reading(chk):
    """a well-formed file is accepted and every value is taken from its place"""
    u, nx, ny = unit(chk); u.matrix('D', ny + 1, nx + 1, 'float'); D = u.F('D', 'v'); size = (nx + 1) * (ny + 1) * 4
    D0 = D; u.setoff('D', 0, lambda i, j: i2r(nx) if not I(i).d and not I(j).d else D0(i, j))
    u.raw('S', 16, {0: ('ptr', None), 8: ('i64', None)}, array=False); u.setoff('S', 0, lambda *a: ptr('D')); u.setoff('S', 8, lambda *a: size)
    u.contracts = [(r'^operator new\[\]', lambda E, st, a, i: ptr('V')), (r'^operator delete', lambda E, st, a, i: None), (r'^fprintf$', lambda E, st, a, i: I(0)), (r'^fmodf?$', lambda E, st, a, i: R(0) if a[0] == i2r(nx) else fn('fmod', a[0], a[1]))]
    dx, dy = D(0, nx) - D(0, 1), D(ny, 0) - D(1, 0)
    pre = [nx > 1, ny > 1, nx < 1 << 12, ny < 1 << 12, dx > 0, eq(dx * i2r(ny - 1), dy * i2r(nx - 1))]
    def ex(E):
        E.exact[(pscale(size, Fr(1, 4)), nx + 1)] = ny + 1          # by arithmetic
    chk.case('reading a well-formed file', u, r'^XField::XField\(std::', [ptr('F'), ptr('S')], pre, {('F', 'xmin'): D(0, 1), ('F', 'ymin'): D(1, 0), ('F', 'xres'): nx, ('F', 'yres'): ny, ('F', 'evaluated'): I(1), ('V', 0): lambda j, i: D(j + 1, i + 1)}, samples=0, engine_setup=ex, merge=False, ignore=[('F', '*')])
from fractions import Fraction as Fr
