"""Isolines: the drawn segments are exactly the level crossings of the cells."""
import math, random
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.check import fail
from .common import *

SRC = 'libvvhd/src/XIsoline.cpp'
import os
VERB = os.environ.get("VV_C16")
WRAP = '''
#include "XIsoline.hpp"
#include <sstream>
#include <cstring>
extern "C" {
// a field with the given values and jumps (columns and rows as int pairs); the drawn text of its isolines; (size_t)-1 = rejected with an error
size_t iso_draw(const float* grid, int xr, int yr, const float* v, int ng, const int* gi, const float* g, const double* level, int evaluated, char* out, size_t room) {
    XField f(grid[0], grid[1], grid[2], xr, yr); if (v) memcpy(f.map, v, sizeof(float)*xr*yr); f.evaluated = evaluated;
    for (int i = 0; i < ng; i++) f.gaps.emplace_back(gi[2*i], gi[2*i+1], g[i]);
    try { XIsoline iso(f, level[0], level[1], level[2]); std::ostringstream s; s << iso; std::string b = s.str(); if (b.size() <= room) memcpy(out, b.data(), b.size()); return b.size(); }
    catch (const std::exception&) { return (size_t)-1; }
}
}
'''
KEEP = '''
#include "XIsoline.hpp"
'''


def crossings(np, v, gaps, level):
    """per cell: the crossed edges (left, top, right, bottom) and where; a corner equal to the level belongs to the edges whose other end is below"""
    f = np.float32; yr, xr = v.shape; out = []
    for i in range(xr - 1):
        for j in range(yr - 1):
            a, b, c, d = v[j, i], v[j + 1, i], v[j + 1, i + 1], v[j, i + 1]; a4 = a
            for (gx, gy, g) in gaps:
                if gy == j:
                    if gx >= i: a = f(a + f(g))
                    if gx > i: a4, d = f(a4 + f(g)), f(d + f(g))          # the jump lies on the left edge of its own cell only: the value continues along the other edges
            pts = []
            for z0, z1, p0, p1 in ((a, b, (i, j), (i, j + 1)), (b, c, (i, j + 1), (i + 1, j + 1)), (d, c, (i + 1, j), (i + 1, j + 1)), (a4, d, (i, j), (i + 1, j))):
                if z0 < level <= z1 or z1 < level <= z0:
                    t = (float(level) - float(z0)) / (float(z1) - float(z0)); pts.append((p0[0] + t * (p1[0] - p0[0]), p0[1] + t * (p1[1] - p0[1])))
            if len(pts) == 4: out.append([[(pts[0], pts[1]), (pts[2], pts[3])], [(pts[0], pts[3]), (pts[1], pts[2])]])
            elif len(pts) == 3: out.append([[(pts[0], pts[1])], [(pts[1], pts[2])], [(pts[0], pts[2])]])
            elif len(pts) == 2: out.append([[(pts[0], pts[1])]])
    return out


def levels(np, lo, hi, dv):
    r = []; v = lo
    while v <= hi: r.append(np.float32(v)); v += dv
    return r


def drawn(lib, np, C, g, v, gaps, lv, evaluated=1, room=1 << 22):
    buf = drawn.buf
    if buf is None: buf = drawn.buf = C.create_string_buffer(room)
    V = v.astype('<f4'); n = lib.iso_draw((C.c_float * 3)(*g), v.shape[1], v.shape[0], V.ctypes.data, len(gaps), (C.c_int * (2 * len(gaps) + 1))(*[x for q in gaps for x in q[:2]]), (C.c_float * (len(gaps) + 1))(*[q[2] for q in gaps]), (C.c_double * 3)(*lv), evaluated, buf, room)
    if n == (1 << 64) - 1: return None
    if n > room: fail('%d bytes of isolines' % n)
    return np.frombuffer(buf.raw[:n], '<f4').reshape(-1, 2).copy()
drawn.buf = None


def prepare(lib):
    import ctypes as C, numpy as np
    V = C.c_void_p; lib.iso_draw.argtypes = [V, C.c_int, C.c_int, V, C.c_int, V, V, V, C.c_int, C.c_char_p, C.c_size_t]; lib.iso_draw.restype = C.c_size_t; return C, np


def segments(np, P, what):
    r = []; last = None
    for x, y in P.tolist():
        if x != x or y != y:
            if x == x or y == y: fail('%s: a vertex (%r, %r) is drawn' % (what, x, y))
            last = None
        else:
            if last is not None: r.append((last, (x, y)))
            last = (x, y)
    if len(P) and last is not None: fail('%s: the last line is not ended' % what)
    return r


def compare(cells, segs, what, tol):
    """every drawn segment is one of a cell's crossings and all of them are drawn, once"""
    from collections import defaultdict
    def key(a, b): return tuple(int(math.floor((a[k] + b[k]) / 2)) for k in (0, 1))
    def close(s, e): return any(max(abs(s[0][k] - p[k]) for k in (0, 1)) <= tol and max(abs(s[1][k] - q[k]) for k in (0, 1)) <= tol for p, q in (e, (e[1], e[0])))
    bins = defaultdict(list)
    for s in segs: bins[key(*s)].append(s)
    def near(e):
        k = key(*e)
        for a in (0, -1, 1):
            for b in (0, -1, 1): yield bins[(k[0] + a, k[1] + b)]
    def long(e): return max(abs(e[0][k] - e[1][k]) for k in (0, 1)) > 2 * tol
    def take(e):
        for l in near(e):
            for s in l:
                if close(s, e): l.remove(s); return l, s
    for alts in sorted(cells, key=len):
        left = None
        for alt in alts:
            got = []; missing = None
            for e in alt:
                t = take(e)
                if t is None and long(e): missing = e
                elif t: got.append(t)
            if missing is None: break
            for l, s in got: l.append(s)
            left = left or missing
        else: fail('%s: the segment %r of a cell is not drawn' % (what, left))
    for l in bins.values():
        for s in l:
            if long(s): fail('%s: a segment %r is drawn that is no crossing of a cell (or drawn twice)' % (what, s))


def fields(rnd, np, small):
    xr, yr = (rnd.randint(2, 5), rnd.randint(2, 5)) if small else (rnd.randint(2, 24), rnd.randint(2, 24)); kind = rnd.choice(['any', 'any', 'few', 'signs', 'waves', 'ring', 'plateau', 'saddle', 'ramp'])
    w = [rnd.uniform(.1, 1.2) for _ in range(4)]
    f = {'any': lambda i, j: rnd.uniform(-2, 2), 'few': lambda i, j: rnd.choice([-1, 0, 1, 2]), 'signs': lambda i, j: rnd.choice([-1, 1]), 'waves': lambda i, j: math.sin(w[0] * i + w[1] * j) + math.cos(w[2] * i - w[3] * j),
         'ring': lambda i, j: 1 - ((i - xr / 2) ** 2 + (j - yr / 2) ** 2) / 9, 'plateau': lambda i, j: max(-1, min(1, round(math.sin(w[0] * i) * 2) / 2)), 'saddle': lambda i, j: (-1) ** (i + j) * rnd.choice([1, .5, 2]), 'ramp': lambda i, j: rnd.choice([1, -1]) * (i * w[0] + j) / 4}[kind]
    v = np.array([[f(i, j) for i in range(xr)] for j in range(yr)], 'f4')
    return v


def isolines(lib, rnd, chk, progress):
    C, np = prepare(lib); done = 0
    for it in range(chk.n(2500, 25000)):
        v = fields(rnd, np, rnd.random() < .5); yr, xr = v.shape; gaps = []
        if rnd.random() < .3: gaps = [(rnd.randrange(xr), rnd.randrange(yr), rnd.choice([1, -1, .5, 3])) for _ in range(rnd.randint(1, 3))]
        lo = rnd.choice([0, .25, 1, -1, float(v.flat[rnd.randrange(v.size)]), rnd.uniform(-1.5, 1.5)]); lv = rnd.choice([(lo, lo, 1), (lo, lo, 1), (lo, lo + 2, .5), (-2, 2, .25), (lo, lo + .3, rnd.uniform(.04, 1)), (-1, 1, 2)])
        if rnd.random() < .1: v = v.copy(); v[rnd.randrange(yr), rnd.randrange(xr)] = rnd.choice([float('nan')])
        g = rnd.choice([(0, 0, 1), (0, 0, 1), (-8, 4, .5), (100, -50, 4)])
        what = 'values %r, jumps %r, levels from %r to %r by %r' % ((v.tolist(), gaps) + tuple(map(float, lv))); progress(what); done += 1
        P = drawn(lib, np, C, g, v, gaps, lv)
        if P is None: fail('%s: refused' % what)
        cells = []
        with np.errstate(all='ignore'):
            for c in levels(np, *lv): cells += crossings(np, v, gaps, c)
        ext = max(abs(P[~np.isnan(P)]).max() if (~np.isnan(P)).any() else 0, abs(g[0]) + abs(g[1]) + 25 * g[2]); 
        P = (P - np.array(g[:2], 'f4')) / np.float32(g[2])
        if VERB: open("/tmp/w/c16.txt","w").write(repr((cells, P, lv, g)))
        compare(cells, segments(np, P, what), what, 2e-6 * ext / g[2] + 2e-5)
    return done


def refusals(lib, rnd, chk, progress):
    C, np = prepare(lib); inf, nan = float('inf'), float('nan'); v = np.array([[0, 1], [1, 2]], 'f4'); done = 0
    import signal; signal.signal(signal.SIGALRM, signal.SIG_DFL)         # a call that does not end kills the runner: a crash
    for lv, ev, ok in (((0, 1, 1), 1, True), ((0, 1, 1), 0, False), ((0, inf, 1), 1, False), ((0, nan, 1), 1, False), ((nan, 1, 1), 1, False), ((-inf, 1, 1), 1, False), ((-inf, -inf, 1), 1, False), ((2, 1, 1), 1, False), ((0, 1, 0), 1, False), ((0, 1, -1), 1, False), ((0, 1, nan), 1, False), ((1, 1, 5), 1, True), ((0, 1, inf), 1, True)):
        progress('levels %r (must end within 20 s)' % (lv,)); done += 1; signal.alarm(20)
        if (drawn(lib, np, C, (0, 0, 1), v, [], lv, ev) is not None) != ok: fail('levels %r of a field %s values are %s' % (lv, 'with' if ev else 'without', 'refused' if ok else 'accepted'))
    signal.alarm(0); return done


def setup(chk):
    chk.wrapfile(WRAP)
    for g in (cell, cells): chk.group(g)
    chk.battery('isolines', isolines, True, 'drawn segments of random fields with jumps and level-valued nodes against the crossings of every cell')
    chk.battery('refusals', refusals, True, 'bad level ranges and unevaluated fields')


def crossed(a, b, c): return Or(And(a < c, b >= c), And(b < c, a >= c))


def cell(chk):
    """one cell and one level: every crossed edge ends exactly one committed segment, at the interpolated position"""
    m = chk.extract([SRC], noinline=['commit_segment'], types=[('XIsoline', 'XIsoline.hpp')]); u = chk.unit(m)
    u.region('X', 'XIsoline', []); u.region('Z', None, elem='float', array=True); x, y, c = var('x'), var('y'), var('c'); z = [u.F('Z', 0)(I(k)) for k in range(5)]
    def commit(E, st, a, i): ct.emit(st, 'segment', *(list(a[1]) + list(a[2])))
    u.contracts = [(r'^XIsoline::commit_segment', commit)]
    edge = [(z[0], z[1], lambda t: (x, y + t)), (z[1], z[2], lambda t: (x + t, y + 1)), (z[3], z[2], lambda t: (x + 1, y + t)), (z[4], z[3], lambda t: (x + t, y))]
    cr = [crossed(a, b, c) for a, b, _ in edge]; P = [p((c - a) / (b - a)) for a, b, p in edge]
    def post(E, st, v):
        ev = [e[2:] for e in st.trace]; facts = st.facts; out = []; cnt = sum((ite(q, I(1), I(0)) for q in cr), I(0))
        if any(e[0] is not TRUE or e[1] != 'segment' for e in st.trace) or len(ev) > 2: return [('at most two segments per cell', facts, FALSE)]
        def is_(e, k, l): return And(cr[k], cr[l], Or(*[And(eq(e[0], P[a][0]), eq(e[1], P[a][1]), eq(e[2], P[b][0]), eq(e[3], P[b][1])) for a, b in ((k, l), (l, k))]))
        out.append(('the number of segments is half that of the crossed edges', facts, [cnt <= 1, And(cnt >= 2, cnt <= 3), eq(cnt, I(4))][len(ev)]))
        if len(ev) == 1: out.append(('the segment joins two crossings', facts, Or(*[is_(ev[0], k, l) for k in range(4) for l in range(k)])))
        if len(ev) == 2: out.append(('the segments join the four crossings in pairs', facts, Or(*[Or(And(is_(ev[0], *p), is_(ev[1], *q)), And(is_(ev[0], *q), is_(ev[1], *p))) for p, q in (((0, 1), (2, 3)), ((0, 3), (1, 2)))])))
        return out
    chk.case('a cell', u, r'^XIsoline::process_rect', [ptr('X'), x, y, ptr('Z'), c], [], {}, samples=0, extra_post=post, merge=False)


FM = ('xmin', 'ymin', 'dxdy', 'xres', 'yres', 'map', 'gaps', 'evaluated')


def cells(chk):
    """every cell is treated once per level, with the values of its corners and the recorded jumps on the row left of their place"""
    chk.probe([('XField', k) for k in FM] + [('TGap', k) for k in ('xi', 'yj', 'gap')]); m = chk.extract([SRC], noinline=['process_rect', 'commit_segment', 'merge_lines'], types=[('XIsoline', 'XIsoline.hpp'), ('XField', 'XField.hpp'), ('TGap', 'XField.hpp')]); u = chk.unit(m)
    u.region('X', 'XIsoline', ['xmin', 'ymin', 'dxdy']); u.region('F', 'XField', [k for k in FM if k not in ('map', 'gaps')]); nx, ny, ng = var('n_x', 'I'), var('n_y', 'I'), var('n_g', 'I'); u.matrix('V', ny, nx, 'float')
    u.region('G', 'TGap', ['xi', 'yj', 'gap'], [ng], array=True); u.vec('F', 'gaps', 'G', lambda *i: ng)
    for k, t in (('map', ptr('V')), ('xres', nx), ('yres', ny)): u.setptr('F', k, lambda t=t: t)
    lo, hi, dv = var('lo'), var('hi'), var('dv'); V = u.F('V', 'v'); gx, gy, g = (u.F('G', k) for k in ('xi', 'yj', 'gap'))
    def rect(E, st, a, i): ct.emit(st, 'rect', a[1], a[2], *([E.load(st, E.pnorm(st, padd_off(a[3], I(4 * k))), ir.Ty('float')) for k in range(5)] + [a[4]]))
    u.contracts = [(r'^XIsoline::process_rect', rect)]
    def ev(i, j):
        def jump(strict): return SumN(ng, lambda k: ite(And(eq(gy(k), j), (gx(k) > i) if strict else (gx(k) >= i)), g(k), R(0)))
        return [For(lambda n: And(n >= 1, lo + dv * i2r(n - 1) <= hi, lo + dv * i2r(n) > hi), lambda k: [Ev('rect', i2r(i), i2r(j), V(j, i) + jump(False), V(j + 1, i), V(j + 1, i + 1), V(j, i + 1) + jump(True), V(j, i) + jump(True), lo + dv * i2r(k))])]
    pre = [nx > 1, ny > 1, nx < 1 << 15, ny < 1 << 15, lo <= hi, dv > 0]
    chk.case('all cells and levels', u, r'^XIsoline::XIsoline\(XField const&, double, double, double\)', [ptr('X'), ptr('F'), lo, hi, dv], pre, {('X', k): (lambda k=k: u.F('F', k)()) for k in ('xmin', 'ymin', 'dxdy')}, samples=0, events=[For(nx - 1, lambda i: [For(ny - 1, lambda j: ev(i, j))])], exc=eq(u.F('F', 'evaluated')(), I(0)), merge=False, ignore=[('X', '*')])
