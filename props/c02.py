"""Body geometry derived from the corner polygon."""
from vv.term import *
from .common import *


def nxt(n, f): return lambda i: ite(eq(i, n - 1), f(I(0)), f(i + 1))


def geom(n, S):
    cx, cy = S('corner.x'), S('corner.y'); nx, ny = nxt(n, cx), nxt(n, cy)
    return cx, cy, nx, ny


def polygon_gen():
    """random polygons of several shapes, incl. degenerate ones"""
    import math
    def make(r):
        kind = r.choice(['rand', 'reg', 'rev', 'line', 'grid', 'one'])
        ox, oy = r.choice([0, 0, 5, -100.0]), r.choice([0, 0, 3, 1000.0])
        R0 = r.choice([0.5, 1, 10, 1e-3]); cache = {}
        N = {'one': r.choice([1, 2]), 'line': r.choice([2, 3, 4])}.get(kind, r.choice([3, 4, 5, 6, 7]))
        if kind == 'line': R0 = r.choice([0.5, 1, 2])
        pts = []
        for i in range(N):
            if kind == 'reg': a = 2 * math.pi * i / N; p = (math.cos(a), math.sin(a))
            elif kind == 'rev': a = -2 * math.pi * i / N; p = (math.cos(a), 0.5 * math.sin(a))
            elif kind == 'line': p = (i, 0)
            elif kind == 'grid': p = (r.randint(-3, 3) + i * 0.25, r.randint(-3, 3))
            else: p = (r.uniform(-1, 1), r.uniform(-1, 1))
            pts.append((ox + R0 * p[0], oy + R0 * p[1]))
        def g(name, args, rr):
            if name == 'n': return N
            if name == 'S.corner.x' and args[0] < N: return pts[int(args[0])][0]
            if name == 'S.corner.y' and args[0] < N: return pts[int(args[0])][1]
            if name in ('S.slip',): return rr.choice([0, 0, 0, 1])
            # derived quantities consistent with the corners (doFillProperties reads them)
            if args and args[0] < N and name in ('S.dl.x', 'S.dl.y', 'S.r.x', 'S.r.y'):
                i = int(args[0]); a, b = pts[i], pts[(i + 1) % N]; c = 0 if name[-1] == 'x' else 1
                return b[c] - a[c] if 'dl' in name else 0.5 * (a[c] + b[c])
            return None
        return g
    return Gen(make)


def setup(chk):
    chk.group(segments); chk.group(properties); chk.group(queries)


NOIN = ['push_back', 'doUpdateSegments', 'doFillProperties']


def body_unit(chk):
    probe_all(chk)
    m = chk.extract(['libvvhd/src/TBody.cpp'], noinline=NOIN)
    u = chk.unit(m)
    u.gen = polygon_gen()
    return u


def segments(chk):
    u = body_unit(chk); n = var('n', 'I')
    T, S = single_body(u, n)
    cx, cy, nx, ny = geom(n, S)
    post = {('S', 'dl.x'): lambda i: nx(i) - cx(i), ('S', 'dl.y'): lambda i: ny(i) - cy(i),
            ('S', 'r.x'): lambda i: (nx(i) + cx(i)) / 2, ('S', 'r.y'): lambda i: (ny(i) + cy(i)) / 2,
            ('S', '_1_eps'): lambda i: 3 / sqrt((nx(i) - cx(i)) * (nx(i) - cx(i)) + (ny(i) - cy(i)) * (ny(i) - cy(i)))}
    chk.case('segments from corners', u, r'^TBody::doUpdateSegments\(', [ptr('T')], [n >= 1], post)
    chk.case('no segments', u, r'^TBody::doUpdateSegments\(', [ptr('T')], [eq(n, I(0))], {}, gen=lambda name, a, r: 0 if name == 'n' else None, samples=2)


def properties(chk):
    u = body_unit(chk); n = var('n', 'I')
    T, S = single_body(u, n)
    cx, cy, nx, ny = geom(n, S); dlx, dly, rx, ry = S('dl.x'), S('dl.y'), S('r.x'), S('r.y'); slip = S('slip')
    ln = lambda i: sqrt(dlx(i) * dlx(i) + dly(i) * dly(i))
    slen = SumN(n, ln); area = SumN(n, lambda i: dlx(i) * ry(i))
    cr = lambda i: cx(i) * ny(i) - cy(i) * nx(i)
    def cof(r): return ite(eq(area, R(0)), SumN(n, lambda i: r(i) * ln(i)) / slen, SumN(n, lambda i: -r(i) * cr(i)) / (3 * area))
    X, Y = cof(rx), cof(ry)
    sq = lambda i: cx(i) * cx(i) + cy(i) * cy(i)
    m0 = SumN(n, lambda i: -(sq(i) + cx(i) * nx(i) + cy(i) * ny(i) + sq2(i)) * cr(i)) if False else None
    def body12(i):
        return -(cx(i) * cx(i) + cy(i) * cy(i) + cx(i) * nx(i) + cy(i) * ny(i) + nx(i) * nx(i) + ny(i) * ny(i)) * cr(i)
    moi = ite(eq(area, R(0)), R(0), SumN(n, body12) / 12 - area * (X * X + Y * Y))
    post = {('T', '_slip'): FoldOr(n, lambda k: ne(slip(k), I(0))), ('T', '_slen'): slen, ('T', '_area'): area,
            ('T', '_cofm.x'): X, ('T', '_cofm.y'): Y, ('T', '_moi_cofm'): moi,
            ('T', '_min_disc_r2'): FoldMax(n, lambda k: (cx(k) - X) * (cx(k) - X) + (cy(k) - Y) * (cy(k) - Y), R(0)),
            ('T', '_min_rect_tr.x'): FoldMax(n, cx, -INF), ('T', '_min_rect_tr.y'): FoldMax(n, cy, -INF),
            ('T', '_min_rect_bl.x'): FoldMax(n, cx, INF, True), ('T', '_min_rect_bl.y'): FoldMax(n, cy, INF, True)}
    chk.case('area, length, centre of mass, moment of inertia, extents', u, r'^TBody::doFillProperties\(', [ptr('T')], [n >= 1], post, tol=1e-6)
    chk.case('empty body', u, r'^TBody::doFillProperties\(', [ptr('T')], [eq(n, I(0))], {('T', '_slip'): I(0), ('T', '_slen'): R(0), ('T', '_area'): R(0)}, gen=lambda name, a, r: 0 if name == 'n' else None, samples=2)


WRAP = '''
#include "TBody.hpp"
extern "C" double w_moi_axis(TBody* b){ return b->get_moi_axis(); }
extern "C" double w_moi_cofm(TBody* b){ return b->get_moi_cofm(); }
extern "C" double w_area(TBody* b){ return b->get_area(); }
extern "C" double w_slen(TBody* b){ return b->get_slen(); }
extern "C" bool w_slip(TBody* b){ return b->get_slip(); }
extern "C" double w_axis_x(TBody* b){ return b->get_axis().x; }
extern "C" double w_axis_y(TBody* b){ return b->get_axis().y; }
extern "C" double w_cofm_x(TBody* b){ return b->get_cofm().x; }
extern "C" double w_cofm_y(TBody* b){ return b->get_cofm().y; }
'''


def queries(chk):
    probe_all(chk)
    m = chk.extract([chk.wrapfile(WRAP)])
    u = chk.unit(m); n = var('n', 'I')
    T, S = single_body(u, n)
    ax, ay = T('holder.r.x') + T('dpos.r.x'), T('holder.r.y') + T('dpos.r.y')
    X, Y = T('_cofm.x'), T('_cofm.y')
    def q(f, spec, ret='double'): chk.case('query ' + f, u, f, [ptr('T')], [], {}, ret=spec, native={'ret': ret}, samples=8)
    q('w_moi_axis', T('_moi_cofm') + ((ax - X) * (ax - X) + (ay - Y) * (ay - Y)) * T('_area'))
    q('w_moi_cofm', T('_moi_cofm')); q('w_area', T('_area')); q('w_slen', T('_slen')); q('w_slip', ne(T('_slip'), I(0)), 'bool')
    q('w_axis_x', ax); q('w_axis_y', ay); q('w_cofm_x', X); q('w_cofm_y', Y)

