"""Points and bodies."""
import random, math
from fractions import Fraction as Fr
from vv.term import *
from vv import native, contract as ct
from vv.loops import mkfold
from vv.check import fail
from vv.space import Space
from .common import *
from .eps import DMAX

P_ = lambda v: Poly({((v, 1),): F1}, v.sort)


def Fold1(n, inits, step):
    """state after step(k, state) for k = 0..n-1"""
    k = mk('var', '$fo%d' % fresh(), sort='I'); s = [mk('var', '$fs%d' % fresh(), sort=x.sort) for x in inits]
    body = step(I(k), [P_(x) for x in s])
    return [mkfold(k, n, s, list(inits), body, j) for j in range(len(inits))]


def crossed(px, py, ax, ay, bx, by):
    """the ray going left from p crosses the edge a-b: exactly one end is not below p, and the crossing is left of p"""
    D = (ay - by) * (px - bx) - (ax - bx) * (py - by)
    return Or(And(by < py, ay >= py, D > 0), And(ay < py, by >= py, D < 0))


def setup(chk):
    chk.use('space')
    chk.group(contour); chk.group(anybody)
    chk.battery('points', points, True, 'inside tests and nearest segments of the real code for random bodies (grid-aligned ones included) and points, moved and rotated, against exact rational even-odd counting')


def xor(a, b): return ite(eq(a, I(0)), b, 1 - b)


def quick_lemma(n, cx, cy, px, py, bl, tr, c, r2, start, parity, rej, bound):
    """a point outside the bounding rectangle or the bounding disc is outside the polygon: no edge, or every edge that
    straddles its height, is crossed left of it, and a closed polygon straddles any height an even number of times"""
    ax, ay, bx, by, x, y, ox, oy, q, t = (var('$' + z) for z in ('ax', 'ay', 'bx', 'by', 'x', 'y', 'ox', 'oy', 'q', 't'))
    cr = crossed(x, y, ax, ay, bx, by); up = lambda v, p: v >= p; straddle = Not(eqb(up(ay, y), up(by, y)))
    out = []
    # one edge, a rectangle side (numbers l: left, m: right, b: bottom, e: top)
    l, m, b, e = (var('$' + z) for z in 'lmbe')
    out.append(('below the rectangle no edge is crossed', (ay >= b, by >= b, y < b), Not(cr)))
    out.append(('above the rectangle no edge is crossed', (ay <= e, by <= e, y > e), Not(cr)))
    # the crossing point of a straddling edge: a + t (b - a)
    def cases(name, extra, goal):
        for nm, lo, lx, hi, hx in (('rising', by, bx, ay, ax), ('falling', ay, ax, by, bx)):
            X = lx + t * (hx - lx); st = (lo < y, hi >= y)
            # t = (y - lo)/(hi - lo)
            out.append((name + ', ' + nm, st + (eq(t * (hi - lo), y - lo),) + extra(X), goal(X, nm)))
    for nm, lo, lx, hi, hx in (('rising', by, bx, ay, ax), ('falling', ay, ax, by, bx)):
        h = hi - lo; X = lx + t * (hx - lx); D = (ay - by) * (x - bx) - (ax - bx) * (y - by); sg = 1 if nm == 'rising' else -1
        out.append(('%s edge: parameter of the crossing' % nm, (lo < y, hi >= y, eq(t * h, y - lo)), And(t > 0, t <= 1)))
        out.append(('%s edge: the test compares with the crossing point' % nm, (eq(t * h, y - lo),), eq(sg * D, h * (x - X))))
        w = var('$w'); g = var('$g'); gw = var('$gw')     # D = sign * g * w with the height g > 0
        out.append(('%s edge: a positive factor keeps the sign, plus' % nm, (g > 0, w > 0), g * w > 0))
        out.append(('%s edge: a positive factor keeps the sign, minus' % nm, (g > 0, w <= 0), g * w <= 0))
        out.append(('%s edge: sign of the test' % nm, (Or(And(w > 0, gw > 0), And(w <= 0, gw <= 0)),), eqb(gw > 0, w > 0)))
        out.append(('%s edge: the crossing point is not left of both ends' % nm, (t >= 0, t <= 1, lx >= l, hx >= l), X >= l))
        out.append(('%s edge: the crossing point is not right of both ends' % nm, (t >= 0, t <= 1, lx <= m, hx <= m), X <= m))
        dl, dh = (lx - ox) * (lx - ox) + (lo - oy) * (lo - oy), (hx - ox) * (hx - ox) + (hi - oy) * (hi - oy)
        ab = (hx - lx) * (hx - lx) + (hi - lo) * (hi - lo); X2 = (X - ox) * (X - ox) + (lo + t * h - oy) * (lo + t * h - oy)
        out.append(('%s edge: distance of the crossing point' % nm, (), eq(X2, (1 - t) * dl + t * dh - t * (1 - t) * ab)))
        D1, D2, AB = var('$D1'), var('$D2'), var('$AB')
        out.append(('%s edge: the crossing point is in the disc' % nm, (t >= 0, t <= 1, D1 <= q, D2 <= q, AB >= 0), (1 - t) * D1 + t * D2 - t * (1 - t) * AB <= q))
    X = var('$X'); k2 = var('$k2')
    out.append(('left of the centre: a crossing point further left is further out', (X < x, x <= ox, (x - ox) * (x - ox) + k2 > q), (X - ox) * (X - ox) + k2 > q))
    out.append(('right of the centre: a crossing point not further left is further out', (X >= x, x > ox, (x - ox) * (x - ox) + k2 > q), (X - ox) * (X - ox) + k2 > q))
    # parity of a closed polygon: every straddling edge crossed
    U = lambda v: ind(v >= py, 'I'); s_ = var('$s', 'I'); k = var('$k', 'I'); c_ = bvar('$cr')
    u0, u1, un = (var('$u%s' % z, 'I') for z in '01n'); bit = lambda z: (z >= 0, z <= 1)
    toggle = lambda c, s: ite(c, 1 - s, s)
    out.append(('no edge crossed: the count keeps its start', (Not(c_), eq(s_, I(0))), eq(toggle(c_, s_), I(0))))
    out.append(('all straddling edges crossed: first edge', bit(u0) + bit(un), eq(toggle(ne(un, u0), I(0)), xor(u0, un))))
    out.append(('all straddling edges crossed: next edge', bit(u0) + bit(u1) + bit(un) + (eq(s_, xor(u0, un)),), eq(toggle(ne(u0, u1), s_), xor(u1, un))))
    out.append(('all straddling edges crossed: back at the start', bit(un), eq(xor(un, un), I(0))))
    return ('the quick rejection never changes the answer', out, [Or(Not(rej), eq(parity, I(0)))])


def eqb(a, b): return Or(And(a, b), And(Not(a), Not(b)))


def contour(chk):
    probe_all(chk)
    m = chk.extract(['libvvhd/src/TBody.cpp'], noinline=['push_back'])
    u = chk.unit(m); n = var('n', 'I'); T, S = single_body(u, n); x, y = var('px'), var('py'); st = u.decl['S'].stride
    cx, cy = S('corner.x'), S('corner.y'); pv = lambda f, k: ite(eq(k, I(0)), f(n - 1), f(k - 1))
    def par(k, s): return [ite(crossed(x, y, pv(cx, k), pv(cy, k), cx(k), cy(k)), 1 - s[0], s[0])]
    start = ite(T('_area') <= 0, I(1), I(0))
    parity = Fold1(n, [start], par)[0]
    def near(k, s):
        dx, dy = S('r.x')(k) - x, S('r.y')(k) - y; d = dx * dx + dy * dy; c = d < s[0]
        return [ite(c, d, s[0]), ite(c, k, s[1]), ite(c, I(0), s[2])]
    d, i, z = Fold1(n, [DMAX, I(0), I(1)], near)
    ex, ey = x - T('_cofm.x'), y - T('_cofm.y')
    out = Or(x < T('_min_rect_bl.x'), y < T('_min_rect_bl.y'), x > T('_min_rect_tr.x'), y > T('_min_rect_tr.y'), ex * ex + ey * ey > T('_min_disc_r2'))
    rej = And(T('_area') > 0, out)
    hit = lambda no: pite(Or(no, ne(z, I(0))), NULL, ptr('S', (), i * st))
    chk.case('inside test and nearest segment', u, r'^TBody::isPointInvalid\(', [ptr('T'), x, y], [n >= 1], {}, ret=hit(Or(rej, eq(parity, I(0)))), native={'ret': 'ptr'})
    # with extents that contain every corner (C02) the quick rejection is invisible
    b = mk('var', '$b4', sort='I'); k = I(b); fx, fy = cx(k) - T('_cofm.x'), cy(k) - T('_cofm.y')
    bound = ball(b, I(0), n, And(cx(k) >= T('_min_rect_bl.x'), cx(k) <= T('_min_rect_tr.x'), cy(k) >= T('_min_rect_bl.y'), cy(k) <= T('_min_rect_tr.y'), fx * fx + fy * fy <= T('_min_disc_r2')))
    lem = quick_lemma(n, cx, cy, x, y, None, None, None, None, start, parity, rej, bound)
    chk.case('the answer is the even-odd rule alone', u, r'^TBody::isPointInvalid\(', [ptr('T'), x, y], [n >= 1, bound], {}, ret=hit(eq(parity, I(0))), lemmas=[lem], samples=0)


WRAP = '''
#include "TSpace.hpp"
extern "C" bool vvw_in_any(Space* s, double x, double y) { return s->point_is_in_body(TVec(x, y)); }
'''


def anybody(chk):
    from .world import probe_world, SPACE, bodies
    probe_world(chk); f = chk.wrapfile(WRAP)
    m = chk.extract([f]); u = chk.unit(m); u.region('SP', 'Space', SPACE); nb, na = bodies(u); x, y = var('px'), var('py')
    ins = lambda b: bvar('inside', b)
    def h(E, st, a, i):
        E.obl.append(('the point asked about', st.facts, And(eq(a[1], x), eq(a[2], y)))); b = a[0].args[1][0]
        return pite(ins(b), ptr('A', (b,)), NULL)
    u.contracts = [(r'^TBody::isPointInvalid\(', h)]
    F = FoldOr(nb, ins); v = mk('var', '$ab', sort='I'); j = I(v); f = var('$f', 'I'); g = bvar('$in'); nxt = ite(g, I(1), f); al = bvar('$none')
    # by induction over the bodies: the fold is 0 or 1, and 0 exactly if no body so far contains the point
    lem = ('some body contains the point', [('0 or 1', (f >= 0, f <= 1), And(nxt >= 0, nxt <= 1)),
        ('zero stays zero exactly without a hit', (f >= 0, f <= 1, eqb(eq(f, I(0)), al)), eqb(eq(nxt, I(0)), And(al, Not(g))))],
        [ball(v, I(0), nb, Or(Not(ins(j)), F)), Or(Not(F), Not(ball(v, I(0), nb, Not(ins(j)))))])
    chk.case('a point is in the flow exactly if it is inside no body', u, 'vvw_in_any', [ptr('SP'), x, y], [nb >= 0], {}, ret=F, samples=0, lemmas=[lem], merge=False)


def exact_inside(c, p):
    """even-odd rule over the rationals; None on the contour"""
    n = len(c); res = False
    for i in range(n):
        (ax, ay), (bx, by) = c[i], c[(i + 1) % n]
        D = (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
        if D == 0 and min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by): return None
        # ray to the right, an end exactly at the height counts as above
        if (ay >= p[1]) != (by >= p[1]):
            if (D > 0) == (by > ay): res = not res
    return res


def area2(c): return sum((c[i][1] + c[(i + 1) % len(c)][1]) * (c[(i + 1) % len(c)][0] - c[i][0]) for i in range(len(c)))


def shape(r):
    """corners on a coarse dyadic grid: exact arithmetic in doubles"""
    n = r.choice([3, 3, 4, 5, 6, 8, 12]); kind = r.choice(['grid', 'comb', 'star', 'free'])
    if kind == 'comb':
        pts = [(0, 0)]
        for i in range(n // 2): pts += [(4 * i + 1, r.randint(3, 9)), (4 * i + 3, r.randint(0, 2) + 1)]
        pts.append((4 * (n // 2) + 2, 0))
    elif kind == 'grid': pts = [(r.randint(-6, 6), r.randint(-6, 6)) for _ in range(n)]
    else:
        a0 = r.uniform(0, 6.28); pts = [(round(8 * (0.4 if kind == 'star' and i % 2 else 1) * math.cos(a0 - 6.2831853 * i / n)), round(8 * (0.4 if kind == 'star' and i % 2 else 1) * math.sin(a0 - 6.2831853 * i / n))) for i in range(n)]
        if kind == 'free': pts = [(x + r.randint(-8, 8) / 16, y + r.randint(-8, 8) / 16) for x, y in pts]
    ox, oy = r.choice([(0, 0), (0, 0), (3, -5), (1000, 256), (-64, 0.5)])
    pts = [(float(x + ox), float(y + oy)) for x, y in pts]
    if r.random() < .3: pts = pts[::-1]
    q = [p for i, p in enumerate(pts) if p != pts[i - 1]]
    return q if len(q) >= 3 else [(0., 0.), (0., 2.), (2., 0.)]


def points(lib, rnd, chk, progress):
    done = 0
    for t in range(chk.n(400, 4000)):
        seed = rnd.randrange(1 << 30); r = random.Random(seed); sp = Space(lib); progress('points seed %d' % seed)
        bs = []
        for b in range(r.choice([1, 1, 2, 3])):
            c = shape(r); sp.body(c, [0] * len(c)); bs.append([(Fr(x), Fr(y)) for x, y in c])
        for _ in range(25):
            any_ = False; skip = False
            c = r.choice(bs); xs = [float(q[0]) for q in c]; ys = [float(q[1]) for q in c]; w = max(xs) - min(xs) + 1; h = max(ys) - min(ys) + 1
            p = (r.choice([r.choice(xs), r.choice(xs) + r.choice([-1, 1, .25, -.5]), min(xs) - r.randint(0, 8) / 8, max(xs) + r.randint(0, 8) / 8, round(r.uniform(min(xs) - w / 4, max(xs) + w / 4) * 16) / 16]),
                 r.choice([r.choice(ys), r.choice(ys), (r.choice(ys) + r.choice(ys)) / 2, max(ys) + r.randint(0, 4) / 8, round(r.uniform(min(ys) - h / 4, max(ys) + h / 4) * 16) / 16]))
            P = (Fr(p[0]), Fr(p[1]))
            for b, cc in enumerate(bs):
                e = exact_inside(cc, P); A = area2(cc)
                if e is None: skip = True; continue
                want = e != (A <= 0); any_ |= want; got = lib.sp_invalid(sp.p, b, p[0], p[1]); done += 1
                if (got >= 0) != want: fail('point %r is %s body %r (area %s), the code says %s (seed %d)' % (p, 'inside' if want else 'outside', [(float(x), float(y)) for x, y in cc], float(A / 2), got >= 0, seed))
                if want:
                    ce = [((a[0] + d[0]) / 2 - P[0], (a[1] + d[1]) / 2 - P[1]) for a, d in zip(cc, cc[1:] + cc[:1])]; ds = [u * u + v * v for u, v in ce]
                    if ds[got] != min(ds): fail('point %r in body %r: segment %d reported, nearest is %d (seed %d)' % (p, [(float(x), float(y)) for x, y in cc], got, ds.index(min(ds)), seed))
            if not skip and bool(lib.sp_inbody(sp.p, p[0], p[1])) != any_: fail('point %r is %s a body, point_is_in_body says otherwise: bodies %r (seed %d)' % (p, 'in' if any_ else 'in no', [[(float(x), float(y)) for x, y in c] for c in bs], seed))
        sp.free()
    return done
