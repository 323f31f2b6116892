"""Executable specification of the tree-based flow kernels: velocity, diffusion, smoothing, merging, linear system.
Written from the documentation's formulas; the tree (nodes, near/far lists, mass centres) is read from the real object and
checked separately (C07)."""
import math, ctypes as C, random
from ctypes import c_double as D, c_int as I_, c_long as L_, c_void_p as V
from vv.space import *
from .model import *

P2 = 2 * math.pi


def tproto(lib):
    def p(n, r, *a):
        f = getattr(lib, n); f.restype = r; f.argtypes = list(a)
    DP = C.POINTER(D)
    p('tr_new', V, V, I_, D, D); p('tr_build', None, V, I_, I_, I_); p('tr_destroy', None, V); p('tr_del', None, V); p('tr_dump', DP, V, V, C.POINTER(L_)); p('tr_find', I_, V, D, D)
    p('cv_new', V, V, V); p('cv_del', None, V); p('cv_velocity', None, V, D, D, DP); p('cv_process', None, V); p('cv_calc', I_, V, V, I_)
    p('df_vort', None, V, V); p('df_heat', None, V, V); p('ep_calc', I_, V, V, I_); p('ep_eps2h', D, V, D, D); p('ep_h2', D, V, D, D)
    p('la_mode', None, I_); p('la_get', I_, C.POINTER(DP), C.POINTER(DP), C.POINTER(I_))


class Node: pass


class Tree:
    def __init__(self, sp, far=8, mn=0., mx=1e300, flags=(1, 1, 1)):
        tproto(sp.lib); self.sp = sp; self.lib = sp.lib; self.far = far; self.mn = mn; self.mx = mx; self.flags = flags
        self.t = sp.lib.tr_new(sp.p, far, mn, mx); self.build()
    def build(self): self.lib.tr_build(self.t, *self.flags); self.dump()
    def free(self): self.lib.tr_del(self.t)
    def dump(self):
        n = L_(); p = self.lib.tr_dump(self.sp.p, self.t, C.byref(n)); a = p[:n.value]; k = 0
        def nxt(c):
            nonlocal k
            k += c; return a[k - c:k]
        self.nodes = []
        for i in range(int(nxt(1)[0])):
            N = Node(); h = nxt(14); N.id = i; N.x, N.y, N.w, N.h = h[:4]; N.cmp = h[4:8]; N.cmm = h[8:12]; N.ch = (int(h[12]), int(h[13]))
            N.v, N.hr, N.s = [tuple(map(int, nxt(2))) for _ in range(3)]
            N.bl = [(int(x) // 100000, int(x) % 100000) if x >= 0 else None for x in nxt(int(nxt(1)[0]))]; N.bottom = int(nxt(1)[0])
            ls = []
            for _ in range(2):
                c = int(nxt(1)[0]); ls.append(None if c < 0 else [int(x) for x in nxt(c)])
            N.near, N.fars = ls; self.nodes.append(N)
        self.bottom = [int(x) for x in nxt(int(nxt(1)[0]))]
    def find(self, x, y): return self.lib.tr_find(self.t, x, y)


def random_flow(lib, r, eps=1e-10, nv=None, nbodies=None, spread=None, **kw):
    """random_space plus a particle cloud with enough spread for several tree levels"""
    sp = random_space(lib, r, eps=eps, nv=0, nbodies=nbodies, **kw)
    n = nv if nv is not None else r.choice([0, 1, 2, 5, 20, 60, 120])
    cl = [(r.uniform(-6, 12), r.uniform(-4, 4), r.choice([0.2, 1, 3])) for _ in range(r.choice([1, 2, 4]))]
    for k, m in ((VORT, n), (HEAT, r.choice([0, n // 2, n])), (STREAK, r.choice([0, n // 3]))):
        sgn = r.choice([None, None, 1, -1]) if k != HEAT else 1
        last = None
        for _ in range(m):
            c = r.choice(cl); x, y = r.gauss(c[0], c[2]), r.gauss(c[1], c[2])
            if last and r.random() < 0.06: x, y = last
            last = (x, y)
            g = r.choice([0, r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(0.2, 1)])
            if sgn and r.random() < 0.9: g = sgn * abs(g)
            sp.push(k, x, y, g, r.uniform(-1, 1), r.uniform(-1, 1), 1 / r.choice([0.05, 0.1, 0.3, 0.7, 1.5]))
    return sp


def segs(s, b): return s['bodies'][b]['a']


# ---------------------------------------------------------------- velocity
def bs(o, p):
    """velocity times 2 pi of a smoothed vortex o=(x,y,g,eps1)"""
    dx, dy = p[0] - o[0], p[1] - o[1]
    e2 = 0. if o[3] == INF else (INF if o[3] == 0 else 1 / (o[3] * o[3]))
    if o[2] == 0: return 0., 0.
    k = o[2] / (dx * dx + dy * dy + e2); return -dy * k, dx * k


def near_vel(T, s, N, p):
    vx = vy = 0.
    for m in N.near:
        M = T.nodes[m]
        for i in range(*M.v):
            o = s['lists'][VORT][i]
            if o[2] == 0: continue
            a, b = bs((o[0], o[1], o[2], o[5]), p); vx += a; vy += b
    return vx / P2, vy / P2


def far_vel(T, N, p):
    vx = vy = 0.
    for m in N.fars:
        for c in (T.nodes[m].cmp, T.nodes[m].cmm):
            if c[2] == 0: continue
            a, b = bs((c[0], c[1], c[2], INF), p); vx += a; vy += b
    return vx / P2, vy / P2


def far_taylor(T, N, p):
    """first-order expansion about the node centre of the unsmoothed far vortices"""
    vx = vy = a = b = 0.
    for m in N.fars:
        for c in (T.nodes[m].cmp, T.nodes[m].cmm):
            if c[2] == 0: continue
            dx, dy = N.x - c[0], N.y - c[1]; r2 = dx * dx + dy * dy; k = c[2] / P2
            vx += -k * dy / r2; vy += k * dx / r2
            # d(-dy/r2)/dx = 2 dx dy / r4 ; d(-dy/r2)/dy = (dy^2-dx^2)/r4
            a += k * 2 * dx * dy / r2 ** 2; b += k * (dy * dy - dx * dx) / r2 ** 2
    ex, ey = p[0] - N.x, p[1] - N.y
    return vx + a * ex + b * ey, vy + b * ex - a * ey


def sink_vel(s, p):
    dt = s['times'][DT][0] / s['times'][DT][1]; vx = vy = 0.
    for o in s['lists'][SINK]:
        dx, dy = p[0] - o[0], p[1] - o[1]
        if o[2] == 0: continue
        k = o[2] / (dx * dx + dy * dy + dt / math.pi * abs(o[2])); vx += dx * k; vy += dy * k
    return vx / P2, vy / P2


def linsrc(p, c, dl, q1, q2):
    """velocity*2pi of a straight segment (centre c) with source density varying linearly from q1 to q2 per length |dl|"""
    z = complex(*p); zc = complex(*c); dz = complex(*dl); z1 = z - (zc - dz / 2); z2 = z - (zc + dz / 2); w1, w2 = z1.conjugate(), z2.conjugate()
    import cmath
    v = ((q1 - q2) - (q2 * w1 - q1 * w2) / dz.conjugate() * cmath.log(w2 / w1)) / dz.conjugate()
    L = abs(dz); u = -(z1 / dz).imag; e = max(0, abs((z1 / dz).real - 0.5) - 0.5); d = math.hypot(u, e)
    if d > 0.2:    # the closed form must be the integral of its definition
        n = 40; q = 0
        for k in range(n):
            for x in (-0.774596669241483377, 0, 0.774596669241483377):
                t = (k + 0.5 + x / 2) / n; q += (5 / 9 if x else 8 / 9) / 2 / n * (q1 + t * (q2 - q1)) / (z1 - t * dz)
        assert abs(q.conjugate() - v) < 1e-6 * (abs(v) + (abs(q1) + abs(q2)) / L), 'model of the linear segment'
    return v


def body_vel(s, p):
    vx = vy = 0.
    for b in s['bodies']:
        B = Bd(b); S = B.v3('speed_slae'); ax = B.axis()
        for a in B.a:
            if a['slip']:
                q = bs((a['r.x'], a['r.y'], a['g'], a['_1_eps']), p); vx += q[0]; vy += q[1]
        if S == [0, 0, 0]: continue
        for a in B.a:
            def gq(cx, cy):
                ux, uy = S[0] - S[2] * (cy - ax[1]), S[1] + S[2] * (cx - ax[0])
                return -(ux * a['dl.x'] + uy * a['dl.y']), -(-uy * a['dl.x'] + ux * a['dl.y'])
            dx, dy = p[0] - a['r.x'], p[1] - a['r.y']; d2 = dx * dx + dy * dy; l2 = a['dl.x'] ** 2 + a['dl.y'] ** 2
            if abs(d2 - l2) < 1e-9 * l2: raise Ambiguous('sheet distance')
            if d2 < l2:
                if edge_dist(p, (a['corner.x'], a['corner.y']), (a['corner.x'] + a['dl.x'], a['corner.y'] + a['dl.y'])) < 1e-6 * math.sqrt(l2): raise Ambiguous('on the sheet')
                g1, q1 = gq(a['corner.x'], a['corner.y']); g2, q2 = gq(a['corner.x'] + a['dl.x'], a['corner.y'] + a['dl.y'])
                w = linsrc(p, (a['r.x'], a['r.y']), (a['dl.x'], a['dl.y']), g1, g2); vx += -w.imag; vy += w.real
                w = linsrc(p, (a['r.x'], a['r.y']), (a['dl.x'], a['dl.y']), q1, q2); vx += w.real; vy += w.imag
            else:
                g, q = gq(a['r.x'], a['r.y']); vx += (dx * q - dy * g) / d2; vy += (dy * q + dx * g) / d2
    return vx / P2, vy / P2


def add(*vs): return sum(v[0] for v in vs), sum(v[1] for v in vs)


def velocity(T, s, p, infv, taylor=False, N=None):
    if N is None: N = T.nodes[T.find(*p)]
    return add(near_vel(T, s, N, p), far_taylor(T, N, p) if taylor else far_vel(T, N, p), sink_vel(s, p), body_vel(s, p), infv)


# ---------------------------------------------------------------- linear system
def xi(p, p1, p2, rd, code=True):
    """(Xi_gamma, Xi_q)*2pi of a unit vortex/source at p smoothed inside radius rd, over the segment p1->p2"""
    def near(a, b): cx, cy = (a[0] + b[0]) / 2 - p[0], (a[1] + b[1]) / 2 - p[1]; dx, dy = b[0] - a[0], b[1] - a[1]; return (cx * dx + cy * dy) / rd ** 2, (-cx * dy + cy * dx) / rd ** 2
    def dist(a, b):
        ax, ay, bx, by = a[0] - p[0], a[1] - p[1], b[0] - p[0], b[1] - p[1]
        return 0.5 * math.log((bx * bx + by * by) / (ax * ax + ay * ay)), math.atan2(-(ax * by - ay * bx), ax * bx + ay * by)
    d1 = (p[0] - p1[0]) ** 2 + (p[1] - p1[1]) ** 2; d2 = (p[0] - p2[0]) ** 2 + (p[1] - p2[1]) ** 2; R = rd * rd
    for d in (d1, d2):
        if R > 0 and abs(d - R) < 1e-9 * R: raise Ambiguous('smoothing radius')
    i1, i2 = d1 < R, d2 < R
    if not i1 and not i2:
        q = dist(p1, p2)
        if abs(abs(q[1]) - math.pi) < 1e-6: raise Ambiguous('on the segment line')
        return q
    if i1 and i2: return near(p1, p2)
    # crossing point of the segment with the circle
    dx, dy = p2[0] - p1[0], p2[1] - p1[1]; A = dx * dx + dy * dy; Bq = (p1[0] - p[0]) * dx + (p1[1] - p[1]) * dy; Cq = d1 - R
    t = (-Bq + math.sqrt(Bq * Bq - A * Cq)) / A if i1 else (-Bq - math.sqrt(Bq * Bq - A * Cq)) / A
    p3 = (p1[0] + t * dx, p1[1] + t * dy)
    a, b = (near(p1, p3), dist(p3, p2)) if i1 else (dist(p1, p3), near(p3, p2))
    return a[0] + b[0], a[1] + b[1]


def ends(a): return (a['corner.x'], a['corner.y']), (a['corner.x'] + a['dl.x'], a['corner.y'] + a['dl.y'])


ROWK = ['speed_slae.x', 'speed_slae.y', 'speed_slae.o', 'force_hydro.x', 'force_hydro.y', 'force_hydro.o', 'force_holder.x', 'force_holder.y', 'force_holder.o']


def system(T, s, speeds, infv, force_o, coll):
    """expected equations: list of (name, {unknown: coeff or set of allowed}, rhs, scale); and the collision code afterwards.
    unknown = (body, 'g', i) or (body, ROWK name)"""
    dt = s['times'][DT][0] / s['times'][DT][1]; t = s['times'][TIME][0] / s['times'][TIME][1]
    B = [Bd(b) for b in s['bodies']]; rows = []; once = False; g = s['scal']
    for ib, b in enumerate(B):
        f = b.f; A = b.q['area']; cof = (b.q['cofm.x'], b.q['cofm.y']); ax = b.axis(); rc = (cof[0] - ax[0], cof[1] - ax[1]); J = b.q['moi_cofm'] + (rc[0] ** 2 + rc[1] ** 2) * A
        rho = f['density']; pv = b.v3('speed_slae_prev')
        for i, a in enumerate(b.a):
            p1, p2 = ends(a)
            if i != int(f['special_segment_no']):
                R = -infv[1] * a['dl.x'] + infv[0] * a['dl.y']; u = sink_vel(s, (a['r.x'], a['r.y'])); R += -u[1] * a['dl.x'] + u[0] * a['dl.y']
                N = T.nodes[T.find(a['r.x'], a['r.y'])]; acc = 0.; mg = 0.
                for m in N.near:
                    for k in range(*T.nodes[m].v):
                        o = s['lists'][VORT][k]
                        if o[2] == 0: continue
                        x = xi((o[0], o[1]), p1, p2, 1 / o[5])[0] * o[2]; acc += x; mg += abs(x)
                for m in N.fars:
                    for c in (T.nodes[m].cmp, T.nodes[m].cmm):
                        if c[2] == 0: continue
                        acc += xi((c[0], c[1]), p1, p2, 0)[0] * c[2]
                R -= acc / P2; co = {}
                for jb, o in enumerate(B):
                    w = 0.
                    for j, q in enumerate(o.a):
                        ql = math.hypot(q['dl.x'], q['dl.y'])
                        c = (q['corner.x'], q['corner.y'])
                        co[(jb, 'g', j)] = xi(c, p1, p2, ql / 4)[0] / P2
                        r0 = (q['r.x'], q['r.y'])
                        if jb == ib and i == j: r0 = (a['r.x'] - a['dl.y'] * 0.001, a['r.y'] + a['dl.x'] * 0.001)
                        X = xi(r0, p1, p2, ql / 4)
                        oa = o.axis(); rx, ry = q['r.x'] - oa[0], q['r.y'] - oa[1]
                        w -= X[0] * (-ry * q['dl.x'] + rx * q['dl.y']) - X[1] * (q['dl.x'] * rx + q['dl.y'] * ry)
                    co[(jb, 'speed_slae.x')] = a['dl.y'] if jb == ib else 0.
                    co[(jb, 'speed_slae.y')] = -a['dl.x'] if jb == ib else 0.
                    still = isrigid(o.f['kspring.o']) and speeds[jb][2] == 0 and o.root < 0
                    co[(jb, 'speed_slae.o')] = (0., w / P2) if still else w / P2       # multiplies an angular speed that is zero anyway
                rows.append(('flow through segment %d of body %d' % (i, ib), co, R, mg))
            elif f['boundary_condition'] == 1: rows.append(('Kutta condition of body %d' % ib, {(ib, 'g', i): 1.}, 0., 0))
            elif not once:
                once = True; co = {}
                for jb, o in enumerate(B):
                    for j in range(len(o.a)): co[(jb, 'g', j)] = 1.
                    co[(jb, 'speed_slae.o')] = 2 * o.q['area']
                rows.append(('total circulation', co, -sum(o[2] for o in s['lists'][VORT]) - g['inf_g'], 1))
            else:
                co = {(ib, 'g', j): 1. for j in range(len(b.a))}; co[(ib, 'speed_slae.o')] = 2 * A
                rows.append(('steady circulation of body %d' % ib, co, f['g_dead'] + 2 * A * pv[2], 1))
        root = b.root
        for k, c in enumerate('xyo'):
            if isrigid(f['kspring.' + c]) or not t > 0:
                co = {(ib, 'speed_slae.' + c): 1.}
                if root >= 0:
                    Ra = B[root].axis(); co[(root, 'speed_slae.' + c)] = -1.
                    if k < 2: co[(root, 'speed_slae.o')] = (ax[1] - Ra[1]) if k == 0 else -(ax[0] - Ra[0])
                rows.append(('prescribed speed %s of body %d' % (c, ib), co, speeds[ib][k], 1))
            elif coll == ib * 6 + k:
                rows.append(('stop %s of body %d' % (c, ib), {(ib, 'speed_slae.' + c): 1.}, 0., 1)); coll = ('next', ib * 6 + 3 + k)
            else:
                R = f['kspring.' + c] * f['dpos.' + c] + (force_o[ib] if k == 2 else 0)
                if coll == ib * 6 + 3 + k: R += (1 + f['bounce']) * f['force_holder.' + c]; coll = -1
                rows.append(('spring %s of body %d' % (c, ib), {(ib, 'speed_slae.' + c): -f['damping.' + c], (ib, 'force_holder.' + c): 1.}, R, 1))
        # fluid impulse per unit time: d/dt of (impulse) + convective terms
        fr = b.v3('friction_prev'); dd = b.v3('fdt_dead')
        co = {(ib, 'g', j): -q['corner.y'] / dt for j, q in enumerate(b.a)}
        co.update({(ib, 'speed_slae.x'): A / dt, (ib, 'speed_slae.o'): A / dt * (-2 * cof[1] - rc[1]), (ib, 'force_hydro.x'): -1.})
        rows.append(('fluid force x of body %d' % ib, co, A / dt * pv[0] - A / dt * (2 * cof[1] + rc[1]) * pv[2] + pv[2] ** 2 * A * rc[0] - fr[0] + dd[0] / dt, 1))
        co = {(ib, 'g', j): q['corner.x'] / dt for j, q in enumerate(b.a)}
        co.update({(ib, 'speed_slae.y'): A / dt, (ib, 'speed_slae.o'): A / dt * (2 * cof[0] + rc[0]), (ib, 'force_hydro.y'): -1.})
        rows.append(('fluid force y of body %d' % ib, co, A / dt * pv[1] + A / dt * (2 * cof[0] + rc[0]) * pv[2] + pv[2] ** 2 * A * rc[1] - fr[1] + dd[1] / dt, 1))
        co = {(ib, 'g', j): ((q['corner.x'] - ax[0]) ** 2 + (q['corner.y'] - ax[1]) ** 2) / (2 * dt) for j, q in enumerate(b.a)}
        co.update({(ib, 'speed_slae.x'): -A / dt * rc[1], (ib, 'speed_slae.y'): A / dt * rc[0], (ib, 'speed_slae.o'): 2 * J / dt, (ib, 'force_hydro.o'): -1.})
        rows.append(('fluid torque of body %d' % ib, co, A / dt * (-rc[1] * pv[0] + rc[0] * pv[1]) + 2 * J / dt * pv[2] - fr[2] + dd[2] / (2 * dt), 1))
        m = A * rho / dt; gx, gy = g['gravity.x'], g['gravity.y']; kids = [j for j, o in enumerate(B) if o.root == ib]
        co = {(ib, 'speed_slae.x'): -m, (ib, 'speed_slae.o'): m * rc[1], (ib, 'force_hydro.x'): 1., (ib, 'force_holder.x'): -1.}
        for j in kids: co[(j, 'force_holder.x')] = 1.
        rows.append(('momentum x of body %d' % ib, co, -m * pv[0] + m * rc[1] * pv[2] - A * rho * rc[0] * pv[2] ** 2 - (rho - 1) * gx * A, 1))
        co = {(ib, 'speed_slae.y'): -m, (ib, 'speed_slae.o'): -m * rc[0], (ib, 'force_hydro.y'): 1., (ib, 'force_holder.y'): -1.}
        for j in kids: co[(j, 'force_holder.y')] = 1.
        rows.append(('momentum y of body %d' % ib, co, -m * pv[1] - m * rc[0] * pv[2] - A * rho * rc[1] * pv[2] ** 2 - (rho - 1) * gy * A, 1))
        co = {(ib, 'speed_slae.x'): m * rc[1], (ib, 'speed_slae.y'): -m * rc[0], (ib, 'speed_slae.o'): -J * rho / dt, (ib, 'force_hydro.o'): 1., (ib, 'force_holder.o'): -1.}
        for j in kids:
            ja = B[j].axis(); co[(j, 'force_holder.x')] = -(ja[1] - ax[1]); co[(j, 'force_holder.y')] = ja[0] - ax[0]; co[(j, 'force_holder.o')] = 1.
        rows.append(('angular momentum of body %d' % ib, co, m * (rc[1] * pv[0] - rc[0] * pv[1]) - J * rho / dt * pv[2] - (rho - 1) * (-rc[1] * gx + rc[0] * gy) * A, 1))
    if isinstance(coll, tuple): coll = coll[1]
    return rows, coll


def unknowns(s):
    out = []
    for ib, b in enumerate(s['bodies']):
        out += [(ib, 'g', i) for i in range(len(b['a']))] + [(ib, k) for k in ROWK]
    return out


def val(s, u): return s['bodies'][u[0]]['a'][u[2]]['g'] if u[1] == 'g' else s['bodies'][u[0]]['f'][u[1]]


def recorded(lib):
    a = C.POINTER(D)(); b = C.POINTER(D)(); cnt = (I_ * 5)(); N = lib.la_get(C.byref(a), C.byref(b), cnt)
    A = a[:cnt[3]] if cnt[3] else []; R = b[:cnt[4]] if cnt[4] else []
    return N, A, R, tuple(cnt[:3])


def close1(a, b, sc=1.0, tol=1e-8): return a == b or abs(a - b) <= tol * max(abs(a), abs(b), sc)


def rowdiff(e, arow, rhs, col):
    """None if the assembled row is equation e"""
    name, co, R, sc = e
    for u, c in col.items():
        x = co.get(u, 0.); y = arow[c]
        if isinstance(x, tuple):
            if not any(close1(q, y) for q in x): return 'coefficient of %s is %r, expected %r' % (u, y, x)
        elif not close1(x, y): return 'coefficient of %s is %r, expected %r' % (u, y, x)
    if rhs is not None and not close1(R, rhs, max(1., sc)): return 'right-hand side is %r, expected %r' % (rhs, R)
    return None


def check_system(exp, N, A, R, col):
    """assembled system against the expected equations; order is free only if the equations match one to one"""
    if N != len(exp): return '%d equations assembled, expected %d' % (N, len(exp))
    bad = []
    for i, e in enumerate(exp):
        d = rowdiff(e, A[i * N:(i + 1) * N], R[i], col)
        if d: bad.append((i, e[0], d))
    if not bad: return None
    idx = [i for i, _, _ in bad]; used = set()
    for i, nm, d in bad:
        for j in idx:
            if j not in used and rowdiff(exp[i], A[j * N:(j + 1) * N], R[j], col) is None: used.add(j); break
        else: return 'equation "%s": %s' % (nm, d)
    return None


# ---------------------------------------------------------------- diffusion
def sgn(x): return (x > 0) - (x < 0)


def guard8(e):
    if abs(e + 8) < 1e-9: raise Ambiguous('cut-off radius')


def diffusion(T, s, kind):
    """expected (velocity increments by list index, friction increments by (body,seg))"""
    re, pr = s['scal']['re'], s['scal']['pr']; L = s['lists'][kind]; dv = {}; fr = {}
    for nb in T.bottom:
        N = T.nodes[nb]
        for i in range(*(N.v if kind == VORT else N.hr)):
            o = L[i]
            if o[2] == 0: continue
            e1 = o[5]; S2 = [0., 0.]; S1 = 0.; S3 = [0., 0.]; S0 = 0.
            for m in N.near:
                M = T.nodes[m]
                for j in range(*(M.v if kind == VORT else M.hr)):
                    q = L[j]
                    if q[2] == 0 or sgn(q[2]) != sgn(o[2]): continue
                    dx, dy = o[0] - q[0], o[1] - q[1]; d = math.hypot(dx, dy)
                    if d == 0: continue
                    a = -d * e1; guard8(a)
                    if a < -8: continue
                    w = q[2] * math.exp(a); S2[0] += dx * w / d; S2[1] += dy * w / d; S1 += w
                for (b, k) in M.bl:
                    t = segs(s, b)[k]; dx, dy = o[0] - t['r.x'], o[1] - t['r.y']; d = math.hypot(dx, dy); a = -d * e1; guard8(a)
                    if a < -8: continue
                    if d == 0: raise Ambiguous('on the wall')
                    w = math.exp(a); n = (-t['dl.y'], t['dl.x'])
                    S3[0] += n[0] * w; S3[1] += n[1] * w; S0 += (d * e1 + 1) / d ** 2 * (dx * n[0] + dy * n[1]) * w
                    if kind == VORT: fr[(b, k)] = fr.get((b, k), 0.) + e1 * e1 * o[2] * w * math.hypot(*n)
            if S1 and abs(abs(S1) - abs(0.1 * o[2])) < 1e-9 * abs(o[2]): raise Ambiguous('tenth')
            if sgn(S1) != sgn(o[2]) or abs(S1) < abs(0.1 * o[2]): S1 = 0.1 * o[2]
            if kind == VORT:
                if S0 > math.pi: S0 = math.pi
                k1, k3 = e1 / (re * S1), e1 * e1 / (re * (P2 - S0)); dv[i] = (k1 * S2[0] + k3 * S3[0], k1 * S2[1] + k3 * S3[1])
            else:
                den = S1 + S0 / e1 ** 2
                if abs(den) < 1e-6 * (abs(S1) + abs(S0) / e1 ** 2): raise Ambiguous('denominator')
                dv[i] = tuple((e1 * S2[c] + S3[c]) / den / (pr * re) for c in (0, 1))
    return dv, fr


# ---------------------------------------------------------------- smoothing and merging
def wall(T, s, N):
    """segments the wall restriction may use: nearest of the near nodes; without any, every segment of every body is admissible (the code samples them)"""
    c = (N.x, N.y); best = []
    for m in N.near:
        for (b, k) in T.nodes[m].bl:
            t = segs(s, b)[k]; best.append(((t['r.x'] - c[0]) ** 2 + (t['r.y'] - c[1]) ** 2, b, k))
    if not best: return None
    best.sort()
    if len(best) > 1 and best[1][0] - best[0][0] < 1e-9 * (best[0][0] + 1e-9):
        l = [math.hypot(segs(s, b)[k]['dl.x'], segs(s, b)[k]['dl.y']) for _, b, k in best[:2]]
        if abs(l[0] - l[1]) > 1e-9 * l[0]: raise Ambiguous('equidistant walls')
    return best[0]


TINY = 2.2250738585072014e-308


def smoothing(T, s, merge):
    """exact reading of the smoothing step in tree order; mutates s; returns merge count"""
    merged = 0
    for nb in T.bottom:
        N = T.nodes[nb]; W = wall(T, s, N); ln = lambda b, k: math.hypot(segs(s, b)[k]['dl.x'], segs(s, b)[k]['dl.y'])
        if W: cand = [(math.sqrt(W[0]), ln(W[1], W[2]))]
        else: cand = [(math.hypot(a['r.x'] - N.x, a['r.y'] - N.y), ln(b, k)) for b in range(len(s['bodies'])) for k, a in enumerate(segs(s, b))]
        crit = [0.16 * l * l * (1 + d) for d, l in cand] if cand else [0.]
        floor = [l / 3 for d, l in cand] if cand else [0.]
        for kind in (VORT, HEAT):
            L = s['lists'][kind]
            for i in range(*(N.v if kind == VORT else N.hr)):
                if L[i][2] == 0: continue
                def neigh():
                    o = L[i]; ds = []
                    for m in N.near:
                        for j in range(*(T.nodes[m].v if kind == VORT else T.nodes[m].hr)):
                            if j != i and L[j][2] != 0: ds.append(((o[0] - L[j][0]) ** 2 + (o[1] - L[j][1]) ** 2, j))
                    ds.sort(); return ds
                ds = neigh()
                if merge and len(ds) >= 2:
                    for q in (0, 1):
                        if q + 1 < len(ds) and ds[q + 1][0] - ds[q][0] <= 1e-9 * ds[q + 1][0] and (L[ds[q][1]][2] != L[ds[q + 1][1]][2] or L[ds[q][1]][:2] != L[ds[q + 1][1]][:2]): raise Ambiguous('equidistant neighbours')
                    if ds[0][0] == ds[1][0]: raise Ambiguous('coincident neighbours')
                    c = [ds[0][0] < x for x in crit]
                    if any(abs(ds[0][0] - x) <= 1e-9 * x and x for x in crit) or len(set(c)) > 1: raise Ambiguous('merge distance')
                    s1, s2 = sgn(L[ds[0][1]][2]), sgn(L[ds[1][1]][2])
                    if c[0] or (kind == VORT and s1 == s2 != sgn(L[i][2])):
                        j = ds[0][1]; a, b = L[i], L[j]; g = a[2] + b[2]
                        if abs(g) < 1e-9 * abs(a[2]): raise Ambiguous('annihilation')
                        if sgn(a[2]) == sgn(b[2]): x, y = (a[0] * a[2] + b[0] * b[2]) / g, (a[1] * a[2] + b[1] * b[2]) / g
                        elif abs(abs(a[2]) - abs(b[2])) < 1e-12: raise Ambiguous('equal strengths')
                        else: x, y = (a if abs(a[2]) > abs(b[2]) else b)[:2]
                        L[i] = (x, y, g) + tuple(a[3:]); L[j] = (b[0], b[1], 0.) + tuple(b[3:]); merged += 1; ds = neigh()
                e = math.sqrt(ds[1][0]) if len(ds) > 1 else math.sqrt(ds[0][0]) if ds else TINY
                f = [max(e, x) for x in floor]
                if max(f) - min(f) > 1e-9 * max(f): raise Ambiguous('wall length')
                L[i] = tuple(L[i][:5]) + (1 / f[0] if f[0] else INF,)
    return merged
