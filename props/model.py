"""Executable reading of the step specifications, used to judge executions of the real code.
Everything here is written from the property statements: plain geometry and bookkeeping."""
import math
from vv.space import *

class Ambiguous(Exception): pass          # input too close to a decision boundary to judge in floating point

NAN = float('nan'); INF = float('inf')


def poly_area(c): return sum((c[i][1] + c[(i + 1) % len(c)][1]) / 2 * (c[(i + 1) % len(c)][0] - c[i][0]) for i in range(len(c)))


def edge_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]; l2 = dx * dx + dy * dy
    t = 0 if l2 == 0 else max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def even_odd(p, c):
    """winding parity by an upward ray crossing count in x (independent formulation)"""
    ins = False; n = len(c)
    for i in range(n):
        a, b = c[i], c[(i + 1) % n]
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + (p[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0])
            if x < p[0]: ins = not ins
    return ins


def scale_of(c): return max([1e-300] + [abs(x) for q in c for x in q])


def inside(p, c, area=None, guard=1e-9):
    """is p in the solid of the contour c (area<=0: complement)"""
    n = len(c); s = scale_of(c) + abs(p[0]) + abs(p[1])
    for i in range(n):
        if guard and edge_dist(p, c[i], c[(i + 1) % n]) < guard * s: raise Ambiguous('on the contour')
        if guard and (abs(c[i][1] - p[1]) < 1e-13 * s): raise Ambiguous('at corner height')
    A = poly_area(c) if area is None else area
    if abs(A) < 1e-12 * s * s and A != 0: raise Ambiguous('area sign')
    return even_odd(p, c) != (A <= 0)


def nearest(p, rs, guard=1e-9):
    d = [(q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2 for q in rs]
    k = min(range(len(d)), key=lambda i: d[i])
    for i, x in enumerate(d):
        if i != k and abs(x - d[k]) <= guard * (abs(x) + abs(d[k])): raise Ambiguous('equidistant')
    return k


def rot(dx, dy, a): return dx * math.cos(a) - dy * math.sin(a), dx * math.sin(a) + dy * math.cos(a)


def isrigid(k): return not (k >= 0 and math.isfinite(k))


class Bd:
    def __init__(self, b):
        self.f = dict(b['f']); self.q = dict(b['q']); self.root = b['root']; self.a = [dict(a) for a in b['a']]
    def v3(self, n): return [self.f[n + '.' + c] for c in 'xyo']
    def set3(self, n, v):
        for c, x in zip('xyo', v): self.f[n + '.' + c] = x
    def axis(self): return self.f['holder.x'] + self.f['dpos.x'], self.f['holder.y'] + self.f['dpos.y']
    def corners(self): return [(a['corner.x'], a['corner.y']) for a in self.a]
    def centres(self): return [(a['r.x'], a['r.y']) for a in self.a]
    def update(self):
        n = len(self.a)
        for i in range(n):
            a, b = self.a[i], self.a[(i + 1) % n]
            a['dl.x'] = b['corner.x'] - a['corner.x']; a['dl.y'] = b['corner.y'] - a['corner.y']
            a['r.x'] = (a['corner.x'] + b['corner.x']) / 2; a['r.y'] = (a['corner.y'] + b['corner.y']) / 2
            l = math.hypot(a['dl.x'], a['dl.y']); a['_1_eps'] = 3 / l if l else INF


def move_model(s, speeds, infv, eps, remove):
    """expected state after one motion step; speeds[b] = prescribed speed now (vx,vy,o); returns (collision code, cleaned)"""
    dt = s['times'][DT][0] / s['times'][DT][1]
    B = [Bd(b) for b in s['bodies']]
    cur = dt; coll = -1
    for ib, b in enumerate(B):
        for i in range(3):
            if isrigid(b.v3('kspring')[i]): continue
            x = b.v3('holder')[i] + b.v3('dpos')[i]; v = b.v3('speed_slae')[i]; y = x + dt * v
            mx, mn = b.v3('collision_max')[i], b.v3('collision_min')[i]
            t = None
            if abs(y - mx) < 1e-12 * (abs(y) + 1) or abs(y - mn) < 1e-12 * (abs(y) + 1): raise Ambiguous('limit')
            if y > mx and v > 0: t = max(0., (mx - x) / v)        # contact only when moving outwards
            elif y < mn and v < 0: t = max(0., (mn - x) / v)
            if t is not None:
                if abs(t - cur) < 1e-12 * (abs(t) + 1): raise Ambiguous('simultaneous contact')
                if t < cur: cur = t; coll = ib * 6 + i
    s['scal']['inf_marker.x'] += infv[0] * cur; s['scal']['inf_marker.y'] += infv[1] * cur
    D = []
    for ib, b in enumerate(B):
        h = list(speeds[ib]); d = b.v3('speed_slae'); r = b.root
        if r >= 0:
            R = B[r]; w = R.v3('speed_slae'); ax = R.axis(); dx, dy = b.f['holder.x'] - ax[0], b.f['holder.y'] - ax[1]
            h = [h[0] + w[0] - dy * w[2], h[1] + w[1] + dx * w[2], h[2] + w[2]]
        h = [x * cur for x in h]; d = [x * cur for x in d]
        child = b
        while r >= 0:
            R = B[r]; ax = R.axis(); dx, dy = child.f['holder.x'] - ax[0], child.f['holder.y'] - ax[1]; a = R.f['speed_slae.o'] * cur
            cx, cy = rot(dx, dy, a); ex, ey = dx - dy * a - cx, dy + dx * a - cy     # chord minus arc
            h[0] -= ex; h[1] -= ey; d[0] -= ex; d[1] -= ey
            child = R; r = R.root
        D.append((h, d))
    for b, (h, d) in zip(B, D):
        ax = b.axis()
        for a in b.a:
            x, y = rot(a['corner.x'] - ax[0], a['corner.y'] - ax[1], d[2]); a['corner.x'] = ax[0] + d[0] + x; a['corner.y'] = ax[1] + d[1] + y
        b.set3('holder', [x + y for x, y in zip(b.v3('holder'), h)])
        b.set3('dpos', [x + y - z for x, y, z in zip(b.v3('dpos'), d, h)])
        b.set3('speed_slae_prev', b.v3('speed_slae'))
        b.update()
    for k in (VORT, HEAT, STREAK):
        s['lists'][k] = [(o[0] + o[3] * cur, o[1] + o[4] * cur, o[2], 0., 0., o[5]) for o in s['lists'][k]]
    for k in (VORT, HEAT):
        for o in s['lists'][k]:
            if o[2] != 0 and abs(abs(o[2]) - eps) < 1e-12 * eps: raise Ambiguous('strength threshold')
        s['lists'][k] = [o for o in s['lists'][k] if not abs(o[2]) < eps]
    areas = [poly_area(b.corners()) if b.a else 0 for b in B]
    # a rotated zero-area body may get any sign of rounding
    for b, A in zip(B, areas):
        if b.a and abs(A) < 1e-9 * scale_of(b.corners()) ** 2: raise Ambiguous('flat body')
    def where(p):
        for b, A in zip(B, areas):
            if not b.a: continue
            if inside(p, b.corners(), A): return b, b.a[nearest(p, b.centres())]
        return None, None
    cleaned = 0
    if remove:
        keep = []
        for o in s['lists'][VORT]:
            b, a = where(o[:2])
            if b is None: keep.append(o); continue
            ax = b.axis(); g = o[2]
            b.f['fdt_dead.x'] -= o[1] * g; b.f['fdt_dead.y'] += o[0] * g
            b.f['fdt_dead.o'] += ((o[0] - ax[0]) ** 2 + (o[1] - ax[1]) ** 2) * g
            b.f['g_dead'] += g; a['gsum'] -= g; cleaned += 1
        s['lists'][VORT] = keep
    keep = []
    for o in s['lists'][HEAT]:
        b, a = where(o[:2])
        if b is None: keep.append(o)
        else: a['hsum'] -= o[2]
    s['lists'][HEAT] = keep
    s['lists'][STREAK] = [o for o in s['lists'][STREAK] if where(o[:2])[0] is None]
    for b in B:
        ax = b.axis()
        for a in b.a:
            if a['g'] != 0 and abs(abs(a['g']) - eps) < 1e-12 * eps: raise Ambiguous('strength threshold')
            if abs(a['g']) < eps or a['slip']:
                g = a['g']; c = (a['corner.x'], a['corner.y'])
                b.f['fdt_dead.x'] -= c[1] * g; b.f['fdt_dead.y'] += c[0] * g
                b.f['fdt_dead.o'] += ((c[0] - ax[0]) ** 2 + (c[1] - ax[1]) ** 2) * g
                a['gsum'] -= g; b.f['g_dead'] += g
    s['bodies'] = [dict(f=b.f, q=b.q, root=b.root, a=b.a) for b in B]
    return coll, cleaned


def shed_model(s, eps):
    for b in s['bodies']:
        for a in b['a']:
            if a['g'] != 0 and abs(abs(a['g']) - eps) < 1e-12 * eps: raise Ambiguous('strength threshold')
            a['gsum'] += a['g']
            if abs(a['g']) >= eps and not a['slip']:
                s['lists'][VORT].append((a['corner.x'] - a['dl.y'] * 1e-4, a['corner.y'] + a['dl.x'] * 1e-4, a['g'], 0., 0., 0.))


# ---------------------------------------------------------------- random states
def polygon(r, cx, cy, R, n=None, kind=None):
    n = n or r.choice([3, 4, 5, 6, 8, 12]); kind = kind or r.choice(['reg', 'reg', 'star', 'wob'])
    a0 = r.uniform(0, 6.28); out = []
    for i in range(n):
        t = a0 - 2 * math.pi * i / n       # clockwise: positive area in this code base
        q = R * (1 if kind == 'reg' else (0.45 if i % 2 else 1.0) if kind == 'star' else r.uniform(0.6, 1.0))
        out.append((cx + q * math.cos(t), cy + q * math.sin(t)))
    return out


def random_space(lib, r, nbodies=None, roots=True, springs=True, nv=None, rev=0.05, speeds=True, limits=True, eps=1e-10):
    sp = Space(lib); nb = r.choice([0, 1, 1, 2, 2, 3, 3, 4]) if nbodies is None else nbodies
    sp.set(re=r.choice([1.0, 100.0, 7.5]), pr=r.choice([0.7, 1.0, 5.0]), inf_g=r.choice([0, 0.3]), inf_marker__x=r.uniform(-1, 1), inf_marker__y=r.uniform(-1, 1), gravity__x=r.uniform(-1, 1), gravity__y=r.uniform(-10, 0))
    sp.time(TIME, r.randint(1, 400), r.choice([100, 7, 1])); sp.time(DT, r.choice([1, 3, 7]), r.choice([10, 100, 7])); sp.time(DT_SAVE, 1, 10); sp.time(DT_STREAK, r.choice([0, 1, 3]), 10); sp.time(DT_PROFILE, 0, 1)
    iv = (r.choice([0, 1, -0.7]), r.choice([0, 0.3])); sp.inf(repr(iv[0]), repr(iv[1])); sp.infv = iv
    sp.speeds = []
    for b in range(nb):
        R = r.uniform(0.4, 1.2); cx, cy = b * 3.0 + r.uniform(-.1, .1), r.uniform(-1, 1)
        pts = polygon(r, cx, cy, R)
        if r.random() < rev: pts = pts[::-1]
        sp.body(pts, [r.random() < 0.2 for _ in pts])
        n = len(pts)
        sp.bset(b, holder=(cx + r.uniform(-.3, .3), cy + r.uniform(-.3, .3), r.uniform(-1, 1)), dpos=(r.uniform(-.2, .2), r.uniform(-.2, .2), r.uniform(-.2, .2)),
                speed_slae=tuple(r.choice([0, r.uniform(-2, 2)]) for _ in range(3)) if speeds else (0, 0, 0), speed_slae_prev=(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)),
                density=r.uniform(0.5, 3), bounce=r.choice([0, 0.5, 1]), special_segment_no=r.randrange(n), boundary_condition=r.choice([0, 1]), heat_condition=r.choice([0, 1, 2, 3]),
                friction=(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)), friction_prev=(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)), force_hydro=(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)),
                force_holder=(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)), fdt_dead=(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)), g_dead=r.uniform(-1, 1), nusselt=r.uniform(-1, 1))
        if springs:
            sp.bset(b, kspring=tuple(r.choice([INF, NAN, -1.0, 0.0, 2.5, r.uniform(0, 5)]) for _ in range(3)), damping=tuple(r.choice([0, 0.3]) for _ in range(3)))
        if limits:
            pos = [x + y for x, y in zip(sp.b3(b, 'holder'), sp.b3(b, 'dpos'))]
            sp.bset(b, collision_min=tuple(r.choice([NAN, p - r.uniform(0.001, 0.3), p - r.uniform(0.001, 0.3), p + 1e-3 if r.random() < 0.2 else NAN]) for p in pos),
                    collision_max=tuple(r.choice([NAN, p + r.uniform(0.001, 0.3), p + r.uniform(0.001, 0.3), p - 1e-3 if r.random() < 0.2 else NAN]) for p in pos))
        for i in range(n):
            for f in ('gsum', 'hsum', 'fric', 'Cp', 'Fr', 'Nu'): sp.aset(b, i, f, r.uniform(-1, 1))
            sp.aset(b, i, 'g', r.choice([0, eps / 10, -eps / 10, r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)])); sp.aset(b, i, 'heat_const', r.choice([0.5, 1, 2])); sp.aset(b, i, 'heat_layer_obj_no', -1)
        u = (r.choice([0, 0.5, -1]), r.choice([0, 0.25]), r.choice([0, 0.7])) if r.random() < 0.6 else (0, 0, 0)
        sp.speeds.append(u)
        for k in range(3):
            if u[k] or r.random() < .5: sp.expr(b, k, repr(u[k]))
    up = r.random() < 0.5
    if roots and nb > 2 and r.random() < 0.6:
        o = list(range(nb)); r.shuffle(o)
        for i in range(1, nb): sp.root(o[i], o[i - 1] if r.random() < 0.75 else o[r.randrange(i)])
    elif roots and nb > 1:
        for b in range(nb):
            if r.random() < 0.5:
                c = r.randrange(nb)
                # no cycles: only lower->higher or higher->lower along one fixed random order
                if c != b and ((c < b) == up): sp.root(b, c)
    W = max(1, nb) * 3.0
    def part(k, cnt):
        for _ in range(cnt):
            sp.push(k, r.uniform(-2, W), r.uniform(-2, 2), r.choice([0, eps / 3, -eps / 3, r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(0, 1)]), r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(1, 20))
    n = r.choice([0, 1, 5, 12, 30]) if nv is None else nv
    part(VORT, n); part(HEAT, r.choice([0, 1, n])); part(STREAK, r.choice([0, 3, n])); part(SINK, r.choice([0, 1, 2])); part(STREAKSRC, r.choice([0, 2]))
    return sp


def diff(exp, got, tol=1e-9, fields=None, path=''):
    """first difference between two snapshots, or None. fields: predicate on the path"""
    if isinstance(exp, dict):
        if set(exp) != set(got): return '%s: keys' % path
        for k in exp:
            d = diff(exp[k], got[k], tol, fields, path + '/' + str(k))
            if d: return d
        return None
    if isinstance(exp, (list, tuple)):
        if len(exp) != len(got) and (not fields or fields(path)): return '%s: expected %d elements, got %d' % (path, len(exp), len(got))
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, tol, fields, '%s[%d]' % (path, i))
            if d: return d
        return None
    if fields and not fields(path): return None
    if isinstance(exp, float) or isinstance(got, float):
        if not close(float(exp), float(got), tol): return '%s: expected %r, got %r' % (path, exp, got)
        return None
    return None if exp == got else '%s: expected %r, got %r' % (path, exp, got)
