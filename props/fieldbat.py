"""Field values on a grid, judged by the documented formulas."""
import struct
from .flowbat import *


def f32(x): return struct.unpack('f', struct.pack('f', x))[0]


def twice(lib, r, **kw):
    seed = r.randrange(1 << 30); return random_flow(lib, random.Random(seed), **kw), random_flow(lib, random.Random(seed), **kw)


def meandl(s):
    """the length scale of the flow: the contour of the first body over the number of its segments less one"""
    if not s['bodies'] or len(s['bodies'][0]['a']) < 2: return 0.
    return s['bodies'][0]['q']['slen'] / (len(s['bodies'][0]['a']) - 1)


def evaluate(lib, sp, kind, q, nx, ny, frame='o', mode='x'):
    m = (D * (nx * ny))(); g = (D * 300)(); n = I_()
    ok = lib.xf_eval(sp.p, kind, (D * 4)(*q), nx, ny, ord(frame), ord(mode), m, g, C.byref(n))
    return (list(m), sorted(tuple(g[3 * k:3 * k + 3]) for k in range(n.value))) if ok else None


def psi_log(dx, dy, rd2, g): return -g * math.log(dx * dx + dy * dy + rd2) / 2


def psi_bodies(s, p, rd2):
    t = 0.
    for b in s['bodies']:
        B = Bd(b); S = B.v3('speed_slae'); ax = B.axis(); c = (b['q']['cofm.x'], b['q']['cofm.y'])
        for a in B.a: t += psi_log(p[0] - a['r.x'], p[1] - a['r.y'], rd2, a['g'])
        if S == [0, 0, 0]: continue
        for a in B.a:
            x, y = a['r.x'], a['r.y']; ux, uy = S[0] - S[2] * (y - ax[1]), S[1] + S[2] * (x - ax[0])
            g = -(ux * a['dl.x'] + uy * a['dl.y']); q = -(-uy * a['dl.x'] + ux * a['dl.y'])
            t += psi_log(p[0] - x, p[1] - y, rd2, g)
            z = complex(x - p[0], y - p[1]) / complex(c[0] - p[0], c[1] - p[1])      # the angle from the centre of mass to the segment
            if z.real < 0 and abs(z.imag) < 1e-6 * abs(z): raise Ambiguous('cut')
            t += q * math.atan2(z.imag, z.real)
    return t


def psi_sinks(s, p):
    t = 0.
    for o in s['lists'][SINK]:
        if p[0] < o[0] and 0 < abs(p[1] - o[1]) < 1e-6: raise Ambiguous('cut')
        t += o[2] * math.atan2(p[1] - o[1], p[0] - o[0])
    return t


def press(T, s, p, infv, fr, ref):
    K = lambda x, y: ((p[0] - x) / ((p[0] - x) ** 2 + (p[1] - y) ** 2), (p[1] - y) / ((p[0] - x) ** 2 + (p[1] - y) ** 2)); dt = s['times'][DT][0] / s['times'][DT][1]; t = 0.
    for b in s['bodies']:
        B = Bd(b); S = B.v3('speed_slae'); ax = B.axis(); gs = 0.
        for a in B.a:
            x, y = a['r.x'], a['r.y']; ux, uy = S[0] - S[2] * (y - ax[1]), S[1] + S[2] * (x - ax[0]); kx, ky = K(x, y)
            g = -(ux * a['dl.x'] + uy * a['dl.y']); q = -(-uy * a['dl.x'] + ux * a['dl.y'])
            t += (-ky * g + kx * q) * ux + (kx * g + ky * q) * uy
            gs += a['gsum']; t -= (a['dl.x'] * -ky + a['dl.y'] * kx) / dt * gs
    for o in s['lists'][VORT]:
        kx, ky = K(o[0], o[1]); t += (o[3] * -ky + o[4] * kx) * o[2]
    v = velocity(T, s, p, infv); c = t / P2 + (infv[0] ** 2 + infv[1] ** 2 - v[0] ** 2 - v[1] ** 2) / 2
    if fr != 's': c += ((v[0] - ref[0]) ** 2 + (v[1] - ref[1]) ** 2) / 2
    return c


def field_one(lib, r):
    f = lib.xf_eval; f.restype = I_; f.argtypes = [V, I_, C.POINTER(D), I_, I_, I_, I_, C.POINTER(D), C.POINTER(D), C.POINTER(I_)]; lib.xf_psi.restype = D; lib.xf_psi.argtypes = [V, D, D]
    kind = r.choice([0, 1, 2, 3]); sp, sw = twice(lib, r, nv=r.choice([0, 2, 20, 60]) if kind else r.choice([0, 2, 20, 60, 150]), nbodies=r.choice([0, 1, 1, 2]) if kind else r.choice([0, 0, 0, 1, 1, 2]))
    try:
        s0 = sp.snap(); dl = meandl(s0); nx, ny = r.choice([2, 3, 5]), r.choice([2, 4]); d = f32(r.choice([.05, .3, 1.]))
        c = (r.uniform(-4, 8), r.uniform(-3, 3))
        if s0['bodies'] and r.random() < .6: a = r.choice(r.choice(s0['bodies'])['a']); c = (a['r.x'] - d * r.uniform(0, nx), a['r.y'] - d * r.uniform(0, ny))
        if s0['lists'][VORT] and r.random() < .4: a = r.choice(s0['lists'][VORT]); c = (a[0] - d * r.uniform(0, nx), a[1] - d * r.uniform(0, ny))
        if s0['lists'][SINK] and r.random() < .4: a = r.choice(s0['lists'][SINK]); c = (a[0] - d * r.uniform(0, nx), a[1] - d * r.uniform(0, ny))
        q = [f32(c[0]), f32(c[1]), d, r.choice([1., 2., .5])]; fr = r.choice('ofb' if kind in (1, 2) else 'sofb'); mode = r.choice('xy')
        if kind and not s0['bodies'] and fr == 'b':
            if evaluate(lib, sp, kind, q, nx, ny, fr, mode) is not None: return 'the frame of a body was accepted without any body'
            return
        if kind and r.random() < .1:
            if evaluate(lib, sp, kind, q, nx, ny, r.choice('zO\0'), mode) is not None: return 'an unknown reference frame was accepted'
        if kind != 1 and r.random() < .1:
            if evaluate(lib, sp, kind, q[:3] + [r.choice([0., -1.])], nx, ny, fr, mode) is not None: return 'a smoothing multiplier that is not positive was accepted'
        if kind == 2 and r.random() < .5:       # sinks on the grid lines
            q[0], q[1] = round(q[0] * 8) / 8, round(q[1] * 8) / 8; d = q[2] = r.choice([.125, .5])
            for _ in range(r.choice([1, 3])):
                o = (q[0] + d * (r.randrange(nx) + r.choice([0, .4])), q[1] + d * (r.randrange(ny) + r.choice([0, .4])), r.uniform(.1, 1))
                sp.push(SINK, *o); sw.push(SINK, *o)
            s0 = sp.snap()
        infv = sp.infv; ref = {'o': (0., 0.), 's': (0., 0.), 'f': infv, 'b': None}[fr]
        if fr == 'b' and kind: S = Bd(s0['bodies'][0]).v3('speed_slae'); ref = (S[0], S[1])
        # ---- the definition, on a second copy of the same state
        for k in (HEAT, STREAK, STREAKSRC): sw.lib.sp_clear(sw.p, k)
        if kind in (0, 3): lib.fm_shed(sw.p, 1e-10)
        T = {0: lambda: Tree(sw, 8, 20 * dl), 1: lambda: Tree(sw, 8, 20 * dl, .1), 2: lambda: Tree(sw, 8, 10 * dl, 20 * dl if dl > 0 else math.inf), 3: lambda: Tree(sw, 8, 20 * dl, .1)}[kind]()
        try:
            if kind in (1, 3): lib.ep_calc(sw.p, T.t, 0)
            if kind == 3:
                cv = lib.cv_new(sw.p, T.t); lib.cv_process(cv); lib.cv_del(cv); lib.df_vort(sw.p, T.t)
            s = sw.snap(); exp = []; gaps = []
            if kind in (0, 2):
                e2 = {i: lib.ep_eps2h(T.t, o[0], o[1]) for i, o in enumerate(s['lists'][VORT])}
            for j in range(ny):
                for i in range(nx):
                    p = (q[0] + i * d, q[1] + j * d); inb = lib.sp_inbody(sw.p, *p)
                    N = T.nodes[T.find(*p)]
                    if kind == 0:
                        v = 0.
                        for m in N.near:
                            for k in range(*T.nodes[m].v):
                                o = s['lists'][VORT][k]
                                if not dl and e2[k] < 1e-20: raise Ambiguous('no length scale')
                                w = 1 / (q[3] ** 2 * max(e2[k], .36 * dl * dl)); e = ((p[0] - o[0]) ** 2 + (p[1] - o[1]) ** 2) * w
                                if abs(e - 6) < 1e-7: raise Ambiguous('cut-off')
                                if e < 6: v += o[2] * w * math.exp(-e)
                        v /= math.pi; h = lib.ep_h2(T.t, *p) / (dl * q[3]) ** 2 if dl else math.inf
                        if abs(h - 3) < 1e-7: raise Ambiguous('cut-off')
                        if h < 3: v += math.erfc(h) / 2
                        if inb: v = 0.
                    elif kind == 1: v = velocity(T, s, p, infv, N=N)['xy'.index(mode)] - ref['xy'.index(mode)]
                    elif kind == 2:
                        rd2 = (.2 * dl) ** 2; v = psi_bodies(s, p, rd2) + psi_sinks(s, p)
                        for m in N.fars:
                            for cm in (T.nodes[m].cmp, T.nodes[m].cmm): v += psi_log(p[0] - cm[0], p[1] - cm[1], rd2, cm[2]) if cm[2] else 0
                        for m in N.near:
                            for k in range(*T.nodes[m].v):
                                o = s['lists'][VORT][k]
                                w = q[3] ** 2 * max(e2[k] / 4, rd2); v += psi_log(p[0] - o[0], p[1] - o[1], w, o[2]) if o[2] else 0
                        v = v / P2 + (infv[0] - ref[0]) * p[1] - (infv[1] - ref[1]) * p[0]
                        g = sum(o[2] for o in s['lists'][SINK] if p[0] < o[0] <= p[0] + d and p[1] < o[1] <= p[1] + d)
                        if g: gaps.append((i, j, f32(g)))
                    else: v = 0. if inb else press(T, s, p, infv, fr, ref)
                    exp.append(v)
            if kind == 2:
                for _ in range(2):
                    p = (r.uniform(-4, 8), r.uniform(-3, 3)); rd2 = (.2 * dl) ** 2; v = psi_bodies(s, p, rd2) + psi_sinks(s, p)
                    for o in s['lists'][VORT]: v += psi_log(p[0] - o[0], p[1] - o[1], rd2, o[2]) if o[2] else 0
                    v = v / P2 + infv[0] * p[1] - infv[1] * p[0]; got = lib.xf_psi(sp.p, *p)
                    if math.isfinite(v) and not close(v, got, 1e-7): return 'the stream function at %r is %r, expected %r' % (p, got, v)
        finally: T.free()
        name = ('vorticity', 'velocity', 'stream function', 'pressure')[kind]; sc = max([abs(x) for x in exp if math.isfinite(x)] + [1.])
        for turn in (0, 1):
            got = evaluate(lib, sp, kind, q, nx, ny, fr, mode)
            if got is None: return 'the %s field was refused' % name
            for k, (a, b) in enumerate(zip(exp, got[0])):
                if math.isfinite(a) and abs(a) < 1e30 and not abs(a - b) <= 2e-5 * sc: return '%s at node (%d, %d), (%r, %r), frame %s, evaluation %d: %r instead of %r' % (name, k % nx, k // nx, q[0] + k % nx * d, q[1] + k // nx * d, fr, turn + 1, b, a)
            if kind == 2 and [x[:2] for x in got[1]] != [x[:2] for x in sorted(gaps)] or any(abs(x[2] - y[2]) > 1e-5 for x, y in zip(got[1], sorted(gaps))): return 'gaps of the %s %r instead of %r' % (name, got[1], sorted(gaps))
            dd = diff(s0, sp.snap(), 0)
            if dd: return 'evaluating the %s field changed the state it was made from: %s' % (name, dd)
    finally: sp.free(); sw.free()
