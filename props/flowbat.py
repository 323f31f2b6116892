"""bounded executions of the tree-based steps of the real code, judged by props/flow.py"""
import random, json, math
from vv.check import fail
from .flow import *


def mktree(sp, r, flags=(1, 1, 1)):
    return Tree(sp, r.choice([8, 8, 2, 1]), r.choice([0., 0., 0.3]), r.choice([1e300, 1e300, 3.]), flags)


def runner(n, one, what):
    """one(lib, r, seed) -> None | message; Ambiguous retries"""
    def run(lib, rnd, chk, progress):
        done = 0; tries = 0; N = chk.n(n)
        while done < N and tries < N * 6:
            tries += 1; seed = rnd.randrange(1 << 30); r = random.Random(seed); progress('%s seed %d' % (what, seed))
            try: d = one(lib, r)
            except Ambiguous: continue
            if d: fail('%s (seed %d): %s' % (what, seed, d))
            done += 1
        return done
    return run


def tree_one(lib, r):
    flags = r.choice([(1, 1, 1)] * 3 + [(1, 0, 1), (0, 1, 0), (1, 1, 0)])
    shape = r.choice(['cloud', 'cloud', 'grid', 'compact'])
    if shape == 'cloud': sp = random_flow(lib, r)
    else:
        sp = random_flow(lib, r, nv=0, nbodies=r.choice([0, 0, 1]))
        q = r.choice([1, .5, .25])
        for k in (VORT, HEAT, STREAK):
            if shape == 'grid':        # square nodes, objects on the dividing lines
                side = r.choice([4, 6, 8]); pts = [(i * q, j * q) for i in range(side) for j in range(side)]; r.shuffle(pts)
            else: pts = [(x + r.uniform(-1, 1) * 1e-4, y + r.uniform(-1, 1) * 1e-4) for x, y in [(r.randrange(4) * q, r.randrange(2) * q) for _ in range(60)]]
            for x, y in pts: sp.push(k, x, y, r.choice([-1, 1, 1]) * r.uniform(.1, 1), 0, 0, 2.)
    s0 = sp.snap(); T = mktree(sp, r, flags) if shape == 'cloud' else Tree(sp, r.choice([8, 2, 1]), r.choice([0., .3, 2.]), r.choice([1e300, 3., .6]), flags); s = sp.snap()
    try:
        for k in range(5):
            if sorted(s0['lists'][k]) != sorted(s['lists'][k]): return 'building the tree lost, duplicated or altered objects of list %d' % k
        d = diff(s0['bodies'], s['bodies'])
        if d: return 'building the tree changed a body: ' + d
        Z = [T.nodes[b] for b in T.bottom]
        if len(set(T.bottom)) != len(T.bottom): return 'a leaf is listed twice'
        leaves = [N.id for N in T.nodes if N.ch[0] < 0]
        if sorted(leaves) != sorted(T.bottom): return 'listed leaves %r are not the childless nodes %r' % (sorted(T.bottom), leaves)
        for kind, inc, f in ((VORT, flags[0], lambda N: N.v), (HEAT, flags[2], lambda N: N.hr), (STREAK, 1, lambda N: N.s)):
            n = len(s['lists'][kind]) if inc else 0; own = {}
            for N in Z:
                for i in range(*f(N)):
                    if i in own or not 0 <= i < n: return 'object %d of list %d in two leaves or outside the list' % (i, kind)
                    own[i] = N; o = s['lists'][kind][i]
                    if abs(o[0] - N.x) > N.w / 2 * (1 + 1e-12) + 1e-12 * (1 + abs(o[0])) or abs(o[1] - N.y) > N.h / 2 * (1 + 1e-12) + 1e-12 * (1 + abs(o[1])): return 'object %d of list %d outside the box of its leaf' % (i, kind)
                    if T.find(o[0], o[1]) != N.id: return 'looking up the position of object %d of list %d does not lead to its leaf' % (i, kind)
            if len(own) != n: return 'list %d: %d of %d objects are in a leaf' % (kind, len(own), n)
        own = set()
        for N in Z:
            for b in N.bl:
                if b is None or b in own: return 'segment %r in two leaves' % (b,)
                own.add(b); a = s['bodies'][b[0]]['a'][b[1]]
                if abs(a['r.x'] - N.x) > N.w / 2 + 1e-9 or abs(a['r.y'] - N.y) > N.h / 2 + 1e-9: return 'segment %r outside the box of its leaf' % (b,)
                if T.find(a['r.x'], a['r.y']) != N.id: return 'looking up segment %r does not lead to its leaf' % (b,)
        want = {(ib, i) for ib, b in enumerate(s['bodies']) for i in range(len(b['a']))} if flags[1] else set()
        if own != want: return 'segments in leaves differ from the segments of the bodies'
        # mass centres
        def below(N): return [N] if N.ch[0] < 0 else below(T.nodes[N.ch[0]]) + below(T.nodes[N.ch[1]])
        for N in T.nodes:
            os_ = [s['lists'][VORT][i] for M in below(N) for i in range(*M.v)]
            for nm, cm, sel in (('positive', N.cmp, lambda g: g > 0), ('negative', N.cmm, lambda g: g < 0)):
                g = sum(o[2] for o in os_ if sel(o[2]))
                if not close(g, cm[2], 1e-9): return '%s strength of node %d is %r, its vortices sum to %r' % (nm, N.id, cm[2], g)
                if g:
                    for c in (0, 1):
                        e = sum(o[c] * o[2] for o in os_ if sel(o[2])) / g
                        if not close(e, cm[c], 1e-8): return '%s mass centre of node %d is %r, expected %r' % (nm, N.id, cm[c], e)
                    if cm[3] != INF: return '%s mass centre of node %d has a smoothing radius' % (nm, N.id)
        for N in Z:
            cov = []
            def isfar(M):
                dx, dy = M.x - N.x, M.y - N.y; hp = M.h + M.w + N.h + N.w; a, b = dx * dx + dy * dy, T.far * hp * hp
                if math.isfinite(b) and abs(a - b) <= 1e-12 * (a + b) and (a or b): return None
                return a > b
            par = {c: M for M in T.nodes for c in M.ch if c >= 0}
            for m in N.near:
                M = T.nodes[m]; cov += [m]
                if M.ch[0] >= 0: return 'near node %d of leaf %d is not a leaf' % (m, N.id)
                if isfar(M) is True: return 'node %d is listed near leaf %d but is far' % (m, N.id)
            for m in N.fars:
                M = T.nodes[m]; cov += [x.id for x in below(M)]
                if isfar(M) is False: return 'node %d is listed far from leaf %d but is near' % (m, N.id)
                if m in par and isfar(par[m.__index__()]) is True: return 'node %d is listed far from leaf %d although its parent is far already' % (m, N.id)
            if sorted(cov) != sorted(leaves): return 'near and far nodes of leaf %d cover leaves %r instead of every leaf once' % (N.id, sorted(cov))
        for _ in range(5):
            q = T.find(r.uniform(-20, 20), r.uniform(-20, 20))
            if q not in leaves: return 'looking up a point does not lead to a leaf'
    finally: T.free(); sp.free()


def nonspeed(seg=False): return lambda p: not ('/lists' in p)


def convect_one(lib, r):
    sp = random_flow(lib, r, nv=r.choice([1, 3, 20, 60]), limits=False); T = mktree(sp, r); s = sp.snap(); cv = lib.cv_new(sp.p, T.t)
    try:
        exp = sp.snap()
        for N in (T.nodes[b] for b in T.bottom):
            for kind, rg in ((VORT, N.v), (HEAT, N.hr), (STREAK, N.s)):
                for i in range(*rg):
                    o = s['lists'][kind][i]
                    if kind != STREAK and o[2] == 0: continue
                    v = velocity(T, s, o[:2], sp.infv, True, N); exp['lists'][kind][i] = (o[0], o[1], o[2], o[3] + v[0], o[4] + v[1], o[5])
        lib.cv_process(cv); got = sp.snap(); d = diff(exp, got, 1e-8)
        if d: return 'convecting all lists: ' + d
        # velocity at points
        out = (D * 2)()
        for _ in range(6):
            k = r.choice([VORT, SINK, HEAT]); L = s['lists'][k]
            p = r.choice(L)[:2] if L and r.random() < .3 else (r.uniform(-6, 12), r.uniform(-4, 4))
            if s['bodies'] and r.random() < .4:
                b = r.choice(s['bodies'])['a']; a = r.choice(b); p = (a['r.x'] + r.uniform(-1, 1) * a['dl.y'] * 1.2, a['r.y'] + r.uniform(-1, 1) * a['dl.x'] * 1.2)
            try: e = velocity(T, s, p, sp.infv)
            except Ambiguous: continue
            lib.cv_velocity(cv, p[0], p[1], out)
            for c in (0, 1):
                if not close(e[c], out[c], 1e-7): return 'velocity at (%r, %r) is (%r, %r), the sum of its sources is %r; state %s' % (p[0], p[1], out[0], out[1], e, json.dumps(s)[:1500])
    finally: lib.cv_del(cv); T.free(); sp.free()


def system_one(lib, r, contact=False):
    nb = r.choice([1, 1, 2, 2, 3]); sp = random_flow(lib, r, nv=r.choice([0, 2, 15, 60]), nbodies=nb, limits=False)
    if r.random() < 0.25 and nb > 1:      # a small finely resolved body next to a long segment
        pass
    rigid = not contact and r.random() < 0.3
    if rigid:
        for b in range(nb): sp.bset(b, kspring=(INF, INF, INF)); [sp.expr(b, k, '0') for k in range(3)]; sp.speeds[b] = (0, 0, 0)
    fo = []
    for b in range(nb): v = r.choice([0, 0, 0.4]); sp.expr(b, 3, repr(v)); fo.append(v)
    tm = r.choice([(0, 1), (-1, 2), (3, 2), (3, 2), (1, 10)]); sp.time(TIME, *tm)
    dofs = [b * 6 + k for b in range(nb) for k in range(3) if not isrigid(sp.b3(b, 'kspring')[k])]
    coll = r.choice(([-1] if contact and dofs else [-1, -1]) + dofs + [d + 3 for d in dofs])
    T = mktree(sp, r); cv = lib.cv_new(sp.p, T.t)
    try:
        s = sp.snap(); rows, cexp = system(T, s, sp.speeds, sp.infv, fo, coll)
        lib.la_mode(2); cgot = lib.cv_calc(sp.p, cv, coll); N, A, R, cnt = recorded(lib); m = sp.snap(); lib.la_mode(0)
        col = {}
        for u in unknowns(s):
            x = val(m, u) - 1000
            if x != int(x) or not 0 <= x < N or int(x) in col.values(): return 'unknown %r received no value of its own column (%r)' % (u, x + 1000)
            col[u] = int(x)
        d = check_system(rows, N, A, R, col)
        if d: return d + '; state ' + json.dumps(s)[:2000]
        if cexp != cgot: return 'contact state after assembly is %d, expected %d (body*6+dof, +3 once stopped)' % (cgot, cexp)
        if rigid and coll < 0 and tm[0] > 0:      # second step reusing the stored inverse: only right-hand sides are refilled
            ids = [int(N_) for N_ in range(N)]
            for b in range(nb):
                for i in range(sp.nseg(b)): sp.aset(b, i, 'g', r.uniform(-1, 1))
                sp.bset(b, **{k.split('.')[0] + '.' + k.split('.')[1] if False else 'g_dead': r.uniform(-1, 1)})
                sp.bset(b, speed_slae=(0, 0, 0), speed_slae_prev=tuple(r.uniform(-1, 1) for _ in range(3)), friction_prev=tuple(r.uniform(-1, 1) for _ in range(3)), fdt_dead=tuple(r.uniform(-1, 1) for _ in range(3)))
            sp.push(VORT, r.uniform(-6, 12), 5., r.uniform(-1, 1), 0, 0, 3.); T.lib.tr_destroy(T.t); T.build()
            s = sp.snap(); rows, _ = system(T, s, sp.speeds, sp.infv, fo, -1)
            A0 = A; lib.la_mode(2); lib.cv_calc(sp.p, cv, -1); N, A, R, cnt = recorded(lib); lib.la_mode(0)
            d = check_system(rows, N, A or A0, R, col)
            if d: return 'second solve: ' + d
    finally: lib.la_mode(0); lib.cv_del(cv); T.free(); sp.free()


def diffuse_one(lib, r):
    sp = random_flow(lib, r, nv=r.choice([1, 3, 20, 60]), limits=False); T = mktree(sp, r); s = sp.snap()
    try:
        for kind, f in ((VORT, lib.df_vort), (HEAT, lib.df_heat)):
            s = sp.snap(); exp = sp.snap(); dv, fr = diffusion(T, s, kind)
            for i, v in dv.items(): o = exp['lists'][kind][i]; exp['lists'][kind][i] = (o[0], o[1], o[2], o[3] + v[0], o[4] + v[1], o[5])
            for (b, k), x in fr.items(): exp['bodies'][b]['a'][k]['fric'] += x
            f(sp.p, T.t); got = sp.snap(); d = diff(exp, got, 1e-7)
            if d: return 'diffusion of the %s list: %s' % ('vortex' if kind == VORT else 'heat', d)
    finally: T.free(); sp.free()


def smooth_one(merge):
    def one(lib, r):
        sp = random_flow(lib, r, nv=r.choice([1, 2, 3, 20, 60]), limits=False)
        if r.random() < .5 and sp.nb():      # vortices close to a wall and to each other
            for _ in range(r.choice([4, 12])):
                b = r.randrange(sp.nb()); i = r.randrange(sp.nseg(b)); x, y = sp.aget(b, i, 'r.x'), sp.aget(b, i, 'r.y'); l = math.hypot(sp.aget(b, i, 'dl.x'), sp.aget(b, i, 'dl.y'))
                for k in (VORT, HEAT): sp.push(k, x + r.uniform(-.4, .4) * l, y + r.uniform(-.4, .4) * l, r.uniform(-1, 1), 0, 0, 3.)
        m = merge if merge is not None else r.random() < .5
        T = mktree(sp, r)
        try:
            s = sp.snap(); exp = sp.snap(); e = smoothing(T, exp, m); c = lib.ep_calc(sp.p, T.t, int(m)); got = sp.snap()
            for k in (VORT, HEAT):
                a, b = sum(o[2] for o in s['lists'][k]), sum(o[2] for o in got['lists'][k])
                if abs(a - b) > 1e-9 * (1 + sum(abs(o[2]) for o in s['lists'][k])): return 'total strength of list %d changed from %r to %r' % (k, a, b)
            if c != e: return '%d merges counted, %d expected (merging %s)' % (c, e, 'on' if m else 'off')
            d = diff(exp, got, 1e-9)
            if d: return 'after the smoothing step (merging %s): %s' % ('on' if m else 'off', d)
            if not m:
                for _ in range(4):
                    p = (r.uniform(-6, 12), r.uniform(-4, 4)); L = s['lists'][VORT]
                    if L and r.random() < .5: p = r.choice(L)[:2]
                    N = T.nodes[T.find(*p)]
                    ds = sorted((o[0] - p[0]) ** 2 + (o[1] - p[1]) ** 2 for M in N.near for o in [got['lists'][VORT][i] for i in range(*T.nodes[M].v)]); ds = [x for x in ds if x]
                    q = lib.ep_eps2h(T.t, *p); e2 = ds[1] if len(ds) > 1 else ds[0] if ds else -1.7976931348623157e308
                    if not close(q, e2, 1e-12, 0): return 'squared distance to the second nearest vortex of (%r,%r): %r, expected %r' % (p + (q, e2))
                    hs = [(segs(got, b)[k]['r.x'] - p[0]) ** 2 + (segs(got, b)[k]['r.y'] - p[1]) ** 2 for M in N.near for b, k in T.nodes[M].bl]
                    q = lib.ep_h2(T.t, *p); e2 = min(hs) if hs else INF
                    if not close(q, e2, 1e-12, 0): return 'squared distance to the nearest wall of (%r,%r): %r, expected %r' % (p + (q, e2))
        finally: T.free(); sp.free()
    return one
