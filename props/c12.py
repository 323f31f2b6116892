"""Flow velocity."""
from vv.term import *
from vv import native, contract as ct
from .world import *
from . import flowbat as fb

NI = ['near_nodes_influence', 'far_nodes_influence', 'sink_list_influence', 'body_list_influence', 'TEval4eval', 'SegmentInfluence_linear_source', 'findNode', 'inf_speed']


def setup(chk):
    chk.use('space', 'tree')
    chk.group(kernels); chk.group(sinks); chk.group(near); chk.group(far); chk.group(linear); chk.group(bodyinf); chk.group(point); chk.group(lists)
    chk.battery('velocities', fb.runner(60, fb.convect_one, 'velocities of a random state'), True, 'convection of all lists and velocities at points by the real code on random states against the sum of sources')


def bsv(dx, dy, g, e1):
    """2 pi times the velocity of a smoothed vortex"""
    k = g / (dx * dx + dy * dy + 1 / (e1 * e1)); return -dy * k, dx * k


def cunit(chk, ni=NI):
    probe_world(chk)
    m = chk.extract(['libvvhd/src/MConvectiveFast.cpp'], noinline=ni)
    u = chk.unit(m); u.region('C', 'MConvectiveFast', []); u.setptr('C', 'S', lambda: ptr('SP')); u.contracts = [(r'^TEval::eval\(', teval)]
    return u


def nonzero(u, reg, n): return None


def kernels(chk):
    u = cunit(chk); u.region('O', 'TObj', OBJ); p, px, py = vecarg(u); O = lambda m: u.F('O', m)()
    vx, vy = bsv(px - O('r.x'), py - O('r.y'), O('g'), O('_1_eps'))
    chk.case('velocity of one vortex', u, r'^MConvectiveFast::biot_savart\(', [ptr('C'), ptr('O'), p], [O('_1_eps') > 0], {}, ret=(vx, vy), native={'ret': 'vec'})


def sinks(chk):
    u = cunit(chk, [x for x in NI if x != 'sink_list_influence']); n = space(u)['SourceList']; p, px, py = vecarg(u); F = lambda m: u.F('SL', m); s = lambda m: u.F('SP', m)()
    dt = ct.i2r(s('dt.value')) / ct.i2r(s('dt.timescale'))
    def t(c):
        def f(k):
            dx, dy = px - F('r.x')(k), py - F('r.y')(k); g = F('g')(k)
            return ite(eq(g, R(0)), R(0), (dx, dy)[c] * g / (dx * dx + dy * dy + dt / PIp * fabs(g)))
        return SumN(n, f) / P2
    chk.case('velocity of the sinks', u, r'^MConvectiveFast::sink_list_influence\(', [ptr('C'), p], [n >= 0, s('dt.value') > 0, s('dt.timescale') > 0], {}, ret=(t(0), t(1)), native={'ret': 'vec'})


def near(chk):
    u = cunit(chk, [x for x in NI if x != 'near_nodes_influence']); nd = node(u); p, px, py = vecarg(u); V = lambda m: u.F('OV', m)
    def t(c):
        def f(a, k):
            g = V('g')(a, k); return ite(eq(g, R(0)), R(0), bsv(px - V('r.x')(a, k), py - V('r.y')(a, k), g, V('_1_eps')(a, k))[c])
        return SumN(nd['near'], lambda a: SumN(nd['vRange'](a), lambda k: f(a, k))) / P2
    chk.case('velocity of the near vortices', u, r'^MConvectiveFast::near_nodes_influence\(', [ptr('C'), ptr('N'), p], [nd['near'] >= 0], {}, ret=(t(0), t(1)), native={'ret': 'vec'}, gen=gpos)


def gpos(name, a, r):
    if name.endswith('_1_eps'): return r.choice([0.5, 1, 3.])
    return None


def far(chk):
    u = cunit(chk, [x for x in NI if x != 'far_nodes_influence']); nd = node(u); p, px, py = vecarg(u); F = lambda m: u.F('FN', m)
    def t(c):
        return SumN(nd['far'], lambda k: sum((bsv(px - F(m + '.r.x')(k), py - F(m + '.r.y')(k), F(m + '.g')(k), F(m + '._1_eps')(k))[c] for m in ('CMp', 'CMm')), R(0))) / P2
    chk.case('velocity of the far vortices', u, r'^MConvectiveFast::far_nodes_influence\(', [ptr('C'), ptr('N'), p], [nd['far'] >= 0], {}, ret=(t(0), t(1)), native={'ret': 'vec'}, gen=gpos)


def cplx(z): return z


def linear(chk):
    """velocity of a straight segment with linearly varying source density"""
    u = cunit(chk, ['TEval4eval']); u.region('A1', 'TAtt', ATT); u.region('p', 'TVec', ['x', 'y']); A = lambda m: u.F('A1', m)(); px, py = u.F('p', 'x')(), u.F('p', 'y')()
    q1, q2 = var('q1'), var('q2'); u.contracts += COMPLEX
    dx, dy = A('dl.x'), A('dl.y'); x1, y1 = px - A('r.x') + dx / 2, py - A('r.y') + dy / 2; x2, y2 = px - A('r.x') - dx / 2, py - A('r.y') - dy / 2
    # the integral of q(t)/(z1 - t dz) over 0<t<1: conjugate velocity -(q2-q1)/dz - (q2 z1 - q1 z2)/dz^2 log(z2/z1)
    L2 = dx * dx + dy * dy
    cj = lambda z: (z[0], -z[1]); mul = lambda a, b: (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]); dv = lambda a, b: tuple(c / (b[0] * b[0] + b[1] * b[1]) for c in mul(a, cj(b))); sub = lambda a, b: (a[0] - b[0], a[1] - b[1]); sc = lambda k, a: (k * a[0], k * a[1])
    z1, z2, dz = (x1, y1), (x2, y2), (dx, dy); w1, w2, dw = cj(z1), cj(z2), cj(dz)
    lg = clog(dv(w2, w1)); t = dv(sub((q1 - q2, R(0)), mul(dv(sub(sc(q2, w1), sc(q1, w2)), dw), lg)), dw)
    chk.case('velocity of a segment with linear source density', u, r'^MConvectiveFast::SegmentInfluence_linear_source\(', [ptr('C'), px, py, ptr('A1'), q1, q2], [], {}, ret=t, samples=0)


def clog(z): x, y = z; return (fn('log', x * x + y * y) / 2, fn('atan2', y, x))


def _div(E, st, a, ins): n = a[2] * a[2] + a[3] * a[3]; return ((a[0] * a[2] + a[1] * a[3]) / n, (a[1] * a[2] - a[0] * a[3]) / n)
def _mul(E, st, a, ins): return (a[0] * a[2] - a[1] * a[3], a[0] * a[3] + a[1] * a[2])
COMPLEX = [(r'^__divdc3$', _div), (r'^__muldc3$', _mul), (r'^clog$', lambda E, st, a, ins: clog((a[0], a[1])))]


def opaque(name, u, check=None, by=1):
    """callee contract: the (separately proved) velocity of one group of sources at the point passed by reference"""
    def h(E, st, a, ins):
        if check:
            n, want = check; a = list(a)
            while a[n].op == 'ite':
                d = E.dec.decide(st.facts, a[n].args[0]); a[n] = a[n].args[1 if d is not False else 2]
            E.obl.append(('%s is given the right node' % name, st.facts, ct.goal_eq(a[n], want(st) if callable(want) else want)))
        from vv import ir
        x = E.load(st, a[by], ir.DBL); y = E.load(st, padd_off(a[by], I(8)), ir.DBL)
        ex = a[n].args[1] if check and n < by else ()
        return (fn(name + '_x', *ex, x, y), fn(name + '_y', *ex, x, y))
    return h


def bodyinf(chk):
    u = cunit(chk, [x for x in NI if x != 'body_list_influence']); space(u, ()); nb, na = bodies(u); p, px, py = vecarg(u); A = lambda m: u.F('A', m); B = lambda m: u.F('B', m)
    def seg(E, st, a, ins):      # (this, p.x, p.y, seg, q1, q2)
        o = tuple(a[3].args[1]) + (a[3].args[2],); return (fn('lin_x', a[1], a[2], *o, a[4], a[5]), fn('lin_y', a[1], a[2], *o, a[4], a[5]))
    u.contracts += [(r'^MConvectiveFast::SegmentInfluence_linear_source\(', seg)]; S = u.decl['A'].stride
    def t(c):
        def slip(b): return SumN(na(b), lambda k: ite(eq(A('slip')(b, k), I(0)), R(0), bsv(px - A('r.x')(b, k), py - A('r.y')(b, k), A('g')(b, k), A('_1_eps')(b, k))[c]))
        def mov(b, k):
            ux, uy, w = B('speed_slae.r.x')(b), B('speed_slae.r.y')(b), B('speed_slae.o')(b); ax, ay = B('holder.r.x')(b) + B('dpos.r.x')(b), B('holder.r.y')(b) + B('dpos.r.y')(b)
            lx, ly = A('dl.x')(b, k), A('dl.y')(b, k); dx, dy = px - A('r.x')(b, k), py - A('r.y')(b, k); d2 = dx * dx + dy * dy
            def gq(x, y): vx, vy = ux - w * (y - ay), uy + w * (x - ax); return -(vx * lx + vy * ly), -(vx * ly - vy * lx)
            g, q = gq(A('r.x')(b, k), A('r.y')(b, k)); far = ((dx * q - dy * g) / d2, (dy * q + dx * g) / d2)[c]
            g1, q1 = gq(A('corner.x')(b, k), A('corner.y')(b, k)); g2, q2 = gq(A('corner.x')(b, k) + lx, A('corner.y')(b, k) + ly)
            lin = lambda m, a1, a2: fn('lin_' + m, px, py, I(b), S * I(k), a1, a2)
            near = (-lin('y', g1, g2) + lin('x', q1, q2), lin('x', g1, g2) + lin('y', q1, q2))[c]
            return ite(d2 < lx * lx + ly * ly, near, far)
        def body(b):
            still = fabs(B('speed_slae.r.x')(b)) + fabs(B('speed_slae.r.y')(b)) + fabs(B('speed_slae.o')(b)) < R('1e-10')
            return ite(eq(B('_slip')(b), I(0)), R(0), slip(b)) + ite(still, R(0), SumN(na(b), lambda k: mov(b, k)))
        return SumN(nb, body) / P2
    chk.case('velocity of the body surfaces', u, r'^MConvectiveFast::body_list_influence\(', [ptr('C'), p], [nb >= 0], {}, ret=(t(0), t(1)), samples=0)


GROUPS = [('near_nodes', 'u_near', (1, ptr('N')), 2), ('far_nodes', 'u_far', (1, ptr('N')), 2), ('sink_list', 'u_sink', None, 1), ('body_list', 'u_body', None, 1)]


def point(chk):
    u = cunit(chk, [x for x in NI if x != 'inf_speed']); space(u, ()); node(u); u.region('p', 'TVec', ['x', 'y']); px, py = var('px'), var('py'); s = lambda m: u.F('SP', m)(); u.region('TR', 'stree', []); u.setptr('C', 'tree', lambda: ptr('TR'))
    found = ne(var('found', 'I'), I(0))
    def find(E, st, a, ins):
        E.obl.append(('the node is looked up at the point itself', st.facts, And(eq(a[1], px), eq(a[2], py), ct.goal_eq(a[0], ptr('TR'))))); return pite(found, ptr('N'), NULL)
    u.contracts += [(r'^(TSortedTree|stree)::findNode\(', find)] + [(r'^MConvectiveFast::%s_influence\(' % g, opaque(n, u, c, b)) for g, n, c, b in GROUPS]
    t = ct.i2r(s('time.value')) / ct.i2r(s('time.timescale'))
    inf = [fn('eval_SP_%d' % chk.off('Space', 'inf_v' + c), t) for c in 'xy']
    r = tuple(ite(found, inf[k] + sum((fn(n + '_' + c, px, py) for _, n, _, _ in GROUPS), R(0)), R(0)) for k, c in enumerate('xy'))
    chk.case('velocity at a point', u, r'^MConvectiveFast::velocity\(', [ptr('C'), px, py], [s('time.timescale') > 0], {}, ret=r, samples=0)


def lists(chk):
    u = cunit(chk, [x for x in NI if x != 'inf_speed']); space(u, ()); s = lambda m: u.F('SP', m)(); u.region('TR', 'stree', []); u.setptr('C', 'tree', lambda: ptr('TR'))
    leaves, nf, nr = leafset(u)
    u.vec('TR', 'bottomNodes', 'LFp', lambda: leaves)
    u.contracts += [(r'^(TSortedTree|stree)::getBottomNodes\(', lambda E, st, a, ins: padd_off(a[0], I(chk.off('stree', 'bottomNodes'))))]
    def near(E, st, a, ins):
        E.obl.append(('near vortices of a leaf', st.facts, Bool(a[1].op == 'p' and a[1].args[0] == 'LF' and a[1].args[2] == I(0)))); return opaque('u_near', u, (1, a[1]), 2)(E, st, a, ins)
    u.contracts += [(r'^MConvectiveFast::near_nodes_influence\(', near)] + [(r'^MConvectiveFast::%s_influence\(' % g, opaque(n, u, c, b)) for g, n, c, b in GROUPS[2:]]
    t = ct.i2r(s('time.value')) / ct.i2r(s('time.timescale')); inf = [fn('eval_SP_%d' % chk.off('Space', 'inf_v' + c), t) for c in 'xy']
    N = lambda m: u.F('LF', m); F = lambda m: u.F('FN', m); post = {}
    def taylor(l, x, y):
        vx = vy = a = b = R(0)
        def S(f): return SumN(nf(l), lambda k: sum((f(F(c + '.g')(l, k), N('x')(l) - F(c + '.r.x')(l, k), N('y')(l) - F(c + '.r.y')(l, k)) for c in ('CMp', 'CMm')), R(0))) / P2
        r2 = lambda dx, dy: dx * dx + dy * dy
        vx = S(lambda g, dx, dy: -g * dy / r2(dx, dy)); vy = S(lambda g, dx, dy: g * dx / r2(dx, dy))
        a = S(lambda g, dx, dy: g * 2 * dx * dy / (r2(dx, dy) * r2(dx, dy))); b = S(lambda g, dx, dy: g * (dy * dy - dx * dx) / (r2(dx, dy) * r2(dx, dy)))
        ex, ey = x - N('x')(l), y - N('y')(l); return vx + a * ex + b * ey, vy + b * ex - a * ey
    for reg in ('OV', 'OH', 'OS'):
        O = lambda m, reg=reg: u.F(reg, m)
        for c, x in enumerate('xy'):
            def f(l, k, O=O, c=c, x=x, reg=reg):
                rx, ry = O('r.x')(l, k), O('r.y')(l, k); dv = inf[c] + taylor(l, rx, ry)[c] + fn('u_near_' + x, I(l), rx, ry) + fn('u_sink_' + x, rx, ry) + fn('u_body_' + x, rx, ry)
                v = O('v.' + x)(l, k)
                return v + dv if reg == 'OS' else ite(eq(O('g')(l, k), R(0)), v, v + dv)
            post[(reg, 'v.' + x)] = f
    chk.case('convection of all particles', u, r'^MConvectiveFast::process_all_lists\(', [ptr('C')], [leaves >= 0, s('time.timescale') > 0], post, samples=0)
