"""Post-processing fields."""
import math, random
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.check import fail
from .world import *
from .flowbat import runner
from .fieldbat import field_one
from fractions import Fraction as Fr

H = [('XVorticity', 'XVorticity.hpp'), ('XStreamfunction', 'XStreamfunction.hpp'), ('XPressure', 'XPressure.hpp'), ('XVelocity', 'XVelocity.hpp'), ('XField', 'XField.hpp')]
GRID = ('xmin', 'ymin', 'dxdy', 'xres', 'yres', 'evaluated')
MEMB = {'XVorticity': ['eps_mult', 'dl'], 'XStreamfunction': ['eps_mult', 'ref_frame', 'ref_frame_speed.x', 'ref_frame_speed.y', 'dl', 'rd2'], 'XPressure': ['eps_mult', 'ref_frame', 'ref_frame_speed.x', 'ref_frame_speed.y', 'dl'], 'XVelocity': ['mode', 'ref_frame', 'dl']}
SUB = ['VortexList', 'HeatList', 'SourceList', 'StreakList', 'StreakSourceList', 'BodyList', 'inf_vx', 'inf_vy'] + ['time.value', 'time.timescale', 'dt.value', 'dt.timescale']


def setup(chk):
    chk.use('space', 'flow', 'tree', 'field')
    for g in (vorticity, vortfield, stream, stream_static, streamfield, pressure, presfield, velfield): chk.group(g)
    chk.battery('fields', runner(300, field_one, 'field of a random state'), True, 'fields of random states evaluated by the real code on small grids, compared with the documented formulas; a second evaluation of the same state')


def funit(chk, cls, src, ni):
    """a field object X with its own state X.S: bodies B with segments A, vortices VL, sinks SL"""
    probe_world(chk); chk.probe([(cls, m) for m in list(MEMB[cls]) + ['S.' + k for k in SUB] + list(GRID) + ['map']])
    m = chk.extract(['libvvhd/src/%s.cpp' % src], noinline=ni, types=H); u = chk.unit(m)
    u.region('X', cls, MEMB[cls] + list(GRID) + ['S.' + k for k in SUB if '.' in k]); u.contracts = [(r'^TEval::eval\(', teval)]
    nx, ny = var('n_x', 'I'), var('n_y', 'I'); u.matrix('V', ny, nx, 'float'); u.setptr('X', 'map', lambda: ptr('V')); u.setptr('X', 'xres', lambda: nx); u.setptr('X', 'yres', lambda: ny)
    u.nx, u.ny = nx, ny
    return u


def state(u, cls):
    """the object's own state: bodies B with segments A, vortices VL, sinks SL"""
    nb, na = var('n_b', 'I'), lambda b: fn('n_a', I(b), sort='I')
    u.raw('BL', 16, {0: ('ptr', None), 8: ('ptr', None)}, [nb]); u.setoff('BL', 0, lambda k: ptr('B', (k,))); u.setoff('BL', 8, lambda k: NULL)
    u.vec('X', 'S.BodyList', 'BL', lambda: nb); u.region('B', 'TBody', BODY, dims=[nb]); u.region('A', 'TAtt', ATT, dims=[nb, na], array=True); u.vec('B', 'alist', 'A', na, cap=lambda b: na(b) + 1)
    n = {}
    for l, r in LISTS.items():
        n[l] = var('n_' + r, 'I'); u.region(r, 'TObj', OBJ, dims=[n[l]], array=True); u.vec('X', 'S.' + l, r, lambda nn=n[l]: nn)
    return nb, na, n


def at(reg, i=0): return padd_off(ptr(reg), I(i))


def steps(chk, u, cls, frame=False):
    """contracts of the steps before the sampling; they record what was called, with what"""
    S = chk.off(cls, 'S.VortexList') - chk.off('Space', 'VortexList'); SP = padd_off(ptr('X'), I(S)); u.raw('TR0', 64, {40: ('ptr', None), 48: ('ptr', None), 56: ('ptr', None)}, array=False)
    leaves = var('n_LF', 'I'); nO = lambda l: fn('n_O', I(l), sort='I')
    u.region('LF', 'snode', NODE, dims=[leaves]); u.raw('LFp', 8, {0: ('ptr', None)}, [leaves]); u.setoff('LFp', 0, lambda k: ptr('LF', (k,))); u.region('O', 'TObj', OBJ, dims=[leaves, nO], array=True); so = u.decl['O'].stride
    u.setptr('LF', 'vRange.first', lambda l: ptr('O', (l,))); u.setptr('LF', 'vRange.last', lambda l: ptr('O', (l,), nO(l) * so))
    u.raw('BN', 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False); u.setoff('BN', 0, lambda: ptr('LFp')); u.setoff('BN', 8, lambda: ptr('LFp', (), leaves * 8)); u.setoff('BN', 16, lambda: ptr('LFp', (), leaves * 8))
    def solid(E, st, a, i):          # C04
        E.obl.append(('the bodies of the field are asked', st.facts, ct.goal_eq(a[0], SP))); return inside(a[1], a[2])
    def ev(name, *pick):
        def h(E, st, a, i):
            if name == 'build':
                for l in ('HeatList', 'StreakList', 'StreakSourceList'):
                    p = padd_off(SP, I(chk.off('Space', l))); E.obl.append(('only vortices are put into the tree (%s)' % l, st.facts, ct.goal_eq(E.pnorm(st, E.load(st, p, ir.PTR)), E.pnorm(st, E.load(st, padd_off(p, I(8)), ir.PTR)))))
            ct.emit(st, name, *[a[k] for k in pick]); return None
        return h
    u.contracts += [(r'^MFlowmove::vortex_shed\(', ev('shed')), (r'^(stree|TSortedTree)::(stree|TSortedTree)\(', ev('tree', 1, 2, 3, 4)), (r'^(stree|TSortedTree)::build\(', ev('build')), (r'^(stree|TSortedTree)::getBottomNodes\(', lambda E, st, a, i: ptr('BN')),
                    (r'^MEpsilonFast::CalcEpsilonFast\(', ev('smooth', 1)), (r'^MConvectiveFast::process_all_lists\(', ev('convect')), (r'^MDiffusiveFast::process_vort_list\(', ev('diffuse')), (r'^operator delete', lambda E, st, a, i: None),
                    (r'^MEpsilonFast::eps2h\(', lambda E, st, a, i: fn('eps2h', *node_of(a[0]), a[1], a[2])), (r'^MEpsilonFast::h2\(', lambda E, st, a, i: fn('h2', *node_of(a[0]), a[1], a[2])),
                    (r'^(stree|TSortedTree)::findNode\(', lambda E, st, a, i: ptr('LF', (fn('node_at', a[1], a[2], sort='I'),))),
                    (r'^Space::point_is_in_body\(', solid)]
    return SP, leaves, nO


def node_of(p): return p.args[1]
def inside(x, y): return ne(fn('in_body', x, y, sort='I'), I(0))


def grid(u): X = lambda m: u.F('X', m)(); return lambda j, i: (X('xmin') + X('dxdy') * i2r(i), X('ymin') + X('dxdy') * i2r(j))


def vortfield(chk):
    u = funit(chk, 'XVorticity', 'XVorticity', ['h2ERK', 'eps2h', 'vortex_shed', '9vorticity', 'point_is_in_body']); nb, na, n = state(u, 'XVorticity'); SP, leaves, nO = steps(chk, u, 'XVorticity'); X = lambda m: u.F('X', m)(); g = grid(u)
    u.contracts += [(r'^XVorticity::vorticity\(', lambda E, st, a, i: fn('vorticity', *node_of(a[1]), a[2], a[3]))]
    def val(j, i): x, y = g(j, i); return ite(inside(x, y), R(0), fn('vorticity', fn('node_at', x, y, sort='I'), x, y))
    O = lambda m: u.F('O', m); e2 = X('eps_mult') * X('eps_mult')
    def k(l, q): e = fn('eps2h', I(l), O('r.x')(l, q), O('r.y')(l, q)); w = X('dl') * X('dl') * Fr(9, 25); return 1 / (e2 * ite(e < w, w, e))
    ev = [Ev('shed'), Ev('tree', SP, I(8), X('dl') * 20, None), Ev('build')]
    chk.case('vorticity field', u, r'^XVorticity::evaluate\(', [ptr('X')], [nb >= 0, u.nx > 1, u.ny > 1, leaves >= 0, eq(X('evaluated'), I(0))], {('V', 0): val, ('O', 'v.x'): k, ('O', 'v.y'): lambda l, q: k(l, q) * O('g')(l, q), ('X', 'evaluated'): I(1)}, samples=0, exc=X('eps_mult') <= 0, events=ev, merge=False, ignore=[('X', 'S.HeatList'), ('X', '*')])
    done(chk, u, 'vorticity', r'^XVorticity::evaluate\(', {}, X('eps_mult') <= 0, [nb >= 0])


def done(chk, u, name, func, post, bad, pre):
    """a field already evaluated keeps its values"""
    X = lambda m: u.F('X', m)()
    chk.case(name + ' field, already evaluated', u, func, [ptr('X')], pre + [u.nx > 1, u.ny > 1, ne(X('evaluated'), I(0)), X('evaluated') <= 1, X('S.time.timescale') > 0], post, samples=0, exc=bad, events=[], merge=False)


def vorticity(chk):
    u = funit(chk, 'XVorticity', 'XVorticity', ['h2ERK', 'eps2h', 'vortex_shed']); nd = node(u); px, py = var('px'), var('py'); X = lambda m: u.F('X', m)(); O = lambda m: u.F('OV', m)
    def h2(E, st, a, i):
        E.obl.append(('the distance to the wall is asked at the point, for its node', st.facts, And(ct.goal_eq(a[0], ptr('N')), eq(a[1], px), eq(a[2], py)))); return var('h2')
    u.contracts += [(r'^MEpsilonFast::h2\(', h2)]
    def t(a, k):
        dx, dy = px - O('r.x')(a, k), py - O('r.y')(a, k); e = -(dx * dx + dy * dy) * O('v.x')(a, k)
        return ite(e > -6, O('v.y')(a, k) * fn('exp', e), R(0))
    dl = X('dl') * X('eps_mult'); w = var('h2') / (dl * dl)
    ret = SumN(nd['near'], lambda a: SumN(nd['vRange'](a), lambda k: t(a, k))) / PIp + ite(w < 3, (1 - fn('erf', w)) / 2, R(0))
    chk.case('vorticity at a point', u, r'^XVorticity::vorticity\(', [ptr('X'), ptr('N'), px, py], [nd['near'] >= 0], {}, ret=ret, samples=0)


def psi_terms(u, nb, na, px, py, rd2):
    """2 pi times the stream function of the bodies: attached vortices and moving surfaces"""
    A = lambda m: u.F('A', m); B = lambda m: u.F('B', m)
    def vort(x, y, e, g): dx, dy = px - x, py - y; return -g * fn('log', dx * dx + dy * dy + e)
    def seg(b, k):
        ux, uy, w = B('speed_slae.r.x')(b), B('speed_slae.r.y')(b), B('speed_slae.o')(b); ax, ay = B('holder.r.x')(b) + B('dpos.r.x')(b), B('holder.r.y')(b) + B('dpos.r.y')(b)
        x, y, lx, ly = A('r.x')(b, k), A('r.y')(b, k), A('dl.x')(b, k), A('dl.y')(b, k); vx, vy = ux - w * (y - ay), uy + w * (x - ax); g = -(vx * lx + vy * ly); q = -(vx * ly - vy * lx)
        cx, cy, sx, sy = B('_cofm.x')(b) - px, B('_cofm.y')(b) - py, x - px, y - py
        return vort(x, y, rd2, g) / 2 - q * fn('atan2', sx * cy - sy * cx, sx * cx + sy * cy)
    still = lambda b: fabs(B('speed_slae.r.x')(b)) + fabs(B('speed_slae.r.y')(b)) + fabs(B('speed_slae.o')(b)) < R('1e-10')
    att = SumN(nb, lambda b: SumN(na(b), lambda k: vort(A('r.x')(b, k), A('r.y')(b, k), rd2, A('g')(b, k)) / 2))
    mov = SumN(nb, lambda b: ite(still(b), R(0), SumN(na(b), lambda k: seg(b, k))))
    return vort, att + mov


def infinity(u, chk, cls):
    X = lambda m: u.F('X', m)(); t = i2r(X('S.time.value')) / i2r(X('S.time.timescale')); return [fn('eval_X_%d' % chk.off(cls, 'S.inf_v' + c), t) for c in 'xy']


def stream(chk):
    u = funit(chk, 'XStreamfunction', 'XStreamfunction', ['TEval4eval']); nb, na, n = state(u, 'XStreamfunction'); nd = node(u); px, py = var('px'), var('py'); X = lambda m: u.F('X', m)()
    vort, bod = psi_terms(u, nb, na, px, py, X('rd2')); S = lambda m: u.F('SL', m); O = lambda m: u.F('OV', m); F = lambda m: u.F('FN', m); vx, vy = infinity(u, chk, 'XStreamfunction'); u.raw('GAP', 8, {0: ('double', 'gap')}, array=False)
    sink = SumN(n['SourceList'], lambda k: S('g')(k) * fn('atan2', py - S('r.y')(k), px - S('r.x')(k)))
    far = SumN(nd['far'], lambda k: sum((vort(F(c + '.r.x')(k), F(c + '.r.y')(k), X('rd2'), F(c + '.g')(k)) for c in ('CMp', 'CMm')), R(0))) / 2
    near = SumN(nd['near'], lambda a: SumN(nd['vRange'](a), lambda k: vort(O('r.x')(a, k), O('r.y')(a, k), O('v.x')(a, k), O('g')(a, k)))) / 2
    wx, wy = vx - X('ref_frame_speed.x'), vy - X('ref_frame_speed.y'); d = X('dxdy')
    gap = SumN(n['SourceList'], lambda k: ite(And(px < S('r.x')(k), S('r.x')(k) <= px + d, py < S('r.y')(k), S('r.y')(k) <= py + d), S('g')(k), R(0)))
    pre = [nb >= 0, nd['near'] >= 0, nd['far'] >= 0, n['SourceList'] >= 0, X('S.time.timescale') > 0]
    chk.case('stream function at a point', u, r'^XStreamfunction::streamfunction\(snode|^XStreamfunction::streamfunction\(TSortedNode', [ptr('X'), ptr('N'), px, py, ptr('GAP')], pre, {('GAP', 0): lambda: gap}, ret=(bod + sink + far + near) / (2 * PIp) + px * -wy + py * wx, samples=0)


def stream_static(chk):
    """stream function at a point of a given state: no reference frame, all vortices one by one"""

    u = funit(chk, 'XStreamfunction', 'XStreamfunction', ['TEval4eval', 'average_segment_length']); nb, na, n = state(u, 'XStreamfunction'); px, py = var('px'), var('py')
    S = chk.off('XStreamfunction', 'S.VortexList') - chk.off('Space', 'VortexList'); SP = padd_off(ptr('X'), I(S)); dl = var('dl')
    def asl(E, st, a, i): E.obl.append(('the segment length is that of the state', st.facts, ct.goal_eq(a[0], SP))); return dl
    u.contracts += [(r'^Space::average_segment_length\(', asl)]; rd2 = dl * dl / 25
    vort, bod = psi_terms(u, nb, na, px, py, rd2); Sl = lambda m: u.F('SL', m); O = lambda m: u.F('VL', m); vx, vy = infinity(u, chk, 'XStreamfunction')
    sink = SumN(n['SourceList'], lambda k: Sl('g')(k) * fn('atan2', py - Sl('r.y')(k), px - Sl('r.x')(k)))
    vs = SumN(n['VortexList'], lambda k: vort(O('r.x')(k), O('r.y')(k), rd2, O('g')(k))) / 2
    X = lambda m: u.F('X', m)()
    chk.case('stream function of a state at a point', u, r'^XStreamfunction::streamfunction\(Space', [SP, px, py], [nb >= 0, n['SourceList'] >= 0, n['VortexList'] >= 0, X('S.time.timescale') > 0], {}, ret=(bod + sink + vs) / (2 * PIp) - px * vy + py * vx, samples=0)


def frame_speed(u, chk, cls):
    X = lambda m: u.F('X', m)(); B = lambda m: u.F('B', m)(I(0)); fr = X('ref_frame'); inf = infinity(u, chk, cls)
    is_ = lambda c: eq(fr, I(ord(c)))
    return is_, [ite(is_('f'), inf[k], ite(is_('b'), B('speed_slae.r.' + 'xy'[k]), R(0))) for k in (0, 1)]


def streamfield(chk):
    u = funit(chk, 'XStreamfunction', 'XStreamfunction', ['h2ERK', 'eps2h', '14streamfunction', 'TEval4eval', 'emplace_back']); nb, na, n = state(u, 'XStreamfunction'); SP, leaves, nO = steps(chk, u, 'XStreamfunction'); X = lambda m: u.F('X', m)(); g = grid(u)
    def psi(E, st, a, i):
        E.obl.append(('the field itself is asked', st.facts, ct.goal_eq(a[0], ptr('X')))); k = node_of(a[1]) + (a[2], a[3])
        E.store(st, a[4], fn('gapval', *k), ir.DBL); return fn('psival', *k)
    def gap(E, st, a, i):
        ct.emit(st, 'gap', a[0], *[E.load(st, p, t) for p, t in zip(a[1:4], (ir.I32, ir.I32, ir.DBL))]); return None
    u.contracts += [(r'^XStreamfunction::streamfunction\(', psi), (r'emplace_back<int', gap)]
    is_, sp = frame_speed(u, chk, 'XStreamfunction'); dl = X('dl')
    key = lambda j, i: (fn('node_at', *g(j, i), sort='I'),) + tuple(g(j, i)); G = padd_off(ptr('X'), I(chk.off('XField', 'gaps')))
    O = lambda m: u.F('O', m); e2 = X('eps_mult') * X('eps_mult')
    def k(l, q): e = fn('eps2h', I(l), O('r.x')(l, q), O('r.y')(l, q)) / 4; w = dl * dl / 25; return e2 * ite(e < w, w, e)
    ev = [Ev('tree', SP, I(8), ite(dl > 0, dl * 10, R(0)), None), Ev('build'), For(u.ny, lambda j: [For(u.nx, lambda i: [Ev('gap', G, i, j, fn('gapval', *key(j, i)), guard=ne(fn('gapval', *key(j, i)), R(0)))])])]
    bad = Or(X('eps_mult') <= 0, Not(Or(is_('o'), is_('f'), And(is_('b'), nb > 0))))
    pre = [nb >= 0, u.nx > 1, u.ny > 1, leaves >= 0, X('S.time.timescale') > 0]
    fs = {('X', 'ref_frame_speed.x'): sp[0], ('X', 'ref_frame_speed.y'): sp[1]}
    chk.case('stream function field', u, r'^XStreamfunction::evaluate\(', [ptr('X')], pre + [eq(X('evaluated'), I(0))], dict(list(fs.items()) + [(('V', 0), lambda j, i: fn('psival', *key(j, i))), (('O', 'v.x'), k), (('X', 'evaluated'), I(1))]), samples=0, exc=bad, events=ev, merge=False, ignore=[('X', 'S.HeatList'), ('X', '*')])


def flowvel(u, chk, cls):
    """contract of the flow velocity at a point (C12)"""
    def h(E, st, a, i):
        E.obl.append(("the velocity comes from the field's own solver", st.facts, ct.goal_eq(a[0], padd_off(ptr('X'), I(chk.off(cls, 'convective')))))); return fn('u_x', a[1], a[2]), fn('u_y', a[1], a[2])
    u.contracts += [(r'^MConvectiveFast::velocity\(', h)]


def pressure(chk):
    chk.probe([('XPressure', 'convective')]); u = funit(chk, 'XPressure', 'XPressure', ['TEval4eval', '15MConvectiveFast8velocity']); nb, na, n = state(u, 'XPressure'); flowvel(u, chk, 'XPressure'); px, py = var('px'), var('py'); X = lambda m: u.F('X', m)(); A = lambda m: u.F('A', m); B = lambda m: u.F('B', m); O = lambda m: u.F('VL', m)
    vx, vy = infinity(u, chk, 'XPressure'); dt = i2r(X('S.dt.value')) / i2r(X('S.dt.timescale'))
    def K(x, y): dx, dy = px - x, py - y; r2 = dx * dx + dy * dy; return dx / r2, dy / r2
    def mov(b, k):
        ux, uy, w = B('speed_slae.r.x')(b), B('speed_slae.r.y')(b), B('speed_slae.o')(b); ax, ay = B('holder.r.x')(b) + B('dpos.r.x')(b), B('holder.r.y')(b) + B('dpos.r.y')(b)
        x, y, lx, ly = A('r.x')(b, k), A('r.y')(b, k), A('dl.x')(b, k), A('dl.y')(b, k); sx, sy = ux - w * (y - ay), uy + w * (x - ax); g = -(sx * lx + sy * ly); q = -(sx * ly - sy * lx); kx, ky = K(x, y)
        return (kx * q - ky * g) * sx + (ky * q + kx * g) * sy
    def circ(b, k): kx, ky = K(A('r.x')(b, k), A('r.y')(b, k)); return (A('dl.y')(b, k) * kx - A('dl.x')(b, k) * ky) / dt * SumN(k + 1, lambda j: A('gsum')(b, j))
    def vort(k): kx, ky = K(O('r.x')(k), O('r.y')(k)); return O('g')(k) * (O('v.y')(k) * kx - O('v.x')(k) * ky)
    tot = SumN(nb, lambda b: SumN(na(b), lambda k: mov(b, k)) - SumN(na(b), lambda k: circ(b, k))) + SumN(n['VortexList'], vort)
    wx, wy = fn('u_x', px, py), fn('u_y', px, py); fx, fy = X('ref_frame_speed.x'), X('ref_frame_speed.y')
    ret = tot / (2 * PIp) + (vx * vx + vy * vy - wx * wx - wy * wy) / 2 + ite(eq(X('ref_frame'), I(ord('s'))), R(0), ((wx - fx) * (wx - fx) + (wy - fy) * (wy - fy)) / 2)
    chk.case('pressure at a point', u, r'^XPressure::pressure\(', [ptr('X'), px, py], [nb >= 0, n['VortexList'] >= 0, X('S.time.timescale') > 0, X('S.dt.timescale') > 0, X('S.dt.value') > 0], {}, ret=ret, samples=0)


def presfield(chk):
    chk.probe([('XPressure', m) for m in ('convective', 'tree', 'diffusive', 'flowmove', 'eps')])
    u = funit(chk, 'XPressure', 'XPressure', ['vortex_shed', 'CalcEpsilonFast', 'process_all_lists', 'process_vort_list', '5build', '8pressure', 'point_is_in_body', 'TEval4eval']); nb, na, n = state(u, 'XPressure'); X = lambda m: u.F('X', m)(); g = grid(u)
    sub = lambda m: padd_off(ptr('X'), I(chk.off('XPressure', m)))
    def p(E, st, a, i): E.obl.append(('the field itself is asked', st.facts, ct.goal_eq(a[0], ptr('X')))); return fn('pressure', a[1], a[2])
    u.contracts += [(r'^XPressure::pressure\(', p)]; solver(u, chk, 'XPressure')
    is_, sp = frame_speed(u, chk, 'XPressure')
    ev = [Ev('shed', sub('flowmove')), Ev('build', sub('tree')), Ev('smooth', sub('eps'), I(0)), Ev('convect', sub('convective')), Ev('diffuse', sub('diffusive'))]
    def val(j, i): x, y = g(j, i); return ite(inside(x, y), R(0), fn('pressure', x, y))
    bad = Or(X('eps_mult') <= 0, Not(Or(is_('s'), is_('o'), is_('f'), And(is_('b'), nb > 0))))
    fs = [ite(is_('s'), X('ref_frame_speed.' + c), sp[k]) for k, c in enumerate('xy')]
    chk.case('pressure field', u, r'^XPressure::evaluate\(', [ptr('X')], [nb >= 0, u.nx > 1, u.ny > 1, eq(X('evaluated'), I(0)), X('S.time.timescale') > 0], {('V', 0): val, ('X', 'evaluated'): I(1), ('X', 'ref_frame_speed.x'): fs[0], ('X', 'ref_frame_speed.y'): fs[1]}, samples=0, exc=bad, events=ev, merge=False, ignore=[('X', '*')])
    done(chk, u, 'pressure', r'^XPressure::evaluate\(', {('X', 'ref_frame_speed.x'): fs[0], ('X', 'ref_frame_speed.y'): fs[1]}, bad, [nb >= 0])


def solver(u, chk, cls):
    """the solver parts of the field: which one is called is recorded; the bodies asked are the field's own"""
    def ev(name, *pick):
        def h(E, st, a, i): ct.emit(st, name, *[a[k] for k in pick]); return None
        return h
    SP = padd_off(ptr('X'), I(chk.off(cls, 'S.VortexList') - chk.off('Space', 'VortexList')))
    def solid(E, st, a, i): E.obl.append(('the bodies of the field are asked', st.facts, ct.goal_eq(a[0], SP))); return inside(a[1], a[2])      # C04
    def build(E, st, a, i):
        for l in ('HeatList', 'StreakList', 'StreakSourceList'):
            p = padd_off(SP, I(chk.off('Space', l))); E.obl.append(('only vortices are put into the tree (%s)' % l, st.facts, ct.goal_eq(E.pnorm(st, E.load(st, p, ir.PTR)), E.pnorm(st, E.load(st, padd_off(p, I(8)), ir.PTR)))))
        ct.emit(st, 'build', a[0]); return None
    u.contracts += [(r'^MFlowmove::vortex_shed\(', ev('shed', 0)), (r'^(stree|TSortedTree)::build\(', build), (r'^MEpsilonFast::CalcEpsilonFast\(', ev('smooth', 0, 1)), (r'^MConvectiveFast::process_all_lists\(', ev('convect', 0)), (r'^MDiffusiveFast::process_vort_list\(', ev('diffuse', 0)), (r'^Space::point_is_in_body\(', solid)]


def velfield(chk):
    chk.probe([('XVelocity', m) for m in ('convective', 'tree', 'eps')])
    u = funit(chk, 'XVelocity', 'XVelocity', ['CalcEpsilonFast', '5build', '15MConvectiveFast8velocity', 'TEval4eval']); nb, na, n = state(u, 'XVelocity'); flowvel(u, chk, 'XVelocity'); solver(u, chk, 'XVelocity'); X = lambda m: u.F('X', m)(); g = grid(u)
    sub = lambda m: padd_off(ptr('X'), I(chk.off('XVelocity', m))); is_, sp = frame_speed(u, chk, 'XVelocity'); md = lambda c: eq(X('mode'), I(ord(c)))
    ev = [Ev('build', sub('tree')), Ev('smooth', sub('eps'), I(0))]
    def val(j, i): x, y = g(j, i); return ite(md('x'), fn('u_x', x, y) - sp[0], fn('u_y', x, y) - sp[1])
    bad = Or(Not(Or(is_('o'), is_('f'), And(is_('b'), nb > 0))), Not(Or(md('x'), md('y'))))
    chk.case('velocity field', u, r'^XVelocity::evaluate\(', [ptr('X')], [nb >= 0, u.nx > 1, u.ny > 1, eq(X('evaluated'), I(0)), X('S.time.timescale') > 0], {('V', 0): val, ('X', 'evaluated'): I(1)}, samples=0, exc=bad, events=ev, merge=False, ignore=[('X', '*')])
    done(chk, u, 'velocity', r'^XVelocity::evaluate\(', {}, bad, [nb >= 0])
