"""The equations of the linear system (MConvectiveFast::fill*): one row each, addressed through the address of the unknown."""
from vv.term import *
from vv import native, ir, contract as ct
from .world import *
i2r = ct.i2r
NI = ['getCell', 'getRightCol', '_ZN15MConvectiveFast', '_ZNK15MConvectiveFast', 'TEval4eval', 'findNode', '4lockEv', '7expiredEv', 'inf_speed']


class Rows:
    def __init__(s, chk, lists=('VortexList',), ni=NI):
        probe_world(chk); s.chk = chk; s.m = chk.extract(['libvvhd/src/MConvectiveFast.cpp'], noinline=list(ni)); u = s.u = chk.unit(s.m)
        u.region('C', 'MConvectiveFast', []); u.setptr('C', 'S', lambda: ptr('SP')); s.n = space(u, lists); s.nb, s.na = bodies(u)
        u.region('TR', 'stree', []); u.setptr('C', 'tree', lambda: ptr('TR'))
        s.A = lambda m: u.F('A', m); s.B = lambda m: u.F('B', m); s.SP = lambda m: u.F('SP', m)()
        s.i = var('i_body', 'I'); s.row = var('eq_no', 'I'); s.ro = ne(var('right_only', 'I'), I(0)); s.S = u.decl['A'].stride
        # coefficients of the row, laid out like the unknowns they multiply
        ob = {chk.off('TBody', v + '.' + c): v + '.' + c for v in ('speed_slae', 'force_hydro', 'force_holder') for c in V3}; og = chk.off('TAtt', 'g')
        u.raw('CB', 0, {o: ('double', n) for o, n in ob.items()}, [s.nb], array=False); u.raw('CA', s.S, {og: ('double', 'g')}, [s.nb, s.na]); u.raw('RC', 8, {0: ('double', 'v')}, array=False)
        for o in ob: u.setoff('CB', o, lambda b: R(0))
        u.setoff('CA', og, lambda b, k: R(0)); s.ob = {n: o for o, n in ob.items()}; s.og = og
        s.has = lambda b: ne(fn('n_hasroot', I(b), sort='I'), I(0)); s.root = lambda b: fn('n_root', I(b), sort='I')
        s.t = i2r(s.SP('time.value')) / i2r(s.SP('time.timescale')); s.dt = i2r(s.SP('dt.value')) / i2r(s.SP('dt.timescale'))
        s.pre = [s.nb >= 0, s.i >= 0, s.i < s.nb, s.row >= 0, s.SP('dt.value') > 0, s.SP('dt.timescale') > 0, s.SP('time.timescale') > 0]
        u.contracts = [(r'^Matrix::getCell\(', s.getcell), (r'^Matrix::getRightCol\(', s.getright), (r'^TEval::eval\(', teval), (r'^std::weak_ptr<TBody>::lock\(', s.lock), (r'^std::__weak_ptr<TBody.*>::expired\(', s.expired)]
    def getcell(s, E, st, a, ins):
        E.obl.append(('coefficient of this row', st.facts, eq(a[1], s.row))); q = E.pnorm(st, a[2])
        if q.op == 'ite' or q.op == 'null' or q.op == 'off': E.obl.append(('address of an unknown', st.facts, FALSE)); return ptr('RC')
        reg, idx, off = q.args
        return ptr({'A': 'CA', 'B': 'CB'}[reg], idx, off)
    def getright(s, E, st, a, ins): E.obl.append(('right-hand side of this row', st.facts, eq(a[1], s.row))); return ptr('RC')
    def lock(s, E, st, a, ins):
        b = a[1].args[1][0]; E.store(st, a[0], pite(s.has(b), ptr('B', (s.root(b),)), NULL), ir.PTR); E.store(st, padd_off(a[0], I(8)), NULL, ir.PTR)
        st.assume(Or(Not(s.has(b)), And(s.root(b) >= 0, s.root(b) < s.nb))); return None
    def expired(s, E, st, a, ins): return Not(s.has(a[0].args[1][0]))
    def area(s, b=None): return s.B('_area')(s.i if b is None else b)
    def b(s, m): return s.B(m)(s.i)
    def axis(s, b=None): b = s.i if b is None else b; return (s.B('holder.r.x')(b) + s.B('dpos.r.x')(b), s.B('holder.r.y')(b) + s.B('dpos.r.y')(b))
    def rc(s): ax = s.axis(); return (s.b('_cofm.x') - ax[0], s.b('_cofm.y') - ax[1])
    def moi(s): r = s.rc(); return s.b('_moi_cofm') + (r[0] * r[0] + r[1] * r[1]) * s.area()
    def ev(s, m, b=None): return fn('eval_B_%d' % s.chk.off('TBody', m), I(s.i if b is None else b), s.t)
    def case(s, name, f, right, coef=None, seg=None, extra=(), args=None, pre=()):
        """coef: {unknown: fn(b) or fn(b,k) -> (guard, value)}"""
        coef = coef or {}; post = {('RC', 0): right}
        for n, o in s.ob.items():
            c = coef.get(n)
            post[('CB', o)] = (lambda b, c=c: ite(s.ro, R(0), c(b))) if c else (lambda b: R(0))
        c = coef.get('g'); post[('CA', s.og)] = (lambda b, k: ite(s.ro, R(0), c(b, k))) if c else (lambda b, k: R(0))
        a = [ptr('C'), s.row] + ([seg] if seg is not None else []) + [ptr('B', (s.i,)), s.ro]
        s.chk.case(name, s.u, r'^MConvectiveFast::%s\(' % f, a, s.pre + list(pre), post, samples=0, extra_post=None)
    def own(s, v): return lambda b, *k: ite(eq(I(b), s.i), v(*k) if callable(v) else v, R(0))


E_ = {'r.x': 0, 'r.y': 1}


def special(chk):
    s = Rows(chk); k = var('i_seg', 'I'); seg = ptr('A', (s.i,), k * s.S); seg_pre = [k >= 0, k < s.na(s.i)]
    s.case('zero circulation (Kutta)', 'fillZeroEquationForSegment', R(0), {'g': lambda b, j: ite(And(eq(I(b), s.i), eq(I(j), k)), R(1), R(0))}, seg=seg, pre=seg_pre)
    s.case('steady circulation of a body', 'fillSteadyEquationForSegment', s.b('g_dead') + 2 * s.area() * s.b('speed_slae_prev.o'), {'g': s.own(R(1)), 'speed_slae.o': s.own(2 * s.area())}, seg=seg, pre=seg_pre)
    N = s.n['VortexList']
    s.case('total circulation', 'fillInfSteadyEquationForSegment', -SumN(N, s.u.F('VL', 'g')) - s.SP('inf_g'), {'g': lambda b, j: R(1), 'speed_slae.o': lambda b: 2 * s.B('_area')(b)}, seg=seg, pre=seg_pre + [N >= 0])


def hydro(chk):
    s = Rows(chk, ()); Ar, dt = s.area(), s.dt; rc = s.rc(); co = (s.b('_cofm.x'), s.b('_cofm.y')); P = lambda m: s.b('speed_slae_prev.' + m); w = P('o'); cor = lambda b, k: (s.A('corner.x')(b, k), s.A('corner.y')(b, k))
    for d, X in enumerate(('X', 'Y')):
        m = ('r.x', 'r.y')[d]; q = (-(2 * co[1] + rc[1]), 2 * co[0] + rc[0])[d]
        s.case('fluid impulse ' + X, 'fillHydro%sEquation' % X, Ar / dt * P(m) + Ar / dt * q * w + w * w * Ar * rc[d] - s.b('friction_prev.' + m) + s.b('fdt_dead.' + m) / dt,
               {'g': s.own(lambda k, d=d: (-cor(s.i, k)[1], cor(s.i, k)[0])[d] / dt), 'speed_slae.' + m: s.own(Ar / dt), 'speed_slae.o': s.own(Ar / dt * q), 'force_hydro.' + m: s.own(R(-1))})
    ax = s.axis(); d2 = lambda k: (cor(s.i, k)[0] - ax[0]) * (cor(s.i, k)[0] - ax[0]) + (cor(s.i, k)[1] - ax[1]) * (cor(s.i, k)[1] - ax[1])
    s.case('fluid angular impulse', 'fillHydroOEquation', Ar / dt * (rc[0] * P('r.y') - rc[1] * P('r.x')) + 2 * s.moi() / dt * w - s.b('friction_prev.o') + s.b('fdt_dead.o') / (2 * dt),
           {'g': s.own(lambda k: d2(k) / (2 * dt)), 'speed_slae.r.x': s.own(-Ar / dt * rc[1]), 'speed_slae.r.y': s.own(Ar / dt * rc[0]), 'speed_slae.o': s.own(2 * s.moi() / dt), 'force_hydro.o': s.own(R(-1))})


def newton(chk):
    s = Rows(chk, ()); dt = s.dt; rho = s.b('density'); M = s.area() * rho; rc = s.rc(); P = lambda m: s.b('speed_slae_prev.' + m); w = P('o'); gr = (s.SP('gravity.x'), s.SP('gravity.y')); buoy = (rho - 1) * s.area()
    child = lambda b: And(s.has(b), eq(s.root(b), s.i))
    # mass * (acceleration of the centre of mass) = hydrodynamic + holder forces - children's reactions + weight without buoyancy
    for d, X in enumerate(('X', 'Y')):
        m = ('r.x', 'r.y')[d]; q = (-rc[1], rc[0])[d]
        hold = lambda b: ite(child(b), R(1), R(0)) + ite(eq(I(b), s.i), R(-1), R(0))
        s.case('linear momentum ' + X, 'fillNewton%sEquation' % X, -M / dt * (P(m) + q * w) - M * rc[d] * w * w - buoy * gr[d],
               {'speed_slae.' + m: s.own(-M / dt), 'speed_slae.o': s.own(-M / dt * q), 'force_hydro.' + m: s.own(R(1)), 'force_holder.' + m: hold}, pre=s.noself() if hasattr(s, 'noself') else [Not(child(s.i))])
    ax = s.axis()
    rx = lambda b: s.axis(b)[0] - ax[0]; ry = lambda b: s.axis(b)[1] - ax[1]
    s.case('angular momentum', 'fillNewtonOEquation', -M / dt * (rc[0] * P('r.y') - rc[1] * P('r.x')) - s.moi() * rho / dt * w - buoy * (rc[0] * gr[1] - rc[1] * gr[0]),
           {'speed_slae.r.x': s.own(M / dt * rc[1]), 'speed_slae.r.y': s.own(-M / dt * rc[0]), 'speed_slae.o': s.own(-s.moi() * rho / dt), 'force_hydro.o': s.own(R(1)),
            'force_holder.r.x': lambda b: ite(child(b), -ry(b), R(0)), 'force_holder.r.y': lambda b: ite(child(b), rx(b), R(0)), 'force_holder.o': lambda b: ite(child(b), R(1), R(0)) + s.own(R(-1))(b)}, pre=[Not(child(s.i))])


def motion(chk):
    s = Rows(chk, ())
    for d, X in enumerate(('X', 'Y', 'O')):
        m = V3[d]; e = s.ev('speed_' + X.lower())
        s.case('spring and damper ' + X, 'fillHooke%sEquation' % X, s.b('kspring.' + m) * s.b('dpos.' + m) + (s.ev('force_o') if X == 'O' else R(0)), {'speed_slae.' + m: s.own(-s.b('damping.' + m)), 'force_holder.' + m: s.own(R(1))})
        r = s.root(s.i); isroot = lambda b: And(s.has(s.i), eq(I(b), r)); ax, rx = s.axis(), s.axis(r)
        co = {'speed_slae.' + m: lambda b: ite(eq(I(b), s.i), R(1), ite(isroot(b), R(-1), R(0)))}
        if X != 'O': co['speed_slae.o'] = lambda b, d=d: ite(isroot(b), (ax[1] - rx[1], -(ax[0] - rx[0]))[d], R(0))
        s.case('prescribed speed ' + X, 'fillSpeed%sEquation' % X, e, co, pre=[Or(Not(s.has(s.i)), ne(r, s.i))])
