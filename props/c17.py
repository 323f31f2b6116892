"""Forces, resets, numbering and integrals."""
from vv.term import *
from vv import native, contract as ct
from .common import *
from .world import *
i2r = ct.i2r


def setup(chk):
    chk.use('space', 'flow')
    chk.group(forces); chk.group(reset); chk.group(numbering); chk.group(integrals); chk.group(speeds)


def sunit(chk, ni=(), files=('libvvhd/src/TSpace.cpp',)):
    probe_world(chk); m = chk.extract(list(files), noinline=list(ni)); return chk.unit(m)


def setup_space(u, lists=()):
    n = space(u, lists); nb, na = bodies(u); return n, nb, na, [nb >= 0]


def forces(chk):
    u = sunit(chk); n, nb, na, pre = setup_space(u); SP = lambda m: u.F('SP', m)(); A = lambda m: u.F('A', m); B = lambda m: u.F('B', m)
    dt = i2r(SP('dt.value')) / i2r(SP('dt.timescale')); re, pr = SP('re'), SP('pr')
    pre += [ne(SP('dt.value'), I(0)), ne(SP('dt.timescale'), I(0)), ne(re, R(0))]
    ln = lambda b, k: sqrt(A('dl.x')(b, k) * A('dl.x')(b, k) + A('dl.y')(b, k) * A('dl.y')(b, k))
    fs = lambda b, k: A('fric')(b, k) / (PIp * re * ln(b, k))
    post = {('A', 'Cp'): lambda b, k: A('Cp')(b, k) + SumN(k + 1, lambda j: A('gsum')(b, j)),
            ('A', 'Fr'): lambda b, k: A('Fr')(b, k) + A('fric')(b, k) * dt / (PIp * re),
            ('A', 'Nu'): lambda b, k: A('Nu')(b, k) + A('hsum')(b, k) * re * pr / ln(b, k),
            ('B', 'friction.r.x'): lambda b: -SumN(na(b), lambda k: A('dl.x')(b, k) * fs(b, k)),
            ('B', 'friction.r.y'): lambda b: -SumN(na(b), lambda k: A('dl.y')(b, k) * fs(b, k)),
            ('B', 'friction.o'): lambda b: -SumN(na(b), lambda k: (A('r.x')(b, k) * A('dl.y')(b, k) - A('r.y')(b, k) * A('dl.x')(b, k)) * fs(b, k)),
            ('B', 'nusselt'): lambda b: (B('nusselt')(b) + SumN(na(b), lambda k: A('hsum')(b, k) * re * pr)) / dt}
    chk.case('profiles and friction', u, r'^Space::calc_forces\(', [ptr('SP')], pre, post)


def reset(chk):
    u = sunit(chk); n, nb, na, pre = setup_space(u); B = lambda m: u.F('B', m)
    post = {('A', m): (lambda b, k: R(0)) for m in ('gsum', 'fric', 'hsum')}; post[('A', 'heat_layer_obj_no')] = lambda b, k: I(-1)
    for v in ('force_hydro', 'force_holder', 'friction', 'fdt_dead'):
        for m in v3(v): post[('B', m)] = lambda b: R(0)
    for m in V3: post[('B', 'friction_prev.' + m)] = lambda b, m=m: B('friction.' + m)(b)
    post[('B', 'g_dead')] = lambda b: R(0); post[('B', 'nusselt')] = lambda b: R(0)
    chk.case('reset of the step accumulators', u, r'^Space::zero_forces\(', [ptr('SP')], pre, post)


def numbering(chk):
    u = sunit(chk); n, nb, na, pre = setup_space(u)
    start = lambda b: SumN(b, lambda j: na(j) + 9)
    chk.case('numbering of equations', u, r'^Space::EnumerateBodies\(', [ptr('SP')], pre, {('A', 'eq_no'): lambda b, k: start(b) + k, ('B', 'eq_forces_no'): lambda b: start(b) + na(b)})


WRAP = '''
#include "TSpace.hpp"
extern "C" double w_integral(Space* s){ return s->integral(); }
extern "C" double w_gsum(Space* s){ return s->gsum(); }
extern "C" double w_gmax(Space* s){ return s->gmax(); }
extern "C" double w_hm_x(Space* s){ return s->hydrodynamic_momentum().x; }
extern "C" double w_hm_y(Space* s){ return s->hydrodynamic_momentum().y; }
extern "C" double w_avseg(Space* s){ return s->average_segment_length(); }
extern "C" size_t w_nseg(Space* s){ return s->total_segment_count(); }
extern "C" void w_zero_speed(Space* s){ s->zero_speed(); }
'''


def integrals(chk):
    probe_world(chk); m = chk.extract([chk.wrapfile(WRAP)]); u = chk.unit(m); n, nb, na, pre = setup_space(u, ('VortexList',)); V = lambda m: u.F('VL', m); N = n['VortexList']; pre.append(N >= 0)
    def q(f, spec, ret='double', p=()): chk.case('query ' + f[2:], u, f, [ptr('SP')], pre + list(p), {}, ret=spec, native={'ret': ret}, samples=8)
    q('w_integral', SumN(N, lambda k: V('g')(k) * (V('r.x')(k) * V('r.x')(k) + V('r.y')(k) * V('r.y')(k))))
    q('w_gsum', SumN(N, V('g')))
    k = mk('var', '$fo%d' % fresh(), sort='I'); s = mk('var', '$fs%d' % fresh(), sort='R'); g = V('g')(I(k))
    q('w_gmax', Fold(k, N, [s], [R(0)], [ite(fabs(g) > fabs(R(s)), g, R(s))], 0))
    q('w_hm_x', SumN(N, lambda k: V('g')(k) * V('r.x')(k))); q('w_hm_y', SumN(N, lambda k: V('g')(k) * V('r.y')(k)))
    n0 = na(I(0)); q('w_avseg', ite(Or(eq(nb, I(0)), n0 <= 1), R(0), u.F('B', '_slen')(I(0)) / i2r(n0 - 1)))
    q('w_nseg', SumN(nb, na), 'size_t')


def speeds(chk):
    probe_world(chk); m = chk.extract([chk.wrapfile(WRAP)]); u = chk.unit(m); n, nb, na, pre = setup_space(u, ('VortexList', 'HeatList')); pre += [n['VortexList'] >= 0, n['HeatList'] >= 0]
    chk.case('clearing of particle velocities', u, 'w_zero_speed', [ptr('SP')], pre, {(r, c): (lambda k: R(0)) for r in ('VL', 'HL') for c in ('v.x', 'v.y')})
