"""Diffusion velocity and friction."""
from vv.term import *
from vv import native, contract as ct
from .world import *
from . import flowbat as fb


def setup(chk):
    chk.use('space', 'tree')
    chk.group(pair); chk.group(wall); chk.group(vort); chk.group(heat)
    chk.battery('diffusion', fb.runner(80, fb.diffuse_one, 'diffusion of a random state'), True, 'diffusion velocities and friction by the real code on random states')


def sgn(x): return ite(x > 0, R(1), ite(x < 0, R(-1), R(0)))
def dunit(chk, ni):
    probe_world(chk); chk.probe([('MDiffusiveFast', 'S'), ('MDiffusiveFast', 'tree')])
    m = chk.extract(['libvvhd/src/MDiffusiveFast.cpp'], noinline=ni, types=[('MDiffusiveFast', 'MDiffusiveFast.hpp')])
    u = chk.unit(m); u.region('C', 'MDiffusiveFast', []); u.setptr('C', 'S', lambda: ptr('SP')); u.setptr('C', 'tree', lambda: ptr('TR')); return u


def near_terms(x, y, g, e, qx, qy, qg):
    """contribution of one near particle (strength qg at qx,qy) to (S2x, S2y, S1) of a particle at x,y"""
    dx, dy = x - qx, y - qy; d = sqrt(dx * dx + dy * dy)
    skip = Or(ne(sgn(g), sgn(qg)), fabs(dx) + fabs(dy) < R('1e-10'), -d * e < -8)
    w = qg * fn('exp', -d * e)
    return [ite(skip, R(0), t) for t in (dx * w / d, dy * w / d, w)]


def wall_terms(x, y, e, sx, sy, lx, ly):
    """contribution of one near wall segment to (S3x, S3y, S0)"""
    dx, dy = x - sx, y - sy; d2 = dx * dx + dy * dy; d = sqrt(d2); skip = -d * e < -8; E = fn('exp', -d * e)
    return [ite(skip, R(0), t) for t in (-ly * E, lx * E, (d * e + 1) / d2 * (dy * lx - dx * ly) * E)]


def wall_fric(x, y, g, e, sx, sy, lx, ly):
    dx, dy = x - sx, y - sy; d = sqrt(dx * dx + dy * dy)
    return ite(-d * e < -8, R(0), e * e * g * fn('exp', -d * e) * sqrt(lx * lx + ly * ly))


def pair(chk):
    u = dunit(chk, ['vortex_influence', 'segment_influence']); u.region('V', 'TObj', OBJ); u.region('J', 'TObj', OBJ); u.region('I2', 'TVec', ['x', 'y']); u.raw('I1', 8, {0: ('double', 'i1')}, array=False)
    V = lambda m: u.F('V', m)(); J = lambda m: u.F('J', m)(); a, b, c = near_terms(V('r.x'), V('r.y'), V('g'), V('_1_eps'), J('r.x'), J('r.y'), J('g'))
    chk.case('one near particle', u, r'^MDiffusiveFast::vortex_influence\(', [ptr('C'), ptr('V'), ptr('J'), ptr('I2'), ptr('I1')], [V('_1_eps') > 0],
             {('I2', 'x'): u.F('I2', 'x')() + a, ('I2', 'y'): u.F('I2', 'y')() + b, ('I1', 0): u.F('I1', 0)() + c}, gen=gcl, samples=0)


def wall(chk):
    for cf in (0, 1):
        u = dunit(chk, ['vortex_influence', 'segment_influence']); u.region('V', 'TObj', OBJ); u.region('A', 'TAtt', ATT); u.region('I3', 'TVec', ['x', 'y']); u.raw('I0', 8, {0: ('double', 'i0')}, array=False)
        V = lambda m: u.F('V', m)(); A = lambda m: u.F('A', m)(); q = (A('r.x'), A('r.y'), A('dl.x'), A('dl.y')); a, b, c = wall_terms(V('r.x'), V('r.y'), V('_1_eps'), *q)
        post = {('I3', 'x'): u.F('I3', 'x')() + a, ('I3', 'y'): u.F('I3', 'y')() + b, ('I0', 0): u.F('I0', 0)() + c}
        if cf: post[('A', 'fric')] = A('fric') + wall_fric(V('r.x'), V('r.y'), V('g'), V('_1_eps'), *q)
        chk.case('one near wall segment' + (' with friction' if cf else ''), u, r'^MDiffusiveFast::segment_influence\(', [ptr('C'), ptr('V'), ptr('A'), ptr('I3'), ptr('I0'), Bool(cf)], [V('_1_eps') > 0], post, gen=gcl, samples=0)


def gcl(name, a, r):
    if name.endswith('_1_eps'): return r.choice([0.5, 1, 3., 12.])
    if name.endswith(('.g', '_g')) and r.random() < .3: return 0
    return None


def fields(u):
    O = lambda m: u.F('O', m); Q = lambda m: u.F('Q', m); A = lambda m: u.F('A', m); return O, Q, A


def process(chk, name, rng, heat):
    u = dunit(chk, []); u.region('SP', 'Space', SPACE); u.region('TR', 'stree', []); nl, nO, nn, nQ, nA = nearleaves(u, rng)
    u.vec('TR', 'bottomNodes', 'LFp', lambda: nl); O, Q, A = fields(u)
    u.contracts = [(r'^(TSortedTree|stree)::getBottomNodes\(', lambda E, st, a, ins: padd_off(a[0], I(chk.off('stree', 'bottomNodes'))))]
    re, pr = u.F('SP', 're')(), u.F('SP', 'pr')()
    def me(l, k): return O('r.x')(l, k), O('r.y')(l, k), O('g')(l, k), O('_1_eps')(l, k)
    def S(l, k, i):
        x, y, g, e = me(l, k)
        return SumN(nn(l), lambda a: SumN(nQ(l, a), lambda j: ite(eq(Q('g')(l, a, j), R(0)), R(0), near_terms(x, y, g, e, Q('r.x')(l, a, j), Q('r.y')(l, a, j), Q('g')(l, a, j))[i])))
    def W(l, k, i):
        x, y, g, e = me(l, k)
        return SumN(nn(l), lambda a: SumN(nA(l, a), lambda j: wall_terms(x, y, e, A('r.x')(l, a, j), A('r.y')(l, a, j), A('dl.x')(l, a, j), A('dl.y')(l, a, j))[i]))
    def vel(c):
        def f(l, k):
            x, y, g, e = me(l, k); s1 = S(l, k, 2); s1 = ite(Or(ne(sgn(s1), sgn(g)), fabs(s1) < fabs(g / 10)), g / 10, s1); s0 = W(l, k, 2)
            if heat: dv = (e * S(l, k, c) + W(l, k, c)) / (s1 + s0 / (e * e)) / (pr * re)
            else: dv = e / (re * s1) * S(l, k, c) + e * e / (re * (2 * PIp - ite(s0 > PIp, PIp, s0))) * W(l, k, c)
            v = O('v.xy'[:2] + 'xy'[c])(l, k); return ite(eq(g, R(0)), v, v + dv)
        return f
    post = {('O', 'v.x'): vel(0), ('O', 'v.y'): vel(1)}
    if not heat:
        def fric(l, a, j):
            def one(k):
                x, y, g, e = me(l, k); return ite(eq(g, R(0)), R(0), wall_fric(x, y, g, e, A('r.x')(l, a, j), A('r.y')(l, a, j), A('dl.x')(l, a, j), A('dl.y')(l, a, j)))
            return A('fric')(l, a, j) + SumN(nO(l), one)
        post[('A', 'fric')] = fric
    chk.case(name, u, r'^MDiffusiveFast::process_%s_list\(' % ('heat' if heat else 'vort'), [ptr('C')], [nl >= 0], post, gen=gcl, tol=1e-7, samples=15)


def vort(chk): process(chk, 'diffusion of all vortices', 'vRange', False)
def heat(chk): process(chk, 'diffusion of all heat particles', 'hRange', True)
