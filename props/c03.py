"""Kinematics of a motion step."""
from vv.term import *
from vv import native, contract as ct
from .common import *
from . import motionstep
from .stepbat import step_battery

FILLED = ['_slip', '_slen', '_area', '_cofm.x', '_cofm.y', '_moi_cofm', '_min_disc_r2', '_min_rect_bl.x', '_min_rect_bl.y', '_min_rect_tr.x', '_min_rect_tr.y']


def setup(chk):
    chk.use('space', 'flow')
    chk.group(body_move)
    chk.group(motionstep.motion)
    KIN = ('/holder', '/dpos', '/speed_slae', '/corner', '/r.x', '/r.y', '/dl', '_1_eps', '/inf_marker', '/lists')
    chk.battery('motion step', step_battery(lambda p: '/q/' not in p and any(k in p for k in KIN), {}), True, 'one whole motion step of the real code on random states, positions/corners/holders/velocities against the kinematic model')


def geometry_contracts(u, n):
    """callee contracts of the two geometry updates (proved in C02), for one body T with segments S"""
    def upd(E, st, a, ins):
        s0 = st.copy(); c = lambda m, k: ct.cell(E, s0, u, 'S', 'corner.' + m, k)
        nx = lambda m, k: ite(eq(k, n - 1), c(m, I(0)), c(m, k + 1))
        dx, dy = (lambda k: nx('x', k) - c('x', k)), (lambda k: nx('y', k) - c('y', k))
        ct.setall(E, st, u, 'S', 'dl.x', dx, n); ct.setall(E, st, u, 'S', 'dl.y', dy, n)
        ct.setall(E, st, u, 'S', 'r.x', lambda k: (nx('x', k) + c('x', k)) / 2, n); ct.setall(E, st, u, 'S', 'r.y', lambda k: (nx('y', k) + c('y', k)) / 2, n)
        ct.setall(E, st, u, 'S', '_1_eps', lambda k: 3 / sqrt(dx(k) * dx(k) + dy(k) * dy(k)), n)
        return None
    def fill(E, st, a, ins):
        k = I(mk('var', '$g%d' % fresh(), sort='I')); fs = st.facts
        s2 = st.copy(); s2.assume(k >= 0); s2.assume(k < n)
        c = lambda m, j: ct.cell(E, s2, u, 'S', 'corner.' + m, j)
        for x in 'xy':
            E.obl.append(('geometry refreshed from the current corners before the derived properties (%s)' % x, s2.facts, ct.goal_eq(ct.cell(E, s2, u, 'S', 'dl.' + x, k), ite(eq(k, n - 1), c(x, I(0)), c(x, k + 1)) - c(x, k))))
        st.ghost['fill'] = (k, tuple(ct.cell(E, s2, u, 'S', m, k) for m in ('corner.x', 'corner.y', 'dl.x', 'dl.y', 'r.x', 'r.y', 'slip')))
        for m in FILLED: ct.havoc(E, st, u, 'T', m, '!filled')
        return None
    return [(r'^TBody::doUpdateSegments\(', upd), (r'^TBody::doFillProperties\(', fill)]


def fresh_props(u, n):
    """extra postcondition: the derived properties were computed last, on the final geometry"""
    def post(E, s, v):
        g = s.ghost.get('fill')
        if not g: return [('derived properties recomputed', s.facts, FALSE)]
        k, old = g; s2 = s.copy(); s2.assume(k >= 0); s2.assume(k < n)
        return [('derived properties belong to the final geometry (%s)' % m, s2.facts, ct.goal_eq(ct.cell(E, s2, u, 'S', m, k), o)) for m, o in zip(('corner.x', 'corner.y', 'dl.x', 'dl.y', 'r.x', 'r.y', 'slip'), old)]
    return post


def body_move(chk):
    from .c02 import NOIN
    probe_all(chk); chk.probe([('TVec3D', m) for m in V3])
    m = chk.extract(['libvvhd/src/TBody.cpp'], noinline=NOIN)
    u = chk.unit(m); n = var('n', 'I')
    T, S = single_body(u, n)
    u.region('H', 'TVec3D', V3); u.region('D', 'TVec3D', V3)
    H, D = (lambda m: u.F('H', m)()), (lambda m: u.F('D', m)())
    u.contracts = geometry_contracts(u, n)
    ax, ay = T('holder.r.x') + T('dpos.r.x'), T('holder.r.y') + T('dpos.r.y')
    c, s = fn('cos', D('o')), fn('sin', D('o'))
    X = lambda i: ax + D('r.x') + (S('corner.x')(i) - ax) * c - (S('corner.y')(i) - ay) * s
    Y = lambda i: ay + D('r.y') + (S('corner.x')(i) - ax) * s + (S('corner.y')(i) - ay) * c
    nX, nY = (lambda i: ite(eq(i, n - 1), X(I(0)), X(i + 1))), (lambda i: ite(eq(i, n - 1), Y(I(0)), Y(i + 1)))
    post = {('S', 'corner.x'): X, ('S', 'corner.y'): Y,
            ('S', 'dl.x'): lambda i: nX(i) - X(i), ('S', 'dl.y'): lambda i: nY(i) - Y(i),
            ('S', 'r.x'): lambda i: (nX(i) + X(i)) / 2, ('S', 'r.y'): lambda i: (nY(i) + Y(i)) / 2,
            ('S', '_1_eps'): lambda i: 3 / sqrt((nX(i) - X(i)) * (nX(i) - X(i)) + (nY(i) - Y(i)) * (nY(i) - Y(i)))}
    for k in V3:
        post[('T', 'holder.' + k)] = T('holder.' + k) + H(k)
        post[('T', 'dpos.' + k)] = T('dpos.' + k) + D(k) - H(k)
        post[('T', 'speed_slae_prev.' + k)] = T('speed_slae.' + k)
    args = [ptr('T'), native.Byval('H', 24), native.Byval('D', 24)]
    chk.case('rigid motion of a body', u, r'^TBody::move\(', args, [n >= 1], post, ignore=[('T', x) for x in FILLED], extra_post=fresh_props(u, n))
