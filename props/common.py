"""Memory layouts shared by the contracts."""
from vv.term import *

V3 = ['r.x', 'r.y', 'o']
OBJ = ['r.x', 'r.y', 'g', 'v.x', 'v.y', '_1_eps']
ATT = OBJ + ['corner.x', 'corner.y', 'heat_layer_obj_no', 'heat_const', 'slip', 'dl.x', 'dl.y', 'gsum', 'hsum', 'fric', 'Cp', 'Fr', 'Nu', 'eq_no']
def v3(n): return [n + '.' + x for x in V3]
BODY = sum([v3(x) for x in ('holder', 'dpos', 'kspring', 'damping', 'speed_slae', 'speed_slae_prev', 'collision_min', 'collision_max', 'friction', 'friction_prev', 'force_hydro', 'force_holder', 'fdt_dead')], []) + \
    ['bounce', 'density', 'special_segment_no', 'boundary_condition', 'heat_condition', 'nusselt', 'g_dead', 'eq_forces_no', '_slip', '_slen', '_area', '_cofm.x', '_cofm.y', '_moi_cofm', '_min_disc_r2', '_min_rect_bl.x', '_min_rect_bl.y', '_min_rect_tr.x', '_min_rect_tr.y']


def probe_all(chk):
    chk.probe([('TBody', m) for m in BODY + ['alist', 'heat_layer', 'root_body', 'label']] + [('TAtt', m) for m in ATT] + [('TObj', m) for m in OBJ])


def single_body(u, n, T='T', S='S'):
    """one body T whose segments are the block S[0..n)"""
    u.region(T, 'TBody', BODY)
    u.region(S, 'TAtt', ATT, dims=[n], array=True)
    u.vec(T, 'alist', S, lambda: n, cap=lambda: n + 1)
    return (lambda m: u.F(T, m)()), (lambda m: u.F(S, m))


def FoldOr(n, cond):
    """exists k<n: cond(k), as a fold"""
    k = mk('var', '$fo%d' % fresh(), sort='I'); s = mk('var', '$fs%d' % fresh(), sort='I')
    return ne(Fold(k, n, [s], [I(0)], [ite(cond(I(k)), I(1), I(s))], 0), I(0))


def FoldAnd(n, cond):
    """cond(k) for every k<n, as a fold"""
    k = mk('var', '$fo%d' % fresh(), sort='I'); s = mk('var', '$fs%d' % fresh(), sort='I')
    return ne(Fold(k, n, [s], [I(1)], [I(s) * ind(cond(I(k)), 'I')], 0), I(0))


def FoldMax(n, f, init, less=False):
    k = mk('var', '$fo%d' % fresh(), sort='I'); s = mk('var', '$fs%d' % fresh(), sort='R')
    x = f(I(k)); c = x < R(s) if less else x > R(s)
    return Fold(k, n, [s], [init], [ite(c, x, R(s))], 0)


def SumN(n, f, lo=0):
    k = mk('var', '$sm%d' % fresh(), sort='I')
    return Sum(k, I(lo), n, f(I(k)))


class Gen:
    """structured random states: make(rnd) -> function(name,args,rnd) -> value or None"""
    def __init__(self, make): self.make = make
