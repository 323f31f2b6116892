"""Symbolic memory layouts of the flow state used by the contracts: Space, its lists and bodies, and a tree node with
arbitrarily many near and far nodes of arbitrarily many particles each."""
from vv.term import *
from vv import native, contract as ct
from .common import *

TIMES = ['time', 'dt', 'dt_save', 'dt_streak', 'dt_profile']
SPACE = ['re', 'pr', 'inf_g', 'inf_marker.x', 'inf_marker.y', 'gravity.x', 'gravity.y', 'finish'] + [t + '.' + k for t in TIMES for k in ('value', 'timescale')]
NODE = ['x', 'y', 'h', 'w'] + [c + '.' + m for c in ('CMp', 'CMm') for m in OBJ]
LISTS = {'VortexList': 'VL', 'HeatList': 'HL', 'SourceList': 'SL', 'StreakList': 'KL', 'StreakSourceList': 'KS'}


def probe_world(chk):
    probe_all(chk)
    chk.probe([('Space', m) for m in SPACE + ['BodyList', 'inf_vx', 'inf_vy'] + list(LISTS)] + [('snode', m) for m in NODE + ['NearNodes', 'FarNodes', 'bllist', 'ch1', 'ch2', 'vRange.first', 'vRange.last', 'hRange.first', 'hRange.last', 'sRange.first', 'sRange.last', 'parent']]
              + [('MConvectiveFast', m) for m in ('S', 'tree', 'matrix')] + [('TVec', 'x'), ('TVec', 'y'), ('stree', 'rootNode'), ('stree', 'S'), ('stree', 'bottomNodes'), ('stree', 'farCriteria'), ('stree', 'minNodeSize'), ('stree', 'maxNodeSize')])


def space(u, lists=('SourceList',), name='SP'):
    """Space with the given particle lists; n<list> = symbolic length"""
    u.region(name, 'Space', SPACE)
    n = {}
    for l in lists:
        r = LISTS[l]; n[l] = var('n_' + r, 'I')
        u.region(r, 'TObj', OBJ, dims=[n[l]], array=True)
        u.vec(name, l, r, lambda nn=n[l]: nn)
    return n


def bodies(u, sp='SP', name='B', seg='A', nb=None):
    """BodyList of nb bodies, body b with na(b) segments"""
    nb = nb if nb is not None else var('n_b', 'I')
    na = lambda b: fn('n_a', I(b), sort='I')
    u.raw('BL', 16, {0: ('ptr', None), 8: ('ptr', None)}, [nb])
    u.setoff('BL', 0, lambda k: ptr(name, (k,)))
    u.setoff('BL', 8, lambda k: NULL)
    u.vec(sp, 'BodyList', 'BL', lambda: nb)
    u.region(name, 'TBody', BODY, dims=[nb])
    u.region(seg, 'TAtt', ATT, dims=[nb, na], array=True)
    u.vec(name, 'alist', seg, na, cap=lambda b: na(b) + 1)
    return nb, na


def node(u, name='N', near=None, far=None, ranges=('vRange',), pre=''):
    """a tree node with lists of near nodes NN (each with particle ranges) and far nodes FN"""
    u.region(name, 'snode', NODE)
    out = {}
    for kind, lst, reg in (('near', 'NearNodes', 'NN'), ('far', 'FarNodes', 'FN')):
        cnt = var('n_' + kind, 'I'); out[kind] = cnt
        u.region(reg, 'snode', NODE, dims=[cnt])
        u.raw(reg + 'p', 8, {0: ('ptr', None)}, [cnt]); u.setoff(reg + 'p', 0, lambda k, reg=reg: ptr(reg, (k,)))
        u.raw(reg + 'v', 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False)
        u.setoff(reg + 'v', 0, lambda reg=reg: ptr(reg + 'p', ())); u.setoff(reg + 'v', 8, lambda reg=reg, c=cnt: ptr(reg + 'p', (), c * 8)); u.setoff(reg + 'v', 16, lambda reg=reg, c=cnt: ptr(reg + 'p', (), c * 8))
        u.setptr(name, lst, lambda reg=reg: ptr(reg + 'v'))
    for rg in ranges:
        r = {'vRange': 'OV', 'hRange': 'OH', 'sRange': 'OS'}[rg]
        m = lambda k, r=r: fn('n_' + r, I(k), sort='I')
        u.region(r, 'TObj', OBJ, dims=[out['near'], m], array=True); S = u.decl[r].stride
        u.setptr('NN', rg + '.first', lambda k, r=r: ptr(r, (k,))); u.setptr('NN', rg + '.last', lambda k, r=r, m=m, S=S: ptr(r, (k,), m(k) * S))
        out[rg] = m
    return out


def vecarg(u, name='p'):
    """a TVec passed by reference"""
    u.region(name, 'TVec', ['x', 'y'])
    return ptr(name), u.F(name, 'x')(), u.F(name, 'y')()


# ---- assumed contracts on functions outside the module
def teval(E, st, a, ins):
    """TEval::eval(t): a pure function of the expression and the time (C20)"""
    reg, idx, off = a[0].args
    return fn('eval_%s_%s' % (reg, off), *(list(idx) + [a[1]]))


P2 = 2 * PIp


def leafset(u, far=True, near=False, ranges=('vRange', 'hRange', 'sRange')):
    """n leaves LF, each with its own far nodes FN(l,k) and its own particle ranges"""
    nl = var('n_LF', 'I'); nf = lambda l: fn('n_FN', I(l), sort='I'); nr = {}
    u.region('LF', 'snode', NODE, dims=[nl]); u.raw('LFp', 8, {0: ('ptr', None)}, [nl]); u.setoff('LFp', 0, lambda k: ptr('LF', (k,)))
    u.region('FN', 'snode', NODE, dims=[nl, nf]); u.raw('FNp', 8, {0: ('ptr', None)}, [nl, nf]); u.setoff('FNp', 0, lambda l, k: ptr('FN', (l, k)))
    u.raw('FNv', 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, [nl], array=False)
    u.setoff('FNv', 0, lambda l: ptr('FNp', (l,))); u.setoff('FNv', 8, lambda l: ptr('FNp', (l,), nf(l) * 8)); u.setoff('FNv', 16, lambda l: ptr('FNp', (l,), nf(l) * 8))
    u.setptr('LF', 'FarNodes', lambda l: ptr('FNv', (l,)))
    for rg in ranges:
        r = {'vRange': 'OV', 'hRange': 'OH', 'sRange': 'OS'}[rg]; m = lambda l, r=r: fn('n_' + r, I(l), sort='I'); nr[rg] = m
        u.region(r, 'TObj', OBJ, dims=[nl, m], array=True); S = u.decl[r].stride
        u.setptr('LF', rg + '.first', lambda l, r=r: ptr(r, (l,))); u.setptr('LF', rg + '.last', lambda l, r=r, m=m, S=S: ptr(r, (l,), m(l) * S))
    return nl, nf, nr


def nearleaves(u, rng='vRange', bll=True, seg='A'):
    """n leaves LF; leaf l has its own particles O(l,k) and near nodes NN(l,a) with particles Q(l,a,k) (the near nodes are a read view of
    the leaves: writers of O touch no member read through Q) and wall segments A(l,a,k) through their pointer lists"""
    nl = var('n_LF', 'I'); nO = lambda l: fn('n_O', I(l), sort='I'); nn = lambda l: fn('n_NN', I(l), sort='I'); nQ = lambda l, a: fn('n_Q', I(l), I(a), sort='I'); nA = lambda l, a: fn('n_A', I(l), I(a), sort='I')
    u.region('LF', 'snode', NODE, dims=[nl]); u.raw('LFp', 8, {0: ('ptr', None)}, [nl]); u.setoff('LFp', 0, lambda k: ptr('LF', (k,)))
    u.region('O', 'TObj', OBJ, dims=[nl, nO], array=True); S = u.decl['O'].stride
    u.setptr('LF', rng + '.first', lambda l: ptr('O', (l,))); u.setptr('LF', rng + '.last', lambda l: ptr('O', (l,), nO(l) * S))
    u.region('NN', 'snode', NODE, dims=[nl, nn]); u.raw('NNp', 8, {0: ('ptr', None)}, [nl, nn]); u.setoff('NNp', 0, lambda l, a: ptr('NN', (l, a)))
    u.raw('NNv', 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, [nl], array=False)
    u.setoff('NNv', 0, lambda l: ptr('NNp', (l,))); u.setoff('NNv', 8, lambda l: ptr('NNp', (l,), nn(l) * 8)); u.setoff('NNv', 16, lambda l: ptr('NNp', (l,), nn(l) * 8))
    u.setptr('LF', 'NearNodes', lambda l: ptr('NNv', (l,)))
    u.region('Q', 'TObj', OBJ, dims=[nl, nn, nQ], array=True)
    u.setptr('NN', rng + '.first', lambda l, a: ptr('Q', (l, a))); u.setptr('NN', rng + '.last', lambda l, a: ptr('Q', (l, a), nQ(l, a) * S))
    if bll:
        u.region(seg, 'TAtt', ATT, dims=[nl, nn, nA])
        u.raw('BLp', 8, {0: ('ptr', None)}, [nl, nn, nA]); u.setoff('BLp', 0, lambda l, a, k: ptr(seg, (l, a, k)))
        u.vec('NN', 'bllist', 'BLp', nA)
    return nl, nO, nn, nQ, nA
