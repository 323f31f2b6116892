"""Merging."""
from .flowbat import *
from vv.term import *
from vv import native, contract as ct
from .world import *
from .eps import *
from .eps import pass_case


def setup(chk):
    chk.use('space', 'tree')
    chk.group(merge); chk.group(searches); chk.group(lambda c: pass_case(c, 1))
    chk.battery('merging', runner(120, smooth_one(True), 'merging on a random state'), True, 'merging by the real code on random states')
    chk.battery('no merging', runner(40, smooth_one(False), 'smoothing without merging on a random state'), True, 'smoothing with merging off on random states')


def searches(chk):
    for kind, f in (('vRange', 'epsv'), ('hRange', 'epsh')):
        for nan in (True, False): eps_case(chk, kind, f, nan)


def merge(chk):
    u = eunit(chk, ['MergeVortexes']); u.region('V', 'TObj', OBJ); u.region('W', 'TObj', OBJ)
    V = lambda m: u.F('V', m)(); W = lambda m: u.F('W', m)()
    chk.case('merging two particles', u, r'^MEpsilonFast::MergeVortexes\(', [ptr('C'), ptr('V'), ptr('W')], [],
             {('C', 'merged_'): u.F('C', 'merged_')() + 1, ('V', 'r.x'): mergedc(V('g'), W('g'), V('r.x'), W('r.x')), ('V', 'r.y'): mergedc(V('g'), W('g'), V('r.y'), W('r.y')),
              ('V', 'g'): V('g') + W('g'), ('W', 'g'): R(0)})
