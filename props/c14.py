"""Smoothing radii."""
from .flowbat import *
from .eps import qwall, qsecond, eps_case, pass_cases


def setup(chk):
    chk.use('space', 'tree')
    chk.group(qwall); chk.group(qsecond); chk.group(radii); chk.group(pass_cases)
    chk.battery('smoothing', runner(80, smooth_one(None), 'smoothing on a random state'), True, 'smoothing radii, second-neighbour and wall distances computed by the real code on random states')


def radii(chk):
    for kind, f in (('vRange', 'epsv'), ('hRange', 'epsh')): eps_case(chk, kind, f, True)
