"""The assembled linear system."""
from .flowbat import *
from .rows import special, hydro, newton, motion


def setup(chk):
    chk.use('space', 'tree')
    for g in (special, hydro, newton, motion): chk.group(g)
    chk.battery('linear system', runner(120, system_one, 'linear system of a random state'), True, 'linear systems assembled by the real code for random states, recorded where they reach LAPACK and compared equation by equation')
