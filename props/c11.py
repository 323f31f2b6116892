"""Travel limits."""
from vv.term import *
from vv import native, contract as ct
from .common import *
from . import motionstep
from .stepbat import step_battery
from .flowbat import runner, system_one
from .rows import motion


def setup(chk):
    chk.use('space', 'flow', 'tree')
    chk.group(motion)
    chk.group(motionstep.contact)
    f = lambda p: '/q/' not in p and (p.endswith(('/holder.x', '/holder.y', '/holder.o', '/dpos.x', '/dpos.y', '/dpos.o', '/inf_marker.x', '/inf_marker.y')) or p.startswith('/lists[4]'))
    chk.battery('motion step', step_battery(f, {'coll': True}, n=250, nv=2), True, 'one motion step of the real code with random limits, springs and speeds: step shortening and reported contact')
    chk.battery('linear system after a contact', runner(60, lambda lib, r: system_one(lib, r, True), 'linear system of a random state with a contact'), True, 'linear systems assembled by the real code with a degree of freedom stopped at, or leaving, its limit')
