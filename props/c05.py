"""Circulation bookkeeping."""
from vv.term import *
from vv import native, ir, contract as ct
from vv.contract import Ev, For
from .common import *
from .world import *
from . import motionstep, stepbat
from .stepbat import step_battery, shed_battery


def setup(chk):
    chk.use('space', 'flow')
    chk.group(shed)
    chk.group(motionstep.removal)
    KEYS = ('/gsum', '/g_dead', '/fdt_dead', '/lists', "/g'", '/a[')
    f = lambda p: '/q/' not in p and (p.endswith(('/gsum', '/g_dead', '/fdt_dead.x', '/fdt_dead.y', '/fdt_dead.o', '/g', '/hsum')) or p.startswith('/lists[0]') or p in ('/lists[%d]' % k for k in (stepbat.HEAT, stepbat.STREAK)))
    chk.battery('shedding', shed_battery(), True, 'vortex shedding of the real code on random states against the bookkeeping model')
    chk.battery('motion step', step_battery(f, {'cleaned': True}, rev=0.0, springs=False), True, 'removal and charging of circulation in one motion step of the real code on random states')


def pushed(u, reg='TObj'):
    """std::vector<TObj>::push_back / emplace_back: appends a copy of the argument (assumed contract, recorded as an event)"""
    def h(E, st, a, ins):
        ct.emit(st, 'append', a[0], *[E.load(st, padd_off(a[1], I(u.chk.off('TObj', m))), ir.DBL) for m in OBJ]); return None
    return (r'^(void |TObj& )?std::vector<TObj.*>::(push_back|emplace_back)', h)


def shed(chk):
    probe_world(chk); chk.probe([('MFlowmove', m) for m in ('S', 'remove_eps')])
    m = chk.extract(['libvvhd/src/MFlowmove.cpp'], noinline=['push_back', 'emplace_back'], types=[('MFlowmove', 'MFlowmove.hpp')])
    u = chk.unit(m); u.region('FM', 'MFlowmove', ['remove_eps']); u.region('SP', 'Space', SPACE); u.setptr('FM', 'S', lambda: ptr('SP')); nb, na = bodies(u); A = lambda m: u.F('A', m); eps = u.F('FM', 'remove_eps')()
    u.contracts = [pushed(u)]
    def ev(b, k):
        return [Ev('append', ptr('SP', (), chk.off('Space', 'VortexList')), A('corner.x')(b, k) - A('dl.y')(b, k) * R('1e-4'), A('corner.y')(b, k) + A('dl.x')(b, k) * R('1e-4'), A('g')(b, k), R(0), R(0), R(0),
                   guard=And(fabs(A('g')(b, k)) >= eps, eq(A('slip')(b, k), I(0))))]
    chk.case('shedding', u, r'^MFlowmove::vortex_shed\(', [ptr('FM')], [nb >= 0], {('A', 'gsum'): lambda b, k: A('gsum')(b, k) + A('g')(b, k)}, events=[For(nb, lambda b: [For(na(b), lambda k: ev(b, k))])], samples=0)
