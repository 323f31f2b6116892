"""One motion step (MFlowmove::move_and_clean) as a whole: contact search, displacements of all bodies through their roots, motion of particles, removal."""
import re
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.cuts import Inv
from vv.sym import JOINED
from .world import *
from .common import *
from vv.contract import goal_eq, with_facts
from vv.term import fresh

NI = ['erase', '_M_erase', 'isPointInvalid', 'isPointInHeatLayer', 'point_is_in_body', '_ZN5TBody4moveE', '_ZNSt3map', 'get_axis', '_ZNK5TBody5speedE', '4lockEv', '_ZNSt12__shared_ptrI5TBody', '_ZNSt10shared_ptrI5TBody', 'TEval4eval', 'inf_speed', 'isrigid']

MOVED_B = [v + '.' + c for v in ('holder', 'dpos') for c in ('r.x', 'r.y', 'o')]
MOVED_A = ['corner.x', 'corner.y', 'dl.x', 'dl.y', 'r.x', 'r.y', '_1_eps', 'v.x', 'v.y']
LOSS = ['fdt_dead.r.x', 'fdt_dead.r.y', 'fdt_dead.o', 'g_dead']


class Step:
    def __init__(self, chk):
        probe_world(chk); chk.probe([('MFlowmove', m) for m in ('S', 'remove_eps')])
        self.chk = chk; m = chk.extract(['libvvhd/src/MFlowmove.cpp'], noinline=NI, types=[('MFlowmove', 'MFlowmove.hpp')])
        u = self.u = chk.unit(m); u.region('FM', 'MFlowmove', ['remove_eps']); u.setptr('FM', 'S', lambda: ptr('SP')); self.n = {LISTS[l]: x for l, x in space(u, ('VortexList', 'HeatList', 'StreakList')).items()}; self.nb, self.na = bodies(u)
        u.raw('DH', 24, {0: ('double', 'x'), 8: ('double', 'y'), 16: ('double', 'o')}, [self.nb]); u.raw('DB', 24, {0: ('double', 'x'), 8: ('double', 'y'), 16: ('double', 'o')}, [self.nb])
        u.raw('COLL', 8, {0: ('ptr', None)}, array=False); u.raw('CNT', 8, {0: ('i64', 'n')}, array=False)
        self.eps = u.F('FM', 'remove_eps')(); self.SP = lambda k: u.F('SP', k)(); self.B = lambda k: u.F('B', k); self.A = lambda k: u.F('A', k); self.S = u.decl['VL'].stride
        self.has = lambda b: ne(fn('n_hasroot', I(b), sort='I'), I(0)); self.root = lambda b: fn('n_root', I(b), sort='I')
        self.t = i2r(self.SP('time.value')) / i2r(self.SP('time.timescale')); self.dt = i2r(self.SP('dt.value')) / i2r(self.SP('dt.timescale'))
        self.pre = [self.nb >= 0] + [x >= 0 for x in self.n.values()] + [self.SP('dt.value') > 0, self.SP('dt.timescale') > 0, self.SP('time.timescale') > 0]
        u.contracts = [(r'^TEval::eval\(', teval), (r'^std::weak_ptr<TBody>::lock\(', self.lock), (r'^std::map<TBody\*.*>::map\(', self.newmap), (r'^std::map<TBody\*.*>::~map\(', ct.nothing), (r'^(TVec3D& )?std::map<TBody\*.*>::operator\[\]', self.at), (r'^TBody::get_axis\(', self.axis_), (r'^TBody::speed\(', self.speed), (r'^TBody::isrigid', lambda E, st, a, ins: bvar('rigid', a[0])),
            (r'^std::(__)?shared_ptr<TBody.*>::~', ct.nothing), (r'^std::(__)?shared_ptr<TBody.*>::operator=', self.assign), (r'^std::(__)?shared_ptr<TBody.*>::(__)?shared_ptr\(', self.assign), (r'^TBody::move\(', self.move), (r'vector<TObj.*>::(_M_)?erase\(', self.erase), (r'^TBody::isPointInvalid\(', self.inside), (r'^TBody::isPointInHeatLayer\(', self.layer), (r'^Space::point_is_in_body\(', lambda E, st, a, ins: bvar('solid', a[1], a[2]))]
    def lock(self, E, st, a, ins):
        p = E.pnorm(st, a[1]); b = p.args[1][0]; st.ghost = dict(st.ghost); q = E.pnorm(st, a[0]); st.ghost.setdefault('locked', (q.args[0], int(q.args[2].const()) if hasattr(q.args[2], 'const') else q.args[2])); E.store(st, a[0], pite(self.has(b), ptr('B', (self.root(b),)), NULL), ir.PTR); E.store(st, padd_off(a[0], I(8)), NULL, ir.PTR)
        st.assume(Or(Not(self.has(b)), And(self.root(b) >= 0, self.root(b) < self.nb)))
    def newmap(self, E, st, a, ins):
        p = E.pnorm(st, a[0]); st.ghost = dict(st.ghost); st.ghost[('map', p.args[0])] = 'DB' if 'DH' in st.ghost.values() else 'DH'
    def at(self, E, st, a, ins):
        m = st.ghost[('map', E.pnorm(st, a[0]).args[0])]; k = E.pnorm(st, E.load(st, a[1], ir.PTR))
        E.obl.append(('a body is looked up', st.facts, Bool(k.op == 'p' and k.args[0] == 'B'))); return ptr(m, (), k.args[1][0] * 24)
    def axis(self, b): return (self.B('holder.r.x')(b) + self.B('dpos.r.x')(b), self.B('holder.r.y')(b) + self.B('dpos.r.y')(b))
    def axis_(self, E, st, a, ins):
        p = E.pnorm(st, a[0]); b = p.args[1][0]; f = lambda m: ct.cell(E, st, self.u, 'B', m, b)
        return (f('holder.r.x') + f('dpos.r.x'), f('holder.r.y') + f('dpos.r.y'))
    def speed(self, E, st, a, ins):
        b = E.pnorm(st, a[1]).args[1][0]; st.ghost = dict(st.ghost); st.ghost['speed at'] = a[0]
        for k, c in enumerate('xyo'): E.store(st, padd_off(a[0], I(8 * k)), fn('speed_' + c, I(b), a[2]), ir.DBL)
    def assign(self, E, st, a, ins):
        p, q = E.load(st, a[1], ir.PTR), E.load(st, padd_off(a[1], I(8)), ir.PTR); E.store(st, a[0], p, ir.PTR); E.store(st, padd_off(a[0], I(8)), q, ir.PTR); return a[0]
    def move(self, E, st, a, ins):
        g = lambda p, k: E.load(st, padd_off(p, I(8 * k)), ir.DBL)
        ct.emit(st, 'move', E.pnorm(st, a[0]), *[g(a[1], k) for k in range(3)], *[g(a[2], k) for k in range(3)])
        self.havoc(E, st, 'B', MOVED_B); self.havoc(E, st, 'A', MOVED_A)
    def erase(self, E, st, a, ins):
        """std::vector::erase at a position inside: one element less; the contents of the list afterwards are arbitrary"""
        if len(a) != 2: raise ct.Unsupported('erase of a range')
        v = padd_off(E.pnorm(st, a[0]), I(8)); it = E.pnorm(st, a[1]); end = E.pnorm(st, E.load(st, v, ir.PTR)); r = it.args[0]
        E.obl.append(('an element of the list is removed', st.facts, And(Bool(end.args[0] == r), it.args[2] >= 0, it.args[2] < end.args[2])))
        ct.emit(st, 'erase', it); E.store(st, v, ptr(r, (), end.args[2] - self.S), ir.PTR); self.havoc(E, st, r, OBJ); return it
    def havoc(self, E, st, region, members):
        for m in members: ct.havoc(E, st, self.u, region, m, "'e%d" % fresh())
    def inside(self, E, st, a, ins): b = E.pnorm(st, a[0]).args[1][0]; return pite(bvar('inside', b, a[1], a[2]), ptr('A', (b,), fn('nearest', b, a[1], a[2], sort='I') * self.u.decl['A'].stride), NULL)
    def layer(self, E, st, a, ins): b = E.pnorm(st, a[0]).args[1][0]; return pite(bvar('in_layer', b, a[1], a[2]), ptr('A', (b,), fn('layer_of', b, a[1], a[2], sort='I') * self.u.decl['A'].stride), NULL)


ORDER = ['contacts', 'displacements', 'moves', 'small', 'small', 'inside', 'heat', 'streak', 'bodies']


CONTACT = r'^(contacts|rounds contacts|the step is the whole|no contact)'
MOTION = r'^(displacements|rounds displacements|roots|moves|rounds moves|a body is looked up|SP\.inf_marker|v\.[xy] of |rounds (small|streak): .*after the motion|rounds (small|streak): all particles are there|frame )'
EVERY = r'^(loop-|the order of|outcome|\$|path)'


def contact(chk): whole(chk, lambda n: re.search(CONTACT + '|' + EVERY, n))
def motion(chk): whole(chk, lambda n: re.search(MOTION + '|' + EVERY, n))
def removal(chk): whole(chk, lambda n: not re.search(CONTACT + '|' + MOTION, n) or n.startswith('frame'))


def whole(chk, keep=None):
    """one run of the verifier on the whole step; keep: the obligations decided under this property (each is decided under one of C03, C05 and C11)"""
    s = Step(chk); u = s.u; E_ = {}
    def setup(E): E.cuts = cuts(s, E); E.unroll_most = 80; E_['E'] = E
    infl = lambda c: lambda: s.SP('inf_marker.' + c) + fn('eval_SP_%d' % chk.off('Space', 'inf_v' + c), s.t) * E_['E'].T
    def after(E, st, v):
        out = []
        names = [e[1].replace('rounds ', '') for e in st.trace]; rm = ne(var('remove', 'I'), I(0)); d = E.dec.decide(st.facts, rm)
        out.append(('the order of the parts of a step', st.facts, Bool(names in ([x for x in ORDER if x != 'inside' or k] for k in ([d] if d is not None else [True, False])))))
        for r, l in (('VL', 'VortexList'), ('HL', 'HeatList'), ('KL', 'StreakList')):
            n = E.pnorm(st, E.load(st, ptr('SP', (), chk.off('Space', l) + 8), ir.PTR)).args[2] / s.S; k = I(mk('var', '$z%d' % fresh(), sort='I'))
            for m in ('v.x', 'v.y'): out.append(('%s of %s starts from zero' % (m, l), with_facts(st.facts, [k >= 0, k < n]), eq(ct.cell(E, st, u, r, m, k), R(0))))
        return out
    ign = [(r, m) for r in ('VL', 'HL', 'KL') for m in OBJ] + [('B', m) for m in MOVED_B + LOSS] + [('A', m) for m in MOVED_A + ['gsum', 'hsum', 'heat_layer_obj_no']] + [('SP', chk.off('Space', l) + 8) for l in ('VortexList', 'HeatList', 'StreakList')] + [('DH', '*'), ('DB', '*'), ('COLL', '*'), ('CNT', '*')]
    chk.case('a motion step', u, r'^MFlowmove::move_and_clean\(', [ptr('FM'), ne(var('remove', 'I'), I(0)), ptr('COLL'), ptr('CNT')], s.pre, {('SP', 'inf_marker.x'): infl('x'), ('SP', 'inf_marker.y'): infl('y')}, samples=0, engine_setup=setup, ignore=ign, extra_post=after).keep = keep


def callees(E, f, L):
    out = []
    for b in L.blocks:
        k = f.blocks[b]
        for i in list(k.ins) + [k.term]:
            if i is not None and i.op in ('call', 'invoke') and i.x['callee'][0] == 'g': out.append(E.dem.get(i.x['callee'][1], i.x['callee'][1]))
    return out
def has(*words, no=(), ): return lambda E, f, L: (lambda c: all(any(w in x for x in c) for w in words) and not any(w in x for w in no for x in c))(callees(E, f, L))


def walk(w): return lambda E, f, L: any(p.ty.k == 'ptr' for p in f.blocks[L.header].phis) and w(E, f, L)


class Plan:
    event = 'rounds'; merged = False; reg = None
    def __init__(self, S, E, st, phis):
        self.S = S; self.E = E; self.was = E.merge; E.merge = self.merged; self.dec = S.u.decl
        self.no = next((i for i, x in enumerate(phis) if isinstance(x, Ptr) and x.op == 'p' and x.args[0] in self.dec and self.dec[x.args[0]].stride), None)
        if self.no is not None:
            it = phis[self.no]; self.region = it.args[0]; self.index = it.args[1]; self.stride = self.dec[self.region].stride
            E.obl.append(('%s: starts at the first element' % self.event, st.facts, eq(it.args[2], I(0))))
        self.at(st, phis)
    def pos(self, E, s, phis): return E.pnorm(s, phis[self.no]).args[2] / self.stride
    def c(self, s, region, m, *idx): return ct.cell(self.E, s, self.S.u, region, m, *idx)
    def at(self, st, phis): pass
    def shape(self, v):
        """pointers that no round changes"""
        return v if v == NULL or v.op == 'p' and v.args[0] in self.dec and len(v.args[1]) == len(self.dec[v.args[0]].dims) else None
    def enter(self, s, phis): pass
    def leave(self, s): self.E.merge = self.was
    def frame(self, s0, s1, allowed=()):
        """memory of the flow a round leaves alone"""
        ok = {(r, self.S.u.cellty(r, m)[0] if isinstance(m, str) else m) for r, m in allowed}
        return [('%s+%s is not written' % k, s1.facts, FALSE) for k, h in s1.mem.items() if h != s0.mem.get(k, ()) and k[0] in self.dec and k not in ok]
    def only(self, s0, s1, cells):
        """cells (region, member, index) get these values, the same members of other elements keep theirs, nothing else is written"""
        out = self.frame(s0, s1, [(r, m) for r, m, i, v in cells])
        for r, m, idx, v in cells:
            out.append(('%s.%s' % (r, m), s1.facts, goal_eq(self.c(s1, r, m, *idx), v)))
            if s1.mem.get((r, self.S.u.cellty(r, m)[0]), ()) == s0.mem.get((r, self.S.u.cellty(r, m)[0]), ()): continue
            q = [I(mk('var', '$q%d' % fresh(), sort='I')) for _ in idx]
            out.append(('%s.%s of others' % (r, m), with_facts(s1.facts, [Or(*[ne(a, I(b)) for a, b in zip(q, idx)])] + [And(a >= 0, a < n) for a, n in zip(q, self.dims(r, q))]), goal_eq(self.c(s1, r, m, *q), self.c(s0, r, m, *q))))
        return out
    def dims(self, r, q): return {'B': lambda: [self.S.nb], 'A': lambda: [self.S.nb, self.S.na(q[0])], 'DH': lambda: [self.S.nb], 'DB': lambda: [self.S.nb]}.get(r, lambda: [])()


class Walk(Plan):
    """every element once, from the first to the last"""
    def count(self): return self.S.nb
    def enter(self, s, phis):
        self.i = self.pos(self.E, s, phis); s.assume(self.i >= 0); s.assume(self.i <= self.count()); self.start(s, phis)
    def start(self, s, phis): pass
    def round(self, s0, p0, s1, p1, calls):
        f = with_facts(s1.facts, [self.i < self.count()]); self.known = f; s1.facts = f
        return [('next element', f, eq(self.pos(self.E, s1, p1), self.i + 1))] + self.body(s0, p0, s1, p1, calls)
    def leave(self, s):
        self.E.obl.append(('%s: all are visited' % self.event, s.facts, self.i >= self.count())); s.assume(eq(self.i, self.count())); Plan.leave(self, s); self.after(s)
    def after(self, s): pass


class Search(Walk):
    """the earliest contact"""
    event = 'rounds contacts'; merged = True
    def at(self, st, phis):
        self.t0 = next(x for x in phis if isinstance(x, Poly)); self.E.obl.append(('the step is the whole step at first', st.facts, eq(self.t0, self.S.dt)))
        self.E.obl.append(('no contact at first', st.facts, ct.ptr_eq(self.E.load(st, ptr('COLL'), ir.PTR), NULL)))
    def start(self, s, phis):
        E = self.E; self.T0 = next(x for x in phis if isinstance(x, Poly)); self.T = E.T = self.T0; E.store(s, ptr('COLL'), ptr('HIT'), ir.PTR); s.assume(self.T0 >= 0); s.assume(self.T0 <= self.S.dt)
        self.named = {}; E.staged = self.stage; self.name(0, self.T0, ptr('HIT'))
    def name(self, c, T, hit): self.named[c] = (T, hit); return T, hit
    def one(self, c):
        """the earliest contact once component c is looked at, given the earliest one so far"""
        S = self.S; k = self.i; T, hit = self.named[c]; B = lambda m: S.B(m)(k); c = ('r.x', 'r.y', 'o')[c]
        cur = B('holder.' + c) + B('dpos.' + c); v = B('speed_slae.' + c); far = lambda lim: lim - cur
        soft = Not(bvar('rigid', B('kspring.' + c))); none = [('rigid', [Not(soft)]), ('at rest', [soft, eq(v, 0)])]; some = []
        for n, lim, to in (('upper', B('collision_max.' + c), v > 0), ('lower', B('collision_min.' + c), v < 0)):
            d = far(lim) / v; sg = 1 if n == 'upper' else -1; pre = [soft, to, Not(eq(v, 0)), eq(d * v, far(lim)), S.dt * v * sg > 0, (S.dt - T) * v * sg >= 0, (self.T0 - T) * v * sg >= 0, self.T0 * v * sg >= 0]
            some += [(n, pre + [d > 0, d < T, (T - d) * v * sg > 0], d), (n + ', already there', pre + [Not(d > 0), far(lim) * sg <= 0, T > 0], R(0))]
            none += [(n + ' later', pre + [d > 0, d > T]), (n + ' at the same time', pre + [d > 0, eq(d, T)]), (n + ', no time left', pre + [Not(d > 0), eq(T, 0)])]
        return some, none, T, hit, ptr('B', (k,), S.chk.off('TBody', 'kspring.' + c))
    def goals(self, c, facts, T1, h1):
        some, none, T, hit, here = self.one(c); out = [('component %d: no contact (%s)' % (c, n), with_facts(facts, w), And(eq(T1, T), Or(ct.ptr_eq(h1, hit), *([ct.ptr_eq(h1, here)] if n.endswith(('time', 'left')) else [])))) for n, w in none]
        for n, g, x in some:
            out.append(('component %d: a sooner contact (%s)' % (c, n), with_facts(facts, g), eq(T1, x)))
            out.append(('component %d: a sooner contact is reported (%s)' % (c, n), with_facts(facts, g), ct.ptr_eq(h1, here)))
        return out
    def stage(self, E, f, L, s, x):
        """a component is looked at: what was found gets a name"""
        hb = f.blocks[L.header]; s = E.phis(s, hb, x); ph = [p for p in hb.phis if isinstance(s.regs[p.res], Poly)]
        no = [p for p in ph if s.regs[p.res].sort == 'I']; d = [p for p in ph if s.regs[p.res].sort == 'R']
        if len(no) != 1 or len(d) != 1: raise ct.Unsupported('the loop over the components')
        c = int(s.regs[no[0].res].const()) - 1
        if c not in self.named: raise ct.Unsupported('the order of the components')
        self.E.obl += [('contacts, ' + n, f_, g_) for n, f_, g_ in self.goals(c, s.facts, s.regs[d[0].res], E.load(s, ptr('COLL'), ir.PTR))]
        if c + 1 not in self.named: self.name(c + 1, Poly({((mk('var', '$t%d' % fresh(), sort='R'), 1),): F1}, 'R'), ptr('HIT%d' % (c + 1)))
        T, h = self.named[c + 1]; s = s.copy(); [s.assume(c) for c in (T >= 0, T <= self.S.dt, T <= self.T0)]; s.regs[d[0].res] = T; E.store(s, ptr('COLL'), h, ir.PTR); return JOINED, s
    def body(self, s0, p0, s1, p1, calls):
        T, h = self.named.get(3, self.named[0])
        return [('the time to the earliest contact', s1.facts, eq(next(x for x in p1 if isinstance(x, Poly)), T)), ('where it is', s1.facts, ct.ptr_eq(self.E.load(s1, ptr('COLL'), ir.PTR), h))] + self.frame(s0, s1, [('COLL', 0)]) + self.silent(s1, calls)
    def after(self, s): self.E.staged = None
    def silent(self, s1, calls): return [('no calls', s1.facts, FALSE)] if calls else []


class Disp(Walk):
    """how far every body and its hinge point move"""
    event = 'rounds displacements'
    def err(self, c):
        """what a turn of the root by a finite angle adds to the linear motion"""
        S = self.S; r = S.root(c); ax = S.axis(r); dx, dy = S.B('holder.r.x')(c) - ax[0], S.B('holder.r.y')(c) - ax[1]; da = S.B('speed_slae.o')(r) * self.E.T; co, si = fn('cos', da), fn('sin', da)
        return (dx - dy * da - (dx * co - dy * si), dy + dx * da - (dy * co + dx * si))
    def G(self, c): return fn('far_x', I(c)), fn('far_y', I(c))
    def values(self, k):
        S = self.S; r = S.root(k); has = S.has(k); ax = S.axis(r); T = self.E.T; w = S.B('speed_slae.o')(r); dx, dy = S.B('holder.r.x')(k) - ax[0], S.B('holder.r.y')(k) - ax[1]; sp = lambda c: fn('speed_' + c, I(k), S.t); G = self.G(k)
        z = lambda v: ite(has, v, R(0))
        return {('DH', 0): (sp('x') + z(S.B('speed_slae.r.x')(r) - dy * w)) * T - G[0], ('DH', 8): (sp('y') + z(S.B('speed_slae.r.y')(r) + dx * w)) * T - G[1], ('DH', 16): (sp('o') + z(w)) * T,
            ('DB', 0): S.B('speed_slae.r.x')(k) * T - G[0], ('DB', 8): S.B('speed_slae.r.y')(k) * T - G[1], ('DB', 16): S.B('speed_slae.o')(k) * T}
    def roles(self, s):
        """which of the two maps is the one of the hinge points: the one whose turn is that of the hinge"""
        a, b = (str(self.c(s, r, 16, self.i)) for r in ('DH', 'DB')); self.name = {'DH': 'DB', 'DB': 'DH'} if 'speed_o' in b and 'speed_o' not in a else {'DH': 'DH', 'DB': 'DB'}
    def body(self, s0, p0, s1, p1, calls):
        self.roles(s1)
        return self.only(s0, s1, [(self.name[r], m, (self.i,), v) for (r, m), v in self.values(self.i).items()]) + Search.silent(self, s1, [e for e in calls if e[1] != Roots.event])
    def after(self, s):
        for (r, m) in self.values(0):
            k = mk('var', '$c%d' % fresh(), sort='I'); z = (self.name[r], m); s.mem[z] = s.mem.get(z, ()) + (sym.Map([(k, self.S.nb, 0, 1, I(0))], (I(k),), self.values(I(k))[r, m], TRUE),)


class Roots(Plan):
    """from a body to its root, its root's root, ..."""
    event = 'rounds roots'
    err = Disp.err; G = Disp.G
    def at(self, st, phis):
        E = self.E; S = self.S; self.b = None; self.child = []; self.root = []
        stack = [(r, o) for r, o in st.mem if r not in self.dec]
        for r, o in stack:
            if (r, o) == st.ghost.get('locked'): continue
            try: v = E.pnorm(st, E.load(st, ptr(r, (), o), ir.PTR))
            except Exception: continue
            if v.op == 'p' and v.args[0] == 'B' and v.args[1]: self.child.append((r, o)); self.b = v.args[1][0]
        b = self.b; want = pite(S.has(b), ptr('B', (S.root(b),)), NULL)
        if b == S.root(b): raise ct.Unsupported('no child')
        for r, o in stack:
            if (r, o) in self.child: continue
            try: v = E.pnorm(st, E.load(st, ptr(r, (), o), ir.PTR))
            except Exception: continue
            if st.ghost.get('locked') == (r, o): self.root.append((r, o))
        self.sum = []
        d = st.ghost['speed at']
        for i, o in enumerate((0, 8)): self.sum.append(('cell', (d.args[0], d.args[2] + o), i, E.load(st, padd_off(d, I(o)), ir.DBL)))
        ph = [n for n, x in enumerate(phis) if isinstance(x, Poly) and x.sort == 'R']
        if len(ph) != 2: raise ct.Unsupported('roots: shape')
        for i, n in enumerate(ph): self.sum.append(('phi', n, i, phis[n]))
    def value(self, s, phis, a): return self.E.load(s, ptr(a[1][0], (), a[1][1]), ir.DBL) if a[0] == 'cell' else phis[a[1]]
    def set(self, s, c):
        for r, o in self.child: self.E.store(s, ptr(r, (), o), ptr('B', (c,)), ir.PTR)
        for r, o in self.root: self.E.store(s, ptr(r, (), o), pite(self.S.has(c), ptr('B', (self.S.root(c),)), NULL), ir.PTR)
    def enter(self, s, phis):
        S = self.S; E = self.E; c = self.cur = I(mk('var', '$r%d' % fresh(), sort='I')); s.assume(c >= 0); s.assume(c < S.nb); s.assume(Or(Not(S.has(c)), And(S.root(c) >= 0, S.root(c) < S.nb)))
        self.set(s, c)
        for a in self.sum:
            v = a[3] - (self.G(self.b)[a[2]] - self.G(c)[a[2]])
            if a[0] == 'cell': E.store(s, ptr(a[1][0], (), a[1][1]), v, ir.DBL)
            else: s.assume(eq(phis[a[1]], v))
    def round(self, s0, p0, s1, p1, calls):
        S = self.S; E = self.E; c = self.cur; n = S.root(c); g0, g1, e = self.G(c), self.G(n), self.err(c)
        f = with_facts(s1.facts, [S.has(c), eq(g0[0], e[0] + g1[0]), eq(g0[1], e[1] + g1[1])]); out = [('there is a root', s1.facts, S.has(c))]
        for r, o in self.child: out.append(('the root is the next child', f, ct.ptr_eq(E.load(s1, ptr(r, (), o), ir.PTR), ptr('B', (n,)))))
        for r, o in self.root: out.append(('its root is next', f, ct.ptr_eq(E.load(s1, ptr(r, (), o), ir.PTR), pite(S.has(n), ptr('B', (S.root(n),)), NULL))))
        for a in self.sum: out.append(('correction %s %d' % (a[0], a[2]), f, eq(self.value(s1, p1, a), a[3] - (self.G(self.b)[a[2]] - g1[a[2]]))))
        return out + self.frame(s0, s1) + Search.silent(self, s1, calls)
    def leave(self, s):
        c = self.cur; self.E.obl.append(('roots: the end of the chain', s.facts, Not(self.S.has(c)))); s.assume(eq(self.G(c)[0], R(0))); s.assume(eq(self.G(c)[1], R(0))); Plan.leave(self, s)


class Moves(Walk):
    """every body moves by what was found for it"""
    event = 'rounds moves'
    def body(self, s0, p0, s1, p1, calls):
        v = Disp.values(self, self.i)
        return ct.events_obl(calls, [Ev('move', ptr('B', (self.i,)), *[v[r, o] for r in ('DH', 'DB') for o in (0, 8, 16)])], s1.facts, '') + self.frame(s0, s1, [('B', m) for m in MOVED_B] + [('A', m) for m in MOVED_A])
    G = Disp.G


class Erase(Plan):
    """an arbitrary moment: element i of n; the round removes it or goes on to the next"""
    def at(self, st, phis):
        self.off = self.S.chk.off('Space', {'VL': 'VortexList', 'HL': 'HeatList', 'KL': 'StreakList'}[self.region]) + 8; self.begin(st)
    def begin(self, st): pass
    def size(self, s): return self.E.pnorm(s, self.E.load(s, ptr('SP', (), self.off), ir.PTR)).args[2] / self.S.S
    def moved(self, st):
        """what a step did to the particles before any is removed"""
        k = I(mk('var', '$m%d' % fresh(), sort='I')); f0 = self.S.u.F; f = with_facts(st.facts, [k >= 0, k < self.S.n[self.region]])
        self.E.obl.append(('%s: all particles are there' % self.event, st.facts, eq(self.size(st), self.S.n[self.region])))
        for m in OBJ:
            w = f0(self.region, m)(k) + (f0(self.region, 'v' + m[1:])(k) * self.E.T if m in ('r.x', 'r.y') else 0)
            self.E.obl.append(('%s: %s after the motion' % (self.event, m), f, eq(self.c(st, self.region, m, k), w)))
    def enter(self, s, phis):
        E = self.E; n = self.n0 = I(mk('var', '$n%d' % fresh(), sort='I')); s.assume(n >= 0); i = self.i = self.pos(E, s, phis); s.assume(i >= 0); s.assume(i <= n)
        if (self.region, 0) in s.mem or True: E.store(s, ptr('SP', (), self.off), ptr(self.region, (), n * self.S.S), ir.PTR)
        self.p = lambda m: self.c(self.s0, self.region, m, i); self.s0 = s.copy(); E.at_ = (self.p('r.x'), self.p('r.y')); E.found = {}; self.start(s, phis)
    def start(self, s, phis): pass
    def round(self, s0, p0, s1, p1, calls):
        E = self.E; calls = [e for e in calls if not e[1].startswith('rounds')]; own = [(self.region, m) for m in OBJ] + [('SP', self.off)]
        s0.facts = s1.facts = with_facts(s1.facts, [self.i < self.n0])
        if calls: out = ct.events_obl(calls, [Ev('erase', ptr(self.region, (), self.i * self.S.S))], s1.facts, '') + [('one less', s1.facts, eq(self.size(s1), self.n0 - 1)), ('the next one is in its place', s1.facts, eq(self.pos(E, s1, p1), self.i))]
        else: out = [('it stays', s1.facts, eq(self.size(s1), self.n0)), ('the next one', s1.facts, eq(self.pos(E, s1, p1), self.i + 1))]
        t = s1.copy()
        for r, m in own:
            k = (r, m if isinstance(m, int) else self.S.u.cellty(r, m)[0])
            if calls:
                if k in s0.mem: t.mem[k] = s0.mem[k]
                else: t.mem.pop(k, None)
        return out + self.rule(s0, t, bool(calls), p0, p1)
    def leave(self, s):
        self.E.obl.append(('%s: all are looked at' % self.event, s.facts, self.i >= self.n0)); Plan.leave(self, s)


class Small(Erase):
    event = 'rounds small'
    def begin(self, st): self.moved(st)
    def rule(self, s0, s1, gone, p0, p1):
        g = self.p('g'); small = And(g < self.S.eps, -g < self.S.eps)
        return [('removed when too weak' if gone else 'kept when strong enough', s1.facts, small if gone else Not(small))] + self.only(s0, s1, [])


class Inside(Erase):
    """vortices that got into a body"""
    event = 'rounds inside'
    def rule(self, s0, s1, gone, p0, p1):
        S = self.S; x, y, g = self.p('r.x'), self.p('r.y'), self.p('g'); b = self.E.found.get('inside'); cell = self.c
        k = mk('var', '$b%d' % fresh(), sort='I'); none = ball(k, I(0), S.nb, Not(bvar('inside', I(k), x, y)))
        n1 = lambda d: [('number removed', s1.facts, eq(self.S_count(s1, p1), self.S_count(s0, p0) + d))]
        if not gone: return [('kept when in no body', s1.facts, none)] + self.only(s0, s1, []) + n1(0)
        f = lambda m: cell(s0, 'B', m, b); ax = [f('holder.r.x') + f('dpos.r.x'), f('holder.r.y') + f('dpos.r.y')]; a = fn('nearest', b, x, y, sort='I')
        s1.assume(And(a >= 0, a < S.na(b)))
        return [('removed when in a body', s1.facts, And(b >= 0, b < S.nb, bvar('inside', b, x, y)))] + n1(1) + self.only(s0, s1, [('B', 'fdt_dead.r.x', (b,), f('fdt_dead.r.x') - y * g), ('B', 'fdt_dead.r.y', (b,), f('fdt_dead.r.y') + x * g), ('B', 'fdt_dead.o', (b,), f('fdt_dead.o') + ((x - ax[0]) * (x - ax[0]) + (y - ax[1]) * (y - ax[1])) * g), ('B', 'g_dead', (b,), f('g_dead') + g), ('A', 'gsum', (b, a), cell(s0, 'A', 'gsum', b, a) - g)] + ([('CNT', 0, (), self.E.load(s1, ptr('CNT'), ir.I64))] if ('CNT', 0) in s1.mem else []))
    def S_count(self, s, phis): return self.E.load(s, ptr('CNT'), ir.I64)


class Heat(Erase):
    """heat that got into a body or a second time into a heat layer"""
    event = 'rounds heat'
    def rule(self, s0, s1, gone, p0, p1):
        S = self.S; x, y, g = self.p('r.x'), self.p('r.y'), self.p('g'); fo = self.E.found; cell = self.c
        k = mk('var', '$b%d' % fresh(), sort='I'); none = lambda w: ball(k, I(0), S.nb, Not(bvar(w, I(k), x, y)))
        known = lambda c: self.E.dec.decide(s1.facts, c) is True
        if 'inside' in fo and known(bvar('inside', fo['inside'], x, y)):
            b = fo['inside']; a = fn('nearest', b, x, y, sort='I'); return [('heat in a body goes', s1.facts, Bool(gone))] + self.only(s0, s1, [('A', 'hsum', (b, a), cell(s0, 'A', 'hsum', b, a) - g)])
        out = [('not in a body', s1.facts, none('inside'))]
        if 'in_layer' not in fo or not known(bvar('in_layer', fo['in_layer'], x, y)): return out + [('heat in no layer stays', s1.facts, Bool(not gone)), ('in no layer', s1.facts, none('in_layer'))] + self.only(s0, s1, [])
        b = fo['in_layer']; a = fn('layer_of', b, x, y, sort='I'); const = eq(cell(s0, 'B', 'heat_condition', b), I(HC)); taken = cell(s0, 'A', 'heat_layer_obj_no', b, a) >= 0
        if gone: return out + [('a layer that is taken', s1.facts, And(const, taken))] + self.only(s0, s1, [('A', 'hsum', (b, a), cell(s0, 'A', 'hsum', b, a) - g)])
        f = s1.facts
        if known(const): return out + [('a layer that is free', f, Not(taken))] + self.only(s0, s1, [('A', 'heat_layer_obj_no', (b, a), self.i)])
        return out + [('no heat layer', f, Not(const))] + self.only(s0, s1, [])


class Streak(Erase):
    event = 'rounds streak'
    def begin(self, st): self.moved(st)
    def rule(self, s0, s1, gone, p0, p1):
        c = bvar('solid', self.p('r.x'), self.p('r.y')); return [('streak', s1.facts, c if gone else Not(c))] + self.only(s0, s1, [])


class Find(Plan):
    """the first body that ..."""
    event = 'rounds find'
    def enter(self, s, phis):
        E = self.E; self.i = self.pos(E, s, phis); s.assume(self.i >= 0); s.assume(self.i <= self.S.nb); k = mk('var', '$b%d' % fresh(), sort='I'); self.no_ = lambda n: ball(k, I(0), n, Not(bvar(self.what, I(k), *E.at_)))
        s.assume(self.no_(self.i)); E.found[self.what] = self.i
    def round(self, s0, p0, s1, p1, calls):
        return [('next body', s1.facts, eq(self.pos(self.E, s1, p1), self.i + 1)), ('not this one', s1.facts, Not(bvar(self.what, self.i, *self.E.at_)))] + self.frame(s0, s1) + Search.silent(self, s1, calls)
    def leave(self, s):
        hit = bvar(self.what, self.i, *self.E.at_); f = s.facts
        if self.E.dec.decide(f, hit) is not True:
            self.E.obl.append(('%s: all bodies are asked' % self.what, f, self.i >= self.S.nb)); s.assume(eq(self.i, self.S.nb)); s.assume(self.no_(self.S.nb))
        else: s.assume(self.i < self.S.nb)
        Plan.leave(self, s)
class FindInside(Find): what = 'inside'
class FindLayer(Find): what = 'in_layer'


class Tail(Walk):
    event = 'rounds bodies'
    def body(self, s0, p0, s1, p1, calls): return Search.silent(self, s1, [e for e in calls if e[1] != Shed.event])


class Shed(Walk):
    """circulation that is not shed is booked as lost"""
    event = 'rounds segments'
    def count(self): return self.S.na(self.index[0])
    def at(self, st, phis):
        b = self.index[0]; self.same = []
        for n, x in enumerate(phis):
            if not isinstance(x, Poly): continue
            m = next((m for m in LOSS if self.c(st, 'B', m, b) == x), None)
            if m is None: raise ct.Unsupported('a running value of the segment loop')
            self.same.append((n, m))
    def start(self, s, phis):
        for n, m in self.same: s.assume(eq(phis[n], self.c(s, 'B', m, self.index[0])))
    def body(self, s0, p0, s1, p1, calls):
        S = self.S; b = self.index[0]; k = self.i; f = lambda m: self.c(s0, 'B', m, b); a = lambda m: self.c(s0, 'A', m, b, k); g = a('g'); ax = [f('holder.r.x') + f('dpos.r.x'), f('holder.r.y') + f('dpos.r.y')]
        lost = Or(And(g < S.eps, -g < S.eps), ne(a('slip'), 0)); x, y = a('corner.x'), a('corner.y'); w = lambda m, d: f(m) + ite(lost, d, R(0))
        return self.only(s0, s1, [('B', 'fdt_dead.r.x', (b,), w('fdt_dead.r.x', -y * g)), ('B', 'fdt_dead.r.y', (b,), w('fdt_dead.r.y', x * g)), ('B', 'fdt_dead.o', (b,), w('fdt_dead.o', ((x - ax[0]) * (x - ax[0]) + (y - ax[1]) * (y - ax[1])) * g)), ('B', 'g_dead', (b,), w('g_dead', g)), ('A', 'gsum', (b, k), a('gsum') - ite(lost, g, R(0)))]) + Search.silent(self, s1, calls) + [('running value', s1.facts, eq(p1[n], self.c(s1, 'B', m, b))) for n, m in self.same]


HC = 2
def cuts(s, E):
    mk_ = lambda name, cls, when: Inv(r'^MFlowmove::move_and_clean', [], lambda v, rd: [], name=name, when=when, plan=lambda E, st, ph: cls(s, E, st, ph))
    only_bodies = lambda w: walk(w)
    return [mk_('contacts', Search, walk(has('isrigid'))), mk_('displacements', Disp, walk(has('TBody::speed'))), mk_('roots', Roots, has('cos', no=('TBody::speed',))), mk_('moves', Moves, walk(has('TBody::move('))),
        mk_('weak', Small, walk(has('::erase(', no=('isPoint', 'point_is_in')))), mk_('heat', Heat, walk(has('::erase(', 'isPointInHeatLayer'))), mk_('inside', Inside, walk(has('::erase(', 'isPointInvalid', no=('isPointInHeatLayer',)))), mk_('streak', Streak, walk(has('::erase(', 'point_is_in_body'))),
        mk_('first body', FindInside, walk(has('isPointInvalid', no=('::erase(',)))), mk_('first layer', FindLayer, walk(has('isPointInHeatLayer', no=('::erase(',)))), mk_('bodies', Tail, walk(has('get_axis', no=('::erase(', 'cos')))),
        mk_('segments', Shed, walk(has('fabs', no=('::erase(', 'get_axis'))))]
