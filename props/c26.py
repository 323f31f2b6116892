"""The run: the loop of time steps, sensors and the entry points."""
import math, random, re, os, tempfile, shutil
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.check import fail
from vv.cuts import Inv
from .world import *
from .flowbat import *
from . import luaapi as L
INF = R(mk('fn', 'inf'))
NOINLINE = ['_ZN5TTime3addE', '_ZN5TTime11divisibleByE', '_ZNK5TTimecvdEv', 'average_segment_length', '_ZN7sensors', '_ZStlsI', '_ZSt4endl', '_ZNSolsEPFRSoS_E', '_ZN14MDiffusiveFast', '_ZN12MEpsilonFast', '_ZN9MFlowmove', '_ZN15MConvectiveFast', '^main$', '_Z8simulateP9lua_State', '_Z\\d+luaopen_', 'escape_percents', '_ZN3opt5parse', '_ZNSt6vectorI4TVec.*(push_back|_M_realloc_insert)']


def setup(chk):
    probe_world(chk); chk.probe([('Space', m) for m in ('time', 'dt', 'dt_save', 'caption')])
    chk.use('space', 'flow', 'tree', 'state', 'step', 'lua', 'run'); chk.native_opts['extra_srcs'] += scripts()
    for g in (simulation, sensors_group, entry): chk.group(g)
    chk.battery('runs', inside((run_one, 100, 'run')), True, 'runs of random set-ups, compared with their steps made one by one')
    chk.battery('program', inside((main_one, 60, 'run of the program')), True, 'the whole program on scripts and saved states')


class Trial:
    """what the run and the functions it calls share"""
    def __init__(self, chk, m):
        self.chk = chk; self.u = u = chk.unit(m); o = lambda k: chk.off('Space', k)
        u.region('space', 'Space', [k for k in SPACE if not k.endswith(('.value', '.timescale'))])
        for k in ('time', 'dt', 'dt_save'): u.decl['space'].leaves[o(k)] = (ir.I64, k); u.decl['space'].leaves.pop(o(k) + 4, None)
        u.raw('CAPTION', 1, {0: ('i8', 'c')}); u.setoff('space', o('caption'), lambda: ptr('CAPTION'))
        self.nb = nb = var('n_b', 'I'); self.nv = nv = var('n_v', 'I')
        u.raw('BL', 16, {0: ('ptr', None), 8: ('ptr', None)}, [nb]); u.vec('space', 'BodyList', 'BL', lambda: nb)
        u.region('VL', 'TObj', OBJ, dims=[nv], array=True); u.vec('space', 'VortexList', 'VL', lambda: nv)
        u.raw('ud_S', 16, {0: ('ptr', None), 8: ('ptr', None)}, array=False); u.setoff('ud_S', 0, lambda: ptr('space'))
        u.raw('LS', 8, {0: ('i64', 'x')}, array=False)
        f = lambda k: u.F('space', k)()
        self.time, self.dt, self.save, self.finish, self.re = f('time'), f('dt'), f('dt_save'), f('finish'), f('re')
        u.contracts += TIMECALLS + [(r'^lua_getglobal$', self.getglobal), (r'^snprintf$', self.snprintf), (r'escape_percents\(', self.escape)] + L.contracts()
        u.contracts += [(r'^std::.*operator<<.*(char const\*|\))', lambda E, st, a, ins: a[0]), (r'^std::ostream::operator<<', lambda E, st, a, ins: a[0]), (r'^fprintf$|^fputc$|^fputs$|^fflush$', lambda E, st, a, ins: I(0))]
    # ---- texts
    def pieces(self, E, st, p):
        p = E.pnorm(st, p); s = E.cstring(p)
        if s is not None: return (s,)
        if p.op == 'p' and ('text', p.args[0]) in st.ghost: return st.ghost[('text', p.args[0])]
        return (p,)
    def snprintf(self, E, st, a, ins):
        f = E.cstring(a[2]); out = []; rest = list(a[3:])
        if f is None: raise ct.Unsupported('format')
        for k, x in enumerate(f.split('%%')):
            if k: out.append('%')
            for j, y in enumerate(x.split('%s')):
                if j: out += self.pieces(E, st, rest.pop(0))
                if '%' in y: raise ct.Unsupported('format ' + f)
                out.append(y)
        d = E.pnorm(st, a[0])
        if d.op != 'p' or rest: raise ct.Unsupported('format ' + f)
        st.ghost = dict(st.ghost, **{}); st.ghost[('text', d.args[0])] = joined(out); return I(1)
    def escape(self, E, st, a, ins):
        d = E.pnorm(st, a[0])
        if d.op != 'p': raise ct.Unsupported('text')
        st.ghost = dict(st.ghost); st.ghost[('text', d.args[0])] = doubled(self.pieces(E, st, a[1]))
    def getglobal(self, E, st, a, ins): L.push(st, L.SYM(E.cstring(a[1])))
    # ---- objects
    def role(self, E, st, p):
        p = E.pnorm(st, p)
        if p.op == 'p' and ('object', p.args[0]) in st.ghost and not any(x.const() != 0 for x in p.args[1]) and p.args[2].const() == 0: return ptr('the ' + st.ghost[('object', p.args[0])])
        return p
    def ctor(self, name, n):
        def f(E, st, a, ins):
            args = [self.value(E, st, x) for x in a[1:1 + n]]; p = E.pnorm(st, a[0])
            if p.op != 'p': raise ct.Unsupported('object')
            st.ghost = dict(st.ghost); st.ghost[('object', p.args[0])] = name; ct.emit(st, 'new ' + name, *args)
        return f
    def value(self, E, st, x):
        if isinstance(x, Ptr):
            t = self.pieces(E, st, x)
            return ptr('text ' + show(t)) if t[0] != E.pnorm(st, x) else self.role(E, st, x)
        return x
    def call(self, name, ret=None, n=None):
        def f(E, st, a, ins):
            ct.emit(st, name, *[self.value(E, st, x) for x in (a if n is None else a[:n])])
            return ret(E, st, a) if ret else None
        return f


def joined(l):
    out = []
    for x in l:
        if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
        elif x != '': out.append(x)
    return tuple(out)
def doubled(t): return tuple(x.replace('%', '%%') if isinstance(x, str) else ptr('doubled ' + repr(x)) for x in t)
def show(t): return '|'.join(x if isinstance(x, str) else repr(x) for x in t)
CAP = ptr('CAPTION')
text = lambda *t: ptr('text ' + show(joined(t)))


def tcell(E, st, p): return E.load(st, p, ir.I64)
TIMECALLS = [(r'^TTime::operator double\(', lambda E, st, a, ins: seconds(tcell(E, st, a[0]))), (r'^TTime::add\(', lambda E, st, a, ins: tadd(a[0], a[1])), (r'^TTime::divisibleBy\(', lambda E, st, a, ins: divisible(tcell(E, st, a[0]), a[1]))]
seconds = lambda t: fn('seconds', t)
tadd = lambda a, b: fn('time_sum', a, b, sort='I')
divisible = lambda a, b: ne(fn('divisible', a, b, sort='I'), I(0))


def chosen(E, st, exp):
    """the expected calls that are possible on this path, with what they follow"""
    keep = [i for i, (x, _) in enumerate(exp) if not E.dec.decide(st.facts, Not(x.guard))]; new = {i: k for k, i in enumerate(keep)}
    return [(exp[i][0], [new[b] for b in exp[i][1] if b in new]) for i in keep]


class Suffix:
    def __init__(self, trace): self.trace = trace


def order(E, st, exp, calls, tag):
    s = st.copy(); s.trace = tuple(calls); return ct.events_poset(E, s, chosen(E, st, exp), st.facts, tag)


def simulation(chk):
    probe_world(chk); chk.probe([("Space", m) for m in ("time", "dt", "dt_save", "caption")])
    m = chk.extract(['utils/vvflow/vvflow.cpp'], noinline=NOINLINE)
    for viscous in (True, False): steps(chk, m, viscous)


def steps(chk, m, viscous):
    t = Trial(chk, m); u = t.u; S = ptr('space'); obj = lambda k: ptr('the ' + k)
    average = var('average'); profile = var('save_profile', 'I'); file = ptr('FILE')
    hit = lambda n: pite(bvar('hits', I(n)), ptr('HIT', (I(n),)), NULL)
    u.raw('FILE', 1, {0: ('i8', 'c')}); u.raw('HIT', 1, {0: ('i8', 'c')}, [var('n_HIT', 'I')])
    def touch(E, st, a, k):
        p = E.pnorm(st, a[k])
        if p.op != 'p': raise ct.Unsupported('place of the collision')
        E.coll = p; n = st.ghost.get('collisions', 0) ; E.store(st, p, hit(len(st.trace)), ir.PTR)
    def solve(E, st, a, ins):
        p = E.pnorm(st, a[1]); E.coll = p; ct.emit(st, 'solve', t.role(E, st, a[0]), p, collided(E, st, p)); touch(E, st, a, 1)
    def collided(E, st, p): return Not(ptr_null(E.load(st, p, ir.PTR)))
    def move(E, st, a, ins): ct.emit(st, 'move', t.role(E, st, a[0]), boolean(a[1]), E.pnorm(st, a[2]), E.pnorm(st, a[3])); touch(E, st, a, 2)
    def epsilon(E, st, a, ins): ct.emit(st, 'epsilon', t.role(E, st, a[0]), boolean(a[1]))
    def build(E, st, a, ins): ct.emit(st, 'build', t.role(E, st, a[0]), *[boolean(x) for x in a[1:4]])
    def stepdata(E, st, a, ins): t.ctor('record', 2)(E, st, a, ins); x = st.trace[-1]; st.trace = st.trace[:-1] + (x + (boolean(a[3]),),)
    c = t.call
    u.contracts += [(r'^mkdir$', c('mkdir', lambda E, st, a: I(0))), (r'^Stepdata::Stepdata\(', stepdata), (r'^stree::stree\(', t.ctor('tree', 4)), (r'^MConvectiveFast::MConvectiveFast\(', t.ctor('convection', 2)), (r'^MEpsilonFast::MEpsilonFast\(', t.ctor('epsilons', 2)), (r'^MDiffusiveFast::MDiffusiveFast\(', t.ctor('diffusion', 2)), (r'^MFlowmove::MFlowmove\(', t.ctor('motion', 2)), (r'^sensors::sensors\(|^_ZN7sensorsC', t.ctor('sensors', 4)),
        (r'^(Stepdata|stree|MConvectiveFast|MEpsilonFast|MDiffusiveFast|MFlowmove|sensors)::~|^_ZN7sensorsD', ct.nothing), (r'^operator delete', ct.nothing),
        (r'^Space::average_segment_length\(', lambda E, st, a, ins: average), (r'^stree::build\(', build), (r'^stree::destroy\(', c('destroy')), (r'^MConvectiveFast::calc_circulation\(', solve), (r'^MConvectiveFast::process_all_lists\(', c('convect')), (r'^MFlowmove::heat_shed\(', c('heat_shed')), (r'^MFlowmove::vortex_shed\(', c('vortex_shed')), (r'^MFlowmove::streak_shed\(', c('streak_shed')), (r'^MFlowmove::heat_crop\(', c('heat_crop')), (r'^MFlowmove::move_and_clean\(', move),
        (r'^Space::save\(', c('save')), (r'^Stepdata::flush\(', c('flush')), (r'^Stepdata::write\(', c('write')), (r'^Space::calc_forces\(', c('forces')), (r'^Space::zero_forces\(', c('zero_forces')), (r'^MEpsilonFast::CalcEpsilonFast\(', epsilon), (r'^sensors::output\(', c('sensors')), (r'^MDiffusiveFast::process_vort_list\(', c('diffuse vortices')), (r'^MDiffusiveFast::process_heat_list\(', c('diffuse heat'))]
    visc = Bool(viscous)       # numbers are finite in the terms; the infinite Reynolds number is a case of its own
    if not viscous: u.setoff('space', chk.off('Space', 're'), lambda: INF)
    some = t.nb > 0
    first = [(Ev('mkdir', text('results_', CAP), None), []), (Ev('new record', S, text('stepdata_', CAP, '.h5'), ne(profile, I(0))), []),
        (Ev('new tree', S, I(8), ite(average > 0, 5 * average, R(0)), ite(average > 0, 100 * average, R(F_MAX))), []), (Ev('new convection', S, obj('tree')), [2]), (Ev('new epsilons', S, obj('tree')), [2]), (Ev('new diffusion', S, obj('tree')), [2]), (Ev('new motion', S, None), []), (Ev('new sensors', S, obj('convection'), file, text('velocity_', CAP)), [3]), (Ev('rounds'), [0, 1, 2, 3, 4, 5, 6, 7])]
    now = lambda E, s: E.readcell(s, 'space', chk.off('Space', 'time'), (), ir.I64)
    due = lambda E, s: seconds(now(E, s)) < t.finish + seconds(t.dt) / 2
    def one_round(E, s0, s1, calls):
        tm = now(E, s0); keep = And(divisible(tm, t.save), seconds(tm) >= 0); cp = getattr(E, 'coll', None); was = Not(ptr_null(E.load(s0.copy(), cp, ir.PTR))) if cp is not None else FALSE
        tree, conv, mot = obj('tree'), obj('convection'), obj('motion')
        x = [Ev('build', tree, TRUE, TRUE, TRUE, guard=some), Ev('solve', conv, cp, None, guard=And(some, was)), Ev('solve', conv, cp, None, guard=some), Ev('destroy', tree, guard=some),
            Ev('heat_shed', mot), Ev('save', S, text('results_', ptr('doubled ' + repr(CAP)), '/%06d.h5'), guard=keep), Ev('flush', obj('record'), guard=keep), Ev('vortex_shed', mot), Ev('streak_shed', mot), Ev('forces', S), Ev('write', obj('record')), Ev('zero_forces', S),
            Ev('build', tree, TRUE, TRUE, TRUE), Ev('epsilon', obj('epsilons'), visc), Ev('convect', conv), Ev('sensors', obj('sensors')), Ev('diffuse vortices', obj('diffusion'), guard=visc), Ev('diffuse heat', obj('diffusion'), guard=visc), Ev('destroy', tree), Ev('move', mot, TRUE, cp, NULL), Ev('heat_crop', mot, R(16))]
        # what must come before each call: only calls that touch the same things are ordered
        deps = [[], [0], [0, 1], [0, 1, 2], [3], [3, 4], [3], [3, 5], [3, 5], [3, 5, 7], [6, 9], [3, 5, 10], [3, 4, 5, 7, 8], [12], [12, 13], [12, 13], [11, 12, 13, 14], [11, 12, 13, 14], [12, 13, 14, 15, 16, 17], [10, 11, 12, 13, 14, 15, 16, 17, 18], [19]]
        same = [('%s is kept' % k, s1.facts, goal_eq_(E.readcell(s1, 'space', chk.off('Space', k), (), ty), f)) for k, ty, f in (('re', ir.DBL, u.F('space', 're')()), ('finish', ir.DBL, t.finish), ('dt', ir.I64, t.dt), ('dt_save', ir.I64, t.save))]
        return [('a step is made only before the finish time', s1.facts, due(E, s0)), ('the time advances by one step', s1.facts, eq(now(E, s1), tadd(tm, t.dt)))] + same + order(E, s1, list(zip(x, deps)), calls, ' of one step')
    def enter(E, s):
        if getattr(E, 'coll', None) is not None: E.store(s, E.coll, hit(-1), ir.PTR)
    def inv(v, rd): return []
    def engine(E):
        E.cuts = [Inv(r'^simulate\(', [], inv, name='steps', events=one_round, enter=enter)]
        for n, v in (('save_profile', profile), ('show_progress', var('show_progress', 'I')), ('sensors_file', file)): given(E, n, v)
    def post(E, st, v):
        return [('ends at the finish time', st.facts, Not(due(E, st))), ('the stack is left as it was', st.facts, Bool(len(L.stack(st)) == 0))] + order(E, st, first, st.trace, '')
    chk.case('run, viscous' if viscous else 'run, inviscid', u, r'^simulate\(', [ptr('LS')], [t.re > 0] * viscous + [t.nb >= 0, t.nv >= 0], {}, ret=I(0), samples=0, merge=False, engine_setup=engine, extra_post=post, ignore=[('space', 'time')])
    if viscous: chk.case('run refused', u, r'^simulate\(', [ptr('LS')], [t.re <= 0, t.nb >= 0, t.nv >= 0], {}, ret=I(-1), samples=0, merge=False, engine_setup=engine, events=[])


from fractions import Fraction as F
F_MAX = F((2 ** 53 - 1) * 2 ** 971)
def given(E, name, v):
    n = '_ZN3opt%d%sE' % (len(name), name); E.globptr(n); E.regions['g:' + n].init[0] = lambda *a: v
def boolean(x): return x if isinstance(x, B) else ne(x, I(0))
def ptr_null(p): return Or(And(p.args[0], ptr_null(p.args[1])), And(Not(p.args[0]), ptr_null(p.args[2]))) if p.op == 'ite' else Bool(p == NULL)
goal_eq_ = ct.goal_eq


# ---- runs of the real program, compared with the steps made one by one
from .c18 import scripts
from .c19 import Lua
from .c22 import dataset
from vv.space import Space, SCAL
from fractions import Fraction as F
from decimal import Decimal
S_ = C.c_char_p; FINF = math.inf


def proto(lib):
    for n, res, *a in (('rn_opt', None, I_, S_), ('rn_new', V, V, S_, I_), ('rn_at', None, V, D, D), ('rn_free', None, V), ('rn_step', I_, V, S_, I_, C.POINTER(D)), ('rn_main', I_, S_), ('sd_read', C.c_long, S_, S_, C.POINTER(D), C.c_long, C.POINTER(C.c_long)), ('sd_names', S_, S_, S_), ('st_load', I_, V, S_), ('lu_space', V, V)):
        f = getattr(lib, n); f.restype = res; f.argtypes = list(a)


def scenario(r):
    """a script that sets up a flow, and what a run of it depends on"""
    ts = r.choice(['1/10', '0.1', '1/20', '1/7', '0.025', '{1, 3}']); dt = F(ts) if ts[0] != '{' else F(1, 3)
    sv = r.choice([1, 1, 2, 3, F(3, 2), 5, F(1, 2)]) * dt; n = r.choice([0, 1, 2, 3, 5, 8]); t0 = r.choice([0, 0, 0, -1, -3, 2, -F(1, 2)]) * dt
    quote = lambda t: t if t[0] == '{' else '"%s"' % t if '/' in t else t
    rat = lambda q: '"%d/%d"' % (q.numerator, q.denominator)
    fin = float(t0 + dt * n) + float(dt) * r.choice([0, 0, .2, -.2, .4, -.4]); re = r.choice([FINF, 100., 37.5, 600.])
    cap = r.choice(['run', 'a b', 'r_1', '', 'x%d', '100%'])
    s = ['S.caption = "%s"' % cap, 'S.re = %s' % ('inf' if re == FINF else repr(re)), 'S.dt = %s' % quote(ts), 'S.dt_save = %s' % rat(F(sv)), 'S.dt_streak = %s' % rat(dt * r.choice([1, 2])), 'S.time = %s' % rat(F(t0)), 'S.finish = %r' % fin]
    if r.random() < .6: s += ['S.inf_vx = "%s"' % r.choice(['1', '1+t/10', 'sin(3*t)', '2'])]
    if r.random() < .3: s += ['S.inf_vy = "%s"' % r.choice(['0.3', 't', '-1'])]
    if r.random() < .2: s += ['S.gravity = {%r, %r}' % (r.uniform(-2, 2), r.uniform(-9, 0))]
    nb = r.choice([0, 1, 1, 1, 2])
    for i in range(nb):
        b = 'b%d' % (i + 1); k = r.random(); N = r.choice([6, 10, 16]); s += ['%s = gen_cylinder{R=%r, N=%d}' % (b, r.uniform(.3, .7), N) if k < .7 else '%s = gen_ellipse{Rx=.7, Ry=.4, N=%d}' % (b, N + 26), '%s:move_r{%r, %r}' % (b, 2.5 * i, r.uniform(-.2, .2))]
        if r.random() < .2: s += [b + '.slip = true']
        if r.random() < .4: s += ['%s.holder_v%s = "%s"' % (b, r.choice('xyo'), r.choice(['-1', 'sin(5*t)', '-t', '0.5']))]
        if r.random() < .4:
            s += ['%s.spring_const = {%s}' % (b, ', '.join(r.choice(['inf', '0', '2', 'inf']) for _ in range(3))), '%s.density = %r' % (b, r.choice([.5, 1, 3])), '%s.spring_damping = {.1, .2, 0}' % b, '%s.bounce = %r' % (b, r.choice([0, .5, 1]))]
            if r.random() < .7: c = r.uniform(.005, .1); s += ['%s.collision_min = {%r, %r, %r}' % (b, -c, -c, -c), '%s.collision_max = {%r, %r, %r}' % (b, c, c, c), '%s.speed = {%r, %r, %r}' % (b, r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1))]
        s += ['S.body_list:insert(%s)' % b]
    if nb == 2 and r.random() < .3: s += ['b2.root = b1']
    for l, m in (('vort_list', r.choice([0, 3, 12])), ('sink_list', r.choice([0, 0, 1])), ('streak_source_list', r.choice([0, 0, 1, 2])), ('streak_domain_list', r.choice([0, 0, 3]))):
        for _ in range(m): s += ['S.%s:append{%r, %r, %r}' % (l, r.uniform(1.2, 4), r.uniform(-2, 2), r.choice([1, -1]) * r.uniform(.01, .2))]
    return dict(script='\n'.join(s), re=re, dt=dt, save=F(sv), time=F(t0), finish=fin, caption=cap, profile=r.random() < .4, sensors=[(r.uniform(-3, 5), r.uniform(-3, 3)) for _ in range(r.choice([0, 0, 1, 3]))], given=r.random() < .8, pr=r.choice([.7, 1, 7]), heat=[(r.uniform(1.2, 4), r.uniform(-2, 2), r.uniform(.01, .2)) for _ in range(r.choice([0, 0, 4]))] + [(r.uniform(15.9, 16.1), 0., .1) for _ in range(r.choice([0, 0, 0, 2]))], hot=[r.choice([None, (r.choice([1, 2, 3]), r.uniform(.1, 1))]) for _ in range(nb)] if r.random() < .3 else [])


def warm(c, sp):
    """the heat in the flow, which scripts do not set"""
    if not c['heat'] and not any(c['hot']): return False
    sp.set(pr=c['pr'])
    for o in c['heat']: sp.push(1, *o)
    for b, h in enumerate(c['hot']):
        if h:
            sp.bset(b, heat_condition=h[0])
            for i in range(sp.nseg(b)): sp.aset(b, i, 'heat_const', h[1])
    return True


class Own(Lua):
    """an interpreter with a state of its own"""
    def __init__(self, lib): Lua.__init__(self, lib); lib.lu_own.argtypes = lib.lu_disown.argtypes = [V]; lib.lu_own(self.p)
    def free(self): self.lib.lu_disown(self.p); Lua.free(self)


class Apart:
    """the steps of a run, made one by one in the folder d on the flow of the interpreter L"""
    def __init__(self, lib, L, c, d): self.lib = lib; self.L = L; self.c = c; self.d = d; self.t = c['time']; self.lines = []; self.sp = lib.lu_space(L.p)
    def go(self, finish):
        c = self.c; old = os.getcwd(); os.chdir(self.d); self.steps = 0; self.hits = 0
        try:
            os.makedirs('results_' + c['caption'], exist_ok=True); R = self.lib.rn_new(self.sp, ('stepdata_%s.h5' % c['caption']).encode(), int(c['profile']))
            if not R: raise Ambiguous
            at = c['sensors'] if c['given'] else []
            for x, y in at: self.lib.rn_at(R, x, y)
            out = (D * (2 * len(at) + 2))()
            while float(self.t) < finish + float(c['dt']) / 2:
                if abs(float(self.t) - finish - float(c['dt']) / 2) < 1e-9: raise Ambiguous
                keep = self.t >= 0 and (self.t / c['save']).denominator == 1
                k = self.lib.rn_step(R, ('results_%s/%%06d.h5' % c['caption']).encode() if keep else None, int(c['re'] != FINF), out)
                if k < 0: raise Ambiguous
                if at: self.lines.append('%g' % float(self.t) + ''.join(' \t%g \t%g' % (out[2 * i], out[2 * i + 1]) for i in range(len(at))) + '\n')
                self.t += c['dt']; self.steps += 1; self.hits += k
                self.L.run('S.time = "%d/%d"' % (self.t.numerator, self.t.denominator))
            self.lib.rn_free(R)
        finally: os.chdir(old)


def real_time(s):
    for t in s['times']:
        if t[1]: q = F(*t); t_ = (q.numerator, q.denominator); s['times'][s['times'].index(t)] = t_
    return s


def deviation(lib, A, B, lines, c, tmp):
    """what the folder of a run has other than the folder of its steps"""
    res = 'results_' + c['caption']; extra = ['velocity_' + c['caption']] if c['sensors'] and c['given'] else []
    a = sorted(os.listdir(A)); b = sorted(os.listdir(B) + extra)
    if a != b: return 'the folder holds %r instead of %r' % (a, b)
    if res in a:
        x, y = sorted(os.listdir(os.path.join(A, res))), sorted(os.listdir(os.path.join(B, res)))
        if x != y: return 'the states saved are %r instead of %r' % (x, y)
        for f in x:
            s = []
            for d in (A, B):
                sp = Space(lib); ok = lib.st_load(sp.p, os.path.join(d, res, f).encode()); s.append(real_time(sp.snap()) if ok else None); sp.free()
            if s[0] is None or s[1] is None:
                if (s[0] is None) != (s[1] is None): return '%s cannot be read' % f
                continue
            dd = diff(s[1], s[0], 1e-12)
            if dd: return 'the state saved as %s: %s' % (f, dd)
    f = 'stepdata_%s.h5' % c['caption']
    if f in a:
        n = [[], []]
        for k, d in enumerate((A, B)):
            p = os.path.join(d, f).encode()
            for g in lib.sd_names(p, b'/').decode().split():
                n[k] += ['%s/%s' % (g, x) for x in lib.sd_names(p, g.encode()).decode().split()] if g.startswith('body') else [g]
        if sorted(n[0]) != sorted(n[1]): return 'the step data are %r instead of %r' % (sorted(n[0]), sorted(n[1]))
        for g in n[0]:
            if g == 'string_t': continue
            x, y = (dataset(lib, os.path.join(d, f), g) for d in (A, B))
            if x != y: return 'step data %s differ: %d records instead of %d%s' % (g, len(x), len(y), ''.join(', first difference in record %d' % i for i, (u, v) in list(enumerate(zip(x, y))) if u != v)[:40])
    for f in extra:
        x = open(os.path.join(A, f)).read()
        if x != ''.join(lines): return 'the sensors recorded %r instead of %r' % (x[:300], ''.join(lines)[:300])


def rm_files(d):
    for x in os.listdir(d):
        p = os.path.join(d, x)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def run_one(lib, r, base):
    proto(lib); c = scenario(r); A, B = os.path.join(base, 'a'), os.path.join(base, 'b'); os.mkdir(A); os.mkdir(B); old = os.getcwd(); la, lb = Own(lib), Own(lib); pts = os.path.join(base, 'points')
    open(pts, 'w').write(''.join(r.choice(['%r %r\n', ' %r\t%r\n', '%r\n%r\n']) % p for p in c['sensors']) + r.choice(['', 'end\n', '\n', '1.5\n']))
    try:
        for L in (la, lb):
            e = L.run(c['script'])
            if e.startswith('!'): raise RuntimeError(e)
        sa = Space(lib, lib.lu_space(la.p)); sb = Space(lib, lib.lu_space(lb.p)); warm(c, sa); warm(c, sb); ap = Apart(lib, lb, c, B); finish = c['finish']
        for again in range(r.choice([1, 1, 2])):
            if again: finish = float(ap.t) + float(c['dt']) * r.choice([-5, -1, 0, 1, 2]) + float(c['dt']) * .1; la.run('S.finish = %r' % finish); lb.run('S.finish = %r' % finish)
            lib.rn_opt(int(c['profile']), pts.encode() if c['given'] else None); os.chdir(A)
            try: e = la.run('return simulate()')
            finally: os.chdir(old)
            ap.go(finish)
            if e.startswith('!'): return 'the run fails: %s' % e
            x, y = real_time(sa.snap()), real_time(sb.snap()); dd = diff(y, x, 1e-12)
            if dd: return 'after a run of %d steps: %s; set up by %s' % (ap.steps, dd, c['script'].replace('\n', '; ')[:1500])
            if F(*sa.time(0)) != ap.t: return 'the run ends at %s instead of %s; set up by %s' % (F(*sa.time(0)), ap.t, c['script'].replace('\n', '; ')[:1500])
        dd = deviation(lib, A, B, ap.lines, c, base)
        if dd: return '%s; set up by %s' % (dd, c['script'].replace('\n', '; ')[:1500])
        if r.random() < .2:
            rm_files(A); s0 = la.dump(0); la.run('S.re = %s' % r.choice(['0', '-1', '-100'])); os.chdir(A)
            try: la.run('simulate()')
            finally: os.chdir(old)
            s1 = la.dump(0); s1['re'] = s0['re']
            if s0 != s1: return 'a run with a Reynolds number that is not positive changes the state'
            if os.listdir(A): return 'a run with a Reynolds number that is not positive writes %r' % os.listdir(A)
    finally:
        la.free(); lb.free(); rm_files(base)


def main_one(lib, r, base):
    """the whole program: options, arguments, scripts and saved states"""
    proto(lib); c = scenario(r); A, B = os.path.join(base, 'a'), os.path.join(base, 'b'); os.mkdir(A); os.mkdir(B); old = os.getcwd(); lb = Own(lib); pts = os.path.join(base, 'points'); open(pts, 'w').write(''.join('%r %r\n' % p for p in c['sensors']))
    try:
        opts = ['--profile'] * c['profile'] + (r.choice([['--sensors=' + pts], ['-s', pts], ['--sensors', pts]]) if c['given'] else []); opts = r.choice([[], ['--profile', '--no-profile'] if not c['profile'] else [], ['--no-progress']]) + opts; words = r.sample(['one', 'two words', '3', ''], r.randrange(4)); script = os.path.join(base, 'script.lua'); mode = r.random()
        def main(*w):
            lib.lu_reset(); os.chdir(A)
            try: return lib.rn_main('\n'.join(('vvflow',) + w).encode())
            finally: os.chdir(old)
        if mode < .15:
            bad = r.choice(['error("x")', 'S.re = 1 +', 'S.foo = 1', 'local x = nil; x.y = 1', 'error()'])
            open(script, 'w').write(bad); k = main(script)
            return 'a script that fails (%s) makes the program return %d instead of 8' % (bad, k) if k != 8 else None
        if mode < .2: k = main(os.path.join(base, 'missing.lua')); return 'a missing script makes the program return %d' % k if k != 8 else None
        e = lb.run(c['script'])
        if e.startswith('!'): raise RuntimeError(e)
        if mode < .6 and not warm(c, Space(lib, lib.lu_space(lb.p))):
            text = c['script'] + '\nlocal f = io.open("words", "w"); f:write(arg[0], "\\n"); for i, w in ipairs(arg) do f:write(i, " ", w, "\\n") end f:close()\n'
            open(script, 'w').write(text + 'simulate()\n'); k = main(*opts, script, *words)
            got = open(os.path.join(A, 'words')).read() if os.path.exists(os.path.join(A, 'words')) else None; want = script + '\n' + ''.join('%d %s\n' % (i + 1, w) for i, w in enumerate(words))
            if got != want: return 'the script sees the arguments %r instead of %r' % (got, want)
            os.unlink(os.path.join(A, 'words'))
        else:
            state = os.path.join(base, 'state.h5'); e = lb.run('S:save("%s")' % state)
            if e.startswith('!'): raise Ambiguous
            lb.free(); lb = Own(lib); e = lb.run('S:load("%s")' % state)
            if e.startswith('!'): raise Ambiguous
            k = main(*opts, state)
        if k: return 'the program returns %d; set up by %s' % (k, c['script'].replace('\n', '; ')[:1500])
        ap = Apart(lib, lb, c, B); ap.go(c['finish']); dd = deviation(lib, A, B, ap.lines, c, base)
        if dd: return '%s; run by vvflow %s; set up by %s' % (dd, ' '.join(opts), c['script'].replace('\n', '; ')[:1500])
    finally: lb.free(); rm_files(base)


def inside(one):
    def run(lib, rnd, chk, progress):
        base = tempfile.mkdtemp(dir=ir.scratch())
        try: return runner(one[1], lambda l, r: one[0](l, r, base), one[2])(lib, rnd, chk, progress)
        finally: shutil.rmtree(base, ignore_errors=True)
    return run


def sensors_group(chk):
    """one line of the sensors' file"""
    probe_world(chk); chk.probe([('Space', 'time')]); m = chk.extract(['utils/vvflow/vvflow.cpp'], noinline=NOINLINE)
    at = {k: v for k, v in ir.probe_offsets([(k, 'sensors', k) for k in ('S', 'conv', 'fout', 'slist')], list(chk.includes) + ['iostream', os.path.join(ir.REPO, 'utils/vvflow/sensors.cpp')], flags=['-ffunction-sections', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all']).items()}
    def unit(opened):
        u = chk.unit(m); n = var('n', 'I'); sl = at['slist']; u.raw('SEN', 48, {o: ('ptr', None) for o in (at['S'], at['conv'], at['fout'], sl, sl + 8, sl + 16)}, array=False); u.region('space', 'Space', [k for k in SPACE if not k.endswith(('.value', '.timescale'))]); o = chk.off('Space', 'time'); u.decl['space'].leaves[o] = (ir.I64, 'time'); u.decl['space'].leaves.pop(o + 4, None)
        u.raw('POINTS', 16, {0: ('double', 'x'), 8: ('double', 'y')}, [n]); u.raw('CONV', 8, {0: ('i64', 'q')}, array=False); u.raw('FILE', 8, {0: ('i64', 'q')}, array=False)
        u.setoff('SEN', at['S'], lambda: ptr('space')); u.setoff('SEN', at['conv'], lambda: ptr('CONV')); u.setoff('SEN', at['fout'], lambda: ptr('FILE') if opened else NULL)
        u.setoff('SEN', sl, lambda: ptr('POINTS', ())); u.setoff('SEN', sl + 8, lambda: ptr('POINTS', (), n * 16)); u.setoff('SEN', sl + 16, lambda: ptr('POINTS', (), n * 16))
        def fprintf(E, st, a, ins):
            f = E.cstring(a[1]); rest = list(a[2:])
            if f is None: raise ct.Unsupported('format')
            for tok in re.findall(r'%l?[a-z]|\n|[^%\n]+', f):
                if tok in ('%lg', '%g'): ct.emit(st, 'number', a[0], rest.pop(0))
                elif tok == '\n': ct.emit(st, 'end of line', a[0])
                elif tok.strip(' \t') == '': ct.emit(st, 'space', a[0])
                else: raise ct.Unsupported('format ' + f)
            return I(0)
        def fputc(E, st, a, ins):
            if a[0].const() not in (9, 10, 32): raise ct.Unsupported('character')
            ct.emit(st, 'end of line' if a[0].const() == 10 else 'space', a[1]); return I(0)
        def velocity(E, st, a, ins): E.obl.append(('the velocity of this flow', st.facts, ct.goal_eq(E.pnorm(st, a[0]), ptr('CONV')))); return (fn('u', a[1], a[2]), fn('v', a[1], a[2]))
        u.contracts += TIMECALLS + [(r'^fprintf$', fprintf), (r'^fputc$', fputc), (r'^fflush$', lambda E, st, a, ins: (ct.emit(st, 'flush', a[0]), I(0))[1]), (r'^MConvectiveFast::velocity\(', velocity)]; return u, n
    u, n = unit(True); F_ = ptr('FILE'); x = lambda k: u.F('POINTS', 0)(k); y = lambda k: u.F('POINTS', 8)(k)
    chk.case('line of the sensors', u, r'^sensors::output\(', [ptr('SEN')], [n >= 1], {}, samples=0, merge=False, events=[Ev('number', F_, seconds(u.F('space', 'time')())), For(n, lambda k: [Ev('space', F_), Ev('number', F_, fn('u', x(k), y(k))), Ev('space', F_), Ev('number', F_, fn('v', x(k), y(k)))]), Ev('end of line', F_), Ev('flush', F_)])
    v, n = unit(False); chk.case('no sensors', v, r'^sensors::output\(', [ptr('SEN')], [n >= 0], {}, samples=0, merge=False, events=[])


OPENS = ('space', 'tvec', 'tobj', 'tvec3d', 'teval', 'tbody', 'objlist', 'bodylist')
FUNCTIONS = {k: 'luavvd_' + k for k in ('load_body', 'gen_cylinder', 'gen_semicyl', 'gen_ellipse', 'gen_plate', 'gen_parallelogram', 'gen_chamber_gpj', 'gen_chamber_box', 'gen_savonius')}
FUNCTIONS['simulate'] = 'simulate'


def entry(chk):
    """what scripts find, and what the program does with its input"""
    probe_world(chk); chk.probe([('Space', m) for m in ('time', 'dt', 'dt_save', 'caption')]); m = chk.extract(['utils/vvflow/vvflow.cpp'], noinline=NOINLINE); st = lambda E, s: L.stack(s)
    u = chk.unit(m); u.raw('LS', 8, {0: ('i64', 'x')}, array=False)
    def setglobal(E, s, a, ins): v = L.pop(E, s); s.ghost = dict(s.ghost); s.ghost['global ' + E.cstring(a[1])] = v
    opened = [('^luaopen_%s\\(' % k, (lambda k: lambda E, s, a, ins: (ct.emit(s, 'open ' + k), I(0))[1])(k)) for k in OPENS]
    u.contracts += [(r'^lua_setglobal$', setglobal)] + opened + L.contracts()
    def found(E, s, v):
        g = {k[7:]: x for k, x in s.ghost.items() if isinstance(k, str) and k.startswith('global ')}; want = {k: ('fun', E.globptr('_Z%d%sP9lua_State' % (len(f), f))) for k, f in FUNCTIONS.items()}
        out = [('scripts find %s' % k, s.facts, Bool(g.get(k, (0,))[0] == 'fun' and g[k][1] == w[1])) for k, w in want.items()]
        out += [('scripts find inf', s.facts, Bool(g.get('inf') == ('num', INF))), ('scripts find nan', s.facts, Bool(g.get('nan', (0,))[0] == 'num' and repr(g['nan'][1]).startswith('nan')))]
        return out + [('the stack is left as it was', s.facts, Bool(len(L.stack(s)) == 0))] + ct.events_poset(E, s, [(Ev('open ' + k), ()) for k in OPENS], s.facts)
    chk.case('what scripts find', u, r'^luaopen_vvd\(', [ptr('LS')], [], {}, ret=I(0), samples=0, merge=False, extra_post=found)
    t = Trial(chk, m); u = t.u; n = var('argc', 'I'); kind, comp, call = var('kind', 'I'), var('compiled', 'I'), var('called', 'I'); inp = ptr('INPUT')
    u.raw('INPUT', 1, {0: ('i8', 'c')}); u.raw('ARGV', 8, {0: ('ptr', None)}, [n]); u.raw('ARG', 8, {0: ('i64', 'x')}, [n]); u.setoff('ARGV', 0, lambda k: ptr('ARG', (k,)))
    e = lambda name, *k: lambda E, s, a, ins: ct.emit(s, name, *[E.pnorm(s, a[i]) if isinstance(a[i], Ptr) else a[i] for i in k])
    def loadstring(E, s, a, ins): ct.emit(s, 'script text', ptr('text ' + str(E.cstring(a[1])))); return comp
    def loadfile(E, s, a, ins): ct.emit(s, 'script', E.pnorm(s, a[1])); return comp
    def pcall(E, s, a, ins): ct.emit(s, 'call', a[1], a[3]); return call
    def message(E, s, a, ins): ct.emit(s, 'message'); return I(0)
    def tolstring(E, s, a, ins): E.obl.append(('the message is the error', s.facts, eq(a[1], I(-1)))); return ptr('MSG')
    def setglobal2(E, s, a, ins): ct.emit(s, 'arguments are ' + E.cstring(a[1]))
    for r in ('MSG', 'OUT'): u.raw(r, 8, {0: ('i64', 'x')}, array=False)
    u.contracts = [(r'^opt::parse\(|^_ZN3opt5parse', e('options', 0)), (r'^luaL_newstate$', lambda E, s, a, ins: ptr('LS')), (r'^luaL_openlibs$', e('libraries')), (r'^luaopen_vvd\(', lambda E, s, a, ins: (ct.emit(s, 'names'), I(0))[1]), (r'^lua_createtable$', e('table')), (r'^lua_pushstring$', e('value', 1)), (r'^lua_rawseti$', e('at', 1, 2)), (r'^lua_setglobal$', setglobal2),
        (r'^H5Fis_hdf5$', lambda E, s, a, ins: (E.obl.append(('the input is examined', s.facts, ct.goal_eq(E.pnorm(s, a[0]), inp))), kind)[1]), (r'^Space::load\(', e('load', 0, 1)), (r'^luaL_loadstring$', loadstring), (r'^luaL_loadfilex$', loadfile), (r'^lua_pcallk$', pcall), (r'^lua_tolstring$', tolstring), (r'^fprintf$|^fputs$', message), (r'^lua_settop$', ct.nothing), (r'^lua_getglobal$', lambda E, s, a, ins: L.push(s, L.SYM(E.cstring(a[1])))), (r'^lua_close$', ct.nothing)] + u.contracts
    def engine(E):
        given(E, 'input', inp); given(E, 'argc', n); given(E, 'argv', ptr('ARGV', ()))
    saved = kind > 0; bad = Or(ne(comp, I(0)), ne(call, I(0)))
    def post(E, s, v):
        ev = [Ev('options', None), Ev('libraries'), Ev('names'), Ev('table'), For(n, lambda k: [Ev('value', ptr('ARG', (k,))), Ev('at', I(-2), k)]), Ev('arguments are arg'), Ev('load', ptr('space'), inp, guard=saved), Ev('script text', ptr('text simulate()'), guard=saved), Ev('script', inp, guard=Not(saved)), Ev('call', I(0), None, guard=eq(comp, I(0))), Ev('message', guard=Or(ne(comp, I(0)), ne(call, I(0))))]
        ev = [x for x in ev if not isinstance(x, Ev) or not E.dec.decide(s.facts, Not(x.guard))]
        if E.dec.decide(s.facts, ne(comp, I(0))): pass
        return [('the status', s.facts, eq(v, ite(ne(comp, I(0)), I(8), ite(ne(call, I(0)), I(8), I(0)))))] + ct.events_obl(s.trace, ev, s.facts, '')
    chk.case('program', u, r'^main$', [var('count', 'I'), NULL], [n >= 0, n < 2 ** 31], {}, samples=0, merge=False, engine_setup=engine, extra_post=post)
