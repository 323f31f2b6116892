"""Body generators."""
import math, random, glob, os
from fractions import Fraction as F
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.check import fail
from .world import *
from .flowbat import *
from vv.cuts import Inv
from . import luaapi
INF = R(mk('fn', 'inf'))

PI = math.pi; S_ = C.c_char_p


def setup(chk):
    chk.use('lua'); chk.native_opts['extra_srcs'] += scripts()
    for g in (parameter, sides_group, generators): chk.group(g)
    chk.battery('shapes', shapes, True, 'bodies of random parameters, compared corner by corner with the shape described in the manual')
    chk.battery('refusals', refusals, True, 'missing, malformed, excess and out-of-range parameters')


def scripts(): return sorted(os.path.relpath(p, ir.REPO) for p in glob.glob(os.path.join(ir.REPO, 'utils/vvflow/*.cpp')) if os.path.basename(p) not in ('vvflow.cpp', 'sensors.cpp'))


def proto(lib):
    for n, res, *a in (('lu_new', V), ('lu_free', None, V), ('lu_run', S_, V, S_), ('lu_body', C.c_long, V, S_, C.POINTER(D), C.c_long), ('lu_area', D, V, S_), ('lu_space', V, V)):
        f = getattr(lib, n); f.restype = res; f.argtypes = list(a)


class Lua:
    def __init__(self, lib): proto(lib); self.lib = lib; self.p = lib.lu_new()
    def run(self, s): return self.lib.lu_run(self.p, s.encode()).decode(errors='replace')
    def body(self, name):
        n = self.lib.lu_body(self.p, name.encode(), (D * 3)(), 0)
        if n < 0: return None
        buf = (D * (3 * n + 3))(); self.lib.lu_body(self.p, name.encode(), buf, n); return [(buf[3 * i], buf[3 * i + 1], int(buf[3 * i + 2])) for i in range(n)]
    def area(self, name): return self.lib.lu_area(self.p, name.encode())
    def free(self): self.lib.lu_free(self.p)


# ---- contracts
def parameter(chk):
    m = chk.extract(['utils/vvflow/gen_body.cpp'], noinline=['emplace_back']); u = chk.unit(m); L = luaapi; v = L.num('v'); ok = L.isnum('v'); nil = eq(L.typ('v'), I(0)); u.raw('K', 1, {0: ('i8', 'c')}); u.raw('LS', 8, {0: ('i64', 'x')}, array=False)
    def getfield(E, st, a, ins):
        E.obl.append(('reads the parameter table', st.facts, And(eq(a[1], I(1)), Bool(a[2] == ptr('K'))))); L.push(st, L.SYM('v'))
    def setfield(E, st, a, ins):
        x = L.pop(E, st); ct.emit(st, 'clear', a[1]); E.obl.append(('the parameter is taken off the table', st.facts, And(eq(a[1], I(1)), Bool(a[2] == ptr('K') and x == ('nil',)))))
    u.contracts += [(r'^lua_getfield$', getfield), (r'^lua_setfield$', setfield)] + L.contracts()
    lo, hi, df = var('min'), var('max'), var('default')
    def left(E, st, x): return [('the stack is left as it was', st.facts, Bool(len(L.stack(st)) == 0))]
    arg = lambda a, b, d: [ptr('LS'), ptr('K'), NULL, a, b, d]; base = L.facts('v')
    for name, val, rng in (('', v, (lo, hi)), (', bounded below', v, (lo, INF)), (', any number', v, (-INF, INF))):
        bad = Or(Not(ok), *[c for c in ((v < rng[0]) if rng[0] is lo else FALSE, (v > rng[1]) if rng[1] is hi else FALSE)])
        chk.case('required parameter' + name, u, r'^get_param\(', arg(*rng, fn('nan')), base, {}, ret=v, exc=Or(nil, bad), samples=0, extra_post=left, events=[Ev('clear', I(1))], merge=False)
        chk.case('optional parameter' + name, u, r'^get_param\(', arg(*rng, df), base + [Not(nil)], {}, ret=v, exc=bad, samples=0, extra_post=left, events=[Ev('clear', I(1))], merge=False)
        chk.case('optional parameter%s, absent' % name, u, r'^get_param\(', arg(*rng, df), base + [nil], {}, ret=df, samples=0, extra_post=left, events=[], merge=False)
    for name, x in (('infinite', INF), ('minus infinite', -INF)):
        mm = chk.extract(['utils/vvflow/gen_body.cpp'], noinline=['emplace_back']); w = chk.unit(mm); w.raw('K', 1, {0: ('i8', 'c')}); w.raw('LS', 8, {0: ('i64', 'x')}, array=False)
        def special(E, st, a, ins, x=x): E.store(st, a[2], I(1), ir.Ty('int', 32)); return x
        w.contracts += [(r'^lua_getfield$', getfield), (r'^lua_setfield$', setfield), (r'^lua_tonumberx$', special)] + L.contracts()
        chk.case('%s parameter' % name, w, r'^get_param\(', arg(lo, hi, df), base + [Not(nil)], {}, exc=TRUE, samples=0, merge=False)


def sides_group(chk):
    m = chk.extract(['utils/vvflow/gen_body.cpp'], noinline=['emplace_back']); u = chk.unit(m); u.raw('A', 8, {0: ('ptr', 'p')}, array=False); n = var('n', 'I'); slip = var('slip', 'I'); x = [var('x%d' % i) for i in range(1, 7)]
    def corner(E, st, a, ins):
        E.obl.append(('the corner is appended to the list', st.facts, Bool(a[0] == ptr('A')))); f = lambda k: E.load(st, padd_off(a[1], I(k)), ir.DBL); ct.emit(st, 'corner', f(0), f(8), E.load(st, a[2], ir.Ty('int', 32)))
    u.contracts += [(r'::emplace_back<', corner)]
    line = lambda n: [For(n, lambda k: [Ev('corner', x[0] + (x[2] - x[0]) * i2r(k) / i2r(n), x[1] + (x[3] - x[1]) * i2r(k) / i2r(n), slip)])]
    angle = lambda k, n: x[3] + (x[4] - x[3]) * i2r(k) / i2r(n)
    round_ = lambda n: [For(n, lambda k: [Ev('corner', x[0] + x[2] * fn('cos', angle(k, n)), x[1] + x[2] * fn('sin', angle(k, n)), slip)])]
    pre = [n >= 0, slip >= 0, slip <= 1]; dl = var('dl')
    chk.case('straight side', u, r'^gen_seg_N\(', [ptr('A')] + x[:4] + [n, slip], pre, {}, samples=0, events=line(n))
    chk.case('round side', u, r'^gen_arc_N\(', [ptr('A')] + x[:2] + [x[2], x[3], x[4], n, slip], pre, {}, samples=0, events=round_(n))
    S = Sides(Terms, {}); S.seg((x[0], x[1]), (x[2], x[3]), dl); S.arc((x[0], x[1]), x[2], x[3], x[4], dl); c1, c2 = S.l[0][-2], S.l[1][-2]
    chk.case('straight side of a given spacing', u, r'^gen_seg_dl\(', [ptr('A')] + x[:4] + [dl, slip], [dl > 0] + pre[1:] + [c1 >= 0], {}, samples=0, events=line(c1))
    chk.case('round side of a given spacing', u, r'^gen_arc_dl\(', [ptr('A')] + x[:2] + [x[2], x[3], x[4], dl, slip], [dl > 0, x[2] >= 0, c2 >= 0] + pre[1:], {}, samples=0, events=round_(c2))


# literals within two units in the last place are read as the decimal they stand for: 1 - epsilon as 1 (that the end points themselves are refused is tried in the battery)
EPS = 0; MIN = F(2) ** -1022
POSITIVE = (R(MIN), None)
P = lambda k: var('p_' + k)
# parameter: (least, greatest[, default])
NDL = {'N': (R(1), R(F(2) ** 63), R(0)), 'dl': POSITIVE + (R(0),)}
RANGES = {
    'gen_cylinder': dict(NDL, R=POSITIVE), 'gen_semicyl': dict(NDL, R=POSITIVE), 'gen_savonius': dict(NDL, R=POSITIVE, h=POSITIVE),
    'gen_parallelogram': dict(NDL, L=POSITIVE, H=POSITIVE, d=(R(MIN), R(180) * R(1 - EPS))),
    'gen_plate': dict(NDL, R1=(R(0), None), R2=(R(0), None), L=POSITIVE, start=(R(0), R(1 - EPS), R(0)), stop=(R(MIN), R(1), R(1)), gap=POSITIVE + (R(0),)),
    'gen_chamber_box': dict({k: POSITIVE for k in ('dln', 'dls', 'L', 'H', 'h')}, D=(R(MIN), P('L') * R(1 - EPS)), d=(R(MIN), (P('L') - P('D')) * R(1 - EPS))),
    'gen_chamber_gpj': dict({k: POSITIVE for k in ('dln', 'dls', 'R0')}, d=(R(0), R(90) * R(1 - EPS)), X0=(None, None), X1=(P('X0'), None), X2=(P('X1'), None), X3=(P('X2'), None),
        L=((P('X3') - P('X0') + P('R0')) * R(1 + EPS), None), H=(R(2) * (P('R0') + (P('X3') - P('X2')) * fn('tan', P('d') * PIp / 180)) * R(1 + EPS), None)),
    'gen_ellipse': dict(NDL, Rx=POSITIVE, Ry=(R(MIN), P('Rx'))),
}
SOURCE = {'gen_semicyl': 'gen_cylinder', 'gen_chamber_box': 'gen_box', 'gen_chamber_gpj': 'gen_gis'}
# further conditions the parameters have to meet
FURTHER = {'gen_savonius': lambda: P('R') > P('h'), 'gen_plate': lambda: And(Or(P('R1') > 0, P('R2') > 0), fabs(P('R2') - P('R1')) <= P('L'), P('start') < P('stop'))}


class Given:
    """parameters within their ranges, for the search of failing inputs"""
    def __init__(self, g): self.g = g
    def make(self, r):
        p = params(r, self.g)
        if r.random() < .3 and 'N' in p: p = {k: v for k, v in p.items() if k != 'N'}; p['dl'] = r.uniform(.001, .2)
        def f(name, args, rr):
            if name.startswith('p_'): return p.get(name[2:], {'start': 0, 'stop': 1}.get(name[2:], 0))
            if name.startswith('absent_'): return int(name[7:] not in p)
            if name.startswith(('bad_', 'no_table', 'excess')): return 0
        return f


def again(g):
    """the real generator on the parameters that refute an obligation"""
    def f(lib, v):
        v = {k[0]: x for k, x in v.items() if len(k) == 1}; p = {}
        for k in RANGES[g]:
            if 'p_' + k in v and not v.get('absent_' + k): p[k] = v['p_' + k]
        if 'N' in p: p['N'] = int(p['N'])
        try: return made(lib, g, p)
        except (Ambiguous, KeyError): return ''
    return f


def generators(chk):
    for g in GENS: (generator if GENS[g] else ellipse)(chk, g)


def ellipse(chk, g):
    Rx, Ry = P('Rx'), P('Ry'); b = bvar; size = var('size', 'I')
    def corner(E, st, a, ins):
        x, y = (E.load(st, p, ir.DBL) for p in a[1:3]); angles = {t for q in (x, y) for m in q.d for t, e in m if t.op == 'fn' and t.args[0] in ('cos', 'sin')}
        unit = [eq(fn('cos', t.args[1]) * fn('cos', t.args[1]) + fn('sin', t.args[1]) * fn('sin', t.args[1]), R(1)) for t in angles]
        E.obl.append(('the corner belongs to the body', st.facts, ct.ptr_eq(a[0], ptr('body', (), I(chk.off('TBody', 'alist'))))))
        E.obl.append(('the corner lies on the ellipse', st.facts + tuple(unit), eq(x * x * Ry * Ry + y * y * Rx * Rx, Rx * Rx * Ry * Ry)))
    def element(E, st, a, ins):
        i = a[1]
        for m in i.d:
            for t, e in m:
                if t.op == 'fn' and t.args[0] == 'trunc': q = Poly({((t, 1),): F(1)}, 'I'); st.assume(i2r(q) <= t.args[1]); st.assume(t.args[1] < i2r(q) + 1)
        E.obl.append(('the angle asked for exists', st.facts, And(i >= 0, i < size))); return ptr('semi', (), i * 8)
    want = [None]
    def asin(E, st, a, ins): E.obl.append(('the requested spacing is used', st.facts, ct.goal_eq(a[0] * 2 * Ry, want[0]))); return fn('asin', a[0])
    def start(dl):
        def f(E): E.cuts = [Inv(r'^luavvd_%s\(' % g, [], rounds)]; want[0] = dl
        return f
    angles = [(r'^asin$', asin), (r'^std::vector<double, .*>::vector\(', ct.nothing), (r'^std::vector<double, .*>::push_back\(', ct.nothing), (r'^std::vector<double, .*>::size\(', lambda E, st, a, ins: (st.assume(size >= 1), size)[1]), (r'^std::vector<double, .*>::operator\[\]', element), (r'^std::vector<double, .*>::~vector', ct.nothing), (r'::emplace_back<double, double>', corner)]
    u, rng, absent, bad = environment(chk, g, angles, ['^_ZNK?St6vectorIdSaIdEE']); u.raw('semi', 8, {0: ('double', 'v')}, [size])
    for w, pre, dl in ((' of given spacing', [Not(absent('dl')), absent('N')], P('dl')), (' of given number', [Not(absent('N')), absent('dl')], None)):
        if dl is None: h = (Rx - Ry) / (Rx + Ry); h = h * h; dl = PIp * (Rx + Ry) * (1 + 3 * h / (10 + fn('sqrt', 4 - 3 * h))) / i2r(fn('trunc', P('N'), sort='I'))
        bp = lambda: ptr('body')
        chk.case(g + w, u, r'^luavvd_%s\(' % g, [ptr('LS')], pre, {}, ret=I(1), exc=Or(b('no_table'), b('excess'), dl >= Ry * R('10/19'), *[bad(k) for k in rng]), samples=0, gen=Given(g), events=[Ev('segments', bp()), Ev('properties', bp()), Ev('push', bp())], ignore=[('body', '*')], merge=False,
            engine_setup=start(dl))
    for w, c in (('both N and dl', [Not(absent('N')), Not(absent('dl'))]), ('neither N nor dl', [absent('N'), absent('dl')])): chk.case('%s, %s' % (g, w), u, r'^luavvd_%s\(' % g, [ptr('LS')], c, {}, exc=TRUE, samples=0, merge=False, engine_setup=start(P('dl')))


def rounds(v, rd):
    """every round: the counter runs from zero"""
    return [x >= 0 for k, x in v.items() if k.startswith('i') and isinstance(x, Poly)]


def environment(chk, g, more=(), noinline=()):
    A = luaapi; b = bvar
    m = chk.extract(['utils/vvflow/%s.cpp' % SOURCE.get(g, g), 'utils/vvflow/gen_body.cpp'], noinline=['emplace_back', '9get_param', '9gen_seg_N', '9gen_arc_N', 'make_shared', '14__shared_count', '12__shared_ptr', 'push_back', *noinline])
    u = chk.unit(m); rng = RANGES[g]; u.raw('LS', 8, {0: ('i64', 'x')}, array=False)
    u.region('body', 'TBody'); u.region('atts', 'TAtt', array=True, dims=[var('cap', 'I')]); u.vec('body', 'alist', 'atts', lambda *i: I(0))
    oA = chk.off('TBody', 'alist'); S = u.decl['atts'].stride
    absent = lambda k: b('absent_' + k); bad = lambda k: b('bad_' + k)
    def get(E, st, a, ins):
        k = E.cstring(a[1])
        if k not in rng: E.obl.append(('there is no parameter %s' % k, st.facts, FALSE)); return R(0)
        lo, hi, df = (rng[k] + (None,))[:3]
        E.obl.append(('table given', st.facts, Bool(a[0] == ptr('LS'))))
        for what, got, want, free in (('least', a[3], lo, -INF), ('greatest', a[4], hi, INF)): E.obl.append(('%s value of %s' % (what, k), st.facts, Bool(got == free) if want is None else FALSE if got in (INF, -INF) else ct.goal_eq(got, want)))
        E.obl.append(('default of %s' % k, st.facts, Bool(ct.sym.isnan(a[5]) == TRUE or a[5] == fn('nan')) if df is None else eq(a[5], df) if not ct.sym.has_nan(a[5]) else FALSE))
        s = st.copy(); s.assume(bad(k)); st.assume(Not(bad(k))); r = And(*([P(k) >= lo] if lo is not None else []), *([P(k) <= hi] if hi is not None else []))
        if df is None: st.assume(r)
        else: st.assume(Or(And(absent(k), eq(P(k), df)), And(Not(absent(k)), r)))
        if k == 'N': t = fn('trunc', P(k), sort='I'); st.assume(i2r(t) <= P(k)); st.assume(P(k) < i2r(t) + 1); st.assume(t >= 0)
        st.ghost = dict(st.ghost, read=st.ghost.get('read', ()) + (k,)); return [(s, None, 'exc'), (st, P(k), 'ret')]
    def next_(E, st, a, ins):
        E.obl.append(('what is left in the table is looked at after every parameter was taken', st.facts, And(Bool(set(st.ghost.get('read', ())) == set(rng) and A.pop(E, st) == ('nil',)), eq(a[1], I(1))))); s = st.copy(); A.push(s, ('str', ptr('MSG'))); A.push(s, ('str', ptr('MSG'))); s.assume(b('excess')); st.assume(Not(b('excess'))); return [(s, I(1), 'ret'), (st, I(0), 'ret')]
    def checktype(E, st, a, ins):
        E.obl.append(('the argument has to be a table', st.facts, And(eq(a[1], I(1)), eq(a[2], I(5))))); s = st.copy(); s.assume(b('no_table')); st.assume(Not(b('no_table'))); return [(s, None, 'exc'), (st, None, 'ret')]
    def make(E, st, a, ins): E.store(st, a[0], ptr('body'), ir.PTR); E.store(st, padd_off(a[0], I(8)), NULL, ir.PTR)
    def side(kind, k):
        def f(E, st, a, ins):
            E.obl.append(('the side belongs to the body', st.facts, ct.ptr_eq(a[0], ptr('body', (), I(oA))))); n = a[k]; st.assume(n >= 0); ct.emit(st, kind, *a[1:k + 2]); e = E.load(st, padd_off(a[0], I(8)), ir.PTR); E.store(st, padd_off(a[0], I(8)), ct.padd_off(e, n * S), ir.PTR)
        return f
    one = lambda kind: lambda E, st, a, ins: ct.emit(st, kind, E.pnorm(st, a[0]) if kind != 'push' else E.load(st, a[1], ir.PTR))
    u.raw('MSG', 1, {0: ('i8', 'c')})
    u.contracts += [(r'^get_param\(', get), (r'^lua_next$', next_), (r'^luaL_checktype$', checktype), (r'^(std::shared_ptr<.*> )?std::make_shared<', make), (r'^gen_seg_N\(', side('seg', 5)), (r'^gen_arc_N\(', side('arc', 6)), (r'^std::__shared_ptr<.*>::get\(\)', lambda E, st, a, ins: E.load(st, a[0], ir.PTR)), (r'^std::__shared_(ptr|count)<.*(reset|~__shared)', ct.nothing),
        (r'^TBody::doUpdateSegments', one('segments')), (r'^TBody::doFillProperties', one('properties')), (r'^pushTBody\(', one('push'))] + list(more) + A.contracts()
    return u, rng, absent, bad


def generator(chk, g):
    u, rng, absent, bad = environment(chk, g); b = bvar
    variants = [('', [], {})]
    if 'N' in rng: variants = [(' of given spacing', [Not(absent('dl')), absent('N')], {'dl': P('dl')}), (' of given number', [Not(absent('N')), absent('dl')], {'N': P('N')})]
    if g == 'gen_plate': variants = [(w + v, c + d, dict(p, whole=z)) for w, c, p in variants for v, d, z in ((', whole', [eq(P('stop'), R(1))], True), (', cut', [P('stop') < 1], False))]
    for w, pre, p in variants:
        s = Sides(Terms, dict({k: P(k) for k in rng if k not in ('N', 'dl')}, **p)); GENS[g](s); ev = [Ev(*x) for x in s.l]; total = I(0)
        for x in s.l: total = total + x[-2]
        exc = Or(b('no_table'), b('excess'), total < 3, *[bad(k) for k in rng], *([Not(FURTHER[g]())] if g in FURTHER else []))
        bp = lambda: ptr('body'); done = [Ev('segments', bp()), Ev('properties', bp()), Ev('push', bp())]
        chk.case(g + w, u, r'^luavvd_%s\(' % g, [ptr('LS')], pre + [x[-2] >= 0 for x in s.l], {}, ret=I(1), exc=exc, samples=0, gen=Given(g), events=ev + done, ignore=[('body', '*')], merge=False).replay = again(g)
    if 'N' in rng:
        for w, c in (('both N and dl', [Not(absent('N')), Not(absent('dl'))]), ('neither N nor dl', [absent('N'), absent('dl')])): chk.case('%s, %s' % (g, w), u, r'^luavvd_%s\(' % g, [ptr('LS')], c, {}, exc=TRUE, samples=0, merge=False)


# ---- the shapes of the manual, as closed chains of straight and circular sides; M: the numbers they are computed with
class Numbers:
    PI = math.pi; cos = staticmethod(math.cos); sin = staticmethod(math.sin); tan = staticmethod(math.tan); asin = staticmethod(math.asin); acos = staticmethod(math.acos); sqrt = staticmethod(math.sqrt)
    abs = staticmethod(abs); real = staticmethod(float); max = staticmethod(max); min = staticmethod(min); less = staticmethod(lambda a, b: int(a < b)); whole = staticmethod(lambda n: int(n))
    @staticmethod
    def count(x):
        if abs(x - math.floor(x) - .5) < 1e-9: raise Ambiguous()
        return int(math.floor(x + .5))
PI_ATOM = mk('fn', 'pi')
class Terms:
    PI = PIp; cos, sin, tan, asin, acos, sqrt = [staticmethod(lambda x, n=n: fn(n, x)) for n in ('cos', 'sin', 'tan', 'asin', 'acos', 'sqrt')]
    abs = staticmethod(lambda x: -x if len(x.d) == 1 and all(len(m) == 1 and m[0] == (PI_ATOM, 1) and c < 0 for m, c in x.d.items()) else x if len(x.d) == 1 and all(len(m) == 1 and m[0] == (PI_ATOM, 1) for m in x.d) else fabs(x)); real = staticmethod(R); max = staticmethod(lambda a, b: ite(a < b, b, a)); min = staticmethod(lambda a, b: ite(b < a, b, a)); less = staticmethod(lambda a, b: ind(a < b, 'I')); whole = staticmethod(lambda n: fn('trunc', n, sort='I'))
    count = staticmethod(lambda x: fn('trunc', fn('floor', x + R('1/2')), sort='I'))


class Sides:
    def __init__(self, M, p): self.M = M; self.p = p; self.l = []; self.dl = None
    def __getitem__(self, k): return self.p[k]
    def has(self, k): return k in self.p
    def spacing(self, f):
        """the requested spacing; given the number of segments, what follows from the perimeter f()"""
        if self.has('dl'): return self['dl']
        n = self.M.whole(self['N']); return f() / (n if isinstance(n, int) else i2r(n))
    def seg(self, p, q, dl, slip=0):
        r = self.M.real; p, q = [tuple(r(c) if isinstance(c, (int, float)) else c for c in x) for x in (p, q)]; n = self.M.count(self.M.sqrt((q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])) / dl)
        self.l.append(('seg', p[0], p[1], q[0], q[1], n, slip))
    def arc(self, c, r, a, b, dl, slip=0):
        f = self.M.real; g = lambda x: f(x) if isinstance(x, (int, float)) else x; self.arc_n(c, r, a, b, self.M.count(r * self.M.abs(g(b) - g(a)) / dl), slip)
    def arc_n(self, c, r, a, b, n, slip=0):
        f = self.M.real; g = lambda x: f(x) if isinstance(x, (int, float)) else x; self.l.append(('arc', g(c[0]), g(c[1]), r, g(a), g(b), n, slip))


def corners(sides):
    out = []
    for s in sides:
        n = s[-2]
        for k in range(n):
            if s[0] == 'seg': x, y = s[1] + (s[3] - s[1]) * k / n, s[2] + (s[4] - s[2]) * k / n
            else: a = s[4] + (s[5] - s[4]) * k / n; x, y = s[1] + s[3] * math.cos(a), s[2] + s[3] * math.sin(a)
            out.append((x, y, s[-1]))
    return out


def cylinder(s):
    M = s.M; o = (0, 0)
    if s.has('N'): s.arc_n(o, s['R'], 2 * M.PI, 0, M.whole(s['N']))
    else: s.arc(o, s['R'], 2 * M.PI, 0, s['dl'])
def semicyl(s):
    R_, pi = s['R'], s.M.PI; dl = s.spacing(lambda: pi * R_ + 2 * R_); s.seg((0, 0), (R_, 0), dl); s.arc((0, 0), R_, 2 * pi, pi, dl); s.seg((-R_, 0), (0, 0), dl)
def parallelogram(s):
    M = s.M; L, H = s['L'], s['H']; a = s['d'] * M.PI / 180; w = H / M.tan(a); dl = s.spacing(lambda: 2 * (L + H / M.sin(a))); c = [(L, 0), (0, 0), (w, H), (L + w, H)]
    for k in range(4): s.seg(c[k], c[(k + 1) % 4], dl)
def savonius(s):
    R_, h, pi = s['R'], s['h'] / 2, s.M.PI; dl = s.spacing(lambda: pi * (4 * R_ + 2 * h))
    s.arc((R_, 0), R_ - h, pi, 2 * pi, dl); s.arc((2 * R_, 0), h, pi, 0, dl); s.arc((R_, 0), R_ + h, 2 * pi, pi, dl)
    s.arc((-R_, 0), R_ - h, 0, pi, dl); s.arc((-2 * R_, 0), h, 2 * pi, pi, dl); s.arc((-R_, 0), R_ + h, pi, 0, dl)
def box(s):
    L, H, Dd, h, d, n, w = [s[k] for k in ('L', 'H', 'D', 'h', 'd', 'dln', 'dls')]; e = (Dd + d) / 2; l = L / 2; pi = s.M.PI; q = pi / 2
    s.seg((0, H), (-l, H), w, 1); s.seg((-l, H), (-l, 0), w, 1); s.seg((-l, 0), (-e, 0), n); s.arc((-e, -d / 2), d / 2, q, 0, n); s.arc((-e, -d / 2), d / 2, 0, -q, n); s.seg((-e, -d), (-l - h, -d), w, 1); s.seg((-l - h, -d), (-l - h, H + h), w, 1)
    s.seg((-l - h, H + h), (l + h, H + h), w, 1)
    s.seg((l + h, H + h), (l + h, -d), w, 1); s.seg((l + h, -d), (e, -d), w, 1); s.arc((e, -d / 2), d / 2, 3 * q, pi, n); s.arc((e, -d / 2), d / 2, pi, q, n); s.seg((e, 0), (l, 0), n); s.seg((l, 0), (l, H), w, 1); s.seg((l, H), (0, H), w, 1)
def gpj(s):
    M = s.M; R_, x0, x1, x2, x3, n, w = [s[k] for k in ('R0', 'X0', 'X1', 'X2', 'X3', 'dln', 'dls')]; y3 = R_ + (x3 - x2) * M.tan(s['d'] * M.PI / 180); x4 = x3 - s['L']; y4 = s['H'] / 2; w2 = M.min(w, (y4 - y3) / 5)
    up = [((x4, y4), (x3, y4), w, 1), ((x3, y4), (x3, y3), w2, 1), ((x3, y3), (x2, R_), n, 0), ((x2, R_), (x1, R_), n, 0), ((x1, R_), (x0, R_), w, 1)]
    s.seg((x4, -y4), (x4, y4), w, 1)
    for x in up: s.seg(*x)
    s.arc((x0, 0), R_, M.PI / 2, 3 * M.PI / 2, w, 1)
    for a, b, dl, slip in reversed(up): s.seg((b[0], -b[1]), (a[0], -a[1]), dl, slip)
def plate(s):
    M = s.M; R1, R2, L = s['R1'], s['R2'], s['L']; pi = M.PI; a = M.asin((R2 - R1) / L); t = pi / 2 + a; dl = s.spacing(lambda: 2 * ((pi - t) * R1 + t * R2 + L * M.cos(a)))
    g = lambda k, z: s[k] if s.has(k) else M.real(z); u, v = g('start', 0), g('stop', 1); r1, r2 = R1 + u * (R2 - R1), R1 + v * (R2 - R1); c1, c2 = u * L, v * L; P = lambda c, r, f, z: (c + r * M.cos(f), z * r * M.sin(f))
    if s.p.get('whole', v == 1): b0, b = M.real(0), t
    else: k = M.max(dl, g('gap', 0)); b0, b = pi, t + M.acos(r2 / (r2 + k)); r2 = r2 + k
    s2, s1 = M.less(v, M.real(1)), M.less(M.real(0), u)
    s.arc((c2, 0), r2, -b0, -b, dl, s2); s.seg(P(c2, r2, b, -1), P(c1, r1, t, -1), dl); s.arc((c1, 0), r1, 2 * pi - t, pi, dl, s1); s.arc((c1, 0), r1, pi, t, dl, s1); s.seg(P(c1, r1, t, 1), P(c2, r2, b, 1), dl); s.arc((c2, 0), r2, b, b0, dl, s2)
def expected(f, p): s = Sides(Numbers, p); f(s); return corners(s.l)


def params(r, g):
    """parameters within the ranges of the manual"""
    z = r.choice([1, 1, .1, 30]); ln = lambda a=.2, b=2: z * r.choice([r.uniform(a, b), round(r.uniform(a, b), 2), 1.])
    p = {'gen_cylinder': lambda: {'R': ln()}, 'gen_semicyl': lambda: {'R': ln()}, 'gen_savonius': lambda: (lambda R: {'R': R, 'h': R * r.uniform(.05, .95)})(ln()), 'gen_parallelogram': lambda: {'L': ln(), 'H': ln(), 'd': r.choice([90, 45, r.uniform(5, 175)])}}
    if g == 'gen_plate':
        L = ln(1, 3); R1 = r.choice([0, L * r.uniform(0, .4)]); R2 = r.choice([R1, L * r.uniform(0, .4), 0]); q = {'R1': R1, 'R2': R2, 'L': L}
        if not (R1 or R2): q['R2'] = L * .2
        if r.random() < .4: q['start'] = r.choice([0, r.uniform(0, .4)])
        if r.random() < .4: q['stop'] = r.choice([1, r.uniform(.6, 1)])
        if r.random() < .3: q['gap'] = L * r.uniform(.01, .1)
    elif g == 'gen_chamber_box': L = ln(1, 3); Dd = L * r.uniform(.05, .7); q = {'L': L, 'H': ln(), 'D': Dd, 'h': ln(.05, .5), 'd': (L - Dd) * r.uniform(.05, .8), 'dln': ln(.01, .1), 'dls': ln(.02, .3)}; return q
    elif g == 'gen_chamber_gpj':
        R = ln(.3, 1); x = [r.uniform(-2, 2) * z]; d = r.choice([0, 0, r.uniform(0, 60)])
        for _ in range(3): x.append(x[-1] + r.choice([0, ln(), ln()]))
        y3 = R + (x[3] - x[2]) * math.tan(math.radians(d)); q = dict({'X%d' % k: x[k] for k in range(4)}, R0=R, d=d, L=(x[3] - x[0] + R) * r.uniform(1.05, 2), H=2 * y3 * r.uniform(1.05, 2), dln=ln(.02, .1), dls=ln(.03, .3)); return q
    elif g == 'gen_ellipse': Rx = ln(); q = {'Rx': Rx, 'Ry': Rx * r.choice([1, r.uniform(.3, 1)])}
    else: q = p[g]()
    if r.random() < .5: q['N'] = r.choice([60, r.randint(40, 600), 333])
    else: q['dl'] = {'gen_cylinder': q.get('R', 0), 'gen_semicyl': q.get('R', 0), 'gen_savonius': q.get('R', 0), 'gen_plate': q.get('L', 0) * .5, 'gen_parallelogram': min(q.get('L', 0), q.get('H', 0)), 'gen_ellipse': q.get('Ry', 0)}[g] * r.uniform(.005, .2)
    return q


GENS = {'gen_cylinder': cylinder, 'gen_semicyl': semicyl, 'gen_parallelogram': parallelogram, 'gen_savonius': savonius, 'gen_chamber_box': box, 'gen_chamber_gpj': gpj, 'gen_plate': plate, 'gen_ellipse': None}
def call(g, p): return '%s{%s}' % (g, ', '.join('%s=%s' % (k, v if isinstance(v, str) else repr(v)) for k, v in p.items()))
def shoelace(c): return sum(a[1] * b[0] - a[0] * b[1] for a, b in zip(c, c[1:] + c[:1])) / 2


def shape(lib, r): g = r.choice(list(GENS)); return made(lib, g, params(r, g))
def made(lib, g, p):
    L = Lua(lib)
    try:
        want = expected(GENS[g], p) if GENS[g] else None; e = L.run('B = ' + call(g, p)); c = L.body('B'); what = call(g, p)
        if e.startswith('!') or c is None: return '%s is refused: %s' % (what, e)
        size = max(math.hypot(x, y) for x, y, _ in c); tol = 1e-9 * size
        if want is not None:
            if len(c) != len(want): return '%s has %d segments instead of %d' % (what, len(c), len(want))
            for i, (a, b) in enumerate(zip(c, want)):
                if math.hypot(a[0] - b[0], a[1] - b[1]) > tol: return 'corner %d of %s is at %r instead of %r' % (i, what, a[:2], b[:2])
                if a[2] != b[2]: return 'segment %d of %s %s' % (i, what, 'slips' if a[2] else 'does not slip')
        else:
            Rx, Ry = p['Rx'], p['Ry']; n = len(c)
            for i, a in enumerate(c):
                if abs((a[0] / Rx) ** 2 + (a[1] / Ry) ** 2 - 1) > 1e-9: return 'corner %d of %s is at %r, off the ellipse' % (i, what, a[:2])
                if a[2]: return 'segment %d of %s slips' % (i, what)
                if max(abs(a[0] + c[(i + n // 2) % n][0]), abs(a[1] + c[(i + n // 2) % n][1])) > tol: return 'the lower and the upper half of %s differ' % what
            h = ((Rx - Ry) / (Rx + Ry)) ** 2; slen = PI * (Rx + Ry) * (1 + 3 * h / (10 + math.sqrt(4 - 3 * h))); dl = p.get('dl') or slen / p['N']; ls = [math.hypot(a[0] - b[0], a[1] - b[1]) for a, b in zip(c, c[1:] + c[:1])]
            if abs(n - slen / dl) > 2 + .02 * n: return '%s has %d segments instead of about %.1f' % (what, n, slen / dl)
            if min(ls) < .5 * dl or max(ls) > 1.6 * dl: return 'the segments of %s are %g to %g long instead of about %g' % (what, min(ls), max(ls), dl)
            turn = [math.atan2(-a[1] / Ry, a[0] / Rx) % (2 * PI) for a in c]
            if sum(1 for a, b in zip(turn, turn[1:] + turn[:1]) if b < a) != 1: return 'the corners of %s do not go round once' % what
        if len(set((a[0], a[1]) for a in c)) != len(c): return 'two corners of %s coincide' % what
        for a, b in zip(c, c[1:] + c[:1]):
            if math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-6 * size: return 'two neighbouring corners of %s coincide: %r' % (what, a)
        A = L.area('B')
        if abs(A - shoelace(c)) > 1e-9 * size * size: return 'the area of %s is %r instead of %r' % (what, A, shoelace(c))
        if A <= 0: return '%s is inside out' % what
    finally: L.free()


def shapes(lib, rnd, chk, progress): return runner(900, shape, 'random body')(lib, rnd, chk, progress)


def refusals(lib, rnd, chk, progress):
    """every parameter missing, malformed or out of its range"""
    n = 0; r = random.Random(rnd.randrange(1 << 30)); L = Lua(lib)
    OPT = {'gen_plate': ('start', 'stop', 'gap')}
    def refused(g, p, why):
        nonlocal n; n += 1; s = call(g, p); progress(s); e = L.run('B = nil; B = ' + s)
        if not e.startswith('!'): fail('%s is accepted although %s (%d segments)' % (s, why, len(L.body('B') or [])))
        if L.body('B') is not None: fail('%s left a body' % s)
    for g in GENS:
        for _ in range(chk.n(3)):
            p = params(r, g); e = L.run('B = ' + call(g, p))
            if e.startswith('!'): fail('%s is refused: %s' % (call(g, p), e))
            for k in p:
                if k in OPT.get(g, ()): pass
                else: refused(g, {x: y for x, y in p.items() if x != k}, 'parameter %s is missing' % k)
                for bad, why in (('"abc"', 'is a text'), ('{}', 'is a table'), ('true', 'is not a number'), ('nan', 'is not a number'), ('inf', 'is not finite'), ('-inf', 'is not finite')): refused(g, dict(p, **{k: bad}), '%s %s' % (k, why))
                if k in ('X0', 'X1', 'X2', 'X3'): continue
                refused(g, dict(p, **{k: -1e-9}), '%s is negative' % k)
                if not (g == 'gen_plate' and k in ('R1', 'R2', 'start', 'gap') or k == 'd' and g == 'gen_chamber_gpj'): refused(g, dict(p, **{k: 0}), '%s is zero' % k)
            refused(g, dict(p, foo=1), 'there is no parameter foo'); refused(g, dict(p, foo='"x"'), 'there is no parameter foo')
            if 'N' in p or 'dl' in p: refused(g, dict(p, N=100, dl=.01), 'N and dl exclude each other')
            if g == 'gen_ellipse': refused(g, dict(p, Ry=p['Rx'] * 1.001), 'Ry exceeds Rx')
            if g == 'gen_savonius': refused(g, dict(p, h=p['R'] * 1.001), 'h exceeds R'); refused(g, dict(p, h=p['R']), 'h equals R')
            if g == 'gen_parallelogram': refused(g, dict(p, d=180), 'd is not below 180'); refused(g, dict(p, d=200), 'd is not below 180')
            if g == 'gen_plate':
                refused(g, dict(p, start=1), 'start is not below 1'); refused(g, dict(p, stop=1.01), 'stop exceeds 1'); refused(g, dict(p, R1=0, R2=0), 'both radii are zero')
                refused(g, dict(p, R1=0, R2=p['L'] * 1.5), 'one circle contains the other'); refused(g, dict(p, R2=0, R1=p['L'] * 1.5), 'one circle contains the other'); refused(g, dict(p, start=.7, stop=.3), 'start exceeds stop')
            if g == 'gen_chamber_box': refused(g, dict(p, D=p['L'] * 1.01), 'D exceeds L'); refused(g, dict(p, D=p['L']), 'D equals L'); refused(g, dict(p, L=1, D=.5, d=.5), 'd equals L - D'); refused(g, dict(p, d=(p['L'] - p['D']) * 1.01), 'd exceeds L - D')
            if g == 'gen_chamber_gpj':
                for k in (1, 2, 3): refused(g, dict(p, **{'X%d' % k: p['X%d' % (k - 1)] - .01}), 'X%d lies before X%d' % (k, k - 1))
                refused(g, dict(p, X0=-1, X1=0, X2=1, X3=2, R0=1, d=0, H=3, L=4), 'L equals the length of the chamber'); refused(g, dict(p, X0=-1, X1=0, X2=1, X3=2, R0=1, d=0, H=2, L=5), 'H equals the width of the chamber'); refused(g, dict(p, L=.99 * (p['X3'] - p['X0'] + p['R0'])), 'L is shorter than the chamber'); refused(g, dict(p, d=90), 'd is not below 90'); refused(g, dict(p, H=1.98 * (p['R0'] + (p['X3'] - p['X2']) * math.tan(math.radians(p['d'])))), 'H is less than the chamber')
            for s in ('%s()', '%s(1)', '%s("x")', '%s(nil)'):
                if not L.run('B = ' + s % g).startswith('!'): fail('%s is accepted' % (s % g))
                n += 1
    L.free(); return n
