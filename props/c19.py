"""Script variables: what is set is read back, nothing else changes, bad values are refused."""
import re, math, random, struct, tempfile, os
from fractions import Fraction as F
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.check import fail, known_lines
from .world import *
from .flowbat import *
from . import luaapi
from .c18 import scripts, Lua as Lua18, S_
INF = R(mk('fn', 'inf'))


def setup(chk):
    chk.use('lua'); chk.native_opts['extra_srcs'] += scripts()
    for g in (dispatch, body_dispatch, setters, objects, getters, conversion, lists, body_list, methods, body_methods): chk.group(g)
    chk.battery('histories', histories, True, 'random sequences of assignments (good and bad ones) and list operations through the real interpreter; after each one the whole state, read directly, is compared with a model')


NAN = float('nan'); FINF = float('inf')
TIMES = ('time', 'dt', 'dt_save', 'dt_streak', 'dt_profile'); LISTS = ('vort_list', 'sink_list', 'streak_source_list', 'streak_domain_list')
KINDS = {'S': dict({'caption': 'text', 're': 'number', 'finish': 'number', 'inf_g': 'number', 'inf_vx': 'expression', 'inf_vy': 'expression', 'gravity': 'vector'}, **{t: 'time' for t in TIMES}),
    'body': dict({'label': 'text', 'density': 'number', 'bounce': 'number', 'special_segment': 'integer', 'slip': 'slip', 'root': 'root'}, **dict([(k, 'vector3') for k in ('holder_pos', 'delta_pos', 'speed', 'collision_min', 'collision_max', 'spring_const', 'spring_damping')] + [(k, 'expression') for k in ('holder_vx', 'holder_vy', 'holder_vo', 'holder_mo')])),
    'particle': {'r': 'vector', 'g': 'number', 'v': 'vector'}}


# ---- contracts: which attribute, which setter
A = luaapi
f_ = lambda name, static=False: ptr('g:_Z%s%d%sP9lua_State' % ('L' if static else '', len(name), name))
SET = {'text': 'string', 'number': 'double', 'integer': 'int32', 'expression': 'TEval', 'vector': 'TVec', 'vector3': 'TVec3D', 'time': 'TTime', 'slip': 'slip', 'root': 'rootbody', 'degree': 'degree', 'bodies': 'BodyList', 'list': 'ObjList'}
# class: (source, prefix of the functions, {attribute: (kind, member)}, methods)
CLASSES = {
    'TVec': ('lua_tvec', 'tvec', {'x': ('number', 'x'), 'y': ('number', 'y')}, ('abs', 'abs2', 'tostring', 'totable')),
    'TVec3D': ('lua_tvec3d', 'tvec3d', {'r': ('vector', 'r'), 'o': ('number', 'o'), 'd': ('degree', 'o')}, ('tostring', 'totable')),
    'TObj': ('lua_tobj', 'tobj', {'r': ('vector', 'r'), 'g': ('number', 'g'), 'v': ('vector', 'v')}, ('tostring',)),
    'Space': ('lua_space', 'space', dict({k: (KINDS['S'][k], k) for k in KINDS['S']}, body_list=('bodies', 'BodyList'), vort_list=('list', 'VortexList'), sink_list=('list', 'SourceList'), streak_source_list=('list', 'StreakSourceList'), streak_domain_list=('list', 'StreakList')), ('load', 'save', 'XStreamfunction')),
    'TBody': ('lua_tbody', 'tbody', dict({k: (KINDS['body'][k], k) for k in KINDS['body']}, holder_pos=('vector3', 'holder'), delta_pos=('vector3', 'dpos'), speed=('vector3', 'speed_slae'), spring_const=('vector3', 'kspring'), spring_damping=('vector3', 'damping'), holder_vx=('expression', 'speed_x'), holder_vy=('expression', 'speed_y'), holder_vo=('expression', 'speed_o'), holder_mo=('expression', 'force_o'), special_segment=('integer', 'special_segment_no'), root=('root', 'root_body'), slip=('slip', None)), ('move_r', 'move_o', 'move_d', 'get_slen', 'get_area', 'get_moi_cofm', 'get_moi_axis', 'get_cofm', 'get_axis', 'totable')),
}
META = {'Space': 'S'}


def strcmp(name):
    """the text at index 2 is this one (None: one that is compared with other texts only)"""
    def f(E, st, a, ins):
        if a[0] != ptr('text_name'): raise ct.Unsupported('comparison of texts')
        return I(0 if E.cstring(a[1]) == name else 1)
    return f


def dispatcher(chk, cls, m):
    u = chk.unit(m)
    u.raw('LS', 8, {0: ('i64', 'x')}, array=False); u.raw('ud_self', 16, {0: ('ptr', 'p')}, array=False); u.raw('text_name', 1, {0: ('i8', 'c')})
    u.decl['ud_self'].init[8] = lambda *i: NULL
    u.decl['ud_self'].init[0] = lambda *i: ptr('object'); u.raw('object', 8, {0: ('i64', 'x')}, array=False)
    return u


def one(chk, u, cls, name, kind, member):
    src, pre, att, methods = CLASSES[cls]; meta = META.get(cls, cls); method = kind == 'method'; read_only = kind in ('bodies', 'list')
    target = ptr('object', (), I(0 if member is None else chk.off(cls, member))) if kind and not method else None
    self_ = A.isud('self', meta); text = Or(eq(A.typ('name'), I(A.STRING)), eq(A.typ('name'), I(A.NUMBER))); base = A.facts('self', 'name', 'value', 'ret'); good = And(self_, text)
    def start(names):
        def f(E): E.unroll_most = 40; E.ghost0 = {'stack': tuple(A.SYM(x) for x in names)}
        return f
    u.contracts = [(r'^strcmp$', strcmp(name))] + A.contracts() + extra(u)
    n = name or 'anything else'
    if kind and not method and not read_only:
        ev = [Ev('call', I(A.FUNCTION), f_('luavvd_set' + SET[kind]), I(A.LIGHT), target, I(-1), ptr('value_value'))]
        chk.case('%s.%s =' % (cls, n), u, r'^%s_newindex\(' % pre, [ptr('LS')], base + [self_, text], {}, ret=I(0), exc=ne(A.typ('ret'), I(A.NIL)), samples=0, events=ev, engine_setup=start(('self', 'name', 'value')), merge=False)
        chk.case('%s.%s =, no such object' % (cls, n), u, r'^%s_newindex\(' % pre, [ptr('LS')], base + [Not(And(self_, text))], {}, exc=TRUE, samples=0, events=[], engine_setup=start(('self', 'name', 'value')), merge=False)
    else:
        chk.case('%s.%s =' % (cls, n), u, r'^%s_newindex\(' % pre, [ptr('LS')], base, {}, exc=TRUE, samples=0, events=[], engine_setup=start(('self', 'name', 'value')), merge=False)
    res = ('nil',) if not kind else ('fun', ptr('g:' + entry(u.mod, name))) if method else A.SYM('ret')
    def post(E, st, v): return [('what is returned', st.facts, Bool(bool(A.stack(st)) and A.stack(st)[-1] == res))]
    chk.case('%s.%s' % (cls, n), u, r'^%s_getindex\(' % pre, [ptr('LS')], base, {}, ret=I(1), exc=Not(good), samples=0, events=[Ev('call', I(A.FUNCTION), f_('luavvd_get' + SET[kind]), I(A.LIGHT), target)] if kind and not method else [], engine_setup=start(('self', 'name')), extra_post=post, merge=False)


def extra(u):
    return [(r'^std::__shared_ptr<.*>::get\(\)', lambda E, st, a, ins: E.load(st, a[0], ir.PTR)), (r'^std::__shared_(ptr|count)<.*(reset|~__shared)', ct.nothing)]


def dispatch(chk):
    for cls in ('TVec', 'TVec3D', 'TObj', 'Space'): attributes(chk, cls)
def body_dispatch(chk): attributes(chk, 'TBody')
def attributes(chk, cls):
    src, pre, att, methods = CLASSES[cls]; m = chk.extract(['utils/vvflow/%s.cpp' % src], noinline=['14__shared_count', '12__shared_ptr'] if cls == 'TBody' else [])
    for n, (k, member) in att.items(): one(chk, dispatcher(chk, cls, m), cls, n, k, member)
    for n in methods: one(chk, dispatcher(chk, cls, m), cls, n, 'method', None)
    one(chk, dispatcher(chk, cls, m), cls, None, None, None)


# ---- contracts: the setters and getters
def binding(chk, src, target, values=('v',), noinline=(), more=(), stack=None):
    """(unit, engine setup): the first value on the stack is a light pointer to T"""
    u = chk.unit(chk.extract(['utils/vvflow/%s.cpp' % src], noinline=list(noinline))); u.raw('LS', 8, {0: ('i64', 'x')}, array=False); u.raw('T', 64, target, array=False)
    u.contracts = list(more) + A.contracts() + extra(u)
    def start(E): E.unroll_most = 40; E.ghost0 = {'stack': stack or (('lud', ptr('T')),) + tuple(A.SYM(x) for x in values)}
    return u, start


def message(ok, ev=None):
    def calls(E, st): return [] if ev is None else ct.events_obl(st.trace, [x for x in ev if not E.dec.decide(st.facts, Not(x.guard))], st.facts, '')
    def f(E, st, v): return [('a refusal leaves a message', st.facts, Or(ok, Bool(bool(A.stack(st)) and A.stack(st)[-1] == ('msg',))))] + calls(E, st)
    f.exc = calls
    return f


def setter(chk, src, name, target, ok, new, pre=(), u=None, start=None, ev=None, values=('v', 'v_1', 'v_2', 'v_3'), **kw):
    """T[k] becomes new[k] if the value is acceptable, otherwise nothing is changed and there is a message"""
    if u is None: u, start = binding(chk, src, target, **kw)
    n = name.split(',')[0]
    chk.case('set ' + name, u, r'^luavvd_set%s\(' % n, [ptr('LS')], A.facts(*values) + list(pre), {('T', o): (lambda o=o: ite(ok, new[o], u.F('T', o)())) for o in new}, ret=ite(ok, I(0), I(1)), samples=0, extra_post=message(ok, ev), engine_setup=start, merge=False)


def other(u, members):
    """a userdata value: a pointer to an object with these members"""
    u.raw('ud_v', 8, {0: ('ptr', 'p')}, array=False); u.decl['ud_v'].init[0] = lambda *i: ptr('other'); u.raw('other', 64, members, array=False)


def setters(chk):
    N = A.num; v = N('v'); dbl = lambda names: {8 * i: ('double', n) for i, n in enumerate(names)}; tag = lambda c: eq(A.typ('v'), I(c))
    setter(chk, 'getset', 'double', dbl(['x']), A.isnum('v'), {0: v})
    setter(chk, 'lua_tvec3d', 'degree', dbl(['x']), A.isnum('v'), {0: v * PIp / 180})
    whole = lambda x, lo, hi: And(x >= R(lo), x <= R(hi), eq(fn('floor', x), x))
    setter(chk, 'getset', 'int32', {0: ('i32', 'x')}, And(A.isnum('v'), whole(v, -2**31, 2**31 - 1)), {0: fn('trunc', v, sort='I')})
    for cls, names, src in (('TVec', 'xy', 'lua_tvec'), ('TVec3D', 'xyo', 'lua_tvec3d')):
        k = len(names); u, start = binding(chk, src, dbl(names)); other(u, dbl(['s' + x for x in names])); el = ['v_%d' % (i + 1) for i in range(k)]
        table = And(tag(A.TABLE), eq(A.length('v'), I(k)), *[A.isnum(e) for e in el]); ok = Or(table, And(tag(A.USERDATA), A.isud('v', cls)))
        setter(chk, src, cls, None, ok, {8 * i: ite(tag(A.TABLE), N(e), u.F('other', 8 * i)()) for i, e in enumerate(el)}, u=u, start=start)
    # times: a number, a table of two integers, a text
    sv, ss, sl, cnt = var('scan_value', 'I'), var('scan_scale', 'I'), var('scan_end', 'I'), var('scanned', 'I'); n1, n2 = N('v_1'), N('v_2'); tr = lambda x: fn('trunc', x, sort='I'); pair = {0: ('i32', 'value'), 4: ('i32', 'scale')}
    def decimal(E, st, a, ins): E.obl.append(('only numbers within the range are converted', st.facts, fabs(a[0]) <= R(2**31 - 1))); return fn('decimal', a[0], sort='I')
    def scan(E, st, a, ins):
        E.obl.append(('the text is read as a fraction', st.facts, Bool(E.cstring(a[1]) == '%d/%u %n' and a[0] == ptr('text_v')))); i32 = ir.Ty('int', 32)
        for p, x, c in ((a[2], sv, cnt >= 1), (a[3], ss, cnt >= 2), (a[4], sl, cnt >= 2)): E.store(st, p, ite(c, x, E.load(st, p, i32)), i32)
        return cnt
    for w, t, ok, new, T in ((' number', eq(A.typ('v'), I(A.NUMBER)), fabs(v) <= R(2**31 - 1), {0: fn('decimal', v, sort='I')}, {0: ('i64', 'time')}),
        (' table', tag(A.TABLE), And(eq(A.length('v'), I(2)), A.isnum('v_1'), A.isnum('v_2'), whole(n1, -2**31, 2**31 - 1), whole(n2, 1, 2**32 - 1)), {0: tr(n1), 4: tr(n2)}, pair),
        (' text', tag(A.STRING), None, {0: sv, 4: ss}, pair), (' anything else', And(Not(tag(A.NUMBER)), Not(tag(A.TABLE)), Not(tag(A.STRING))), FALSE, {0: I(0), 4: I(1)}, pair)):
        u, start = binding(chk, 'getset', T, noinline=['makeWithSecondsDecimal'], more=[(r'makeWithSecondsDecimal', decimal), (r'sscanf$', scan)]); u.raw('text_v', 1, {0: ('i8', 'c')})
        if ok is None: ok = And(cnt >= 2, eq(u.F('text_v', 0)(sl), I(0)), ss >= 1)
        setter(chk, 'getset', 'TTime,' + w, None, ok, new, [t, cnt >= 0, cnt <= 2, ss >= 0, ss < 2**32, sl >= 0], u=u, start=start)


SHARED = ['14__shared_count', '12__shared_ptr', '10__weak_ptr', '8weak_ptr', '12__weak_count']
STRING = ['^_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE', '^_ZNK?5TEval']


def shared(u):
    """assumed contracts on std::shared_ptr and std::weak_ptr: a handle is its object"""
    def copy(E, st, a, ins): E.store(st, a[0], E.load(st, a[1], ir.PTR), ir.PTR)
    def lock(E, st, a, ins): E.obl.append(('a handle is taken of a living object', st.facts, Not(bvar('expired')))); E.store(st, a[0], E.load(st, a[1], ir.PTR), ir.PTR)
    return [(r'^std::__weak_ptr<.*>::reset\(', lambda E, st, a, ins: ct.emit(st, 'reset', E.pnorm(st, a[0]))), (r'^std::__weak_ptr<.*>::expired\(', lambda E, st, a, ins: bvar('expired')), (r'std::weak_ptr<.*>::operator=<', lambda E, st, a, ins: (ct.emit(st, 'refer', E.pnorm(st, a[0]), E.load(st, a[1], ir.PTR)), a[0])[1]),
        (r'^std::__shared_ptr<.*>::__shared_ptr\(std::__weak_ptr', lock), (r'^std::__shared_ptr<.*>::__shared_ptr\(std::__shared_ptr', copy), (r'^std::__shared_ptr<.*>::~__shared_ptr', ct.nothing)]


def objects(chk):
    """setters of texts, expressions, the slip flag and the root body"""
    v = A.num('v'); tag = lambda c: eq(A.typ('v'), I(c)); T = ptr('T')
    # texts: the C text is assigned
    assign = (r'basic_string<.*>::operator=\(char const\*\)', lambda E, st, a, ins: (ct.emit(st, 'text', E.pnorm(st, a[0]), a[1]), a[0])[1])
    u, start = binding(chk, 'getset', {0: ('i64', 'x')}, noinline=STRING, more=[assign]); is_text = tag(A.STRING)
    setter(chk, 'getset', 'string', None, is_text, {}, u=u, start=start, ev=[Ev('text', T, ptr('text_v'), guard=is_text)])
    # expressions: the text is handed to TEval::operator=, which may refuse it (property C20)
    def give(E, st, a, ins):
        x = st.ghost.get(('S', a[1].args[0]), NULL); ct.emit(st, 'formula', E.pnorm(st, a[0]), x); bad = st.copy(); bad.assume(bvar('refused')); st.assume(Not(bvar('refused'))); return [(bad, None, 'exc'), (st, a[0], 'ret')]
    def keep(k): return lambda E, st, a, ins: (put(st, a[0], a[1] if k == 'text' else st.ghost.get(('S', a[1].args[0]), NULL)), a[0])[1]
    def put(st, p, x): st.ghost = dict(st.ghost, **{}); st.ghost[('S', p.args[0])] = x
    def text_of(E, st, a, ins): put(st, a[0], a[1])
    more = [(r'basic_string<.*>::operator=\(char const\*\)', keep('text')), (r'basic_string<.*>::operator=\(std::', keep('move')), (r'basic_string<.*>::c_str', lambda E, st, a, ins: ptr('MSG')), (r'basic_string<[^()]*(::basic_string|~basic_string)', ct.nothing), (r'^TEval::operator (std::|char)', text_of), (r'^TEval::operator=\(std::', give),
        (r'^luaL_getmetafield$', lambda E, st, a, ins: (A.push(st, ('msg',)), I(A.STRING))[1]), (r'^llvm\.eh|^__cxa_', ct.nothing)]
    u, start = binding(chk, 'lua_teval', {0: ('i64', 'x')}, noinline=STRING, more=more); other(u, {0: ('i64', 'x')}); fine = Or(tag(A.STRING), And(tag(A.USERDATA), A.isud('v', 'TEval')))
    def catch(E): start0(E); E.catches = True
    start0 = start
    setter(chk, 'lua_teval', 'TEval', None, And(fine, Not(bvar('refused'))), {}, u=u, start=catch, ev=[Ev('formula', T, ptr('text_v'), guard=tag(A.STRING)), Ev('formula', T, ptr('other'), guard=And(tag(A.USERDATA), A.isud('v', 'TEval')))])
    # slip: all segments, and what the body keeps about itself
    n = var('n', 'I')
    def body(u): u.region('T', 'TBody'); u.region('atts', 'TAtt', ['slip'], array=True, dims=[n]); u.vec('T', 'alist', 'atts', lambda *i: n)
    m = chk.extract(['utils/vvflow/lua_tbody.cpp'], noinline=['doFillProperties'] + SHARED)
    u = chk.unit(m); u.raw('LS', 8, {0: ('i64', 'x')}, array=False); body(u); u.contracts = [(r'^TBody::doFillProperties', lambda E, st, a, ins: ct.emit(st, 'properties', E.pnorm(st, a[0])))] + A.contracts()
    su = u
    def start(E): E.ghost0 = {'stack': (('lud', T), A.SYM('v'))}
    ok = tag(A.BOOLEAN)
    chk.case('set slip', u, r'^luavvd_setslip\(', [ptr('LS')], A.facts('v') + [n >= 0], {('atts', 'slip'): lambda i: ite(ok, ind(A.truth('v'), 'I'), su.F('atts', 'slip')(i))}, ret=ite(ok, I(0), I(1)), samples=0, extra_post=message(ok, [Ev('properties', T, guard=ok)]), engine_setup=start, merge=False)
    # root
    u = chk.unit(m); u.raw('LS', 8, {0: ('i64', 'x')}, array=False); u.raw('T', 16, {0: ('ptr', 'p')}, array=False); u.raw('ud_v', 16, {0: ('ptr', 'p')}, array=False); u.decl['ud_v'].init[0] = lambda *i: ptr('other'); u.raw('other', 8, {0: ('i64', 'x')}, array=False); u.contracts = shared(u) + A.contracts()
    chk.case('set root', u, r'^luavvd_setrootbody\(', [ptr('LS')], A.facts('v'), {}, ret=I(0), exc=And(Not(tag(A.NIL)), Not(A.isud('v', 'TBody'))), samples=0, engine_setup=start, merge=False, extra_post=message(TRUE, [Ev('reset', T, guard=tag(A.NIL)), Ev('refer', T, ptr('other'), guard=And(Not(tag(A.NIL)), A.isud('v', 'TBody')))]))


def getters(chk):
    T = ptr('T'); N = A.num
    def value(what):
        def f(E, st, v):
            s = A.stack(st); w = what() if callable(what) else what
            if not s or s[-1][0] != w[0]: return [('the value read', st.facts, FALSE)]
            if len(w) == 1: return []
            return [('the value read', st.facts, ct.goal_eq(s[-1][1], w[1]) if isinstance(w[1], Poly) else Bool(s[-1][1] == w[1]))]
        return f
    def get(src, name, T_, what, **kw):
        u, start = binding(chk, src, T_, values=(), **kw); chk.case('get ' + name, u, r'^luavvd_get%s\(' % name, [ptr('LS')], [], {}, ret=I(1), samples=0, events=[], engine_setup=start, extra_post=value(what(u)), merge=False)
    get('getset', 'double', {0: ('double', 'x')}, lambda u: lambda: ('num', u.F('T', 0)()))
    get('lua_tvec3d', 'degree', {0: ('double', 'x')}, lambda u: lambda: ('num', u.F('T', 0)() * 180 / PIp))
    get('getset', 'int32', {0: ('i32', 'x')}, lambda u: lambda: ('int', u.F('T', 0)()))
    get('getset', 'TTime', {0: ('i32', 'v'), 4: ('i32', 's')}, lambda u: lambda: ('num', i2r(u.F('T', 0)()) / i2r(u.F('T', 4)())))
    get('getset', 'string', {0: ('i64', 'x')}, lambda u: ('str', ptr('chars')), noinline=STRING, more=[(r'basic_string<.*>::c_str', lambda E, st, a, ins: ptr('chars') if E.pnorm(st, a[0]) == T else NULL)])
    for src, meta, name in (('lua_tvec', 'TVec', 'TVec'), ('lua_tvec3d', 'TVec3D', 'TVec3D'), ('lua_tobj', 'TObj', 'TObj'), ('lua_teval', 'TEval', 'TEval'), ('lua_objlist', 'ObjList', 'ObjList'), ('lua_bodylist', 'BodyList', 'BodyList')):
        u, start = binding(chk, src, {0: ('i64', 'x')}, values=(), noinline=STRING if meta == 'TEval' else SHARED); u.raw('NEW0', 8, {0: ('ptr', 'p')}, array=False)
        chk.case('get ' + name, u, r'^luavvd_get%s\(' % name, [ptr('LS')], [], {}, ret=I(1), samples=0, events=[], engine_setup=start, extra_post=handle(meta, T), ignore=[('NEW0', '*')], merge=False)
    # root
    u, start = binding(chk, 'lua_tbody', {0: ('ptr', 'p')}, values=(), noinline=SHARED); u.contracts[:0] = shared(u); u.raw('NEW0', 16, {0: ('ptr', 'p'), 8: ('ptr', 'q')}, array=False); u.decl['T'].init[0] = lambda *i: ptr('other'); u.raw('other', 8, {0: ('i64', 'x')}, array=False); gone = bvar('expired')
    chk.case('get root', u, r'^luavvd_getrootbody\(', [ptr('LS')], [Not(gone)], {}, ret=I(1), samples=0, events=[], engine_setup=start, extra_post=handle('TBody', ptr('other')), ignore=[('NEW0', '*')], merge=False)
    chk.case('get root, none', u, r'^luavvd_getrootbody\(', [ptr('LS')], [gone], {}, ret=I(1), samples=0, events=[], engine_setup=start, extra_post=value(('nil',)), merge=False)
    # slip: the common value of the segments, nothing if they differ
    n = var('n', 'I'); u, start = binding(chk, 'lua_tbody', {0: ('i64', 'x')}, values=(), noinline=SHARED); del u.decl['T']; u.region('T', 'TBody'); u.region('atts', 'TAtt', ['slip'], array=True, dims=[n]); u.vec('T', 'alist', 'atts', lambda *i: n); sl = u.F('atts', 'slip')
    def same(E, st, v):
        s = A.stack(st)[-1]; k = var('any', 'I'); one = ne(sl(I(0)), I(0))
        if s[0] == 'bool': return [('the value of the first segment', st.facts, And(Implies(s[1], one), Implies(one, s[1]))), ('all the segments have it', ct.with_facts(st.facts, [k >= 0, k < n]), eq(sl(k), sl(I(0)))), ('there are segments', st.facts, n >= 1)]
        j = mk('bv', '$j', sort='I'); return [('nothing', st.facts, Bool(s == ('nil',))), ('the segments differ', st.facts, Or(eq(n, I(0)), Not(ball(j, I(0), n, eq(sl(I(j)), sl(I(0)))))))]
    chk.case('get slip', u, r'^luavvd_getslip\(', [ptr('LS')], [n >= 0], {}, ret=I(1), samples=0, events=[], engine_setup=start, extra_post=same, merge=False)


def handle(meta, target):
    def f(E, st, v):
        s = A.stack(st)
        if not s or s[-1][0] != 'ud': return [('a reference is returned', st.facts, FALSE)]
        return [('a reference of its class is returned', st.facts, Bool(s[-1][:3] == ('ud', ptr('NEW0'), meta))), ('it refers to the variable itself', st.facts, ct.ptr_eq(E.load(st, ptr('NEW0'), ir.PTR), target))]
    return f


# ---- contracts: lists
def entry(m, name):
    """the function that a table of the bindings names so"""
    lit = {k: re.search(r'c"([^"]*)\\00"', v) for k, v in m.globals.items()}
    for k, v in m.globals.items():
        for s, f in re.findall(r'\{ ptr @([\w.]+), ptr @(\w+) \}', v):
            if lit.get(s) and lit[s].group(1) == name: return f
    raise ir.ExtractError('%s is not in a table of the bindings' % name)
def name_of(f): return '^' + re.escape(re.sub(r'^_ZL?\d+', '', f)[:-len('P9lua_State')]) + r'\('
def func(m, name): return name_of(entry(m, name))


def conversion(chk):
    """a value taken as a particle"""
    u = chk.unit(chk.extract(['utils/vvflow/lua_tobj.cpp'])); N = A.num; tag = lambda c: eq(A.typ('v'), I(c)); u.raw('LS', 8, {0: ('i64', 'x')}, array=False); u.raw('OK', 4, {0: ('i32', 'x')}, array=False); fields = {8 * i: ('double', 'f%d' % i) for i in range(6)}; u.raw('OUT', 48, fields, array=False); other(u, fields)
    def start(E): E.ghost0 = {'stack': (A.SYM('w'), A.SYM('v'))}
    u.contracts = A.contracts(); el = ['v_1', 'v_2', 'v_3']; table = And(tag(A.TABLE), eq(A.length('v'), I(3)), *[A.isnum(e) for e in el]); user = And(tag(A.USERDATA), A.isud('v', 'TObj')); ok = Or(table, user)
    def left(E, st, v): return [('the stack is left as it was', st.facts, Implies(ok, Bool(len(A.stack(st)) == 2)))]
    chk.case('particle from a value', u, r'^lua_toTObjx\(', [ptr('OUT'), ptr('LS'), I(2), ptr('OK')], A.facts('v', *el), dict({('OUT', o): (lambda i=i, o=o: ite(table, N(el[i]) if i < 3 else R(0), ite(user, u.F('other', o)(), R(0)))) for i, o in enumerate(fields)}, **{}) | {('OK', 0): lambda: ind(ok, 'I')}, samples=0, events=[], engine_setup=start, extra_post=left, merge=False)


def listunit(chk, src, cls, stack, noinline=(), more=(), elem=None):
    m = chk.extract(['utils/vvflow/%s.cpp' % src], noinline=list(noinline)); u = chk.unit(m); u.raw('LS', 8, {0: ('i64', 'x')}, array=False); u.raw('ud_self', 8, {0: ('ptr', 'p')}, array=False); u.decl['ud_self'].init[0] = lambda *i: ptr('list')
    n = var('n', 'I'); S = 48 if cls == 'ObjList' else 16; u.raw('text_name', 1, {0: ('i8', 'c')}); u.raw('NEW0', 8, {0: ('ptr', 'p')}, array=False)
    u.raw('elements', S, {8 * i: ('double', 'f%d' % i) for i in range(6)} if cls == 'ObjList' else {0: ('ptr', 'p'), 8: ('ptr', 'q')}, [n])
    u.raw('list', 24, {0: ('ptr', 'b'), 8: ('ptr', 'e')}, array=False); u.decl['list'].init[0] = lambda *i: ptr('elements', ()); u.decl['list'].init[8] = lambda *i: ptr('elements', (), n * S)
    u.contracts = list(more) + [(r'^strcmp$', strcmp(None))] + A.contracts()
    def start(E): E.unroll_most = 40; E.ghost0 = {'stack': (('ud', ptr('ud_self'), cls),) + tuple(stack)}
    return m, u, n, start


def lists(chk):
    src, cls = 'lua_objlist', 'ObjList'; at = lambda k: ptr('elements', (), k * 48); L = ptr('list'); j = mk('bv', '$j', sort='I'); top = var('top', 'I'); isobj = lambda i: bvar('isobj', i); arg = lambda c, i: fn('arg%d' % c, i); VEC = '_ZNSt6vectorI4TObjSaIS0_EE'
    # append: all or nothing
    def take(E, st, a, ins):
        E.obl.append(('an argument is looked at', st.facts, And(a[2] >= 2, a[2] <= top)))
        for c in range(6): E.store(st, padd_off(a[0], I(8 * c)), arg(c, a[2]), ir.DBL)
        E.store(st, a[3], ind(isobj(a[2]), 'I'), ir.Ty('int', 32))
    def collect(E, st, a, ins): ct.emit(st, 'collect' if E.pnorm(st, a[0]) != L else 'push_back', *[E.load(st, padd_off(a[1], I(8 * c)), ir.DBL) for c in range(6)])
    where = lambda w: lambda E, st, a, ins: ptr(w + ('_list' if E.pnorm(st, a[0]) == L else '_collected'))
    more = [(r'^lua_gettop$', lambda E, st, a, ins: top), (r'^lua_toTObjx\(', take), (r'^std::vector<TObj.*>::(push_back|emplace_back)', collect), (r'^std::vector<TObj.*>::begin\(', where('begin')), (r'^std::vector<TObj.*>::end\(', where('end')),
        (r'std::vector<TObj.*>::insert<', lambda E, st, a, ins: (ct.emit(st, 'insert', E.pnorm(st, a[0]), *a[1:4]), a[1])[1]), (r'^std::vector<TObj.*>::~?vector\(', ct.nothing)]
    m, u, n, start = listunit(chk, src, cls, [], ['push_back', 'emplace_back', VEC + '6insert', VEC + '5begin', VEC + '3end', VEC + '[CD]'], more)
    fine = ball(j, I(0), top - 1, isobj(I(j) + 2))
    chk.case('append', u, func(m, 'append'), [ptr('LS')], [top >= 1], {}, ret=I(0), exc=Not(fine), samples=0, engine_setup=start, merge=False, events=[For(top - 1, lambda k: [Ev('collect', *[arg(c, k + 2) for c in range(6)])]), Ev('insert', L, ptr('end_list'), ptr('begin_collected'), ptr('end_collected'))])
    # the rest
    m, u, n, start = listunit(chk, src, cls, [], [VEC + '5clear'], [(r'^std::vector<TObj.*>::clear\(', lambda E, st, a, ins: ct.emit(st, 'clear', E.pnorm(st, a[0])))])
    chk.case('clear', u, func(m, 'clear'), [ptr('LS')], [n >= 0], {}, ret=I(0), samples=0, engine_setup=start, merge=False, events=[Ev('clear', L)])
    length_and_elements(chk, src, cls)
    # files
    for name, f in (('load', 'load_list_txt'), ('load_bin', 'load_list_bin')):
        def load(E, st, a, ins): ct.emit(st, 'read', E.pnorm(st, a[0]), a[1]); return var('code', 'I')
        m, u, n, start = listunit(chk, src, cls, [A.SYM('name')], [], [(r'^Space::%s\(' % f, load), (r'^strerror$', lambda E, st, a, ins: ptr('MSG'))]); text = Or(eq(A.typ('name'), I(A.STRING)), eq(A.typ('name'), I(A.NUMBER)))
        chk.case(name, u, func(m, name), [ptr('LS')], A.facts('name') + [text], {}, ret=I(0), exc=ne(var('code', 'I'), I(0)), samples=0, engine_setup=start, merge=False, events=[Ev('read', L, ptr('text_name'))])
    m, u, n, start = listunit(chk, src, cls, [], [], [(r'^lua_createtable$', lambda E, st, a, ins: ct.emit(st, 'table')), (r'^lua_pushTObj\(', lambda E, st, a, ins: ct.emit(st, 'element', a[1])), (r'^lua_rawseti$', lambda E, st, a, ins: ct.emit(st, 'at', a[1], a[2]))])
    chk.case('totable', u, func(m, 'totable'), [ptr('LS')], [n >= 0, n < 2**31], {}, ret=I(1), samples=0, engine_setup=start, merge=False, events=[Ev('table'), For(n, lambda k: [Ev('element', at(k)), Ev('at', I(-2), k + 1)])])


def length_and_elements(chk, src, cls):
    """#list, list[i], ipairs(list)"""
    v = A.num('v'); at = lambda k: ptr('elements', (), k * (48 if cls == 'ObjList' else 16)); push = r'^lua_pushTObj\(' if cls == 'ObjList' else r'^pushTBody\('; more = [(push, lambda E, st, a, ins: A.push(st, ('element', a[1])))]; ni = SHARED if cls != 'ObjList' else []
    def top(*want):
        def f(E, st, _):
            s = A.stack(st)[-len(want):]
            if [x[0] for x in s] != [x[0] for x in want]: return [('what is returned', st.facts, FALSE)]
            return [('what is returned', st.facts, And(*[ct.goal_eq(x[1], w[1]) if isinstance(w[1], Poly) else ct.ptr_eq(x[1], w[1]) for x, w in zip(s, want) if len(w) > 1]))]
        return f
    run_ = lambda name, fname, stack, pre, ret, post: (lambda m, u, n, start: chk.case('%s: %s' % (cls, name), u, func(m, fname), [ptr('LS')], A.facts('v', 'name') + [n >= 0, n < 2**31] + pre(n), {}, ret=ret, samples=0, engine_setup=start, merge=False, events=[], extra_post=post(n)))(*listunit(chk, src, cls, stack, ni, more))
    run_('number of elements', '__len', [], lambda n: [], I(1), lambda n: top(('int', n)))
    q = var('q', 'I'); V = [A.SYM('v')]
    inside = lambda n: [A.isnum('v'), eq(v, i2r(q)), q >= 1, q <= n, eq(fn('floor', v), v), eq(fn('trunc', v - 1, sort='I'), q - 1)]
    run_('element', '__index', V, inside, I(1), lambda n: top(('element', at(q - 1))))
    run_('no such element', '__index', V, lambda n: [A.isnum('v'), Or(v < 1, v > i2r(n), ne(fn('floor', v), v))], I(1), lambda n: top(('nil',)))
    run_('no such field', '__index', V, lambda n: [Not(A.isnum('v')), ne(A.typ('v'), I(A.STRING))], I(1), lambda n: top(('nil',)))
    k = A.int_('v'); r = [A.isnum('v'), ne(A.typ('v'), I(A.NIL)), k >= -2**31, k < 2**31]; m0 = listunit(chk, src, cls, V, ni, more)[0]; nxt = getnext(m0)
    for w, pre, ret, post in (('next', lambda n: r + [k >= 0, k < n], I(2), lambda n: top(('int', k + 1), ('element', at(k)))), ('no next', lambda n: r + [k >= n], I(1), lambda n: top(('nil',))), ('first', lambda n: [eq(A.typ('v'), I(A.NIL)), n >= 1], I(2), lambda n: top(('int', I(1)), ('element', at(I(0))))), ('first of none', lambda n: [eq(A.typ('v'), I(A.NIL)), eq(n, I(0))], I(1), lambda n: top(('nil',)))):
        (lambda m, u, n, start: chk.case('%s: %s' % (cls, w), u, nxt, [ptr('LS')], A.facts('v') + [n >= 0, n < 2**31] + pre(n), {}, ret=ret, samples=0, engine_setup=start, merge=False, events=[], extra_post=post(n)))(*listunit(chk, src, cls, V, ni, more))
    m, u, n, start = listunit(chk, src, cls, [], ni, more)
    chk.case('%s: ipairs' % cls, u, func(m, '__ipairs'), [ptr('LS')], [n >= 0], {}, ret=I(3), samples=0, engine_setup=start, merge=False, events=[], extra_post=lambda E, st, _: [('the iterator, the list, nothing', st.facts, Bool([x[0] for x in A.stack(st)[-3:]] == ['fun', 'ud', 'nil'] and name_of(A.stack(st)[-3][1].args[0][2:]) == nxt))])


def getnext(m):
    """the iterator that ipairs returns"""
    f = entry(m, '__ipairs'); body = '\n'.join(m.raw[f][1]); r = re.search(r'lua_pushcclosure\([^@]*@(\w+),', body)
    if not r: raise ir.ExtractError('no iterator')
    return name_of(r.group(1))


def body_list(chk):
    src, cls = 'lua_bodylist', 'BodyList'; L = ptr('list'); j = mk('bv', '$j', sort='I'); q = var('q', 'I'); id_ = lambda k: fn('id', k, sort='I'); B_ = lambda k: ptr('body', (k,))
    VEC = '_ZNSt6vectorISt10shared_ptrI5TBodyESaIS2_EE'
    def check(E, st, a, ins): E.obl.append(('the argument is a body', st.facts, eq(a[2], I(2)))); E.store(st, a[0], B_(q), ir.PTR); E.store(st, padd_off(a[0], I(8)), NULL, ir.PTR)
    def erase(E, st, a, ins): E.obl.append(('the element erased is the body', st.facts, ct.ptr_eq(E.load(st, a[1], ir.PTR), B_(q)))); ct.emit(st, 'erase', E.pnorm(st, a[0])); return a[1]
    more = [(r'^checkTBody\(', check), (r'^std::vector<.*>::erase\(', erase), (r'^std::vector<.*>::(push_back|emplace_back)', lambda E, st, a, ins: ct.emit(st, 'push_back', E.pnorm(st, a[0]), E.load(st, a[1], ir.PTR))), (r'^std::vector<.*>::clear\(', lambda E, st, a, ins: ct.emit(st, 'clear', E.pnorm(st, a[0]))),
        (r'^std::__shared_ptr<.*>::get\(\)', lambda E, st, a, ins: E.load(st, a[0], ir.PTR)), (r'^std::__shared_(ptr|count)<.*(reset|~__shared)', ct.nothing)]
    for name, wrong, ev in (('insert', lambda there: there, Ev('push_back', L, B_(q))), ('erase', lambda there: Not(there), Ev('erase', L)), ('clear', lambda there: FALSE, Ev('clear', L))):
        m, u, n, start = listunit(chk, src, cls, [A.SYM('v')], ['push_back', 'emplace_back', VEC + '5erase', VEC + '5clear'] + SHARED, more); u.raw('body', 8, {0: ('i64', 'x')}, [var('bodies', 'I')]); u.decl['elements'].init[0] = lambda k: B_(id_(k)); u.decl['elements'].init[8] = lambda k: NULL
        there = Not(ball(j, I(0), n, ne(id_(I(j)), q)))
        chk.case(name + ' a body' if name != 'clear' else 'clear the list of bodies', u, func(m, name), [ptr('LS')], [n >= 0], {}, ret=I(0), exc=wrong(there), samples=0, engine_setup=start, merge=False, events=[ev])
    length_and_elements(chk, src, cls)


def top(*want):
    """the last values on the stack are these; a value without contents may be any of its kind"""
    def f(E, st, _):
        s = A.stack(st)[-len(want):]; w = [x(E) if callable(x) else x for x in want]
        def same(a, b):
            if a[0] != b[0]: return FALSE
            if len(b) < 2: return TRUE
            if b[0] == 'table': return And(Bool([i for i, _ in a[1]] == list(range(1, len(b[1]) + 1))), *[same(y, z) for (_, y), z in zip(a[1], b[1])])
            if isinstance(b[1], B): return And(Implies(a[1], b[1]), Implies(b[1], a[1]))
            return ct.goal_eq(a[1], b[1]) if isinstance(b[1], Poly) else ct.ptr_eq(a[1], b[1])
        return [('what is returned', st.facts, And(Bool(len(s) == len(w)), *[same(x, y) for x, y in zip(s, w)]))]
    return f


def methods(chk):
    """methods of vectors and of the case"""
    for cls, names in (('TVec', 'xy'), ('TVec3D', 'xyo')):
        src, pre = CLASSES[cls][:2]; m = chk.extract(['utils/vvflow/%s.cpp' % src])
        def run_(name, want, cls=cls, names=names, m=m):
            u = chk.unit(m); u.raw('LS', 8, {0: ('i64', 'x')}, array=False); u.raw('ud_self', 8, {0: ('ptr', 'p')}, array=False); u.decl['ud_self'].init[0] = lambda *i: ptr('object'); u.raw('object', 8 * len(names), {8 * i: ('double', x) for i, x in enumerate(names)}, array=False); u.contracts = A.contracts()
            def start(E): E.ghost0 = {'stack': (A.SYM('self'),)}
            v = lambda i: u.F('object', 8 * i)(); ok = A.isud('self', cls)
            chk.case('%s:%s' % (cls, name), u, func(m, name), [ptr('LS')], A.facts('self'), {}, ret=I(1), exc=Not(ok), samples=0, events=[], engine_setup=start, extra_post=top(lambda E: want(v)), merge=False)
        run_('totable', lambda v, k=len(names): ('table', [('num', v(i)) for i in range(k)]))
        if cls == 'TVec':
            run_('abs2', lambda v: ('num', v(0) * v(0) + v(1) * v(1)))
            run_('abs', lambda v: ('num', fn('sqrt', v(0) * v(0) + v(1) * v(1))))
    # the case: load and save with the name given, the stream function at the point given
    m = chk.extract(['utils/vvflow/lua_space.cpp']); name = [A.SYM('self'), A.SYM('name')]; ok = And(A.isud('self', 'S'), Or(eq(A.typ('name'), I(A.STRING)), eq(A.typ('name'), I(A.NUMBER))))
    def space(): u = dispatcher(chk, 'Space', m); u.contracts = A.contracts(); return u
    def start(s): return lambda E: (setattr(E, 'catches', True), setattr(E, 'ghost0', {'stack': tuple(s)}))
    u = space(); u.contracts = [(r'^Space::load\(', lambda E, st, a, ins: ct.emit(st, 'load', E.pnorm(st, a[0]), a[1]))] + u.contracts
    chk.case('S:load', u, func(m, 'load'), [ptr('LS')], A.facts('self', 'name'), {}, ret=I(0), exc=Not(ok), samples=0, events=[Ev('load', ptr('object'), ptr('text_name'))], engine_setup=start(name), merge=False)
    refused = bvar('refused')
    def save(E, st, a, ins): ct.emit(st, 'save', E.pnorm(st, a[0]), a[1]); bad = st.copy(); bad.assume(refused); st.assume(Not(refused)); return [(bad, None, 'exc'), (st, None, 'ret')]
    u = space(); u.contracts = [(r'^Space::save\(', save), (r'^__cxa_begin_catch', lambda E, st, a, ins: ptr('thrown')), (r'^llvm\.eh|^__cxa_', ct.nothing), (r'exception::what', lambda E, st, a, ins: ptr('MSG'))] + u.contracts
    u.raw('thrown', 8, {0: ('ptr', 'p')}, array=False); u.decl['thrown'].init[0] = lambda *i: ptr('virtual'); u.raw('virtual', 24, {16: ('ptr', 'p')}, array=False); u.decl['virtual'].init[16] = lambda *i: ptr('g:_ZNKSt9exception4whatEv')
    chk.case('S:save', u, func(m, 'save'), [ptr('LS')], A.facts('self', 'name'), {}, ret=I(0), exc=Not(And(ok, Not(refused))), samples=0, events=[Ev('save', ptr('object'), ptr('text_name'))], engine_setup=lambda E: (start(name)(E), setattr(E, 'indirect', what)), merge=False)
    x, y = var('given_x'), var('given_y'); accepted = eq(A.typ('ret'), I(A.NIL))
    u = space(); u.contracts = [(r'^XStreamfunction::streamfunction\(', lambda E, st, a, ins: (ct.emit(st, 'streamfunction', E.pnorm(st, a[0]), *point(E, st, a[1:])), var('psi'))[1]), given(x, y)] + u.contracts
    chk.case('S:XStreamfunction', u, func(m, 'XStreamfunction'), [ptr('LS')], A.facts('self', 'v', 'ret'), {}, ret=I(1), exc=Not(And(A.isud('self', 'S'), accepted)), samples=0, events=[Ev('given', f_('luavvd_setTVec'), ptr('value_v')), Ev('streamfunction', ptr('object'), x, y)], engine_setup=start([A.SYM('self'), A.SYM('v')]), extra_post=top(('num', var('psi'))), merge=False)


def what(E, st, ins):
    """the only call through a pointer: the message of the exception"""
    if st.regs.get(ins.x['callee'][1]) != ptr('g:_ZNKSt9exception4whatEv'): raise ct.Unsupported('indirect call')
    return E.finish(st, ins, ptr('MSG'))


def given(x, y):
    """the call of the setter of vectors: its contract is above"""
    def call(E, st, a, ins):
        n, r = int(a[1].const()), int(a[2].const()); args = [A.pop(E, st) for _ in range(n)][::-1]; f = A.pop(E, st)
        if n != 2 or r != 1 or f[0] != 'fun' or args[0][0] != 'lud' or args[1][0] != 'sym': raise ct.Unsupported('a call')
        ct.emit(st, 'given', f[1], ptr('value_' + args[1][1])); ok = eq(A.typ('ret'), I(A.NIL))
        for k, v in enumerate((x, y)): p = padd_off(args[0][1], I(8 * k)); E.store(st, p, ite(ok, v, E.load(st, p, ir.DBL)), ir.DBL)
        A.push(st, A.SYM('ret'))
    return (r'^lua_callk$', call)


def point(E, st, a):
    """a TVec passed by value: two numbers or a block"""
    if isinstance(a[0], Poly): return a[0], a[1]
    return E.load(st, a[0], ir.DBL), E.load(st, padd_off(a[0], I(8)), ir.DBL)


def body_methods(chk):
    """methods of a body"""
    m = chk.extract(['utils/vvflow/lua_tbody.cpp'], noinline=SHARED + ['_ZN5TBody4move']); O = ptr('object'); self_ = A.isud('self', 'TBody'); accepted = eq(A.typ('ret'), I(A.NIL))
    def unit(members=(), **kw):
        u = chk.unit(m); u.raw('LS', 8, {0: ('i64', 'x')}, array=False); u.raw('ud_self', 16, {0: ('ptr', 'p'), 8: ('ptr', 'q')}, array=False); u.decl['ud_self'].init[8] = lambda *i: NULL; u.decl['ud_self'].init[0] = lambda *i: O
        u.region('object', 'TBody', list(members)); u.contracts = [(r'^TBody::move\(', move)] + shared(u) + A.contracts() + extra(u); return u
    def move(E, st, a, ins): ct.emit(st, 'move', E.pnorm(st, a[0]), *[E.load(st, padd_off(p, I(8 * k)), ir.DBL) for p in a[1:3] for k in range(3)])
    def start(*s): return lambda E: setattr(E, 'ghost0', {'stack': tuple(A.SYM(x) for x in s)})
    x, y, v = var('given_x'), var('given_y'), A.num('v'); args = [ptr('LS')]; Z = R(0)
    u = unit(); u.contracts = [given(x, y)] + u.contracts
    chk.case('TBody:move_r', u, func(m, 'move_r'), args, A.facts('self', 'v', 'ret'), {}, ret=I(0), exc=Not(And(self_, accepted)), samples=0, events=[Ev('given', f_('luavvd_setTVec'), ptr('value_v')), Ev('move', O, x, y, Z, x, y, Z)], engine_setup=start('self', 'v'), merge=False)
    for name, w in (('move_o', v), ('move_d', v * PIp / 180)):
        chk.case('TBody:' + name, unit(), func(m, name), args, A.facts('self', 'v'), {}, ret=I(0), exc=Not(And(self_, A.isnum('v'))), samples=0, events=[Ev('move', O, Z, Z, w, Z, Z, w)], engine_setup=start('self', 'v'), merge=False)
    names = ['_slen', '_area', '_cofm.x', '_cofm.y', '_moi_cofm', 'holder.r.x', 'holder.r.y', 'dpos.r.x', 'dpos.r.y']
    def read(name, want, members):
        u = unit(members); su = u
        chk.case('TBody:' + name, u, func(m, name), args, A.facts('self'), {}, ret=I(1), exc=Not(self_), samples=0, events=[], engine_setup=start('self'), extra_post=top(lambda E: want(lambda k: su.F('object', k)())), merge=False)
    read('get_slen', lambda F: ('num', F('_slen')), names); read('get_area', lambda F: ('num', F('_area')), names)
    read('get_cofm', lambda F: ('table', [('num', F('_cofm.' + c)) for c in 'xy']), names)
    read('get_axis', lambda F: ('table', [('num', F('holder.r.' + c) + F('dpos.r.' + c)) for c in 'xy']), names)
    # the number of segments, the corners
    n = var('n', 'I'); u = unit(); u.region('atts', 'TAtt', [], array=True, dims=[n]); u.vec('object', 'alist', 'atts', lambda *i: n)
    chk.case('#TBody', u, func(m, '__len'), args, A.facts('self') + [n >= 0], {}, ret=I(1), exc=Not(self_), samples=0, events=[], engine_setup=start('self'), extra_post=top(('int', n)), merge=False)
    u = unit(); u.region('atts', 'TAtt', [], array=True, dims=[n]); u.vec('object', 'alist', 'atts', lambda *i: n); corner = chk.off('TAtt', 'corner')
    u.contracts = [(r'^lua_createtable$', lambda E, st, a, ins: ct.emit(st, 'table')), (r'^lua_pushTVec\(', lambda E, st, a, ins: ct.emit(st, 'element', a[1])), (r'^lua_rawseti$', lambda E, st, a, ins: ct.emit(st, 'at', a[1], a[2]))] + u.contracts; S = u.decl['atts'].stride
    chk.case('TBody:totable', u, func(m, 'totable'), args, A.facts('self') + [n >= 0, n < 2**31], {}, ret=I(1), exc=Not(self_), samples=0, engine_setup=start('self'), merge=False, events=[Ev('table'), For(n, lambda k: [Ev('element', ptr('atts', (), k * S + corner)), Ev('at', I(-2), k + 1)])])
    # two references are equal if they refer to one body
    u = unit(); u.raw('ud_other', 16, {0: ('ptr', 'p'), 8: ('ptr', 'q')}, array=False); q = var('q', 'I'); u.raw('bodies', 8, {0: ('i64', 'x')}, [q]); u.decl['ud_other'].init[8] = lambda *i: NULL
    u.decl['ud_other'].init[0] = lambda *i: ptr('bodies', (q,)); u.decl['ud_self'].init[0] = lambda *i: ptr('bodies', (var('p', 'I'),))
    chk.case('TBody == TBody', u, func(m, '__eq'), args, A.facts('self', 'other'), {}, ret=I(1), exc=Not(And(self_, A.isud('other', 'TBody'))), samples=0, events=[], engine_setup=start('self', 'other'), extra_post=top(('bool', eq(q, var('p', 'I')))), merge=False)


# ---- the real interpreter, compared with a model
class Lua(Lua18):
    def __init__(self, lib):
        Lua18.__init__(self, lib); lib.lu_dump.restype = S_; lib.lu_dump.argtypes = [V, C.c_int]; lib.lu_member.restype = C.c_int; lib.lu_member.argtypes = [V, S_]
    def dump(self, n): return dict(x.split(' ', 1) for x in self.lib.lu_dump(self.p, n).decode().split('\n') if x)


EXPR = ('1', 't', 'sin(2*pi*t/8)', '2*t-1', '-t', '1e-3*t^2', 'cos(t)', '')
TEXTS = ('a', 'body one', '%s %d', "it's", 'x' * 60, '', 'tab\\there')
lit = lambda x: 'nan' if x != x else ('-inf' if x < 0 else 'inf') if abs(x) == FINF else repr(x)
unescape = lambda s: s.replace('\\t', '\t')


def real(r):
    k = r.random()
    return r.choice([0., 1., -1., 1e300, -2.5e-300, 1e-17, 123456789.123456789]) if k < .25 else FINF if k < .3 else r.uniform(-10, 10)
def number_lit(r, x):
    """a way to write the number"""
    return '"%s"' % repr(x) if r.random() < .2 and abs(x) < FINF else lit(x)


class Model:
    def __init__(self, L, r):
        self.L = L; self.r = r; self.nb = 4; self.log = []
        self.do('S.body_list:clear() S.vort_list:clear() S.sink_list:clear() S.streak_source_list:clear() S.streak_domain_list:clear()')
        n = [3, 4, 6, 5]; self.seg = n; self.dead = set()
        for i in range(4): self.do('b%d = gen_cylinder{R=%d, N=%d}' % (i + 1, i + 1, n[i]))
        self.do('S.caption = "" S.re = inf S.finish = inf S.inf_g = 0 S.inf_vx = "" S.inf_vy = "" S.gravity = {0, 0} S.time = 0 S.dt = 1 S.dt_save = 0 S.dt_streak = 0 S.dt_profile = 0')
        self.m = L.dump(self.nb)
    def do(self, s):
        self.log.append(s); e = self.L.run(s)
        if e.startswith('!'): raise Exception('%s: %s' % (s, e))
        return e
    def story(self): return '; '.join(self.log[-4:])[-300:]
    # the expected text of the state
    def setnum(self, k, x): self.m[k] = x
    def compare(self):
        d = self.L.dump(self.nb)
        for k in sorted(set(d) | set(self.m)):
            a, b = d.get(k), self.m.get(k)
            if a == b: continue
            if a is None or b is None: return 'after %s: %s is %r instead of %r' % (self.story(), k, a, b)
            try: x, y = float(a), float(b)
            except (ValueError, TypeError): return 'after %s: %s is %r instead of %r' % (self.story(), k, a, b)
            if x != y and not (x != x and y != y) and not abs(x - y) <= 1e-15 * abs(y): return 'after %s: %s is %s instead of %s' % (self.story(), k, a, b)
    def read(self, e):
        """the value of an expression as the script sees it"""
        return self.L.run('local v = %s; if type(v) == "number" then return string.format("%%.17g", v) end; return v' % e)
    def good(self, s, *keyvals):
        self.log.append(s); e = self.L.run(s)
        if e.startswith('!'): return '%s is refused: %s' % (self.story(), e)
        for k, v in keyvals: self.m[k] = v
        return self.compare()
    def bad(self, s):
        self.log.append(s); e = self.L.run(s)
        if not e.startswith('!'): return '%s is accepted' % self.story()
        return self.compare()
    def reads(self, e, want):
        got = self.read(e)
        if got == want: return
        try:
            x, y = float(got), float(want)
            if x == y or x != x and y != y or abs(x - y) <= 1e-14 * abs(y): return
        except (ValueError, TypeError): pass
        return 'after %s: %s reads %r instead of %r' % (self.story(), e, got, want)
    # ---- one assignment
    def owner(self):
        r = self.r; k = r.random()
        if k < .4: return 'S', 'S', ''
        if k < .75:
            i = r.randrange(4) + 1; return 'body', 'b%d' % i, 'b%d.' % i
        ls = [l for l in LISTS if self.size(l)]
        if not ls: return 'S', 'S', ''
        l = r.choice(ls); i = r.randrange(self.size(l)); return 'particle', 'S.%s[%d]' % (l, i + 1), '%s%d.' % (l, i)
    def size(self, l): return int(float(self.m['#' + l]))
    def others(self, kind):
        """attributes of a kind: script text, key"""
        out = []
        for o, e, k in [('S', 'S', '')] + [('body', 'b%d' % i, 'b%d.' % i) for i in range(1, 5)] + [('particle', 'S.%s[%d]' % (l, i + 1), '%s%d.' % (l, i)) for l in LISTS for i in range(self.size(l))]:
            for a, t in KINDS[o].items():
                if t == kind: out.append(('%s.%s' % (e, a), k + a))
                if t == 'vector3' and kind == 'vector': out.append(('%s.%s.r' % (e, a), k + a))
        return out
    def assign(self):
        r = self.r; o, e, k = self.owner(); a = r.choice(sorted(KINDS[o])); t = KINDS[o][a]; x = '%s.%s' % (e, a); key = k + a
        if r.random() < .08:
            return self.bad('%s.%s = %s' % (e, r.choice(['foo', 'X', 'body_list' if o == 'S' else 'size', 'vort_list' if o == 'S' else 'alist', 'get_slen', 'load', '_slip', a + '_', a[:-1] if a[:-1] not in KINDS[o] else 'zz', a.upper() if a.upper() != a else 'zz']), r.choice(['nil', '1', '"x"', '{1,2}']))) or self.reads('%s.%s' % (e, 'foo'), 'nil')
        return getattr(self, 'set_' + t)(x, key, e)
    def set_text(self, x, key, e):
        r = self.r
        if r.random() < .25: return self.bad('%s = %s' % (x, r.choice(['1', 'nil', '{}', 'true', 'false', '0.5', 'S.gravity', 'print'])))
        s = r.choice(TEXTS); return self.good('%s = "%s"' % (x, s), (key, unescape(s))) or self.reads(x, unescape(s))
    def set_number(self, x, key, e):
        r = self.r
        if r.random() < .25: return self.bad('%s = %s' % (x, r.choice(['nil', 'true', '{}', '{1}', '"abc"', '""', '"1x"', 'print', 'S.gravity', 'S.inf_vx'])))
        v = real(r); return self.good('%s = %s' % (x, number_lit(r, v)), (key, repr(v))) or self.reads(x, repr(v))
    def set_integer(self, x, key, e):
        r = self.r
        if r.random() < .3: return self.bad('%s = %s' % (x, r.choice(['nil', 'true', 'false', '{}', '"abc"', '2.5', 'inf', '2147483648', '-2147483649', '4294967296', '1e10', '1e300', 'nan'])))
        v = r.choice([0, 1, -1, 2147483647, -2147483648, r.randrange(1000)]); return self.good('%s = %s' % (x, r.choice(['%d', '"%d"', '%d.0']) % v), (key, str(v))) or self.reads(x, str(v))
    def set_slip(self, x, key, e):
        r = self.r; n = len(self.m[e + '.slips'])
        if r.random() < .25: return self.bad('%s = %s' % (x, r.choice(['nil', '0', '1', '"true"', '{}'])))
        v = r.random() < .5; return self.good('%s = %s' % (x, 'true' if v else 'false'), (e + '.slips', ('1' if v else '0') * n), (e + '.get_slip', str(int(v)))) or self.reads(x, 'true' if v else 'false')
    def set_root(self, x, key, e):
        r = self.r
        if r.random() < .25: return self.bad('%s = %s' % (x, r.choice(['0', '"b1"', '{}', 'S', 'S.body_list', 'true', 'false', 'print', 'S.gravity'])))
        i = r.randrange(5); return self.good('%s = %s' % (x, 'b%d' % i if i else 'nil'), (key, str(i))) or self.reads('%s == %s' % (x, 'b%d' % i if i else 'nil'), 'true')
    def set_expression(self, x, key, e):
        r = self.r; k = r.random()
        if k < .25: return self.bad('%s = %s' % (x, r.choice(['nil', '1', '0.5', 'true', 'false', '{}', '{1}', 'S.gravity', 'S', '"1+"', '"z"', '"t t"', '")"', 'b1'])))
        if k < .4:
            y, ky = r.choice(self.others('expression')); return self.good('%s = %s' % (x, y), (key, self.m[ky])) or self.reads('tostring(%s)' % x, self.m[key])
        s = r.choice(EXPR); t = r.uniform(-3, 3); v = {'1': 1, 't': t, 'sin(2*pi*t/8)': math.sin(2 * math.pi * t / 8), '2*t-1': 2 * t - 1, '-t': -t, '1e-3*t^2': 1e-3 * t * t, 'cos(t)': math.cos(t), '': 0}[s]
        d = self.good('%s = "%s"' % (x, s), (key, s)) or self.reads('%s:tostring()' % x, s) or self.reads('tostring(%s)' % x, s)
        if d: return d
        g = float(self.read('%s:eval(%s)' % (x, lit(t))))
        if abs(g - v) > 1e-12 * (1 + abs(v)): return 'after %s: %s:eval(%r) is %r instead of %r' % (self.story(), x, t, g, v)
        if self.compare(): return self.compare()
        if r.random() < .2: return self.bad('%s.foo = 1' % x)
    def set_time(self, x, key, e):
        r = self.r; k = r.random()
        if k < .35: return self.bad('%s = %s' % (x, r.choice(['nil', 'true', 'false', '{}', '{1}', '{1,2,3}', '{1,0}', '{1,-1}', '{-5,-3}', '{1.5,2}', '{1,2.5}', '{"a",1}', '{1,"a"}', '"1/0"', '"abc"', '"1"', '"1/2x"', '"0.5"', '""', '"/"', 'inf', '-inf', 'nan', '1e10', '-1e300', '{2147483648,1}', '{-2147483649,1}', '{1,4294967296}', '{1,4294967297}', '{4294967297,1}', 'S.gravity'])))
        if k < .6:
            j = r.randrange(5); n = r.randrange(-99999, 99999); v = F(n, 10 ** j); ts = 1
            while (v * ts).denominator != 1: ts *= 10
            s = '%s%d.%0*d' % ('-' if n < 0 else '', abs(n) // 10 ** j, j, abs(n) % 10 ** j) if j else '%d' % n
            a, b = int(v * ts), ts; text = s
        else:
            a, b = r.choice([0, 1, -3, 7, 2147483647, -2147483648, r.randrange(10 ** 6)]), r.choice([1, 2, 3, 77, 500, 4294967295, 10 ** 6])
            text = r.choice(['{%d, %d}', '"%d/%d"', '{"%d", "%d"}', '"%d/%d  "']) % (a, b)
        return self.good('%s = %s' % (x, text), (key, '%d/%d' % (a, b))) or self.reads(x, repr(float(a) / float(b)))
    def vector(self, x, key, e, names, kind, deg=False):
        r = self.r; n = len(names); k = r.random(); wrong = 'vector3' if kind == 'vector' else 'vector'
        if k < .25: return self.bad('%s = %s' % (x, r.choice(['nil', '1', 'true', 'false', '"x"', '{}', '{%s}' % ','.join(['1'] * (n - 1)), '{%s}' % ','.join(['1'] * (n + 1)), '{%s}' % ','.join(['"a"'] + ['1'] * (n - 1)), '{%s}' % ','.join(['1'] * (n - 1) + ['{}']), '{%s}' % ','.join(['1'] * (n - 1) + ['true']), 'S', 'S.inf_vx', r.choice(self.others(wrong))[0]])))
        if k < .4:
            y, ky = r.choice(self.others(kind)); ks = ('.x', '.y', '.o')[:n] if kind != 'vector3' else names
            return self.good('%s = %s' % (x, y), *[(key + c, self.m[ky + c]) for c in names])
        v = [real(r) if r.random() < .9 else NAN for _ in names]
        d = self.good('%s = {%s}' % (x, ', '.join(number_lit(r, z) if z == z else 'nan' for z in v)), *[(key + c, repr(z)) for c, z in zip(names, v)])
        for i, (c, z) in enumerate(zip(names, v)): d = d or self.reads(x + (c if kind == 'vector' or c == '.o' else '.r' + c), repr(z)) or self.reads('%s:totable()[%d]' % (x, i + 1), repr(z))
        return d or self.reads('#%s:totable()' % x, str(n)) or self.reads(x + '.zz', 'nil') or self.compare()
    def set_vector(self, x, key, e):
        r = self.r
        if r.random() < .4:
            c = r.choice(['.x', '.y']); d = self.set_number(x + c, key + c, e)
            if d: return d
            if r.random() < .2: return self.bad('%s.%s = 1' % (x, r.choice(['z', 'r', 'o', 'abs', 'X'])))
            return
        d = self.vector(x, key, e, ('.x', '.y'), 'vector')
        if d: return d
        a, b = float(self.m[key + '.x']), float(self.m[key + '.y'])
        if a == a and b == b and max(abs(a), abs(b)) < 1e100: return self.reads('%s:abs2()' % x, repr(a * a + b * b)) or self.reads('%s:abs()' % x, repr(math.sqrt(a * a + b * b)))
    def set_vector3(self, x, key, e):
        r = self.r; k = r.random()
        if k < .2: return self.set_number(x + '.o', key + '.o', e)
        if k < .35:
            v = r.uniform(-400, 400); return self.good('%s.d = %s' % (x, lit(v)), (key + '.o', repr(v * math.pi / 180.))) or self.reads(x + '.d', repr(v)) or self.bad('%s.d = %s' % (x, r.choice(['nil', '"a"', '{}'])))
        if k < .45: return self.bad('%s.%s = 1' % (x, r.choice(['x', 'y', 'a', 'z', 'abs'])))
        if k < .6: return self.set_vector(x + '.r', key, e)
        return self.vector(x, key, e, ('.x', '.y', '.o'), 'vector3')
    # ---- lists
    def particles(self, l): return [[self.m['%s%d%s' % (l, i, c)] for c in ('.r.x', '.r.y', '.g', '.v.x', '.v.y')] for i in range(self.size(l))]
    def store(self, l, ps):
        for k in [k for k in self.m if k.startswith(l) and (k[len(l):][:1].isdigit())]: del self.m[k]
        self.m['#' + l] = str(len(ps))
        for i, p in enumerate(ps):
            for c, z in zip(('.r.x', '.r.y', '.g', '.v.x', '.v.y'), p): self.m['%s%d%s' % (l, i, c)] = z
    def lists(self):
        r = self.r; l = r.choice(LISTS); x = 'S.' + l; ps = self.particles(l); n = len(ps); k = r.random()
        def obj():
            pool = [(q, i) for q in LISTS for i in range(self.size(q))]
            if pool and r.random() < .3:
                q, i = r.choice(pool); return 'S.%s[%d]' % (q, i + 1), self.particles(q)[i]
            v = [real(r) for _ in range(3)]; return '{%s}' % ', '.join(number_lit(r, z) for z in v), [repr(z) for z in v] + ['0', '0']
        if k < .35:
            os_ = [obj() for _ in range(r.randrange(4))]
            if r.random() < .3:
                b = r.choice(['1', 'nil', '{1}', '{1,2}', '{1,2,3,4}', '{1,2,"x"}', '{"a",2,3}', '"x"', 'S.gravity', 'S.vort_list', 'b1']); args = [o[0] for o in os_]; args.insert(r.randrange(len(args) + 1), b)
                return self.bad('%s:append(%s)' % (x, ', '.join(args)))
            s = '%s:append(%s)' % (x, ', '.join(o[0] for o in os_)); self.store(l, ps + [o[1] for o in os_]); return self.good(s)
        if k < .42: self.store(l, []); return self.good('%s:clear()' % x)
        if k < .6:
            want = [p[2] for p in ps]; got = self.L.run('local s = {} for i, o in ipairs(%s) do if i ~= #s+1 then error("index "..i) end s[#s+1] = string.format("%%.17g", o.g) end return table.concat(s, " ")' % x)
            got = got.split()
            if len(got) != n or any(float(a) != float(b) and float(a) == float(a) for a, b in zip(got, want)): return 'after %s: going through %s gives %r instead of %r' % (self.story(), x, got, want)
            return self.reads('#' + x, str(n)) or self.reads('#%s:totable()' % x, str(n)) or next((d for d in (self.reads('%s:totable()[%d].r.y' % (x, i + 1), ps[i][1]) for i in range(n)) if d), None) or self.compare()
        if k < .75:
            for i in (0, -1, n + 1, n + 100): 
                d = self.reads('%s[%d]' % (x, i), 'nil')
                if d: return d
            for i in (['1.5', '"foo"', 'true', 'inf'] if r.random() < .5 else []):
                d = self.reads('%s[%s]' % (x, i), 'nil')
                if d: return d
            if n:
                i = r.randrange(n); return self.reads('%s[%d].g' % (x, i + 1), ps[i][2]) or self.reads('%s[%d].r.x' % (x, i + 1), ps[i][0]) or self.reads('%s["%d"].v.y' % (x, i + 1), ps[i][4]) or self.compare()
            return self.compare()
        if k < .82: return self.bad(r.choice(['%s[1] = {1,2,3}', '%s.foo = 1', '%s[%s] = nil' % ('%s', n + 1), '%s = {}', '%s = S.vort_list', '%s:load()', '%s:load_bin()', '%s.append({1,2,3})', '%s:load("/nonexistent/x")', '%s:load_bin("/nonexistent/x")']) % x)
        m = r.randrange(5); new = [[repr(real(r)) for _ in range(3)] for _ in range(m)]
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, 'f'); s = '%s:%s("%s")' % (x, 'load' if k < .91 else 'load_bin', f)
            if k < .91: open(f, 'w').write(''.join(r.choice(['%s %s %s\n', '  %s\t%s %s\n', '%s\n%s\n%s\n']) % tuple(p) for p in new) + r.choice(['', 'end\n', '1 2\n', '\n\n']))
            else: open(f, 'wb').write(b''.join(struct.pack('<3d', *map(float, p)) for p in new) + bytes(r.choice([0, 1, 8, 23])))
            self.store(l, ps + [p + ['0', '0'] for p in new]); return self.good(s)
    def bodies(self):
        r = self.r; n = self.size('body_list'); ids = [int(float(self.m['body_list%d' % i])) for i in range(n)]; k = r.random(); x = 'S.body_list'
        def keep(ids):
            for i in range(n): del self.m['body_list%d' % i]
            self.m['#body_list'] = str(len(ids))
            for i, b in enumerate(ids): self.m['body_list%d' % i] = str(b)
        b = r.randrange(4) + 1
        if k < .4:
            if b in ids: return self.bad('%s:insert(b%d)' % (x, b))
            keep(ids + [b]); return self.good('%s:insert(b%d)' % (x, b))
        if k < .65:
            if b not in ids: return self.bad('%s:erase(b%d)' % (x, b))
            keep([i for i in ids if i != b]); return self.good('%s:erase(b%d)' % (x, b))
        if k < .7: keep([]); return self.good('%s:clear()' % x)
        if k < .78: return self.bad(r.choice(['%s[1] = b1', '%s = {}', '%s:insert(1)', '%s:insert()', '%s:insert(S.gravity)', '%s:erase(nil)', '%s:erase(1)', '%s.foo = 1', '%s.insert(b1)']) % x)
        got = self.L.run('local s = {} for i, b in ipairs(%s) do if i ~= #s+1 then error("index") end for k = 1, 4 do if b == _G["b"..k] then s[#s+1] = k end end end return table.concat(s, " ")' % x)
        if got != ' '.join(map(str, ids)): return 'after %s: going through %s gives %s instead of %r' % (self.story(), x, got, ids)
        for i in (0, -1, n + 1, '1.5', '"foo"'):
            d = self.reads('%s[%s]' % (x, i), 'nil')
            if d: return d
        return self.reads('#' + x, str(n)) or next((d for d in (self.reads('%s[%d] == b%d' % (x, i + 1, b), 'true') for i, b in enumerate(ids)) if d), None) or self.compare()
    def queries(self):
        r = self.r; i = r.randrange(4) + 1; b = 'b%d' % i; m = lambda k: float(self.m[b + '.' + k])
        if not all(abs(m(k)) < 1e100 for k in ('holder_pos.x', 'holder_pos.y', 'holder_pos.o', 'delta_pos.x', 'delta_pos.y')): return
        ax = [m('holder_pos.' + c) + m('delta_pos.' + c) for c in 'xy']; cf = [m('cofm.x'), m('cofm.y')]
        d = self.reads('#' + b, str(self.seg[i - 1])) or self.reads(b + ':get_slen()', self.m[b + '.slen']) or self.reads(b + ':get_area()', self.m[b + '.area']) or self.reads('#%s:totable()' % b, str(self.seg[i - 1]))
        for j in (0, 1): d = d or self.reads('%s:get_axis()[%d]' % (b, j + 1), repr(ax[j])) or self.reads('%s:get_cofm()[%d]' % (b, j + 1), repr(cf[j]))
        if d: return d
        old = self.L.body(b)
        for j, c in enumerate(old): d = d or self.reads('%s:totable()[%d].x' % (b, j + 1), repr(c[0])) or self.reads('%s:totable()[%d].y' % (b, j + 1), repr(c[1]))
        J, A = float(self.read(b + ':get_moi_cofm()')), float(self.read(b + ':get_moi_axis()')); want = J + ((ax[0] - cf[0]) ** 2 + (ax[1] - cf[1]) ** 2) * m('area')
        if d or abs(A - want) > 1e-9 * (1 + abs(want)): return d or 'after %s: the moment of inertia about the axis is %r instead of %r' % (self.story(), A, want)
        k = r.random(); v = r.uniform(-5, 5); w = r.uniform(-5, 5)
        if k < .2: return self.bad('%s:%s' % (b, r.choice(['move_r()', 'move_r(1)', 'move_r{1}', 'move_r{1,2,3}', 'move_o()', 'move_o("x")', 'move_o{1}', 'move_d()', 'move_d(nil)', 'move_r{"a",1}']))) or self.compare()
        if max(abs(x) for x in ax + cf) > 1e3: return
        if k < .5: s = '%s:move_r{%r, %r}' % (b, v, w); T = lambda x, y: (x + v, y + w); o = 0
        else:
            deg = k > .75; o = math.radians(v * 30) if deg else v; s = '%s:move_d(%r)' % (b, v * 30) if deg else '%s:move_o(%r)' % (b, v); v = w = 0
            T = lambda x, y: (ax[0] + (x - ax[0]) * math.cos(o) - (y - ax[1]) * math.sin(o), ax[1] + (x - ax[0]) * math.sin(o) + (y - ax[1]) * math.cos(o))
        self.do(s); new = self.L.body(b); t = T(*cf)
        for (x, y, _), (X, Y, _) in zip(old, new):
            if math.hypot(T(x, y)[0] - X, T(x, y)[1] - Y) > 1e-9: return 'after %s: a corner moved from %r to %r' % (self.story(), (x, y), (X, Y))
        dump = self.L.dump(self.nb)
        for c, z in (('holder_pos.x', m('holder_pos.x') + v), ('holder_pos.y', m('holder_pos.y') + w), ('holder_pos.o', m('holder_pos.o') + o), ('cofm.x', t[0]), ('cofm.y', t[1]), ('slen', m('slen')), ('area', m('area'))):
            if abs(float(dump[b + '.' + c]) - z) > 1e-8 * (1 + abs(z)): return 'after %s: %s is %s instead of %r' % (self.story(), c, dump[b + '.' + c], z)
            self.m[b + '.' + c] = dump[b + '.' + c]
        for c in ('.x', '.y', '.o'): self.m[b + '.speed_prev' + c] = self.m[b + '.speed' + c]
        return self.compare()


def history(lib, r):
    L = Lua(lib)
    try:
        M = Model(L, r)
        for _ in range(60):
            k = r.random(); d = M.assign() if k < .6 else M.lists() if k < .8 else M.bodies() if k < .9 else M.queries()
            if d: return d
    finally: L.free()
def histories(lib, rnd, chk, progress):
    n = runner(150, history, 'random script')(lib, rnd, chk, progress); L = Lua(lib)
    for s, want in (('local b = load_body("/dev/null"); return #b', '0'), ('local b = load_body("/dev/null"); return tostring(b.slip)', 'nil'), ('local b = load_body("/dev/null"); b.slip = true; return tostring(b.slip)', 'nil')):
        progress(s); got = L.run(s)
        if got != want: fail('%s gives %r instead of %r' % (s, got, want))
        n += 1
    s = 'S.vort_list:clear(); S.vort_list:append({1,2,3}); o = S.vort_list[1]; for i = 1, 1000 do S.vort_list:append({i,0,0}) end'; progress(s)
    if L.run(s).startswith('!'): fail('%s: an error' % s)
    if not L.lib.lu_member(L.p, b'o') and not any('o = S.vort_list[1]' in k for k in known_lines('C19')): fail('after %s: o is not the first element any more but refers to memory that is not in use' % s)
    L.free(); return n + 1
