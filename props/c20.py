"""Time-dependent expressions."""
import ctypes as C, math
from vv.term import *
from vv import native, ir, contract as ct
from vv.check import fail
WRAP = '''
#include "TEval.hpp"
#include <cstring>
#include <stdexcept>
extern "C" {
void* vvw_te_new(const char* s) { return s ? new TEval(std::string(s)) : new TEval(); }
void* vvw_te_copy(void* o) { return new TEval(*(TEval*)o); }
int vvw_te_new_bad(const char* s) { try { TEval e{std::string(s)}; return 0; } catch (std::exception&) { return 1; } }
int vvw_te_set(void* o, const char* s) { try { *(TEval*)o = std::string(s); return 0; } catch (std::exception&) { return 1; } }
void vvw_te_cp(void* o, void* p) { *(TEval*)o = *(TEval*)p; }
double vvw_te_eval(void* o, double t) { return ((TEval*)o)->eval(t); }
void vvw_te_str(void* o, char* b, int n) { strncpy(b, std::string(*(TEval*)o).c_str(), n); }
void vvw_te_del(void* o) { delete (TEval*)o; }
}
'''
NUMC = ['0', '1', '2', '0.5', '-3', '1e-3', '7.25', '-0.125']
CONST = {'pi': math.pi, 'e': math.e, 'sqrt2': math.sqrt(2), 'ln2': math.log(2), 'pi_2': math.pi / 2, 'ln10': math.log(10), 'log2e': 1 / math.log(2), 'log10e': 1 / math.log(10), 'pi_4': math.pi / 4, 'sqrt1_2': math.sqrt(.5)}
FN = {'sin': math.sin, 'cos': math.cos, 'exp': lambda x: math.exp(min(x, 700)), 'abs': abs, 'erf': math.erf, 'step': lambda x: 1. if x >= 0 else 0., 'tan': math.tan, 'atan': math.atan, 'sqrt': lambda x: math.sqrt(x)}


def gen(r, d=3):
    """(text, function of t); the function raises when the value is outside the reals"""
    k = r.randrange(9) if d else r.randrange(3)
    if k < 2: return 't', lambda t: t
    if k == 2:
        if r.random() < .3: n = r.choice(sorted(CONST)); return n, lambda t, n=n: CONST[n]
        c = r.choice(NUMC); return ('(%s)' % c), lambda t, c=c: float(c)
    if k < 6:
        a, fa = gen(r, d - 1); b, fb = gen(r, d - 1); o = r.choice('+-*/')
        return '(%s%s%s)' % (a, o, b), {'+': lambda t: fa(t) + fb(t), '-': lambda t: fa(t) - fb(t), '*': lambda t: fa(t) * fb(t), '/': lambda t: fa(t) / fb(t)}[o]
    if k == 6:
        a, fa = gen(r, d - 1); b, fb = gen(r, d - 1); c, fc = gen(r, d - 1)
        return '(%s < %s and %s or 2)' % (a, b, c), lambda t: fc(t) if fa(t) < fb(t) else 2.
    n = r.choice(sorted(FN)); a, fa = gen(r, d - 1); return '%s(%s)' % (n, a), lambda t: FN[n](fa(t))


BAD = ['t+', '(', 'return', 'nil', '"x"', 'undefined_name+1', 'function() end', 'sin', '1 2', 'return {}', 'error("x")', 't..', 'nosuch(t)', 'true']
SPECIAL = [('return 2*t', lambda t: 2 * t), ('local a = t*t; return a+1', lambda t: t * t + 1), ('if t > 1 then return 5 else return 7 end', lambda t: 5. if t > 1 else 7.), ('3', lambda t: 3.), ('', lambda t: 0.), ('"4"', lambda t: 4.)]
TIMES = [0., 1., -1., 0.5, 2., 3.75, 10., -0.25, 1e-9]


def expr(r):
    if r.random() < .15: return r.choice(SPECIAL)
    if r.random() < .1: return '', lambda t: 0.
    while True:
        s, f = gen(r)
        try:
            for t in TIMES:
                v = f(t)
                if isinstance(v, complex) or v != v or abs(v) > 1e100: raise ValueError
                # the value must not sit on a jump
                for q in (1e-13, -1e-13):
                    w = f(t + q * (abs(t) + 1e-9))
                    if abs(w - v) > 1e-6 * (1 + abs(v)): raise ValueError
            return s, f
        except (ValueError, ZeroDivisionError, OverflowError): pass


def lib_(lib):
    for n, rt, at in (('new', C.c_void_p, [C.c_char_p]), ('copy', C.c_void_p, [C.c_void_p]), ('new_bad', C.c_int, [C.c_char_p]), ('set', C.c_int, [C.c_void_p, C.c_char_p]), ('cp', None, [C.c_void_p] * 2), ('eval', C.c_double, [C.c_void_p, C.c_double]), ('str', None, [C.c_void_p, C.c_char_p, C.c_int]), ('del', None, [C.c_void_p])):
        f = getattr(lib, 'vvw_te_' + n); f.restype = rt; f.argtypes = at
    return lib


def histories(lib, rnd, chk, progress):
    L = lib_(lib); n = 0
    for h in range(chk.n(120, 1200)):
        objs = []; log = []
        for step in range(40):
            k = rnd.randrange(10) if objs else 0
            if k == 0 and len(objs) < 5:
                s, f = expr(rnd); log.append('o%d = TEval(%r)' % (len(objs), s)); progress('; '.join(log)); objs.append([L.vvw_te_new(s.encode() if rnd.random() < .9 or s else None), s, f])
            elif k == 1:
                i = rnd.randrange(len(objs)); s, f = expr(rnd); log.append('o%d = %r' % (i, s)); progress('; '.join(log))
                if L.vvw_te_set(objs[i][0], s.encode()): fail('a valid expression is rejected after: ' + '; '.join(log))
                objs[i][1:] = [s, f]
            elif k == 2:
                i = rnd.randrange(len(objs)); s = rnd.choice(BAD); log.append('o%d = invalid %r' % (i, s)); progress('; '.join(log))
                if not L.vvw_te_set(objs[i][0], s.encode()): fail('the invalid expression %r is accepted' % s)
            elif k == 3 and len(objs) < 5:
                i = rnd.randrange(len(objs)); log.append('o%d = copy of o%d' % (len(objs), i)); progress('; '.join(log)); objs.append([L.vvw_te_copy(objs[i][0])] + objs[i][1:])
            elif k == 4:
                i, j = rnd.randrange(len(objs)), rnd.randrange(len(objs)); log.append('o%d := o%d' % (i, j)); progress('; '.join(log)); L.vvw_te_cp(objs[i][0], objs[j][0]); objs[i][1:] = objs[j][1:]
            else:
                i = rnd.randrange(len(objs)); t = rnd.choice(TIMES); log.append('o%d(%r)' % (i, t)); progress('; '.join(log)); got = L.vvw_te_eval(objs[i][0], t); want = objs[i][2](t); n += 1
                if not abs(got - want) <= 1e-9 * (1 + abs(want)): fail('%r at t=%r is %r, got %r after: %s' % (objs[i][1], t, want, got, '; '.join(log)))
            for i, o in enumerate(objs):
                b = C.create_string_buffer(500); L.vvw_te_str(o[0], b, 499)
                if b.value.decode() != o[1]: fail('o%d holds the text %r instead of %r after: %s' % (i, b.value.decode(), o[1], '; '.join(log)))
        for o in objs: L.vvw_te_del(o[0])
    for s in BAD:
        if not L.vvw_te_new_bad(s.encode()): fail('constructing from the invalid expression %r succeeds' % s)
    return n


def setup(chk):
    chk.wrapfile(WRAP)
    chk.group(evaluation)
    chk.group(assignment)
    chk.battery('histories', histories, True, 'random histories of assignments (valid, invalid), copies and evaluations against the formula evaluated independently')


def lua(u):
    """the Lua state as ghost: a stack and two globals"""
    G = lambda st: st.ghost.get('stack', ())
    def push(st, v): st.ghost['stack'] = G(st) + (v,)
    def pop(E, st):
        s = G(st)
        if not s: E.obl.append(('stack underflow', st.facts, FALSE)); return ('none',)
        st.ghost['stack'] = s[:-1]; return s[-1]
    def pushnumber(E, st, a, ins): push(st, ('num', a[1]))
    def setglobal(E, st, a, ins): st.ghost['G:' + E.cstring(a[1])] = pop(E, st)
    def getglobal(E, st, a, ins): push(st, st.ghost.get('G:' + E.cstring(a[1]), ('nil',)))
    def settop(E, st, a, ins):
        n = a[1].const()
        for _ in range(-int(n) - 1): pop(E, st)
    def pcall(E, st, a, ins):
        f = pop(E, st); t = st.ghost.get('G:t', ('num', fn('nan')))
        if f[0] != 'chunk' or t[0] != 'num': E.obl.append(('calls the assigned formula', st.facts, FALSE)); f = ('chunk', 'none'); t = ('num', R(0))
        ok = bvar('runs_' + f[1], t[1]); res = []
        for c, v, r in ((ok, ('res', f[1], t[1]), I(0)), (Not(ok), ('err',), I(2))):
            
            if E.dec.decide(st.facts, Not(c)): continue
            s = st.copy(); s.assume(c); push(s, v); res.append((s, r, 'ret'))
        return res
    def top(E, st): s = G(st); return s[-1] if s else ('none',)
    def tonumberx(E, st, a, ins):
        v = top(E, st)
        if v[0] != 'res': E.obl.append(('reads the result of the formula', st.facts, FALSE)); return R(0)
        E.store(st, a[2], ind(bvar('isnum_' + v[1], v[2]), 'I'), ir.Ty('int', 32)); return fn('F_' + v[1], v[2])
    u.contracts += [(r'^lua_pushnumber$', pushnumber), (r'^lua_setglobal$', setglobal), (r'^lua_getglobal$', getglobal), (r'^lua_settop$', settop), (r'^lua_pcallk$', pcall), (r'^lua_tonumberx$', tonumberx), (r'^lua_tolstring$', lambda E, st, a, ins: ptr('MSG')), (r'^GOMP_critical', lambda E, st, a, ins: None), (r'basic_string<[^()]*(::basic_string|~basic_string)', lambda E, st, a, ins: None)]


def evaluation(chk):
    m = chk.extract(['libvvhd/src/TEval.cpp'], noinline=['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE[CD][12]', '_ZStpl', '10loadstring', '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(5clear|9_M_assign|aSE)']); u = chk.unit(m)
    u.region('E', 'TEval', ['cacheTime1', 'cacheTime2', 'cacheValue1', 'cacheValue2']); u.raw('MSG', 1, {0: ('i8', 'c')}); lua(u)
    t = var('t'); c = lambda x: fn('F_C', x); n = var('n_expr', 'I'); u.setoff('E', chk.off('TEval', 'expr') + 8, lambda: n); u.setptr('E', 'lua_state', lambda: ptr('LS')); u.raw('LS', 8, {0: ('i64', 'x')}, array=False)
    T1, T2, V1, V2 = (u.F('E', x)() for x in ('cacheTime1', 'cacheTime2', 'cacheValue1', 'cacheValue2'))
    ok = And(bvar('runs_C', t), bvar('isnum_C', t))
    def setup_(E): pass
    def post(E, st, v):
        rd = lambda x: E.readcell(st, 'E', chk.off('TEval', x), (), ir.DBL)
        o = [('the stack is left as it was', st.facts, Bool(not st.ghost.get('stack'))), ('the formula is kept', st.facts, Bool(st.ghost.get('G:_evaluator') == ('chunk', 'C')))]
        for i in '12':
            a, b = rd('cacheTime' + i), rd('cacheValue' + i)
            o.append(('cached value %s belongs to its time' % i, st.facts, TRUE if ct.sym.isnan(a) else ct.goal_eq(b, c(a))))
        return o
    def exc(E, st):
        return [('failed: the stack is left as it was', st.facts, Bool(not st.ghost.get('stack'))), ('failed: the formula is kept', st.facts, Bool(st.ghost.get('G:_evaluator') == ('chunk', 'C')))] + [('failed: %s unchanged' % x, st.facts, ct.goal_eq(E.readcell(st, 'E', chk.off('TEval', x), (), ir.DBL), u.F('E', x)())) for x in ('cacheTime1', 'cacheTime2', 'cacheValue1', 'cacheValue2')]
    def none(E, st, v): return []
    none.exc = exc
    chk.case('evaluation of a formula that has no value there', u, r'^TEval::eval\(', [ptr('E'), t], [n > 0, Not(ok), ne(t, T1), ne(t, T2)], {}, samples=0, extra_post=none, exc=TRUE, engine_setup=lambda E: preset(E, chk, None, None), ignore=[('E', '*')], merge=False)
    for name, l1, l2 in (('nothing cached', fn('nan'), fn('nan')), ('one time cached', None, fn('nan')), ('two times cached', None, None)):
        uu = u
        pre = [n > 0, ok]; pass
        chk.case('evaluation, ' + name, u, r'^TEval::eval\(', [ptr('E'), t], pre + ([] if l1 is not None else [eq(V1, c(T1))]) + ([] if l2 is not None else [eq(V2, c(T2))]), {}, ret=c(t), samples=0, extra_post=post, engine_setup=lambda E, l1=l1, l2=l2: preset(E, chk, l1, l2), ignore=[('E', '*')])
    chk.case('empty expression', u, r'^TEval::eval\(', [ptr('E'), t], [eq(n, I(0))], {}, ret=R(0), samples=0)


def assignment(chk):
    m = chk.extract(['libvvhd/src/TEval.cpp'], noinline=['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE[CD][12]', '_ZStpl', '10loadstring', '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(5clear|9_M_assign|aSE)']); u = chk.unit(m)
    u.region('E', 'TEval', ['cacheTime1', 'cacheTime2', 'cacheValue1', 'cacheValue2']); u.raw('MSG', 1, {0: ('i8', 'c')}); lua(u); u.raw('LS', 8, {0: ('i64', 'x')}, array=False)
    u.raw('S', 32, {0: ('ptr', 'p'), 8: ('i64', 'n')}, array=False)
    oE = chk.off('TEval', 'expr'); n = var('n_expr', 'I'); nS = var('n_new', 'I'); u.setoff('E', oE + 8, lambda: n); u.setoff('S', 8, lambda: nS); u.setptr('E', 'lua_state', lambda: ptr('LS'))
    G = lambda st: st.ghost.get('stack', ())
    def plus(E, st, a, ins): st.ghost['T:' + a[0].args[0]] = (E.cstring(a[1]), text(E, st, a[2]))
    def text(E, st, p):
        if p.op == 'p' and p.args[0] == 'S': return 'S'
        if p.op == 'p' and p.args[0] == 'E': return st.ghost.get('expr', 'OLD')
        return st.ghost.get('T:' + p.args[0], '?')
    def load(E, st, a, ins):
        tx = text(E, st, a[1]); name = {('return ', 'S'): 'expression', 'S': 'program'}.get(tx)
        if name is None: E.obl.append(('the assigned text is compiled', st.facts, FALSE)); name = 'other'
        ok = bvar('compiles_' + name); res = []
        for c, v, r in ((ok, ('chunk', name), I(0)), (Not(ok), ('msg',), I(3))):
            if E.dec.decide(st.facts, Not(c)): continue
            s = st.copy(); s.assume(c); s.ghost['stack'] = G(s) + (v,); res.append((s, r, 'ret'))
        return res
    def pushvalue(E, st, a, ins):
        k = -int(a[1].const())
        if k > len(G(st)): E.obl.append(('stack underflow', st.facts, FALSE)); return
        st.ghost['stack'] = G(st) + (G(st)[-k],)
    def pushnil(E, st, a, ins): st.ghost['stack'] = G(st) + (('nil',),)
    def pcall(E, st, a, ins):
        f = G(st)[-1] if G(st) else ('none',); st.ghost['stack'] = G(st)[:-1]; t = st.ghost.get('G:t', ('none',))
        if f[0] != 'chunk' or t[0] != 'num': E.obl.append(('the new formula is tried at a number', st.facts, FALSE)); f = ('chunk', 'none')
        elif t[1].const() != 0: E.obl.append(('the new formula is tried at zero', st.facts, eq(t[1], R(0))))
        ok = bvar('runs_' + f[1]); res = []
        for c, v, r in ((ok, ('res', f[1]), I(0)), (Not(ok), ('msg',), I(2))):
            if E.dec.decide(st.facts, Not(c)): continue
            s = st.copy(); s.assume(c); s.ghost['stack'] = G(s) + (v,); res.append((s, r, 'ret'))
        return res
    def isnumber(E, st, a, ins):
        v = G(st)[-1] if G(st) else ('none',)
        if v[0] != 'res': E.obl.append(('the result of the trial is inspected', st.facts, FALSE)); return I(0)
        return ind(bvar('number_' + v[1]), 'I')
    def assign(E, st, a, ins):
        if a[0].args[0] != 'E': raise ct.Unsupported('assignment to a temporary string')
        st.ghost['expr'] = text(E, st, a[1]); E.store(st, ptr('E', (), I(oE + 8)), nS, ir.I64); return a[0]
    def clear(E, st, a, ins): st.ghost['expr'] = ''; E.store(st, ptr('E', (), I(oE + 8)), I(0), ir.I64)
    u.contracts[:0] = [(r'^std::(__cxx11::)?(basic_string<.*> )?(std::)?operator\+', plus), (r'^loadstring\(', load), (r'^lua_pushvalue$', pushvalue), (r'^lua_pushnil$', pushnil), (r'^lua_pcallk$', pcall), (r'^lua_isnumber$', isnumber), (r'::(operator=|_M_assign)\(std::', assign), (r'::clear\(', clear)]
    b = bvar; good = lambda k: And(b('compiles_' + k), b('runs_' + k), b('number_' + k))
    takes = Or(good('expression'), And(Not(b('compiles_expression')), good('program')))
    rd = lambda E, st, x: E.readcell(st, 'E', chk.off('TEval', x), (), ir.DBL)
    keep = lambda E, st: [('cache kept: ' + x, st.facts, ct.goal_eq(rd(E, st, x), u.F('E', x)())) for x in ('cacheTime1', 'cacheTime2', 'cacheValue1', 'cacheValue2')]
    isn = lambda t: TRUE if ct.sym.isnan(t) else FALSE
    def post(E, st, v):
        g = st.ghost; o = [('the stack is left as it was', st.facts, Bool(not G(st))), ('the text is stored', st.facts, Bool(g.get('expr') == 'S')), ('length stored', st.facts, eq(E.readcell(st, 'E', oE + 8, (), ir.I64), nS))]
        for k in ('expression', 'program'): o.append(('the formula in force is the %s just when it is the one taken' % k, st.facts + (good('expression'),) if k == 'expression' else st.facts + (Not(b('compiles_expression')),), Bool(g.get('G:_evaluator') == ('chunk', k)) if E.dec.decide(st.facts, good('expression') if k == 'expression' else Not(b('compiles_expression'))) is not False else TRUE))
        return o + [('no value of an earlier formula stays cached: time %d' % i, st.facts, isn(rd(E, st, 'cacheTime%d' % i))) for i in (1, 2)]
    def exc(E, st):
        g = st.ghost
        return [('rejected: the stack is left as it was', st.facts, Bool(not G(st))), ('rejected: the formula in force stays', st.facts, Bool(g.get('G:_evaluator') == ('chunk', 'OLD') and g.get('expr', 'OLD') == 'OLD')), ('rejected: length stays', st.facts, eq(E.readcell(st, 'E', oE + 8, (), ir.I64), n))] + keep(E, st)
    post.exc = exc
    def start(E): E.ghost0 = {'G:_evaluator': ('chunk', 'OLD')}
    chk.case('assignment of a text', u, r'^TEval::operator=\(std::', [ptr('E'), ptr('S')], [nS > 0, n >= 0], {}, samples=0, extra_post=post, exc=Not(takes), engine_setup=start, ignore=[('E', '*')], merge=False)
    def empty(E, st, v):
        return [('the stack is left as it was', st.facts, Bool(not G(st))), ('empty', st.facts, eq(E.readcell(st, 'E', oE + 8, (), ir.I64), I(0)))]
    chk.case('assignment of the empty text', u, r'^TEval::operator=\(std::', [ptr('E'), ptr('S')], [eq(nS, I(0)), n >= 0], {}, samples=0, extra_post=empty, engine_setup=start, ignore=[('E', '*')], merge=False)

def preset(E, chk, l1, l2):
    for x, l in (('cacheTime1', l1), ('cacheTime2', l2)):
        if l is not None: E.regions['E'].init[chk.off('TEval', x)] = lambda l=l: l
    E.ghost0 = {'G:_evaluator': ('chunk', 'C')}
