"""Assumed contracts on the Lua C interface: the state is a ghost stack of values."""
from vv.term import *
from vv import ir, contract as ct

NIL, BOOLEAN, LIGHT, NUMBER, STRING, TABLE, FUNCTION, USERDATA = 0, 1, 2, 3, 4, 5, 6, 7
NONE = ('none',)
SYM = lambda name: ('sym', name)
typ = lambda n: var('type_' + n, 'I')
isnum = lambda n: bvar('isnum_' + n)
isint = isnum     # Lua 5.2: any number is converted, the fraction is cut off
num = lambda n: var('num_' + n)
int_ = lambda n: fn('trunc', num(n), sort='I')
isud = lambda n, meta: bvar('is_%s_%s' % (meta, n))
length = lambda n: var('len_' + n, 'I')
ud = lambda n: ptr('ud_' + n)
truth = lambda n: bvar('true_' + n)


def facts(*names):
    """what holds for every Lua value: numbers are of type number, or texts that read as a number"""
    return [f for n in names for f in (typ(n) >= 0, typ(n) <= 8, Or(Not(isnum(n)), eq(typ(n), I(NUMBER)), eq(typ(n), I(STRING))), Or(Not(eq(typ(n), I(NUMBER))), isnum(n)), length(n) >= 0)]


def stack(st): return st.ghost.get('stack', ())
def setstack(st, s): st.ghost = dict(st.ghost, stack=tuple(s))
def push(st, v): setstack(st, stack(st) + (v,))
def place(E, st, i):
    n = i.const()
    if n is None: raise ct.Unsupported('stack index')
    n = int(n); s = stack(st); k = n - 1 if n > 0 else len(s) + n
    if n < -1000000: raise ct.Unsupported('pseudo index')
    if n < 0 and k < 0: E.obl.append(('no access below the stack', st.facts, FALSE))
    return k if 0 <= k < len(s) else None
def at(E, st, i):
    k = place(E, st, i); return NONE if k is None else stack(st)[k]
def pop(E, st):
    s = stack(st)
    if not s: E.obl.append(('no access below the stack', st.facts, FALSE)); return NONE
    setstack(st, s[:-1]); return s[-1]


def type_of(v):
    return typ(v[1]) if v[0] == 'sym' else I({'none': -1, 'res': -1, 'nil': NIL, 'bool': BOOLEAN, 'lud': LIGHT, 'num': NUMBER, 'int': NUMBER, 'str': STRING, 'msg': STRING, 'table': TABLE, 'fun': FUNCTION, 'ud': USERDATA}[v[0]])
def number(v):
    """(value, is a number)"""
    if v[0] == 'num': return v[1], TRUE
    if v[0] == 'int': return ct.i2r(v[1]), TRUE
    if v[0] == 'sym': return ite(isnum(v[1]), num(v[1]), R(0)), isnum(v[1])
    return R(0), FALSE
def integer(v):
    if v[0] == 'int': return v[1], TRUE
    if v[0] == 'sym': return ite(isint(v[1]), int_(v[1]), I(0)), isint(v[1])
    if v[0] == 'num': raise ct.Unsupported('number as integer')
    return I(0), FALSE
def boolean(v):
    return v[1] if v[0] == 'bool' else truth(v[1]) if v[0] == 'sym' else Bool(v[0] not in ('nil', 'none'))


def contracts(error=None):
    def settop(E, st, a, ins):
        n = a[1].const()
        if n is None: raise ct.Unsupported('settop')
        n = int(n); s = stack(st); k = n if n >= 0 else len(s) + n + 1
        if k < 0: E.obl.append(('no access below the stack', st.facts, FALSE)); k = 0
        setstack(st, s[:k] + (('nil',),) * (k - len(s)))
    def conversion(conv, zero):
        def f(E, st, a, ins):
            w = at(E, st, a[1]); v, ok = conv(w); res = []
            if w[0] != 'sym': out(E, st, a[2], ok); return v
            for c, x in ((ok, {'I': int_, 'R': num}[v.sort](w[1])), (Not(ok), zero)):
                if E.dec.decide(st.facts, Not(c)): continue
                s = st.copy(); s.assume(c); out(E, s, a[2], I(1) if c is ok else I(0)); res.append((s, x, 'ret'))
            return res
        return f
    tonumber = conversion(number, R(0)); tointeger = conversion(integer, I(0))
    def out(E, st, p, ok):
        if p.op != 'null': E.store(st, p, ind(ok, 'I') if isinstance(ok, B) else ok, ir.Ty('int', 32))
    def touserdata(E, st, a, ins):
        v = at(E, st, a[1])
        if v[0] in ('lud', 'ud'): return v[1]
        if v[0] == 'sym': return ptr('ud_' + v[1])
        return NULL
    def tolstring(E, st, a, ins):
        if a[2].op != 'null': raise ct.Unsupported('length of a string')
        v = at(E, st, a[1])
        return ptr('MSG') if v[0] == 'msg' else ptr('text_' + v[1]) if v[0] == 'sym' else v[1] if v[0] == 'str' else NULL
    def text(E, st, a, ins): push(st, ('msg',)); return ptr('MSG')
    def pushvalue(E, st, a, ins): push(st, at(E, st, a[1]))
    def remove(E, st, a, ins):
        k = place(E, st, a[1]); s = stack(st)
        if k is not None: setstack(st, s[:k] + s[k + 1:])
    def rawlen(E, st, a, ins):
        v = at(E, st, a[1])
        if v[0] != 'sym': raise ct.Unsupported('length of a value')
        return length(v[1])
    def rawgeti(E, st, a, ins):
        v = at(E, st, a[1])
        if v[0] != 'sym' or a[2].const() is None: raise ct.Unsupported('element of a value')
        E.obl.append(('elements are taken from tables only', st.facts, eq(typ(v[1]), I(TABLE)))); push(st, SYM('%s_%d' % (v[1], int(a[2].const()))))
    def check(test):
        def f(E, st, a, ins):
            v = at(E, st, a[1]); meta = E.cstring(a[2])
            if v[0] == 'ud' and v[2] == meta: return v[1]
            if v[0] != 'sym': return NULL if test else ct.throw(E, st, a, ins)
            c = isud(v[1], meta); res = []
            if not E.dec.decide(st.facts, Not(c)): t = st.copy(); t.assume(c); t.assume(eq(typ(v[1]), I(USERDATA))); res.append((t, ud(v[1]), 'ret'))
            if not E.dec.decide(st.facts, c): t = st.copy(); t.assume(Not(c)); res.append((t, NULL, 'ret') if test else (t, None, 'exc'))
            return res
        return f
    def checkstring(E, st, a, ins):
        v = at(E, st, a[1])
        if v[0] == 'str': return v[1]
        if v[0] != 'sym': return ct.throw(E, st, a, ins)
        c = Or(eq(typ(v[1]), I(NUMBER)), eq(typ(v[1]), I(STRING))); res = []
        for x, o in ((c, (ptr('text_' + v[1]), 'ret')), (Not(c), (None, 'exc'))):
            if not E.dec.decide(st.facts, Not(x)): t = st.copy(); t.assume(x); res.append((t, *o))
        return res
    def checknumber(E, st, a, ins):
        v, ok = number(at(E, st, a[1])); res = []
        for x, o in ((ok, (v, 'ret')), (Not(ok), (None, 'exc'))):
            if not E.dec.decide(st.facts, Not(x)): t = st.copy(); t.assume(x); res.append((t, *o))
        return res
    def call(E, st, a, ins):
        n, r = int(a[1].const()), int(a[2].const()); args = [pop(E, st) for _ in range(n)][::-1]; f = pop(E, st)
        ct.emit(st, 'call', *value(E, st, f), *[y for x in args for y in value(E, st, x)])
        for i in range(r): push(st, SYM('ret%s' % (i or '')))
    def value(E, st, v):
        """a Lua value as terms"""
        k = I({'sym': -1, 'none': -2}.get(v[0], type_of(v) if v[0] not in ('sym', 'none') else 0)) if v[0] in ('sym', 'none') else type_of(v)
        x = {'sym': lambda: ptr('value_' + v[1]), 'lud': lambda: E.pnorm(st, v[1]), 'fun': lambda: v[1], 'num': lambda: v[1], 'int': lambda: v[1], 'bool': lambda: ind(v[1], 'I'), 'str': lambda: v[1], 'ud': lambda: v[1]}.get(v[0], lambda: I(0))()
        return (k, x)
    def closure(E, st, a, ins):
        E.obl.append(('nothing is captured', st.facts, eq(a[2], I(0)))); push(st, ('fun', a[1]))
    def newuserdata(E, st, a, ins):
        k = st.ghost.get('blocks', 0); st.ghost = dict(st.ghost, blocks=k + 1); push(st, ('ud', ptr('NEW%d' % k), None, a[1])); return ptr('NEW%d' % k)
    def getfield(E, st, a, ins):
        if a[1].const() is None or a[1].const() > -1000000: raise ct.Unsupported('field of a value')
        push(st, ('meta', E.cstring(a[2])))
    def setmetatable(E, st, a, ins):
        k = place(E, st, a[1]); m = pop(E, st); s = list(stack(st))
        if k is None or s[k][0] != 'ud' or m[0] != 'meta': raise ct.Unsupported('metatable of a value')
        s[k] = s[k][:2] + (m[1],) + s[k][3:]; setstack(st, s)
    def createtable(E, st, a, ins): push(st, ('table', ()))
    def rawseti(E, st, a, ins):
        v = pop(E, st); k = place(E, st, a[1]) if a[1].const() > 0 else len(stack(st)) + 1 + int(a[1].const()); s = list(stack(st))
        if a[2].const() is None or s[k][0] != 'table': raise ct.Unsupported('element of a value')
        s[k] = ('table', s[k][1] + ((int(a[2].const()), v),)); setstack(st, s)
    def optinteger(E, st, a, ins):
        v = at(E, st, a[1])
        if v[0] in ('none', 'nil'): return a[2]
        if v[0] != 'sym': return integer(v)[0]
        n = v[1]; res = []
        for x, o in ((eq(typ(n), I(NIL)), (a[2], 'ret')), (isnum(n), (int_(n), 'ret')), (And(ne(typ(n), I(NIL)), Not(isnum(n))), (None, 'exc'))):
            if not E.dec.decide(st.facts, Not(x)): t = st.copy(); t.assume(x); res.append((t, *o))
        return res
    def isstring(E, st, a, ins):
        v = at(E, st, a[1]); return ind(Or(eq(type_of(v), I(NUMBER)), eq(type_of(v), I(STRING))), 'I')
    p = lambda f: lambda E, st, a, ins: push(st, f(a))
    more = [(r'^lua_rawlen$', rawlen), (r'^lua_rawgeti$', rawgeti), (r'^luaL_checkudata$', check(False)), (r'^luaL_testudata$', check(True)), (r'^luaL_checklstring$', checkstring), (r'^luaL_checknumber$', checknumber), (r'^luaL_optinteger$', optinteger), (r'^lua_callk$', call), (r'^lua_pushcclosure$', closure), (r'^lua_newuserdata$', newuserdata), (r'^lua_getfield$', getfield), (r'^lua_setmetatable$', setmetatable), (r'^lua_createtable$', createtable), (r'^lua_rawseti$', rawseti), (r'^lua_isstring$', isstring)]
    return [(r'^lua_settop$', settop), (r'^lua_gettop$', lambda E, st, a, ins: I(len(stack(st)))), (r'^lua_type$', lambda E, st, a, ins: type_of(at(E, st, a[1]))), (r'^lua_typename$', lambda E, st, a, ins: ptr('MSG')),
        (r'^lua_tonumberx$', tonumber), (r'^lua_tointegerx$', tointeger), (r'^lua_toboolean$', lambda E, st, a, ins: ind(boolean(at(E, st, a[1])), 'I')), (r'^lua_isnumber$', lambda E, st, a, ins: ind(number(at(E, st, a[1]))[1], 'I')), (r'^lua_isinteger$', lambda E, st, a, ins: ind(integer(at(E, st, a[1]))[1], 'I')),
        (r'^lua_touserdata$', touserdata), (r'^lua_tolstring$', tolstring), (r'^lua_pushfstring$', text), (r'^lua_pushnil$', p(lambda a: ('nil',))), (r'^lua_pushnumber$', p(lambda a: ('num', a[1]))), (r'^lua_pushinteger$', p(lambda a: ('int', a[1]))),
        (r'^lua_pushboolean$', p(lambda a: ('bool', a[1] if isinstance(a[1], B) else ne(a[1], I(0))))), (r'^lua_pushstring$', lambda E, st, a, ins: (push(st, ('str', a[1])), a[1])[1]), (r'^lua_pushlightuserdata$', p(lambda a: ('lud', a[1]))), (r'^lua_pushvalue$', pushvalue), (r'^lua_(remove)$', remove),
        (r'^luaL_argerror$', ct.throw), (r'^luaL_error$', ct.throw), (r'^lua_error$', ct.throw)] + more
