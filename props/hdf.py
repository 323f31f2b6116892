"""Assumed contracts on HDF5 and std::string for the contracts about files. A string is one integer (equal texts, equal integers;
0 is the empty text), kept in the first eight bytes of the object; handles are the numbers the contracts give out."""
import re, zlib
from vv.term import *
from vv import ir, sym, contract as ct
from vv.sym import Unsupported

STRINGS = ['^_ZNK?St7__cxx1112basic_string', 'h5_throw', 'h5a_', 'TEval', '_Rb_tree', '^_ZNK?St3map', 'make_shared', '^_ZNSt6vectorI.*(resize|push_back|17_M_realloc_insert)', '12__shared_ptr', '12__weak_count', '14__shared_count', '^_ZNSt10shared_ptr', '10__weak_ptr', '8weak_ptr', '^_ZSteqRKSt17_Rb_tree', '^_ZStneRKSt17_Rb_tree', 'dataset_', '16doUpdateSegments', '16doFillProperties', '15EnumerateBodies', '8validateE', 'h5t_(commit|close)_all']
VLA = [(r'(\w+\[N\](?:\[\d+\])?) = \{0\};', r'\1;')]


def sid(text): return I(0) if text == '' else I(zlib.crc32(text.encode()) % 1000000007 + 1)
def sval(E, st, p): return E.load(st, p, ir.I64)
def sset(E, st, p, v): E.store(st, p, v, ir.I64)


def text(E, st, p):
    """the text a char pointer shows"""
    s = E.cstring(p)
    if s is not None: return sid(s)
    p = E.pnorm(st, p)
    if p == NULL: return var('no_text', 'I')
    if p.op == 'ite': return ite(p.args[0], text(E, st, p.args[1]), text(E, st, p.args[2]))
    if p.op == 'p' and p.args[0] == 'STR': return p.args[1][0]
    return sval(E, st, p)        # a character buffer filled by snprintf


def strings(u):
    u.raw('STR', 1, {0: ('i8', 'c')}, [var('n_STR', 'I'), var('n_CH', 'I')])
    def ctor(E, st, a, i): sset(E, st, a[0], text(E, st, a[1])); return None
    def copy(E, st, a, i): sset(E, st, a[0], sval(E, st, a[1])); return a[0]
    u.contracts += [(r'.*std::vector<.*>::_M_realloc_insert', grows)]
    S = r'std::(__cxx11::)?basic_string<char.*>::'
    u.contracts += [(S + r'basic_string\((std::__cxx11::basic_string<.*)(const&|&&)\)$', copy), (S + r'basic_string(<.*>)?\(char const\*,', ctor), (S + r'basic_string\(\)$', lambda E, st, a, i: sset(E, st, a[0], I(0))), (S + r'~basic_string', ct.nothing),
                    (S + r'c_str\(', lambda E, st, a, i: ptr('STR', (sval(E, st, a[0]),))), (S + r'(data)\(', lambda E, st, a, i: ptr('STR', (sval(E, st, a[0]),))), (S + r'empty\(', lambda E, st, a, i: eq(sval(E, st, a[0]), I(0))),
                    (S + r'operator=\(char const\*\)', lambda E, st, a, i: (ctor(E, st, a, i), a[0])[1]), (S + r'operator=\(std::', copy), (S + r'pop_back', lambda E, st, a, i: sset(E, st, a[0], fn('popped', sval(E, st, a[0]), sort='I'))),
                    (r'^std::allocator<char>', ct.nothing), (r'^h5_throw\(', ct.throw), (r'^fprintf$|^fflush$', lambda E, st, a, i: I(0)),
                    (r'^TEval::operator std::', lambda E, st, a, i: sset(E, st, a[0], sval(E, st, padd_off(a[1], I(8))))), (r'^TEval::operator=\(std::', lambda E, st, a, i: (sset(E, st, padd_off(a[0], I(8)), sval(E, st, a[1])), a[0])[1])]


def put(st, kind, h, v): st.ghost = dict(st.ghost); st.ghost['%s%s' % (kind, h.const())] = v
def new(st): n = st.ghost.get('handles', 0) + 1; st.ghost = dict(st.ghost); st.ghost['handles'] = n; return I(1000 + n)
def got(st, kind, h):
    c = h.const() if isinstance(h, Poly) else None
    return st.ghost.get('%s%s' % (kind, c)) if c is not None else None


def want(E, st, what, cond): E.obl.append((what, st.facts, cond))


def dims(E, st, p, n): return tuple(E.load(st, padd_off(p, I(8 * k)), ir.I64) for k in range(n))


def h5(u, dread=None, dwrite=None, awrite=None, aread=None):
    """the HDF5 calls: handles of data spaces remember their sizes and selection, data sets their name and space"""
    def space(E, st, a, i):
        n = int(a[0].const()); h = new(st); put(st, 'space', h, (dims(E, st, a[1], n), None)); return h
    def slab(E, st, a, i):
        s = got(st, 'space', a[0]); n = len(s[0]); put(st, 'space', a[0], (s[0], tuple(dims(E, st, a[k], n) for k in (2, 3, 4)))); want(E, st, 'the selection replaces the old one, in single blocks', And(eq(a[1], I(0)), TRUE if isinstance(a[5], Ptr) and a[5] == NULL else FALSE)); return I(0)
    def dcreate(E, st, a, i):
        h = new(st); put(st, 'data', h, (a[0], text(E, st, a[1]), a[3], a[2])); return h
    def acreate(E, st, a, i): h = new(st); put(st, 'att', h, (a[0], text(E, st, a[1]), a[3], a[2])); return h
    def dopen(E, st, a, i): h = new(st); put(st, 'data', h, (a[0], text(E, st, a[1]), None, None)); return h
    def aopen(E, st, a, i): h = new(st); put(st, 'att', h, (a[0], text(E, st, a[1]), None, None)); return h
    def dspace(E, st, a, i):
        d = got(st, 'data', a[0]); h = new(st); put(st, 'space', h, (tuple(fn('extent%d' % k, d[0], d[1], sort='I') for k in range(2)), None)); return h
    def extent(E, st, a, i):
        s = got(st, 'space', a[0])
        for k, x in enumerate(s[0]):
            for p in a[1:3]:
                if p != NULL: E.store(st, padd_off(p, I(8 * k)), x, ir.I64)
        return I(len(s[0]))
    def closed(kind):
        def f(E, st, a, i):
            d = got(st, kind, a[0]); want(E, st, 'only what is open is closed', Bool(d is not None and got(st, 'closed', a[0]) is None)); put(st, 'closed', a[0], True); return I(0)
        return f
    ok = lambda E, st, a, i: I(0)
    fresh_ = lambda E, st, a, i: new(st)
    def dw(E, st, a, i): ct.emit(st, 'dwrite', a[0]); dwrite(E, st, a); return I(0)
    def aw(E, st, a, i): ct.emit(st, 'awrite', a[0]); awrite(E, st, a); return I(0)
    def dr(E, st, a, i): dread(E, st, a); return I(0)
    def ar(E, st, a, i): aread(E, st, a); return I(0)
    u.contracts += [(r'^H5open$', ok), (r'^H5Pcreate$', fresh_), (r'^H5Pset_', ok), (r'^H5Screate_simple$', space), (r'^H5Sselect_hyperslab$', slab), (r'^H5Dcreate2$', dcreate), (r'^H5Acreate2$', acreate), (r'^H5Dopen2$', dopen), (r'^H5Aopen$', aopen), (r'^H5Dget_space$', dspace), (r'^H5Sget_simple_extent_dims$', extent), (r'^H5Dclose$', closed('data')), (r'^H5Aclose$', closed('att')),
                    (r'^H5Dwrite$', dw), (r'^H5Awrite$', aw), (r'^H5Dread$', dr), (r'^H5Aread$', ar), (r'^h5t<.*>::init\(', ok), (r'^H5Sclose$|^H5Pclose$', ok),
                    (r'^H5Lexists$', lambda E, st, a, i: ind(bvar('has', a[0], text(E, st, a[1])), 'I')), (r'^H5Aexists$', lambda E, st, a, i: ind(bvar('hasatt', *hdf_object(E, st, a[0]), text(E, st, a[1])), 'I'))]


def value(E, st, a, n):
    """the numbers an argument of the h5a functions stands for"""
    if n == 'text': return (sval(E, st, a[0]),)
    if n == 'time': x = a[0]; return (x,)
    if n == 3: return tuple(E.load(st, padd_off(a[0], I(8 * k)), ir.DBL) for k in range(3))
    return tuple(a[:n])


KINDS = [(r'(std::__cxx11::basic_string<.*> const&|std::__cxx11::basic_string<.*>)', 'text'), (r'TVec3D', 3), (r'TVec', 2), (r'TTime', 'time'), (r'(double|int|unsigned int|bc_t|hc_t)', 1), (r'char const\*', 'chars')]


def grows(E, st, a, i):
    """the contracts give every vector room enough (what moving to a new block does is assumed of std::vector)"""
    E.obl.append(('room is left in the vector', st.facts, FALSE)); return []


def fill(E, st, p, off, f, n):
    """element k of the array at p holds f(k) at the offset, for every k < n"""
    p = E.pnorm(st, p); k = mk('var', '$h%d' % fresh(), sort='I')
    if p.args[2] != I(0): raise Unsupported('filling the middle of an array')
    st.mem[(p.args[0], off)] = st.mem.get((p.args[0], off), ()) + (sym.Map([(k, I(n), 0, 1, I(0))], (I(k),), f(I(k)), TRUE),)


def atts(u, table, of=lambda h: h):
    """h5a_read gives the values of the file: att:<name> of the object behind the handle"""
    def rd(kind):
        def h(E, st, a, i):
            hh, nm = (a[1], a[2]) if kind in (3, 'text') else (a[0], a[1]); d = hdf_object(E, st, hh); s = E.cstring(nm); x = table(s)
            v = lambda k, so: fn('att:%s%s' % (s, k), *d, sort=so)
            if kind == 3: [E.store(st, padd_off(a[0], I(8 * k)), v('.%d' % k, 'R'), ir.DBL) for k in range(3)]; return None
            if kind == 'text': sset(E, st, a[0], v('', 'I')); return None
            if kind == 2: return (v('.0', 'R'), v('.1', 'R'))
            return v('', kind)
        return h
    u.contracts += [(r'^(std::__cxx11::basic_string<.*>) h5a_read<', rd('text')), (r'^TVec3D h5a_read<', rd(3)), (r'^TVec h5a_read<', rd(2)), (r'^double h5a_read<', rd('R')), (r'^(int|unsigned int|bc_t|hc_t|TTime) h5a_read<', rd('I'))]


def hdf_object(E, st, h):
    """what a handle stands for: a data set is (file, name), a file itself"""
    d = got(st, 'data', h); return (d[0], d[1]) if d else (h,)


def bodymap(u, entry):
    """std::map from names to bodies: entry(k) is the body of the k-th name"""
    u.raw('MP', 16, {0: ('ptr', None), 8: ('ptr', None)}, [var('n_map', 'I')], array=False); u.setoff('MP', 0, entry); u.setoff('MP', 8, lambda k: ptr('RC', (k,))); u.raw('RC', 8, {0: ('i64', 'c')}, [var('n_map', 'I')], array=False); u.raw('MAPEND', 8, {0: ('i64', 'c')}, array=False); u.raw('MAP', 48, {0: ('i64', 'c')}, array=False)
    u.raw('ND', 8, {0: ('i64', 'c')}, [var('n_map', 'I')], array=False)
    at = lambda E, st, p: fn('index_of', sval(E, st, p), sort='I')
    M = r'(^|.* )std::map<.*>::'
    def weak(E, st, a, i):
        for k in (0, 8): E.store(st, padd_off(a[0], I(k)), E.load(st, padd_off(a[1], I(k)), ir.PTR), ir.PTR)
        return a[0]
    def reset(E, st, a, i):
        for k in (0, 8): E.store(st, padd_off(a[0], I(k)), NULL, ir.PTR)
    def same(E, st, a, i): return ct.ptr_eq(E.pnorm(st, E.load(st, a[0], ir.PTR)), E.pnorm(st, E.load(st, a[1], ir.PTR)))
    u.contracts += [(M + r'operator\[\]\(', lambda E, st, a, i: ptr('MP', (at(E, st, a[1]),))), (M + r'find\(', lambda E, st, a, i: pite(bvar('in_map', sval(E, st, a[1])), ptr('ND', (at(E, st, a[1]),)), ptr('MAPEND'))), (M + r'end\(', lambda E, st, a, i: ptr('MAPEND')),
                    (r'^std::operator==\(std::_Rb_tree', same), (r'.*weak_ptr<.*>::reset\(', reset), (r'.*weak_ptr<.*>::operator=', weak)]
