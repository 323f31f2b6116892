"""Saving and loading a state."""
import re, math, random, os, struct, tempfile, shutil
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.check import fail
from .world import *
from .flowbat import *

KEEP = ['holder', 'dpos', 'kspring', 'damping', 'speed_slae', 'speed_slae_prev', 'collision_min', 'collision_max', 'friction_prev', 'force_hydro', 'force_holder', 'fdt_dead']
KEPT = [v + '.' + c for v in KEEP for c in 'xyo'] + ['bounce', 'density', 'g_dead', 'special_segment_no', 'boundary_condition', 'heat_condition']
bits = lambda x: struct.pack('d', float(x))


def setup(chk):
    chk.use('space', 'flow', 'tree', 'state')
    for g in (writebody, readbody, writelist, readlist, attributes, wrapped, types): chk.group(g)
    chk.battery('round trip', roundtrip, True, 'random states saved by the real code, loaded into non-empty states and compared bit by bit')


def odd(r): return r.choice([0., -0., 1., -1., r.uniform(-9, 9), r.gauss(0, 1) * 10 ** r.randint(-300, 300), 5e-324, math.pi, 1 / 3, 1e300, -2.2250738585072014e-308])


def proto(lib):
    for n, res, *a in (('st_save', I_, V, S_), ('st_load', I_, V, S_), ('st_rootout', I_, V, I_, V), ('st_dropbody', None, V, I_)):
        f = getattr(lib, n); f.restype = res; f.argtypes = list(a)


S_ = C.c_char_p
WORDS = ['', '', 'a', 'b d', 'body', 'body01', 'x' * 300, 'ёж', '"q"\n\ttab', '%d %s', 'body00']
EXPR = ['', '0', '1', '-0.5', 'sin(t)', '2*t + 1', ' t ', 't>1 and 0.5 or 0', '1e-300', '(1+t)*(1+t)*' * 20 + '1', '0x10']


def state(lib, r, many=False):
    sp = random_flow(lib, r, nbodies=r.choice([0, 1, 2, 3]), nv=r.choice([0, 0, 1, 5, 700]))
    if many:
        for _ in range(r.choice([98, 105, 105])): x, y = r.uniform(-9, 9), r.uniform(-9, 9); sp.body([(x, y), (x, y + 1), (x + 1, y)], [0, 1, 0])
    for _ in range(r.choice([0, 1, 3])): sp.push(STREAKSRC, odd(r), odd(r), odd(r))
    for k in range(5):
        for i in range(sp.n(k)):
            if r.random() < .1: sp.setobj(k, i, (odd(r), odd(r), odd(r), odd(r), odd(r), odd(r)))
        if r.random() < .15: sp.lib.sp_clear(sp.p, k)
    sp.set(re=abs(odd(r)), pr=odd(r), inf_g=odd(r), inf_marker__x=odd(r), inf_marker__y=odd(r), gravity__x=odd(r), gravity__y=odd(r), finish=r.choice([math.inf, abs(odd(r))]))
    for k in range(5): sp.time(k, r.choice([0, 1, 7, 2147483647 if k > 1 else 99, -3]), r.choice([1, 1000, 7, 30000, 4294967295]))
    sp.time(DT, r.choice([1, 5, 1000]), r.choice([1, 1000, 30000]))
    sp.inf(r.choice(EXPR), r.choice(EXPR)); lib.sp_caption(sp.p, r.choice(WORDS).encode())
    for b in range(sp.nb()):
        lib.sp_blabel(sp.p, b, r.choice(WORDS).encode())
        for k in range(4): sp.expr(b, k, r.choice(EXPR))
        for v in KEEP:
            if v in ('kspring', 'damping', 'collision_min', 'collision_max'): continue
            if r.random() < .5: sp.bset(b, **{v: [odd(r) for _ in range(3)]})
        sp.bset(b, kspring=[r.choice([0., math.inf, abs(odd(r))]) for _ in range(3)], damping=[odd(r) for _ in range(3)], collision_min=[r.choice([-math.inf, -3., -5e-324]) for _ in range(3)], collision_max=[r.choice([math.inf, 4., 5e-324]) for _ in range(3)], density=r.choice([1., 5e-324, 3.7, abs(odd(r)) or 1.]), bounce=r.choice([0., 1., .3]), g_dead=odd(r))
        ss = r.randrange(sp.nseg(b)); bc, hc = r.randrange(2), r.randrange(4)
        sp.bset(b, special_segment_no=ss, boundary_condition=bc, heat_condition=hc)
        slip = r.choice([None, 0, 1]); heat = struct.unpack('f', struct.pack('f', r.uniform(-2, 2)))[0]
        for i in range(sp.nseg(b)):
            sp.aset(b, i, 'g', odd(r)); sp.aset(b, i, 'gsum', odd(r)); sp.aset(b, i, 'slip', slip if slip is not None else r.randrange(2)); sp.aset(b, i, 'heat_const', heat)
        sp.root(b, r.choice([-1, r.randrange(sp.nb())]) if sp.nb() else -1)
    return sp


def kept(sp):
    """what a file keeps, with exact bits"""
    s = sp.snap(); lib = sp.lib; d = {}
    for k, v in s['scal'].items(): d['/' + k] = bits(v)
    for k, v in enumerate(s['times']): d['/times[%d]' % k] = v
    for k in range(3): d['/text[%d]' % k] = lib.sp_str(sp.p, k)
    for k, l in enumerate(s['lists']):
        d['/lists[%d]/size' % k] = len(l)
        for i, o in enumerate(l): d['/lists[%d][%d]' % (k, i)] = tuple(bits(x) for x in o[:3])
    d['/bodies'] = len(s['bodies'])
    for b, B in enumerate(s['bodies']):
        n = '/bodies[%d]' % b
        for k in KEPT: d[n + '/' + k] = bits(B['f'][k])
        d[n + '/root'] = B['root']; d[n + '/size'] = len(B['a'])
        for k in range(5): d[n + '/text[%d]' % k] = lib.sp_bstr(sp.p, b, k)
        for i, a in enumerate(B['a']):
            for k in ('corner.x', 'corner.y', 'g', 'gsum', 'slip', 'heat_const', 'eq_no'): d['%s/a[%d]/%s' % (n, i, k)] = bits(a[k])
            for k in ('r.x', 'r.y', 'dl.x', 'dl.y', '_1_eps'): d['%s/a[%d]/%s (derived)' % (n, i, k)] = bits(a[k])
        for k in ('slen', 'area', 'cofm.x', 'cofm.y', 'moi_cofm', 'moi_axis'): d['%s/%s (derived)' % (n, k)] = bits(B['q'][k])
    return d


def differ(a, b):
    for k in a:
        if k not in b: return '%s is missing' % k
        if a[k] != b[k]:
            f = lambda v: struct.unpack('d', v)[0] if isinstance(v, bytes) and len(v) == 8 and 'text' not in k else v
            return '%s was %r, is %r' % (k, f(a[k]), f(b[k]))
    for k in b:
        if k not in a: return '%s appeared' % k


def one(lib, r, d):
    proto(lib); many = r.random() < .1; sp = state(lib, r, many); lib.sp_enumerate(sp.p); other = state(lib, r)
    name = r.choice(['s.h5', 's_%d.h5', 'step%06d.h5', 'n' * 100 + '_%03d.h5']); path = os.path.join(d, name)
    try:
        for b in range(sp.nb()): lib.sp_refresh(sp.p, b)
        if r.random() < .15 and sp.nb() and other.nb():       # a state that cannot be saved
            keep = sp.getroot(0); lib.st_rootout(sp.p, 0, other.p)
            if lib.st_save(sp.p, path.encode()): return 'a body attached to a body outside the state was saved'
            sp.root(0, keep)
        before = kept(sp)
        tv, dv = sp.time(TIME), sp.time(DT); step = tv[0] / tv[1] / (dv[0] / dv[1]) + .5
        if not abs(step) < 2e9: return
        if not lib.st_save(sp.p, path.encode()): return 'saving a state failed'
        dd = differ(before, kept(sp))
        if dd: return 'saving changed the state: ' + dd
        f = os.path.join(d, name % int(step) if '%' in name else name)
        if not os.path.exists(f): return 'the state was saved to %r instead of %r' % (os.listdir(d), f)
        if r.random() < .2: other.free(); other = Space(lib)
        for turn in range(2):
            if not lib.st_load(other.p, f.encode()): return 'loading the file failed'
            dd = differ(before, kept(other))
            if dd: return 'after loading (%d) %s' % (turn + 1, dd)
        if not lib.st_save(other.p, os.path.join(d, 'again.h5').encode()): return 'saving a loaded state failed'
        if lib.st_load(other.p, os.path.join(d, 'none.h5').encode()): return 'a file that does not exist was loaded'
        if not lib.st_load(sp.p, os.path.join(d, 'again.h5').encode()): return 'loading the file failed'
        dd = differ(before, kept(sp))
        if dd: return 'after a second trip: ' + dd
    finally:
        other.free(); sp.free()
        for x in os.listdir(d): os.unlink(os.path.join(d, x))


def roundtrip(lib, rnd, chk, progress):
    d = tempfile.mkdtemp(dir=ir.scratch()); fd = os.dup(2); os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    try: return runner(120, lambda l, r: one(l, r, d), 'random state')(lib, rnd, chk, progress)
    finally: os.dup2(fd, 2); shutil.rmtree(d, ignore_errors=True)


# ---- contracts
from . import hdf
from .hdf import sid, sval, text, KINDS

BODY_ATT = {'label': ('text', 'label'), 'holder_position': (3, 'holder'), 'delta_position': (3, 'dpos'), 'speed_x': ('eval', 'speed_x'), 'speed_y': ('eval', 'speed_y'), 'speed_o': ('eval', 'speed_o'), 'force_o': ('eval', 'force_o'),
            'speed_slae': (3, 'speed_slae'), 'speed_slae_prev': (3, 'speed_slae_prev'), 'spring_const': (3, 'kspring'), 'spring_damping': (3, 'damping'), 'density': (1, 'density'), 'force_hydro': (3, 'force_hydro'), 'force_holder': (3, 'force_holder'), 'friction_prev': (3, 'friction_prev'),
            'fdt_dead': (3, 'fdt_dead'), 'g_dead': (1, 'g_dead'), 'collision_min': (3, 'collision_min'), 'collision_max': (3, 'collision_max'), 'bounce': (1, 'bounce'), 'special_segment_no': (1, 'special_segment_no'), 'boundary_condition': (1, 'boundary_condition'), 'heat_condition': (1, 'heat_condition')}
TEXTS = ['label'], ['speed_x', 'speed_y', 'speed_o', 'force_o']


def textcells(chk, u, reg, cls, plain, evals):
    """the texts of an object: one integer each"""
    chk.probe([(cls, m) for m in plain + evals]); d = u.decl[reg]; off = {}
    for m in plain: off[m] = chk.off(cls, m)
    for m in evals: off[m] = chk.off(cls, m) + 8
    for m, o in off.items(): d.leaves[o] = (ir.I64, m); u.ints.add('%s.%s' % (reg, m))
    u._E0 = None; return off


def field(u, off, reg, kind, m):
    """the numbers of a member, in the order of the components"""
    if m in off: return lambda *i: (u.F(reg, off[m])(*i),)
    names = [m] if kind == 1 else [m + '.' + c for c in (('r.x', 'r.y', 'o') if kind == 3 else ('x', 'y'))]
    return lambda *i: tuple(u.F(reg, n)(*i) for n in names)


def hbody(chk, src):
    probe_all(chk); m = chk.extract(['libvvhd/src/%s.cpp' % src], noinline=hdf.STRINGS, rewrite=hdf.VLA); u = chk.unit(m); n = var('n', 'I'); T, S = single_body(u, n); off = textcells(chk, u, 'T', 'TBody', *TEXTS); hdf.strings(u)
    for r in ('NM', 'RN'): u.raw(r, 32, {0: ('i64', 's')}, array=False)
    return u, n, T, S, off


def writebody(chk):
    u, n, T, S, off = hbody(chk, 'TSpace_save_hdf'); fid = var('fid', 'I'); nm, rn = u.F('NM', 0)(), u.F('RN', 0)()
    att = {sid(k).const(): (k, kd, m) for k, (kd, m) in list(BODY_ATT.items()) + [('root_body', ('root', None)), ('general_slip', (1, None)), ('slip', ('array', None)), ('general_heat_const', (1, None)), ('simplified_dataset', (1, None))]}
    same = FoldAnd(n, lambda k: eq(S('slip')(k), S('slip')(0))); heat = FoldAnd(n, lambda k: eq(S('heat_const')(k), S('heat_const')(0)))
    def isdata(E, st, h):
        d = hdf.got(st, 'data', h); return And(eq(d[0], fid), eq(d[1], nm)) if d else FALSE
    def att_write(kind):
        def h(E, st, a, i):
            name = text(E, st, a[1]).const(); x = att.get(name)
            if x is None: return None
            hdf.want(E, st, 'attribute %s belongs to the data set of the body' % x[0], isdata(E, st, a[0]))
            ct.emit(st, x[0], *hdf.value(E, st, a[2:], kind)); return None
        return h
    u.contracts += [(r'^void h5a_write<%s>\(' % k, att_write(kd)) for k, kd in KINDS]
    def awrite(E, st, a):
        d = hdf.got(st, 'att', a[0]); s = hdf.got(st, 'space', d[2]); q = var('q_s', 'I')
        hdf.want(E, st, 'slip flags: one per segment, in the data set of the body', And(isdata(E, st, d[0]), eq(d[1], sid('slip')), eq(s[0][0], n), Bool(len(s[0]) == 1 and s[1] is None), eq(d[3], a[1]) if not isinstance(d[3], Ptr) else TRUE))
        E.obl.append(('slip flag of segment q', ct.with_facts(st.facts, [q >= 0, q < n]), eq(E.load(st, padd_off(a[2], q * 4), ir.I32), S('slip')(q)))); ct.emit(st, 'slip')
    def dwrite(E, st, a):
        hdf.want(E, st, 'the corners go to the data set of the body', isdata(E, st, a[0])); d = hdf.got(st, 'data', a[0]); q = var('q_c', 'I')
        for what, h in (('of the data set', d[2]), ('written', a[3])):
            s = hdf.got(st, 'space', h); hdf.want(E, st, 'the space %s has a row of four per segment' % what, And(Bool(s is not None and len(s[0]) == 2 and s[1] is None), eq(s[0][0], n), eq(s[0][1], I(4))))
        hdf.want(E, st, 'memory is laid out as the file', eq(a[2], I(0)))
        for k, f in enumerate(('corner.x', 'corner.y', 'g', 'gsum')): E.obl.append(('%s of segment q' % f, ct.with_facts(st.facts, [q >= 0, q < n]), eq(E.load(st, padd_off(a[5], q * 32 + 8 * k), ir.DBL), S(f)(q))))
    hdf.h5(u, dwrite=dwrite, awrite=awrite)
    def post(E, st, v):
        out = []
        def ev(k): return [e for e in st.trace if e[1] == k]
        def once(k, want, guard=TRUE):
            es = ev(k)
            if len(es) != 1: out.append(('%s is written once (%d writes)' % (k, len(es)), ct.with_facts(st.facts, [guard]), FALSE)); return
            e = es[0]; out.append(('%s is written whenever it has to be' % k, ct.with_facts(st.facts, [guard]), e[0])); out.append(('%s only when it has to be' % k, ct.with_facts(st.facts, [e[0]]), guard))
            for j, (x, y) in enumerate(zip(e[2:], want)): out.append(('%s[%d] is the value of the body' % (k, j), ct.with_facts(st.facts, [e[0]]), ct.goal_eq(x, y)))
        for k, (kd, m) in BODY_ATT.items(): once(k, field(u, off, 'T', kd, m)())
        once('root_body', (rn,)); once('general_heat_const', (S('heat_const')(0),)); once('simplified_dataset', (I(2),)); once('dwrite', ())
        sl, ge = Or(*[e[0] for e in ev('slip')]), Or(*[e[0] for e in ev('general_slip')])
        out.append(('the slip flags are written, at once only when they agree', st.facts, Or(sl, And(ge, same)))); out += [('one general slip flag', ct.with_facts(st.facts, [e[0], Not(sl)]), ct.goal_eq(e[2], S('slip')(0))) for e in ev('general_slip')]
        out.append(('slip flags are written once', st.facts, Bool(len(ev('slip')) <= 1 and len(ev('general_slip')) <= 1)))
        return out
    post.exc = lambda E, st: []
    chk.case('writing a body', u, r'^dataset_write_body\(', [fid, ptr('NM'), ptr('RN'), ptr('T')], [n > 0], {}, extra_post=post, samples=0, exc=Not(heat), merge=False)


def readbody(chk):
    """the data set of a body is read into a body without corners, as list_bodies makes it"""
    u, n, T, S, off = hbody(chk, 'TSpace_load_hdf'); fid = var('fid', 'I'); nm = u.F('NM', 0)(); mine = fn('index_of', nm, sort='I'); N = fn('extent0', fid, nm, sort='I')
    u.raw('OB', 8, {0: ('i64', 'c')}, [var('n_map', 'I')], array=False); hdf.bodymap(u, lambda k: pite(eq(k, mine), ptr('T'), ptr('OB', (k,)))); o = chk.off('TBody', 'root_body')
    hdf.atts(u, lambda s: None); att = lambda s, so='R': fn('att:' + s, fid, nm, sort=so)
    A = chk.off('TBody', 'alist'); u.setoff('T', A, lambda: ptr('S')); u.setoff('T', A + 8, lambda: ptr('S')); u.setoff('T', A + 16, lambda: ptr('S', (), (N + 1) * u.decl['S'].stride))
    at = lambda f, q: fn('row.%d' % f, fid, nm, q)
    def dread(E, st, a):
        d = hdf.got(st, 'data', a[0]); s = hdf.got(st, 'space', a[3]); hdf.want(E, st, 'the rows of the body are read, all of them', And(eq(d[0], fid), eq(d[1], nm), eq(s[0][0], N), eq(s[0][1], fn('extent1', fid, nm, sort='I')), Bool(s[1] is None), eq(a[2], I(0))))
        for k in range(4): hdf.fill(E, st, a[5], 8 * k, lambda q, k=k: at(k, q), N)
    def aread(E, st, a):
        d = hdf.got(st, 'att', a[0]); b = hdf.got(st, 'data', d[0]); hdf.want(E, st, 'the slip flags of the body are read', And(eq(b[0], fid), eq(b[1], nm), eq(d[1], sid('slip')))); hdf.fill(E, st, a[2], 0, lambda q: fn('slip_at', fid, nm, q, sort='I'), N)
    hdf.h5(u, dread=dread, aread=aread)
    u.contracts += [(r'^TBody::doUpdateSegments\(', lambda E, st, a, i: ct.emit(st, 'segments', a[0], E.pnorm(st, E.load(st, padd_off(a[0], I(A + 8)), ir.PTR)))), (r'^TBody::doFillProperties\(', lambda E, st, a, i: ct.emit(st, 'properties', a[0]))]
    post = {}
    for k, (kd, m) in BODY_ATT.items():
        if m in off: post['T', off[m]] = att(k, 'I')
        else:
            for j, x in enumerate([m] if kd == 1 else [m + '.r.x', m + '.r.y', m + '.o']): post['T', x] = att(k if kd == 1 else '%s.%d' % (k, j), 'I' if m in ('special_segment_no', 'boundary_condition', 'heat_condition') else 'R')
    root = att('root_body', 'I'); has = And(ne(root, I(0)), bvar('in_map', root)); ri = fn('index_of', root, sort='I')
    post['T', o] = pite(has, pite(eq(ri, mine), ptr('T'), ptr('OB', (ri,))), NULL); post['T', o + 8] = pite(has, ptr('RC', (ri,)), NULL)
    end = ptr('S', (), N * u.decl['S'].stride); post['T', A + 8] = end
    new = lambda v: (lambda k: ite(And(k >= 0, k < N), v(k), None))
    slip = lambda k: ite(bvar('hasatt', fid, nm, sid('slip')), fn('slip_at', fid, nm, k, sort='I'), att('general_slip', 'I'))
    vals = {'corner.x': lambda k: at(0, k), 'corner.y': lambda k: at(1, k), 'g': lambda k: at(2, k), 'gsum': lambda k: at(3, k), 'slip': slip, 'heat_const': lambda k: att('general_heat_const')}
    def extra(E, st, v):
        q = var('q_r', 'I'); return [('%s of segment q' % m, ct.with_facts(st.facts, [q >= 0, q < N]), ct.goal_eq(E.readcell(st, 'S', chk.off('TAtt', m), (q,), u.decl['S'].leaves[chk.off('TAtt', m)][0]), f(q))) for m, f in vals.items()]
    extra.exc = lambda E, st: []
    chk.case('reading a body', u, r'^dataset_read_body\(', [fid, ptr('NM'), ptr('MAP')], [N >= 0, eq(att('simplified_dataset', 'I'), I(2))], post, extra_post=extra, samples=0, ignore=[('S', '*')], events=[Ev('segments', ptr('T'), end), Ev('properties', ptr('T'))], merge=False)




def rowspace(E, st, what, file, mem, n, stride):
    """the memory selection of n rows of three, one per element of the list"""
    f, m = hdf.got(st, 'space', file), hdf.got(st, 'space', mem)
    hdf.want(E, st, what + ': all rows of the data set', And(Bool(f is not None and len(f[0]) == 2 and f[1] is None), eq(f[0][0], n), eq(f[0][1], I(3))))
    if m is None or m[1] is None or len(m[0]) != 2: hdf.want(E, st, what + ': rows are selected in memory', FALSE); return None
    (d0, d1), (start, step, count) = m
    hdf.want(E, st, what + ': as many rows are selected', And(eq(count[0], n), eq(count[1], I(3))))
    hdf.want(E, st, what + ': a selected row per element', eq(step[0] * d1 * 8, I(stride))); hdf.want(E, st, what + ': the selection lies within the memory space', Or(n <= 0, And(start[0] + step[0] * (n - 1) < d0, start[1] + step[1] * 2 < d1)))
    return [(start[0] * d1 + start[1] + step[1] * j) * 8 for j in range(3)]


def writelist(chk):
    probe_all(chk); m = chk.extract(['libvvhd/src/TSpace_save_hdf.cpp'], noinline=hdf.STRINGS, rewrite=hdf.VLA); u = chk.unit(m); n = var('n', 'I'); fid = var('fid', 'I'); hdf.strings(u); u.raw('NM', 32, {0: ('i64', 's')}, array=False); nm = u.F('NM', 0)()
    u.region('O', 'TObj', OBJ, dims=[n], array=True); st_ = u.decl['O'].stride; u.raw('L', 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False); u.setoff('L', 0, lambda: ptr('O')); u.setoff('L', 8, lambda: ptr('O', (), n * st_)); u.setoff('L', 16, lambda: ptr('O', (), n * st_))
    def dwrite(E, st, a):
        d = hdf.got(st, 'data', a[0]); hdf.want(E, st, 'the list goes to the data set of its name', And(eq(d[0], fid), eq(d[1], nm), ct.goal_eq(d[3], a[1])) if d else FALSE); q = var('q_l', 'I')
        hdf.want(E, st, 'the data set has the space written', ct.goal_eq(d[2], a[3])); off = rowspace(E, st, 'writing', a[3], a[2], n, st_)
        for j, f in enumerate(('r.x', 'r.y', 'g')):
            if off: hdf.want(E, st, '%s is column %d' % (f, j), eq(off[j], I(chk.off('TObj', f))))
        hdf.want(E, st, 'from the first element on', ct.goal_eq(E.pnorm(st, a[5]), ptr('O')))
    hdf.h5(u, dwrite=dwrite)
    def post(E, st, v):
        k = [e for e in st.trace if e[1] == 'dwrite']; return [('written once unless the list is empty', ct.with_facts(st.facts, [n > 0]), k[0][0] if len(k) == 1 else FALSE), ('an empty list is not written', st.facts, n > 0 if k else TRUE)]
    post.exc = lambda E, st: []
    chk.case('writing a list', u, r'^dataset_write_list\(', [fid, ptr('NM'), ptr('L')], [n >= 0], {}, samples=0, extra_post=post, merge=False)


def readlist(chk):
    probe_all(chk); m = chk.extract(['libvvhd/src/TSpace_load_hdf.cpp'], noinline=hdf.STRINGS, rewrite=hdf.VLA); u = chk.unit(m); fid = var('fid', 'I'); hdf.strings(u); u.raw('NM', 32, {0: ('i64', 's')}, array=False); nm = u.F('NM', 0)(); N = fn('extent0', fid, nm, sort='I'); has = bvar('has', fid, nm)
    u.region('O', 'TObj', OBJ, dims=[N], array=True); st_ = u.decl['O'].stride; u.raw('L', 24, {0: ('ptr', 'begin'), 8: ('ptr', 'end'), 16: ('ptr', 'cap')}, array=False); u.setoff('L', 0, lambda: ptr('O')); u.setoff('L', 8, lambda: ptr('O')); u.setoff('L', 16, lambda: ptr('O', (), (N + 1) * st_))
    def resize(E, st, a, i):
        hdf.want(E, st, 'the list is given room for the rows', And(ct.goal_eq(a[0], ptr('L')), eq(a[1], N)))
        for o, (ty, f) in u.decl['O'].leaves.items(): x = E.load(st, padd_off(a[2], I(o)), ty); hdf.fill(E, st, ptr('O'), o, lambda q, x=x: x, a[1])
        E.store(st, padd_off(a[0], I(8)), ptr('O', (), a[1] * st_), ir.PTR)
    u.contracts += [(r'.*std::vector<TObj.*>::resize\(', resize)]
    def dread(E, st, a):
        d = hdf.got(st, 'data', a[0]); hdf.want(E, st, 'the data set of the list is read', And(eq(d[0], fid), eq(d[1], nm)) if d else FALSE); off = rowspace(E, st, 'reading', a[3], a[2], N, st_); hdf.want(E, st, 'into the first element on', ct.goal_eq(E.pnorm(st, a[5]), ptr('O')))
        for j, f in enumerate(('r.x', 'r.y', 'g')):
            o = chk.off('TObj', f)
            if off: hdf.want(E, st, 'column %d is %s' % (j, f), eq(off[j], I(o)))
            hdf.fill(E, st, a[5], o, lambda q, j=j: fn('row.%d' % j, fid, nm, q), N)
    hdf.h5(u, dread=dread); end = pite(has, ptr('O', (), N * st_), ptr('O'))
    def extra(E, st, v):
        q = var('q_r', 'I'); fs = ct.with_facts(st.facts, [q >= 0, q < N, has]); O = lambda f: E.readcell(st, 'O', chk.off('TObj', f), (q,), ir.DBL)
        return [('%s of element q' % f, fs, ct.goal_eq(O(f), fn('row.%d' % j, fid, nm, q))) for j, f in enumerate(('r.x', 'r.y', 'g'))] + [('%s of element q is nought' % f, fs, ct.goal_eq(O(f), R(0))) for f in ('v.x', 'v.y')]
    chk.case('reading a list', u, r'^dataset_read_list\(', [fid, ptr('NM'), ptr('L')], [N >= 0, eq(fn('extent1', fid, nm, sort='I'), I(3))], {('L', 8): end}, extra_post=extra, samples=0, ignore=[('O', '*')], merge=False)


INIT = ['h5_throw', 'h5a_', 'h5s_scalar', '4initEv', '^_ZNK?St7__cxx1112basic_string']
TYPES = [('int', 'i', 1, 'I'), ('unsigned int', 'j', 1, 'I'), ('double', 'd', 1, 'R'), ('TVec', '4TVec', 2, 'R'), ('TVec3D', '6TVec3D', 3, 'R'), ('TTime', '5TTime', 'time', 'I'), ('char const*', 'PKc', 'chars', 'I')]


def attributes(chk):
    """one attribute: what is written under a name of an object is what is read from it"""
    probe_all(chk); m = chk.extract(['libvvhd/src/vvhdf.cpp'], noinline=INIT)
    for T, mang, kd, so in TYPES:
        u = chk.unit(m); hid = var('hid', 'I'); hdf.strings(u); u.raw('NM', 32, {0: ('i64', 's')}, array=False); nm = ptr('STR', (var('nm', 'I'),)); sn = var('nm', 'I'); u.raw('V', 24, {8 * k: ('double', 'v%d' % k) for k in range(3)}, array=False); u.raw('OUT', 24, {8 * k: ('double', 'o%d' % k) for k in range(3)}, array=False)
        u.contracts += [(r'^h5t<%s>::init\(' % re.escape(T), lambda E, st, a, i: (ct.emit(st, 'init'), I(0))[1]), (r'^H5Screate$', lambda E, st, a, i: (hdf.want(E, st, 'a scalar', eq(a[0], I(0))), I(1))[1])]
        tid = lambda E, st, mang=mang: E.load(st, E.globptr('_ZN3h5tI%sE2idE' % mang), ir.I64)
        n = kd if isinstance(kd, int) else 1; vals = [var('val%d' % k, so) for k in range(n)]
        word = {'int': ir.I32, 'unsigned int': ir.I32, 'TTime': ir.I64}.get(T, ir.DBL)
        def awrite(E, st, a, T=T, word=word, vals=vals, tid=tid, kd=kd):
            d = hdf.got(st, 'att', a[0]); hdf.want(E, st, 'the value goes to the attribute made for it', And(eq(d[0], hid), eq(d[1], sn), eq(d[3], a[1]), ct.goal_eq(a[1], tid(E, st))) if d else FALSE)
            for k, v in enumerate(vals):
                if kd == 'chars': hdf.want(E, st, 'the text written', eq(text(E, st, E.load(st, a[2], ir.PTR)), v))
                else: hdf.want(E, st, 'component %d written' % k, ct.goal_eq(E.load(st, padd_off(a[2], I(8 * k)), word), v))
        def aread(E, st, a, word=word, tid=tid, n=n, so=so, kd=kd):
            d = hdf.got(st, 'att', a[0]); hdf.want(E, st, 'the attribute asked for is read', And(eq(d[0], hid), eq(d[1], sn), ct.goal_eq(a[1], tid(E, st))) if d else FALSE)
            for k in range(n):
                v = fn('att.%d' % k, hid, sn, sort=so); E.store(st, padd_off(a[2], I(8 * k)), ptr('STR', (v,)) if kd == 'chars' else v, ir.PTR if kd == 'chars' else word)
        hdf.h5(u, aread=aread, awrite=awrite); t = re.escape(T)
        arg = {'TVec3D': [ptr('V')], 'char const*': [ptr('STR', (vals[0],))]}.get(T, vals)
        if T == 'TVec3D': vals[:] = [u.F('V', 8 * k)() for k in range(3)]
        chk.case('writing an attribute: ' + T, u, r'^void h5a_write<%s>\(' % t, [hid, nm] + arg, [], {}, samples=0, events=[Ev('init'), Ev('awrite', None)], merge=False)
        got = [ite(bvar('hasatt', hid, sn), fn('att.%d' % k, hid, sn, sort=so), I(2 ** 32) if T == 'TTime' else I(0) if so == 'I' else R(0)) for k in range(n)]
        if T == 'TVec3D': chk.case('reading an attribute: ' + T, u, r'^TVec3D h5a_read<', [ptr('OUT'), hid, nm], [], {('OUT', 8 * k): got[k] for k in range(3)}, samples=0, ignore=[], merge=False)
        elif T == 'char const*': chk.case('reading an attribute: ' + T, u, r'^char const\* h5a_read<', [hid, nm], [], {}, ret=pite(bvar('hasatt', hid, sn), ptr('STR', (fn('att.0', hid, sn, sort='I'),)), NULL), samples=0, merge=False)
        else: chk.case('reading an attribute: ' + T, u, r'^%s h5a_read<' % t, [hid, nm], [], {}, ret=tuple(got) if n > 1 else got[0], samples=0, merge=False)


def wrapped(chk):
    """texts and conditions as attributes"""
    probe_all(chk); m = chk.extract(['libvvhd/src/vvhdf.cpp'], noinline=INIT); u = chk.unit(m); hid = var('hid', 'I'); hdf.strings(u); sn = var('nm', 'I'); nm = ptr('STR', (sn,)); v = var('code', 'I')
    for r in ('S', 'OUT'): u.raw(r, 32, {0: ('i64', 'text')}, array=False)
    u.contracts += [(r'^void h5a_write<char const\*>\(', lambda E, st, a, i: ct.emit(st, 'text', a[0], text(E, st, a[1]), text(E, st, a[2]))), (r'^void h5a_write<unsigned int>\(', lambda E, st, a, i: ct.emit(st, 'code', a[0], text(E, st, a[1]), a[2])),
                    (r'^char const\* h5a_read<', lambda E, st, a, i: pite(bvar('hasatt', a[0], text(E, st, a[1])), ptr('STR', (fn('att', a[0], text(E, st, a[1]), sort='I'),)), NULL)), (r'^unsigned int h5a_read<', lambda E, st, a, i: fn('raw', a[0], text(E, st, a[1]), sort='I')), (r'^free$', ct.nothing)]
    s = u.F('S', 0)(); has = bvar('hasatt', hid, sn)
    def nonempty(E, st, a):
        k = [e for e in st.trace if e[1] == 'text']; out = [('a text is written once', ct.with_facts(st.facts, [ne(s, I(0))]), k[0][0] if len(k) == 1 else FALSE), ('the empty text is left out', st.facts, ne(s, I(0)) if k else TRUE)]
        return out + [(w, st.facts, eq(x, y)) for e in k for w, x, y in zip(('object', 'name', 'text'), e[2:], (hid, sn, s))]
    nonempty.exc = lambda E, st: []
    chk.case('writing a text', u, r'^void h5a_write<std::.*basic_string', [hid, nm, ptr('S')], [], {}, extra_post=nonempty, samples=0, merge=False)
    chk.case('reading a text', u, r'^std::.* h5a_read<std::.*basic_string', [ptr('OUT'), hid, nm], [], {('OUT', 0): ite(has, fn('att', hid, sn, sort='I'), I(0))}, samples=0, merge=False)
    code = {'bc_t': ('steady', 'kutta'), 'hc_t': ('neglect', 'isolate', 'const_t', 'const_w')}; raw = fn('raw', hid, sn, sort='I')
    for T, names in code.items():
        n = len(names); chk.case('writing a condition: ' + T, u, r'^void h5a_write<%s>\(' % T, [hid, nm, v], [v >= 0, v < n], {}, samples=0, events=[Ev('code', hid, sn, v)], merge=False)
        chk.case('reading a condition: ' + T, u, r'^%s h5a_read<' % T, [hid, nm], [raw >= 0, raw < n], {}, ret=raw, samples=0, merge=False)


def types(chk):
    """the compound types cover the members where the objects have them"""
    probe_all(chk); chk.probe([('TVec', 'x'), ('TVec', 'y'), ('TVec3D', 'r.x'), ('TVec3D', 'r.y'), ('TVec3D', 'o'), ('TTime', 'value'), ('TTime', 'timescale')]); m = chk.extract(['libvvhd/src/vvhdf_h5t.cpp'], noinline=['h5_throw', '^_ZNK?St7__cxx1112basic_string'])
    for T, mang, mem in (('TVec', '4TVec', ('x', 'y')), ('TVec3D', '6TVec3D', ('r.x', 'r.y', 'o')), ('TTime', '5TTime', ('value', 'timescale'))):
        u = chk.unit(m); glob = lambda E, st, n: E.load(st, E.globptr(n), ir.I64); idp = '_ZN3h5tI%sE2idE' % mang; want_t = {'value': 'H5T_STD_I32LE_g', 'timescale': 'H5T_STD_U32LE_g'}
        def insert(E, st, a, i): ct.emit(st, 'member', a[0], text(E, st, a[1]), a[2], a[3]); return I(0)
        u.contracts = [(r'^H5open$', lambda E, st, a, i: I(0)), (r'^H5Tcreate$', lambda E, st, a, i: (ct.emit(st, 'create', a[0], a[1]), I(77))[1]), (r'^H5Tinsert$', insert), (r'^H5Tpack$', lambda E, st, a, i: (ct.emit(st, 'pack', a[0]), I(0))[1]), (r'^H5Tclose$', lambda E, st, a, i: (ct.emit(st, 'close', a[0]), I(0))[1]), (r'^h5_throw', ct.throw)]
        def post(E, st, v, T=T, mem=mem, idp=idp, want_t=want_t):
            cr = [e for e in st.trace if e[1] == 'create']; ins = [e for e in st.trace if e[1] == 'member']; new = glob(E, st, idp); name = E.field('g:' + idp, 0); was = fn(name, sort='I')
            out = [('the type is known afterwards', st.facts, eq(v, new)), ('a known type is kept', ct.with_facts(st.facts, [was >= 0]), And(eq(new, was), Bool(not st.trace)))]
            if cr:
                out += [('the type is the one made', st.facts, eq(new, I(77))), ('as big as the object', st.facts, And(eq(cr[0][3], I(chk.off(T, mem[-1]) + (4 if T == 'TTime' else 8))), eq(cr[0][2], I(6)))), ('one member for each component', st.facts, Bool(len(ins) == len(mem) and len({e[3].const() for e in ins}) == len(mem)))]
                for e, x in zip(ins, mem): out += [('%s: where the object has it' % x, st.facts, And(eq(e[2], I(77)), eq(e[4], I(chk.off(T, x))))), ('%s: of its type' % x, st.facts, ct.goal_eq(e[5], glob(E, st, want_t.get(x, 'H5T_NATIVE_DOUBLE_g'))))]
            else: out.append(('an unknown type is made', st.facts, was >= 0))
            return out
        chk.case('file type of ' + T, u, r'^h5t<%s>::init\(' % T, [], [], {}, extra_post=post, samples=0, ignore=[('g:' + idp, '*')], merge=False)
        def shut(E, st, v, idp=idp):
            was = fn(E.field('g:' + idp, 0), sort='I'); cl = [e for e in st.trace if e[1] == 'close']
            return [('the type is unknown afterwards', st.facts, glob(E, st, idp) < 0), ('closed if it was known', st.facts, Bool(len(cl) == 1) if cl else was < 0)] + [('the type closed', st.facts, eq(e[2], was)) for e in cl]
        shut.exc = lambda E, st: []
        chk.case('closing the file type of ' + T, u, r'^(void )?h5t_close<%s>\(' % T, [], [], {}, extra_post=shut, samples=0, ignore=[('g:' + idp, '*')], merge=False)
