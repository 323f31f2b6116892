"""The step-data file."""
import math, random, os, struct, tempfile, shutil, signal, time
from vv.term import *
from vv import native, ir, sym, contract as ct
from vv.contract import Ev, For, i2r
from vv.check import fail
from .world import *
from .flowbat import *

PER_BODY = ['force_hydro', 'force_holder', 'force_friction', 'holder_position', 'delta_position', 'speed_slae']
FROM = {'force_hydro': 'force_hydro', 'force_holder': 'force_holder', 'force_friction': 'friction', 'holder_position': 'holder', 'delta_position': 'dpos', 'speed_slae': 'speed_slae'}
S_ = C.c_char_p


def setup(chk):
    chk.use('space', 'flow', 'tree', 'step')
    for g in (append, cut, record, index, opening): chk.group(g)
    chk.battery('names of bodies', names, True, 'the names of 1003 bodies')
    chk.battery('step records', records, True, 'random runs with restarts, crashes and changes of the profile option, the file read back and compared with the records that were due')


def f32(x):
    try: return struct.pack('f', x)
    except OverflowError: return struct.pack('f', math.copysign(math.inf, x))
NAN = f32(math.nan)


def proto(lib):
    for n, res, *a in (('sd_new', V, V, S_, I_), ('sd_write', I_, V), ('sd_flush', None, V), ('sd_free', None, V), ('sd_read', C.c_long, S_, S_, C.POINTER(D), C.c_long, C.POINTER(C.c_long)), ('sd_names', S_, S_, S_)):
        f = getattr(lib, n); f.restype = res; f.argtypes = list(a)


def dataset(lib, f, name):
    buf = (D * 400000)(); c = C.c_long(); n = lib.sd_read(f.encode(), name.encode(), buf, 400000, C.byref(c))
    if n < 0: return None if n == -1 else 'unreadable (%d)' % n
    return [tuple(NAN if math.isnan(buf[i * c.value + j]) else f32(buf[i * c.value + j]) for j in range(c.value)) for i in range(n)]


def odd(r): return r.choice([0., -0., 1., r.uniform(-9, 9), r.gauss(0, 1) * 10 ** r.randint(-30, 30), math.pi, 1 / 3, math.inf, -math.inf, 1e300])
def seconds(t): return t[0] / t[1]


class File:
    """what is due in the file"""
    def __init__(self): self.d = {}; self.cols = {}
    def open(self, sp, t, prof):
        rows = sum(1 for x in self.d['time'] if struct.unpack('f', x[0])[0] < struct.unpack('f', f32(t))[0]) if 'time' in self.d else 0
        want = {'time': 1}
        for b in range(sp.nb()):
            for k in PER_BODY: want['body%02d/%s' % (b, k)] = 3
            for k in ('pressure', 'friction'):
                if prof or 'body%02d/%s' % (b, k) in self.d: want['body%02d/%s' % (b, k)] = sp.nseg(b)
        for k, c in want.items(): old = self.d.get(k, [])[:rows]; self.d[k] = old + [(NAN,) * c] * (rows - len(old))
    def record(self, sp, prof, known):
        dt = seconds(sp.time(DT)); self.d['time'].append((f32(seconds(sp.time(TIME))),))
        for b in range(known):
            for k in PER_BODY: self.d['body%02d/%s' % (b, k)].append(tuple(NAN if math.isnan(x) else f32(x) for x in (sp.bget(b, FROM[k] + '.' + c) for c in 'xyo')))
            if prof:
                for k, m in (('pressure', 'Cp'), ('friction', 'Fr')): self.d['body%02d/%s' % (b, k)].append(tuple(NAN if math.isnan(x) else f32(x) for x in (sp.aget(b, i, m) / dt for i in range(sp.nseg(b)))))
    def differ(self, lib, f, upto=None):
        for k, rows in self.d.items():
            got = dataset(lib, f, k)
            if not isinstance(got, list): return '%s is %s' % (k, 'not in the file' if got is None else got)
            if upto is not None:
                if len(got) < min(upto, len(rows)): return '%s has %d records although %d were flushed' % (k, len(got), min(upto, len(rows)))
                got, rows = got[:upto], rows[:upto]
            if len(got) != len(rows): return '%s has %d records instead of %d' % (k, len(got), len(rows))
            for i, (a, b) in enumerate(zip(got, rows)):
                if a != b: return 'record %d of %s is %r instead of %r' % (i, k, [struct.unpack('f', x)[0] for x in a][:9], [struct.unpack('f', x)[0] for x in b][:9])
        if upto is None:
            top = lib.sd_names(f.encode(), b'/').decode().split(); extra = set(top) - {k.split('/')[0] for k in self.d} - {'string_t'}
            if extra: return 'the file holds %r, which nobody asked for' % sorted(extra)[:3]


def step(sp, r, prof):
    for b in range(sp.nb()):
        for m in FROM.values(): sp.bset(b, **{m: [odd(r) for _ in range(3)]})
        for i in range(sp.nseg(b)): sp.aset(b, i, 'Cp', odd(r)); sp.aset(b, i, 'Fr', odd(r))


def one(lib, r, d):
    proto(lib); sp = random_flow(lib, r, nbodies=r.choice([0, 1, 2, 3]), nv=0); f = os.path.join(d, 'stepdata.h5'); F = File()
    if r.random() < .04:
        for _ in range(98): x, y = r.uniform(-9, 9), r.uniform(-9, 9); sp.body([(x, y), (x, y + 1), (x + 1, y)], [0, 1, 0])
    elif r.random() < .04: m = r.choice([300, 1030, 5000]); sp.body([(90 + math.cos(-2 * math.pi * i / m), math.sin(-2 * math.pi * i / m)) for i in range(m)], [0] * m)
    many = sp.nb() > 90; ts = r.choice([1, 10, 1000, 30000]); dtv = r.choice([1, 1, 3, 50]); t = r.choice([0, 0, 7, -5]) * dtv; sp.time(DT, dtv, ts); sp.lib.sp_caption(sp.p, r.choice([b'', b'run']))
    try:
        if r.random() < .1: open(f, 'wb').write(r.choice([b'', b'not an hdf5 file' * 9]))
        for run in range(r.choice([1, 2, 3, 4])):
            prof = r.random() < .5 and not many; sp.time(TIME, t, ts); step(sp, r, prof); n = r.choice([0, 1, 2, 5, 40]) if not many and sum(sp.nseg(b) for b in range(sp.nb())) < 250 else 2; F.open(sp, seconds((t, ts)), prof)
            crash = r.random() < .3 and n and not many and time.monotonic() > 25;      # the first record is flushed once the machine has run for 20 s
            flushed = r.randrange(n) if crash else -1; pid = os.fork() if crash else 0
            if crash and not pid: signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(60)
            if not crash or not pid:
                w = lib.sd_new(sp.p, f.encode(), prof)
                if not w:
                    if crash: os._exit(3)
                    return 'the file could not be opened'
            known = sp.nb(); late = r.randrange(n) if n and not crash and not many and r.random() < .1 else -1
            for k in range(n):
                if k == late: x, y = r.uniform(100, 900), r.uniform(-9, 9); sp.body([(x, y), (x, y + 1), (x + 1, y)], [0, 1, 0])      # not in the file until it is opened again
                sp.time(TIME, t, ts); step(sp, r, prof)
                if not crash or not pid:
                    if k == flushed or not crash and r.random() < .1: lib.sd_flush(w)
                F.record(sp, prof, known)
                if not crash or not pid:
                    s0 = sp.snap() if not many else None
                    if not lib.sd_write(w):
                        if crash: os._exit(4)
                        return 'writing a record failed'
                    if s0:
                        s1 = sp.snap()
                        for s in (s0, s1):
                            for B in s['bodies']:
                                for a in B['a']:
                                    for m in ('Cp', 'Fr', 'Nu'): a[m] = 0
                        dd = diff(s0, s1)
                        if dd and not crash: return 'writing a record changed the state: ' + dd
                if prof:
                    for b in range(known):
                        for i in range(sp.nseg(b)):
                            if not crash and (sp.aget(b, i, 'Cp') or sp.aget(b, i, 'Fr')): return 'the pressure or friction of a segment is kept for the next record'
                t += dtv
            if crash:
                if not pid: os._exit(0)
                st = os.waitpid(pid, 0)[1]
                if st: return 'a run of %d steps ended with status %d' % (n, st)
                dd = F.differ(lib, f, len(F.d['time']) - n + flushed + 1)
                if dd: return 'after a run that was cut short: ' + dd
                tm = dataset(lib, f, 'time'); t -= dtv * (n - r.randint(0, flushed + 1))      # go on from a state not after the flushed records
            else:
                lib.sd_free(w); w = None; dd = F.differ(lib, f)
                if dd: return 'after run %d: %s' % (run + 1, dd)
                t += dtv * r.choice([0, 0, -1, -3, -n, -n - 5, 1]) if n else 0
        return
    finally:
        sp.free()
        for x in os.listdir(d): os.unlink(os.path.join(d, x))


def names(lib, rnd, chk, progress):
    proto(lib); sp = random_flow(lib, random.Random(1), nbodies=0, nv=0); lib.sd_name.restype = S_; lib.sd_name.argtypes = [V, C.c_long]
    for i in range(1003): sp.body([(2 * i, 0), (2 * i, 1), (2 * i + 1, 1)], [0, 0, 0])
    for i in (0, 7, 10, 99, 100, 999, 1000, 1002):
        progress('body %d' % i); g = lib.sd_name(sp.p, i).decode()
        if g != 'body%02d' % i: fail('body %d is named %s' % (i, g))
    sp.free(); return 8


def records(lib, rnd, chk, progress):
    d = tempfile.mkdtemp(dir=ir.scratch())
    try: return runner(60, lambda l, r: one(l, r, d), 'random run')(lib, rnd, chk, progress)
    finally: shutil.rmtree(d, ignore_errors=True)


# ---- contracts
from . import hdf
from vv.cuts import Inv
from fractions import Fraction
from .hdf import text, got, put, want

PRIV = ['6append', '8h5d_init', 'h5_throw', 'get_body_index', 'get_body_name', 'h5a_', 'h5t_', '^_ZNK?St7__cxx1112basic_string', '^_ZNSt6vectorIl']


def table(u, known=None):
    """HDF5 calls on a table of rows: a space remembers its extents and selection, a data set has an extent that can change"""
    ext = lambda st, h: st.ghost.get('extent %r' % (h,)) or tuple(fn('extent%d' % k, h, sort='I') for k in range(2))
    def space(E, st, a, i): n = int(a[0].const()); h = hdf.new(st); put(st, 'space', h, (hdf.dims(E, st, a[1], n), None, NULL if a[2] == NULL else hdf.dims(E, st, a[2], n))); return h
    def dspace(E, st, a, i): h = hdf.new(st); put(st, 'space', h, (ext(st, a[0]), None, None)); return h
    def dims_(E, st, a, i):
        for k, x in enumerate(got(st, 'space', a[0])[0]):
            for p in a[1:3]:
                if p != NULL: E.store(st, padd_off(p, I(8 * k)), x, ir.I64)
        return I(2)
    def setext(E, st, a, i): d = hdf.dims(E, st, a[1], 2); st.ghost = dict(st.ghost); st.ghost['extent %r' % (a[0],)] = d; ct.emit(st, 'extent', a[0], *d); return I(0)
    def slab(E, st, a, i):
        s = got(st, 'space', a[0]); want(E, st, 'one block is selected afresh', And(eq(a[1], I(0)), Bool(a[3] == NULL and a[5] == NULL))); put(st, 'space', a[0], (s[0], (hdf.dims(E, st, a[2], 2), hdf.dims(E, st, a[4], 2)), s[2])); return I(0)
    def write(E, st, a, i):
        f, m = got(st, 'space', a[3]), got(st, 'space', a[2]); e = ext(st, a[0])
        if not f or not m or not f[1]: want(E, st, 'a row of the data set is selected', FALSE); return I(0)
        ct.emit(st, 'write', a[0], a[1], *(list(f[0]) + list(f[1][0]) + list(f[1][1]) + list(m[0]) + [a[5]])); want(E, st, 'the selection is made on the size the data set has now', And(*[eq(x, y) for x, y in zip(f[0], e)])); return I(0)
    ok = lambda E, st, a, i: I(0)
    u.contracts += [(r'^H5open$|^H5Sclose$|^H5Pclose$|^H5Dclose$|^H5Gclose$|^H5Fflush$', ok), (r'^H5Dget_space$', dspace), (r'^H5Sget_simple_extent_dims$', dims_), (r'^H5Dset_extent$', setext), (r'^H5Sselect_hyperslab$', slab), (r'^H5Screate_simple$', space), (r'^H5Dwrite$', write)]
    hdf.strings(u)


def append(chk):
    """a record is one more row at the end"""
    probe_world(chk); m = chk.extract(['libvvhd/src/MStepdata.cpp'], noinline=PRIV); u = chk.unit(m); h = var('h', 'I'); table(u); u.raw('ST', 264, {0: ('ptr', None)}, array=False); u.raw('BUF', 8, {0: ('double', 'x')}, array=False); u.raw('V', 24, {8 * k: ('double', 'v%d' % k) for k in range(3)}, array=False)
    r, c = [fn('extent%d' % k, h, sort='I') for k in range(2)]
    def post(E, st, v):
        ex, wr = [[e for e in st.trace if e[1] == k] for k in ('extent', 'write')]; dbl = E.load(st, E.globptr('H5T_NATIVE_DOUBLE_g'), ir.I64)
        out = [('an unwanted data set is left alone', ct.with_facts(st.facts, [h < 0]), Bool(not st.trace)), ('one row is added', ct.with_facts(st.facts, [h >= 0]), Bool(len(ex) == 1 and len(wr) == 1))]
        for e in ex: out += [('to the data set', st.facts, eq(e[2], h)), ('one row more', st.facts, eq(e[3], r + 1)), ('as wide as before', st.facts, eq(e[4], c))]
        for e in wr:
            names = ('data set', 'type', 'rows', 'columns', 'first row', 'first column', 'number of rows', 'number of columns', 'rows of the buffer', 'columns of the buffer')
            out += [('written: ' + n, st.facts, ct.goal_eq(x, y)) for n, x, y in zip(names, e[2:], (h, dbl, r + 1, c, r, I(0), I(1), c, I(1), c))] + [('written: the buffer', st.facts, ct.goal_eq(E.pnorm(st, e[12]), ptr('BUF')))]
        return out
    chk.case('a row', u, r'^Stepdata::append\(long, void const\*\)', [ptr('ST'), h, ptr('BUF')], [], {}, extra_post=post, samples=0, merge=False)
    for name, sig, arg, vals in (('a number', 'double', lambda: var('x'), lambda u: [var('x')]), ('a vector', 'TVec3D', lambda: ptr('V'), lambda u: [u.F('V', 8 * k)() for k in range(3)])):
        w = chk.unit(m); w.raw('ST', 264, {0: ('ptr', None)}, array=False); w.raw('V', 24, {8 * k: ('double', 'v%d' % k) for k in range(3)}, array=False); n = len(vals(w))
        w.contracts = [(r'^Stepdata::append\(long, void const\*\)', lambda E, st, a, i, n=n: ct.emit(st, 'row', a[0], a[1], *[E.load(st, padd_off(a[2], I(8 * k)), ir.DBL) for k in range(n)]))]
        chk.case(name, w, r'^Stepdata::append\(long, %s\)' % sig, [ptr('ST'), h, arg()], [], {}, samples=0, events=[Ev('row', ptr('ST'), h, *vals(w))], merge=False)


def cut(chk):
    """opening a data set leaves exactly the given number of rows"""
    probe_world(chk); m = chk.extract(['libvvhd/src/MStepdata.cpp'], noinline=PRIV); u = chk.unit(m); loc, rows, cols = [var(x, 'I') for x in ('loc', 'rows', 'cols')]; nm = var('nm', 'I'); table(u); u.raw('ST', 264, {0: ('ptr', None)}, array=False); has = bvar('has', loc, nm)
    def create(E, st, a, i):
        s = got(st, 'space', a[3]); props = st.ghost.get('props', ()); ct.emit(st, 'create', a[0], text(E, st, a[1]), a[2], *(list(s[0]) + list(s[2] if s[2] != NULL else (I(0), I(0))) + [Bool('chunk %r' % (a[5],) in props)])); return fn('made', a[0], text(E, st, a[1]), sort='I')
    def chunk(E, st, a, i): st.ghost = dict(st.ghost); st.ghost['props'] = st.ghost.get('props', ()) + ('chunk %r' % (a[0],),); d = hdf.dims(E, st, a[2], 2); want(E, st, 'a chunk is not empty and no wider than a row', And(eq(a[1], I(2)), d[0] >= 1, eq(d[1], cols))); return I(0)
    u.contracts = [(r'^H5Lexists$', lambda E, st, a, i: ind(bvar('has', a[0], text(E, st, a[1])), 'I')), (r'^H5Dopen2$', lambda E, st, a, i: fn('opened', a[0], text(E, st, a[1]), sort='I')), (r'^H5Dcreate2$', create), (r'^H5Pcreate$', lambda E, st, a, i: hdf.new(st)), (r'^H5Pset_chunk$', chunk), (r'^H5Pset_', lambda E, st, a, i: I(0))] + u.contracts
    def post(E, st, v):
        ex, cr = [[e for e in st.trace if e[1] == k] for k in ('extent', 'create')]; flt = E.load(st, E.globptr('H5T_NATIVE_FLOAT_g'), ir.I64)
        out = [('an existing data set is cut or filled up', ct.with_facts(st.facts, [has]), Bool(len(ex) == 1 and not cr)), ('a new one is made', ct.with_facts(st.facts, [Not(has)]), Bool(len(cr) == 1 and not ex)), ('the handle', st.facts, eq(v, ite(has, fn('opened', loc, nm, sort='I'), fn('made', loc, nm, sort='I'))))]
        for e in ex: out += [('cut: ' + n, st.facts, eq(x, y)) for n, x, y in zip(('data set', 'rows', 'columns'), e[2:], (fn('opened', loc, nm, sort='I'), rows, cols))]
        for e in cr: out += [('made: ' + n, st.facts, ct.goal_eq(x, y)) for n, x, y in zip(('place', 'name', 'type', 'rows', 'columns', 'greatest number of rows', 'greatest number of columns'), e[2:], (loc, nm, flt, rows, cols, I(-1), cols))] + [('made: can grow', st.facts, e[9])]
        return out
    chk.case('data set', u, r'^Stepdata::h5d_init\(', [ptr('ST'), loc, ptr('STR', (nm,)), rows, cols], [rows >= 0, cols >= 0], {}, extra_post=post, samples=0, merge=False)


HANDLES = {'force_hydro': 'force_hydro_h5d', 'force_holder': 'force_holder_h5d', 'friction': 'force_friction_h5d', 'holder': 'position_h5d', 'dpos': 'spring_h5d', 'speed_slae': 'speed_h5d'}


def record(chk):
    """one record of every body, in order"""
    probe_world(chk); hs = list(HANDLES.values()) + ['nusselt_h5d', 'pressure_h5d', 'friction_h5d']; chk.probe([('Stepdata', x) for x in ['S', 'b_save_profile', 'blsize', 'last_flush_time', 'h5f', 'time_h5d'] + hs] + [('TBody', x + '.' + c) for x in HANDLES for c in ('r.x', 'r.y', 'o')] + [('TBody', 'nusselt'), ('TAtt', 'Cp'), ('TAtt', 'Fr'), ('TAtt', 'Nu')])
    m = chk.extract(['libvvhd/src/MStepdata.cpp'], noinline=PRIV, types=[('Stepdata', 'MStepdata.hpp')]); u = chk.unit(m); space(u); nb, na = bodies(u); prof = bvar('profile')
    u.region('ST', 'Stepdata', ['b_save_profile', 'blsize', 'last_flush_time', 'h5f', 'time_h5d']); u.setptr('ST', 'S', lambda: ptr('SP')); N = u.F('ST', 'blsize')()
    for x in hs: u.raw('H_' + x, 8, {0: ('i64', 'h')}, [N]); u.vec('ST', x, 'H_' + x, lambda: N)
    q = var('q', 'I')
    def row(E, st, a, i): p = E.pnorm(st, a[2]); (mono, _), = a[1].d.items(); b = mono[0][0].args[1]; ct.emit(st, 'row', a[1], ite(q < na(b), E.load(st, padd_off(p, q * 8), ir.DBL), R(0)))
    u.contracts = [(r'^Stepdata::append\(long, double\)', lambda E, st, a, i: ct.emit(st, 'row', a[1], a[2])), (r'^Stepdata::append\(long, TVec3D\)', lambda E, st, a, i: ct.emit(st, 'row', a[1], *[E.load(st, padd_off(a[2], I(8 * k)), ir.DBL) for k in range(3)])), (r'^Stepdata::append\(long, void', row),
                   (r'^Space::get_body_index\(', lambda E, st, a, i: E.pnorm(st, a[1]).args[1][0]), (r'^clock_gettime$', lambda E, st, a, i: (E.store(st, a[1], var('now', 'I'), ir.I64), I(0))[1]), (r'^H5Fflush$', lambda E, st, a, i: (setattr(st, 'ghost', dict(st.ghost, flush=a[0])), I(0))[1])]
    SP = lambda k: u.F('SP', k)(); B, A = (lambda f: u.F('B', f)), (lambda f: u.F('A', f)); H = lambda x, b: u.F('H_' + x, 0)(b); now = var('now', 'I')
    t = i2r(SP('time.value')) / i2r(SP('time.timescale')); dt = i2r(SP('dt.value')) / i2r(SP('dt.timescale'))
    def body(b): return [Ev('row', H(HANDLES[f], b), *[B(f + '.' + c)(b) for c in ('r.x', 'r.y', 'o')]) for f in ('force_hydro', 'force_holder', 'friction')] + [Ev('row', H('nusselt_h5d', b), B('nusselt')(b))] + [Ev('row', H(HANDLES[f], b), *[B(f + '.' + c)(b) for c in ('r.x', 'r.y', 'o')]) for f in ('holder', 'dpos', 'speed_slae')]
    def only(c, evs):
        for e in evs: e.guard = c
        return evs
    for name, p in (('without profiles', 0), ('with profiles', 1)):
        prob = lambda f, b: ite(q < na(b), A(f)(b, q) / dt, R(0)); old = u.F('ST', 'last_flush_time')()
        def flush(E, st, v): h = st.ghost.get('flush'); return [('what was written more than 20 s ago is flushed', ct.with_facts(st.facts, [now - old > 20]), eq(h, u.F('ST', 'h5f')()) if h is not None else FALSE)]
        flush.exc = lambda E, st: []
        chk.case('a record ' + name, u, r'^Stepdata::write\(', [ptr('ST')], [eq(u.F('ST', 'b_save_profile')(), I(p)), nb >= 0, N >= 0, q >= 0, SP('time.timescale') > 0, SP('dt.timescale') > 0, ne(dt, R(0))], ({('A', x): (lambda b, k, x=x: ite(b < N, R(0), A(x)(b, k))) for x in ('Cp', 'Fr', 'Nu')} if p else {}) | {('ST', 'last_flush_time'): ite(now - u.F('ST', 'last_flush_time')() > 20, now, u.F('ST', 'last_flush_time')())}, samples=0,
                 events=[Ev('row', u.F('ST', 'time_h5d')(), t), For(nb, lambda b, p=p, prob=prob: only(b < N, body(b) + ([Ev('row', H('pressure_h5d', b), prob('Cp', b)), Ev('row', H('friction_h5d', b), prob('Fr', b))] if p else [])), split=lambda b: [b < N])], extra_post=flush, merge=False)


def index(chk):
    """the number of a body is its place in the list"""
    probe_world(chk); m = chk.extract(['libvvhd/src/TSpace.cpp'], noinline=['_ZNSt7__cxx1112basic_string']); u = chk.unit(m); space(u); nb, na = bodies(u); k = var('k', 'I')
    at = lambda p: pscale(p.args[2], Fraction(1, 16))
    for name, b, pre, ret in (('a body', ptr('B', (k,)), [k >= 0, k < nb], k), ('no body', NULL, [nb >= 0], I(-1))):
        def cuts_(E, found=ret): E.cuts = [Inv(r'^Space::get_body_index\(', ('__begin1', 'i'), lambda v, rd: [eq(at(v['__begin1']), v['i']), v['i'] >= 0, v['i'] <= (found if found is k else nb)], name='search', shapes={'__begin1': lambda x: ptr('BL', (), x * 16)}, measure=lambda v, rd: nb - v['i'])]
        chk.case('number of ' + name, u, r'^Space::get_body_index\(', [ptr('SP'), b], pre, {}, ret=ret, samples=0, engine_setup=cuts_, merge=False)


NAMES = [('force_hydro_h5d', 'force_hydro'), ('force_holder_h5d', 'force_holder'), ('force_friction_h5d', 'force_friction'), ('position_h5d', 'holder_position'), ('spring_h5d', 'delta_position'), ('speed_h5d', 'speed_slae')]


def opening(chk):
    """which rows are kept, and every data set of every body opened with that many rows under its own name"""
    probe_world(chk); hs = list(HANDLES.values()) + ['nusselt_h5d', 'pressure_h5d', 'friction_h5d']; chk.probe([('Stepdata', x) for x in ['S', 'b_save_profile', 'blsize', 'last_flush_time', 'h5f', 'time_h5d'] + hs])
    m = chk.extract(['libvvhd/src/MStepdata.cpp'], noinline=PRIV, types=[('Stepdata', 'MStepdata.hpp')])
    n = var('rows', 'I'); fname = var('fname', 'I'); file = var('file', 'I'); ID = lambda s: hdf.sid(s)
    group = lambda b: fn('group', file, fn('bodyname', b, sort='I'), sort='I'); init = lambda loc, nm, rows, cols: fn('init', loc, nm, rows, I(cols), sort='I')
    def one_(prof, old):
        u = chk.unit(m); space(u); nb, na = bodies(u); u.region('ST', 'Stepdata', ['b_save_profile', 'blsize', 'last_flush_time', 'h5f', 'time_h5d']); u.raw('T', 4, {0: ('float', 't')}, [n])
        for x in hs: u.raw('H_' + x, 8, {0: ('i64', 'h')}, [nb])
        byoff = {}
        for x in hs: byoff[chk.off('Stepdata', x)] = x
        def resize(E, st, a, i):
            p = E.pnorm(st, a[0]); x = byoff.get(int(p.args[2].const())); E.obl.append(('room for every body', st.facts, eq(a[1], nb))); v = E.load(st, a[2], ir.I64)
            E.store(st, a[0], ptr('H_' + x), ir.PTR); E.store(st, padd_off(a[0], I(8)), ptr('H_' + x, (), nb * 8), ir.PTR); k = mk('var', '$h%d' % fresh(), sort='I')
            st.mem[('H_' + x, 0)] = (sym.Map([(k, nb, 0, 1, I(0))], (I(k),), v, TRUE),)
        def init_(E, st, a, i): ct.emit(st, 'init', a[1], hdf.text(E, st, a[2]), a[3], a[4]); return fn('init', a[1], hdf.text(E, st, a[2]), a[3], a[4], sort='I')
        def link(E, st, a, i):
            t = hdf.text(E, st, a[1]); return I(old) if t == ID('time') else ind(bvar('has', a[0], t), 'I')
        def grp(E, st, a, i): return fn('group', a[0], hdf.text(E, st, a[1]), sort='I')
        def made(E, st, a, i): ct.emit(st, 'file', hdf.text(E, st, a[0]), a[1]); st.assume(file >= 0); return file
        def opened(E, st, a, i): E.obl.append(('the times are looked at', st.facts, And(eq(a[0], file), eq(hdf.text(E, st, a[1]), ID('time'))))); h = var('time_set', 'I'); st.assume(h >= 0); return h
        def dspace(E, st, a, i): h = var('time_space', 'I'); st.assume(h >= 0); return h
        def dims_(E, st, a, i): E.store(st, a[1], n, ir.I64); E.store(st, padd_off(a[1], I(8)), I(1), ir.I64); return I(2)
        def new_(E, st, a, i): E.obl.append(('room for the times', st.facts, a[0] >= n * 4)); return ptr('T')
        def read(E, st, a, i): E.obl.append(('the times are read as single precision numbers', st.facts, And(eq(a[0], var('time_set', 'I')), eq(a[1], E.load(st, E.globptr('H5T_NATIVE_FLOAT_g'), ir.I64)), ct.goal_eq(E.pnorm(st, a[5]), ptr('T'))))); return I(0)
        ok = lambda E, st, a, i: I(0)
        u.contracts = [(r'^std::vector<long, .*>::resize', resize), (r'^std::vector<long, .*>::(vector|~vector)', ct.nothing), (r'^Stepdata::h5d_init', init_), (r'^H5Lexists$', link), (r'^H5G(create2|open2)$', grp), (r'^H5F(create|open)$', made), (r'^H5Dopen2$', opened), (r'^H5Dget_space$', dspace), (r'^H5Sget_simple_extent_dims$', dims_), (r'^operator new\[\]|^_Znam$', new_), (r'^operator delete\[\]|^_Z[dd]aPv', ct.nothing), (r'^H5Dread$', read), (r'^H5Fis_hdf5$', lambda E, st, a, i, old=old: ind(bvar('ishdf', hdf.text(E, st, a[0])), 'I')),
                       (r'^H5(open|check_version|Eset_auto2|Sclose|Dclose|Gclose)$', ok), (r'^(void )?h5[at]_', lambda E, st, a, i: None), (r'^Space::get_body_index\(', lambda E, st, a, i: E.pnorm(st, a[1]).args[1][0]), (r'^Space::get_body_name', lambda E, st, a, i: hdf.sset(E, st, a[0], fn('bodyname', E.pnorm(st, a[2]).args[1][0], sort='I')))]
        hdf.strings(u)
        SP = lambda k: u.F('SP', k)(); t = i2r(SP('time.value')) / i2r(SP('time.timescale')); T_ = lambda k: u.F('T', 0)(k)
        j = mk('var', 'j', sort='I')
        def per(b, R_):
            g = group(b); ev = [Ev('init', g, ID(nm), R_, I(3)) for x, nm in NAMES]
            for nm in ('pressure', 'friction'): ev.append(Ev('init', g, ID(nm), R_, na(b), guard=TRUE if prof else bvar('has', g, ID(nm))))
            return ev
        def post(E, st, v, u=u):
            tr = [e for e in st.trace if e[1] == 'init']; out = []
            if not tr: return [('the times are opened', st.facts, FALSE)]
            R_ = tr[0][4]; k = var('k', 'I'); b = var('b', 'I'); known = And(bvar('ishdf', fname), Bool(old))
            out += [('no file, no earlier rows', ct.with_facts(st.facts, [Not(known)]), eq(R_, I(0))), ('not more rows than there are', st.facts, And(R_ >= 0, R_ <= ite(known, n, I(0)))), ('every row kept is earlier', ct.with_facts(st.facts, [k >= 0, k < R_]), T_(k) < t), ('the first row dropped is not earlier', ct.with_facts(st.facts, [known, R_ < n]), T_(R_) >= t)]
            out += ct.events_obl(st.trace, [Ev("file", fname, ite(bvar('ishdf', fname), I(1), I(2))), Ev('init', file, ID('time'), R_, I(1)), For(nb, lambda q: per(q, R_), split=lambda q: [bvar('has', file, fn('bodyname', q, sort='I'))] + [bvar('has', group(q), ID(nm)) for nm in ('pressure', 'friction') if not prof])], st.facts, '')
            for x, nm in NAMES + ([('pressure_h5d', 'pressure'), ('friction_h5d', 'friction')] if prof else []): out.append(('the handle of ' + x, ct.with_facts(st.facts, [b >= 0, b < nb]), eq(E.readcell(st, 'H_' + x, 0, (b,), ir.I64), fn('init', group(b), ID(nm), R_, na(b) if nm in ('pressure', 'friction') else I(3), sort='I'))))
            for x in ['nusselt_h5d'] + ([] if prof else ['pressure_h5d', 'friction_h5d']): out.append(('no data set of ' + x, ct.with_facts(st.facts, [b >= 0, b < nb]), eq(E.readcell(st, 'H_' + x, 0, (b,), ir.I64), I(-1))))
            return out
        def cuts_(E, u=u): E.cuts = [Inv(r'^Stepdata::Stepdata\(', ('rows',), lambda v, rd: [v['rows'] >= 0, v['rows'] <= n, ball(j, I(0), v['rows'], T_(I(j)) < t)], name='rows', measure=lambda v, rd: n - v['rows'])]
        chk.case('opened %s, %s' % ('with profiles' if prof else 'without profiles', 'with earlier times' if old else 'without times'), u, r'^Stepdata::Stepdata\(', [ptr('ST'), ptr('SP'), ptr('STR', (fname,)), Bool(prof == 1)], [nb >= 0, n >= 0, n < 1 << 60, SP('time.timescale') > 0, ball(j, I(0), nb, group(I(j)) >= 0)], {}, ignore=[(x, '*') for x in ['ST'] + ['H_' + x for x in hs]], extra_post=post, samples=0, engine_setup=cuts_, merge=False)
    for prof in (0, 1):
        for old in (0, 1): one_(prof, old)
