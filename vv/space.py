"""Python handle on a real Space object living in the shared object under test."""
import ctypes as C
from ctypes import c_double as D, c_int as I_, c_long as L_, c_void_p as V, c_char_p as S_
AF = ['r.x', 'r.y', 'g', 'v.x', 'v.y', '_1_eps', 'corner.x', 'corner.y', 'dl.x', 'dl.y', 'gsum', 'hsum', 'fric', 'Cp', 'Fr', 'Nu', 'slip', 'heat_layer_obj_no', 'heat_const', 'eq_no']
V3 = ['holder', 'dpos', 'kspring', 'damping', 'speed_slae', 'speed_slae_prev', 'collision_min', 'collision_max', 'friction', 'friction_prev', 'force_hydro', 'force_holder', 'fdt_dead']
BF = [v + '.' + c for v in V3 for c in 'xyo'] + ['bounce', 'density', 'nusselt', 'g_dead', 'special_segment_no', 'boundary_condition', 'heat_condition']
BQ = ['eq_forces_no', 'slip', 'slen', 'area', 'cofm.x', 'cofm.y', 'axis.x', 'axis.y', 'moi_cofm', 'moi_axis']
VORT, HEAT, SINK, STREAKSRC, STREAK = range(5)
TIME, DT, DT_SAVE, DT_STREAK, DT_PROFILE = range(5)
SCAL = ['re', 'pr', 'inf_g', 'inf_marker.x', 'inf_marker.y', 'gravity.x', 'gravity.y', 'finish']
_done = set()


def proto(lib):
    if id(lib) in _done: return
    _done.add(id(lib))
    def p(n, r, *a):
        f = getattr(lib, n, None)
        if f is not None: f.restype = r; f.argtypes = list(a)
    DP = C.POINTER(D)
    p('sp_new', V); p('sp_del', None, V); p('sp_set', None, V, DP); p('sp_get', None, V, DP); p('sp_settime', None, V, I_, I_, C.c_uint); p('sp_gettime', None, V, I_, C.POINTER(I_), C.POINTER(C.c_uint))
    p('sp_inf', None, V, S_, S_); p('sp_caption', None, V, S_); p('sp_str', S_, V, I_); p('sp_push', None, V, I_, *[D] * 6); p('sp_n', L_, V, I_); p('sp_obj', None, V, I_, L_, DP); p('sp_setobj', None, V, I_, L_, DP); p('sp_objptr', V, V, I_, L_); p('sp_clear', None, V, I_)
    p('sp_body', I_, V, I_, DP, C.POINTER(I_)); p('sp_refresh', None, V, I_); p('sp_root', None, V, I_, I_); p('sp_getroot', I_, V, I_); p('sp_nb', L_, V); p('sp_nseg', L_, V, I_); p('sp_bodyptr', V, V, I_); p('sp_attptr', V, V, I_, I_)
    p('sp_bexpr', None, V, I_, I_, S_); p('sp_bstr', S_, V, I_, I_); p('sp_blabel', None, V, I_, S_); p('sp_bget', D, V, I_, S_); p('sp_bset', I_, V, I_, S_, D); p('sp_aget', D, V, I_, I_, S_); p('sp_aset', I_, V, I_, I_, S_, D); p('sp_bfield', V, V, I_, S_); p('sp_afield', V, V, I_, I_, S_)
    p('sp_invalid', I_, V, I_, D, D); p('sp_inlayer', I_, V, I_, D, D); p('sp_inbody', I_, V, D, D); p('sp_bmove', None, V, I_, DP, DP)
    for n in ('enumerate', 'calc_forces', 'zero_forces', 'zero_speed', 'finish_step'): p('sp_' + n, None, V)
    p('sp_integrals', None, V, DP); p('sp_index', I_, V, V); p('sp_name', S_, V, I_)
    p('fm_move', I_, V, D, I_, C.POINTER(L_), I_); p('fm_shed', None, V, D); p('fm_heat_shed', None, V, D); p('fm_heat_crop', None, V, D, D); p('fm_streak', None, V, D)


class Space:
    def __init__(self, lib, p=None):
        proto(lib); self.lib = lib; self.p = p or lib.sp_new()
    def free(self): self.lib.sp_del(self.p)
    def set(self, **k):
        a = (D * 8)(); self.lib.sp_get(self.p, a)
        for n, v in k.items(): a[SCAL.index(n.replace('__', '.'))] = v
        self.lib.sp_set(self.p, a)
    def scal(self):
        a = (D * 8)(); self.lib.sp_get(self.p, a); return dict(zip(SCAL, a))
    def time(self, k, v=None, ts=None):
        if v is not None: self.lib.sp_settime(self.p, k, v, ts); return
        a = I_(); b = C.c_uint(); self.lib.sp_gettime(self.p, k, C.byref(a), C.byref(b)); return a.value, b.value
    def inf(self, x, y): self.lib.sp_inf(self.p, x.encode(), y.encode())
    def push(self, k, x, y, g, vx=0., vy=0., eps=0.): self.lib.sp_push(self.p, k, x, y, g, vx, vy, eps)
    def n(self, k): return self.lib.sp_n(self.p, k)
    def list(self, k):
        out = []; a = (D * 6)()
        for i in range(self.n(k)): self.lib.sp_obj(self.p, k, i, a); out.append(tuple(a))
        return out
    def setobj(self, k, i, t): self.lib.sp_setobj(self.p, k, i, (D * 6)(*t))
    def body(self, pts, slip=None):
        n = len(pts); c = (D * (2 * n))(*[x for p in pts for x in p]); s = (I_ * n)(*[int(bool(x)) for x in (slip or [0] * n)])
        return self.lib.sp_body(self.p, n, c, s)
    def nb(self): return self.lib.sp_nb(self.p)
    def nseg(self, b): return self.lib.sp_nseg(self.p, b)
    def bget(self, b, n): return self.lib.sp_bget(self.p, b, n.encode())
    def bset(self, b, **k):
        for n, v in k.items():
            if isinstance(v, (tuple, list)):
                for c, x in zip('xyo', v): assert self.lib.sp_bset(self.p, b, ('%s.%s' % (n, c)).encode(), x)
            else: assert self.lib.sp_bset(self.p, b, n.encode(), v)
    def b3(self, b, n): return tuple(self.bget(b, n + '.' + c) for c in 'xyo')
    def aget(self, b, i, n): return self.lib.sp_aget(self.p, b, i, n.encode())
    def aset(self, b, i, n, v): assert self.lib.sp_aset(self.p, b, i, n.encode(), v)
    def root(self, b, r): self.lib.sp_root(self.p, b, r)
    def getroot(self, b): return self.lib.sp_getroot(self.p, b)
    def expr(self, b, k, s): self.lib.sp_bexpr(self.p, b, k, s.encode())
    def snap(self):
        """everything observable, as a dict of exact floats"""
        d = {'scal': self.scal(), 'lists': [self.list(k) for k in range(5)], 'times': [self.time(k) for k in range(5)], 'bodies': []}
        for b in range(self.nb()):
            d['bodies'].append({'f': {n: self.bget(b, n) for n in BF}, 'q': {n: self.bget(b, n) for n in BQ}, 'root': self.getroot(b),
                                'a': [{n: self.aget(b, i, n) for n in AF} for i in range(self.nseg(b))]})
        return d
    # flow steps
    def move(self, eps=1e-10, remove=True, initial=False):
        c = L_(); r = self.lib.fm_move(self.p, eps, int(remove), C.byref(c), int(initial)); return r, c.value


def close(a, b, tol=1e-9, scale=1.0):
    if a != a and b != b: return True
    if a == b: return True
    return abs(a - b) <= tol * max(abs(a), abs(b), scale)
