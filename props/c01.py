"""Exact rational time."""
from fractions import Fraction
from vv.term import *
from vv import native, contract as ct
from vv.check import fail
i2r = ct.i2r
WRAP = '''
#include "TTime.hpp"
#include "TSpace.hpp"
extern "C" {
void vvw_time_add(int32_t v1, uint32_t t1, int32_t v2, uint32_t t2, int32_t* v, uint32_t* t) { TTime r = TTime::add(TTime(v1, t1), TTime(v2, t2)); *v = r.value; *t = r.timescale; }
int vvw_time_div(int32_t v1, uint32_t t1, int32_t v2, uint32_t t2) { TTime a(v1, t1); return a.divisibleBy(TTime(v2, t2)); }
void vvw_time_make(double s, uint32_t ts, TTime* out) { *out = TTime::makeWithSeconds(s, ts); }
void vvw_time_dec(double s, TTime* out) { *out = TTime::makeWithSecondsDecimal(s); }
double vvw_time_double(int32_t v, uint32_t t) { return double(TTime(v, t)); }
uint32_t vvw_time_lcm(uint32_t a, uint32_t b) { return TTime::lcm(a, b); }
void vvw_steps(int32_t v, uint32_t t, int32_t dv, uint32_t dt, int n, TTime* out) { Space S; S.time = TTime(v, t); S.dt = TTime(dv, dt); for (int i = 0; i < n; i++) S.finish_step(); *out = S.time; }
}
'''
M31, M32 = 1 << 31, 1 << 32


def setup(chk):
    chk.wrapfile(WRAP)
    chk.group(arithmetic)
    chk.battery('lcm', lcm_battery, True, 'least common multiples of all pairs up to 120 and of random pairs against the exact ones')
    chk.battery('sums and multiples', sums, True, 'additions, repeated additions and multiple tests of random times against exact rationals')
    chk.battery('decimals', decimals, True, 'decimal numbers of seconds that fit the representation')


def arithmetic(chk):
    m = chk.extract([chk.wrapfile(WRAP)], noinline=['3lcmE']); u = chk.unit(m); u.region('V', None, elem='i32'); u.region('T', None, elem='i32')
    v1, t1, v2, t2 = (var(n, 'I') for n in ('v1', 't1', 'v2', 't2')); q1, q2 = fn('n_q', t1, t2, sort='I'), fn('n_q', t2, t1, sort='I')
    rng = [v1 >= -M31, v1 < M31, v2 >= -M31, v2 < M31, t1 >= 1, t1 < M32, t2 >= 1, t2 < M32]
    L = fn('n_lcm', t1, t2, sort='I')
    facts = [L >= 1, L < M32, eq(L, t1 * q1), eq(L, t2 * q2), q1 >= 1, q2 >= 1, q1 < M32, q2 < M32]

    def h(E, st, a, ins):
        E.obl.append(('common multiple of positive scales', st.facts, And(a[0] > 0, a[1] > 0, eq(a[0], t1), eq(a[1], t2))))
        for f in facts: st.assume(f)
        E.exact[(atom_of(L), t1)] = q1; E.exact[(atom_of(L), t2)] = q2; return L
    u.contracts = [(r'^TTime::lcm\(', h)]
    def mach(E): E.machine = True
    w1, w2 = v1 * q1, v2 * q2
    fit = [w1 >= -M31, w1 < M31, w2 >= -M31, w2 < M31, w1 + w2 >= -M31, w1 + w2 < M31]
    def post(E, st, v):
        V = E.readcell(st, 'V', 0, (), E.regions['V'].leaves[0][0]); S = E.readcell(st, 'T', 0, (), E.regions['T'].leaves[0][0])
        lem = (eq((L - t1 * q1) * v1 * t2, I(0)), eq((L - t2 * q2) * v2 * t1, I(0)), eq((t1 * q1 - t2 * q2) * v1, I(0)), eq((t1 * q1 - t2 * q2) * v2, I(0)))
        return [('lemma %d' % i, st.facts, l) for i, l in enumerate(lem)] + [('exact rational sum', st.facts + lem, eq(V * t1 * t2, (v1 * t2 + v2 * t1) * S)), ('scale in range', st.facts, And(S >= 1, S < M32)), ('value in range', st.facts, And(V >= -M31, V < M31))]
    chk.case('sum of times', u, 'vvw_time_add', [v1, t1, v2, t2, ptr('V'), ptr('T')], rng + fit, {}, samples=0, extra_post=post, engine_setup=mach, ignore=[('T', '*'), ('V', '*')])
    # value/t1 is a multiple of v2/t2 iff v1*q1 is a multiple of v2*q2 (both over the common scale)
    a, b = v1 * q1, v2 * q2
    m63 = [a > -(1 << 62), a < 1 << 62, b > -(1 << 62), b < 1 << 62]
    chk.case('multiple of a period', u, 'vvw_time_div', [v1, t1, v2, t2], rng + [ne(v2, I(0))] + [v1 * L > -(1 << 62), v1 * L < 1 << 62, v2 * L > -(1 << 62), v2 * L < 1 << 62] + m63, {}, ret=ind(eq(fn('srem', a, b, sort='I'), I(0)), 'I'), samples=0, engine_setup=mach)
    chk.case('zero period', u, 'vvw_time_div', [v1, t1, I(0), t2], rng, {}, ret=I(0), samples=0, engine_setup=mach)
    chk.case('zero scale', u, 'vvw_time_div', [v1, t1, v2, I(0)], rng, {}, ret=I(0), samples=0, engine_setup=mach)
    chk.case('seconds', u, 'vvw_time_double', [v1, t1], rng, {}, ret=i2r(v1) / i2r(t1), samples=20, gen=gens, native={'ret': 'double'}, engine_setup=mach)


def gens(name, args, r):
    if name in ('v1', 'v2'): return r.choice([0, 1, -1, r.randint(-50, 50), r.randint(-M31, M31 - 1)])
    if name in ('t1', 't2'): return r.choice([1, 10, r.randint(1, 100), r.randint(1, M32 - 1)])


def gcd(a, b):
    while b: a, b = b, a % b
    return a


def calls(chk, lib):
    import ctypes as C
    class T(C.Structure): _fields_ = [('v', C.c_int32), ('t', C.c_uint32)]
    A = lib.vvw_time_add; A.restype = None; A.argtypes = [C.c_int32, C.c_uint32, C.c_int32, C.c_uint32, C.c_void_p, C.c_void_p]; W = lib.vvw_steps; W.restype = None; W.argtypes = [C.c_int32, C.c_uint32, C.c_int32, C.c_uint32, C.c_int, C.c_void_p]
    D = lib.vvw_time_div; D.restype = C.c_int; D.argtypes = [C.c_int32, C.c_uint32, C.c_int32, C.c_uint32]
    X = lib.vvw_time_dec; X.restype = None; X.argtypes = [C.c_double, C.c_void_p]
    K = lib.vvw_time_lcm; K.restype = C.c_uint32; K.argtypes = [C.c_uint32, C.c_uint32]
    def add(a, b): o = T(); A(a[0], a[1], b[0], b[1], C.addressof(o), C.addressof(o) + 4); return o.v, o.t
    def steps(a, b, n): o = T(); W(a[0], a[1], b[0], b[1], n, C.addressof(o)); return o.v, o.t
    add.steps = steps
    def dec(s): o = T(); X(s, C.addressof(o)); return o.v, o.t
    return add, D, dec, K


def lcm_battery(lib, rnd, chk, progress):
    add, D, dec, K = calls(chk, lib); n = 0
    def one(a, b):
        w = a * b // gcd(a, b)
        if w >= M31: return 0
        progress('lcm %d %d' % (a, b)); r = K(a, b)
        if r != w: fail('the least common multiple of %d and %d is %d, the code returns %d' % (a, b, w, r))
        return 1
    for a in range(1, 121):
        for b in range(1, 121): n += one(a, b)
    for i in range(chk.n(300, 3000)):
        g = rnd.randint(1, 5000); n += one(g * rnd.randint(1, 200), g * rnd.randint(1, 200))
        n += one(10 ** rnd.randint(0, 9), 10 ** rnd.randint(0, 9)); n += one(2 ** rnd.randint(0, 20) * 5 ** rnd.randint(0, 4), 10 ** rnd.randint(0, 8))
    return n


def fits(q, scale_limit=M31): return -M31 <= q < M31


def rtime(r):
    t = r.choice([1, 2, 3, 4, 5, 8, 10, 100, 1000, 200, 125, 64, 7, 30, 60, 9, 11, r.randint(1, 3000)])
    v = r.choice([0, 1, -1, r.randint(-20, 20), r.randint(-100000, 100000)])
    return v, t


def sums(lib, rnd, chk, progress):
    add, D, dec, K = calls(chk, lib); n = 0
    for i in range(chk.n(3000, 30000)):
        a, b = rtime(rnd), rtime(rnd)
        if rnd.random() < .1: b = (b[0], a[1])
        L = a[1] * b[1] // gcd(a[1], b[1])
        if L >= M31 or not all(fits(x) for x in (a[0] * (L // a[1]), b[0] * (L // b[1]), a[0] * (L // a[1]) + b[0] * (L // b[1]))): continue
        progress('add %r %r' % (a, b)); v, t = add(a, b); n += 1
        if t == 0 or Fraction(v, t) != Fraction(*a) + Fraction(*b): fail('%d/%d + %d/%d gives %d/%d' % (a + b + (v, t)))
        if rnd.random() < .3:   # a multiple by construction
            k = rnd.randint(-30, 30); a = (b[0] * k, b[1]); c = rnd.choice([1, 2, 3, 5, 10]); a = (a[0] * c, a[1] * c)
            if not fits(a[0]): continue
        if b[0] == 0: want = False
        else: want = (Fraction(*a) / Fraction(*b)).denominator == 1
        progress('divisible %r %r' % (a, b)); got = bool(D(a[0], a[1], b[0], b[1])); n += 1
        if got != want: fail('%d/%d %s a multiple of %d/%d, the code says %s' % (a + ('is' if want else 'is not',) + b + (got,)))
    for i in range(chk.n(2000, 20000)):   # large values
        a = (rnd.randint(-M31, M31 - 1), rtime(rnd)[1]); b = (rnd.choice([rnd.randint(-M31, M31 - 1), rnd.randint(-200000, 200000)]), rtime(rnd)[1]); L = a[1] * b[1] // gcd(a[1], b[1])
        if rnd.random() < .5:
            k = rnd.randint(-50, 50); q = Fraction(*b) * k
            if not fits(q.numerator) : continue
            a = (q.numerator, q.denominator); L = a[1] * b[1] // gcd(a[1], b[1])
        if i % 4 == 0:   # equal to a multiple of the period only modulo 2^32
            b = (rnd.randint(1, M31 - 1), rtime(rnd)[1]); c = rnd.randint(2, 40000); w = (b[0] * c + M31) % 2 ** 32 - M31; a = (w, b[1] * c); L = a[1]
            if i % 8 == 0: a = (b[0], b[1]); b = (w, L)
        if L >= M31 or abs(a[0] * L) >= 2 ** 62 or abs(b[0] * L) >= 2 ** 62: continue
        want = b[0] != 0 and (Fraction(*a) / Fraction(*b)).denominator == 1
        progress('divisible %r %r' % (a, b)); got = bool(D(a[0], a[1], b[0], b[1])); n += 1
        if got != want: fail('%d/%d %s a multiple of %d/%d, the code says %s' % (a + ('is' if want else 'is not',) + b + (got,)))
    if D(5, 1, 1, 0): fail('a period of scale zero is hit')
    for i in range(chk.n(60, 500)):
        s = rtime(rnd); d = rtime(rnd); d = (abs(d[0]) % 50 + 1, d[1]); L = s[1] * d[1] // gcd(s[1], d[1]); N = rnd.randint(1, 400); t = s
        if abs(s[0]) * (L // s[1]) + N * d[0] * (L // d[1]) >= M31: continue
        progress('drift %r %r %d' % (s, d, N))
        for k in range(N):
            t = add(t, d); n += 1
            if t[1] == 0 or Fraction(*t) != Fraction(*s) + (k + 1) * Fraction(*d): fail('after %d steps of %d/%d from %d/%d the time is %d/%d' % ((k + 1,) + d + s + t))
        t = add.steps(s, d, N)
        if t[1] == 0 or Fraction(*t) != Fraction(*s) + N * Fraction(*d): fail('finishing %d steps of %d/%d from %d/%d the time is %d/%d' % ((N,) + d + s + t))
    return n


def decimals(lib, rnd, chk, progress):
    """every decimal with few digits; its nearest double must become exactly that decimal"""
    add, D, dec, K = calls(chk, lib); n = 0
    def one(v, e):
        d = float('%de-%d' % (v, e)); progress('decimal %r' % d); a = dec(d)
        if a[1] == 0 or Fraction(*a) != Fraction(v, 10 ** e): fail('%r seconds becomes %d/%d' % (d, a[0], a[1]))
        return 1
    for e in range(0, 4):
        for v in range(-1200, 1201): n += one(v, e)
    for i in range(chk.n(5000, 50000)):
        e = rnd.randint(0, 8); v = rnd.choice([rnd.randint(-M31 // 10, M31 // 10), rnd.randint(-10 ** 4, 10 ** 4), rnd.randint(-10 ** 6, 10 ** 6)]); n += one(v, e)
    return n
