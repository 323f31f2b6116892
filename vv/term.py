"""Terms: polynomials (over exact rationals) in hash-consed atoms, boolean formulas
over polynomial comparisons, symbolic pointers.

Numbers are mathematical (doubles as reals, machine integers as integers); the
assumption is reported by every check.  Canonical form:
  * a Poly is a map monomial -> Fraction, a monomial a sorted tuple of (atom, exponent)
  * ite(c,a,b) is normalised to b + [c]*(a-b) with indicator atoms [c], [c]^2=[c]
  * sqrt(p)^2 = p; division by a sum keeps an atom for the (monic) sum
  * sum(k<n) body is split over monomials, factors free of k are pulled out
"""
from fractions import Fraction
import math, sys
sys.setrecursionlimit(20000)

F0 = Fraction(0); F1 = Fraction(1)
_cons = {}
_cnt = [0]


class Atom:
    __slots__ = ('op', 'args', 'sort', 'id', 'bl', 'fv', '__weakref__')
    def __repr__(self): return show_atom(self)
    def __lt__(self, o): return self.id < o.id


def mk(op, *args, sort='R'):
    k = (op, args, sort)
    a = _cons.get(k)
    if a is None:
        a = Atom(); a.op = op; a.args = args; a.sort = sort
        _cnt[0] += 1; a.id = _cnt[0]
        # bl: max binder level inside; fv: frozenset of 'free' var atoms (k/bound vars)
        bl = 0; fv = frozenset()
        for x in args:
            b, f = info(x)
            if b > bl: bl = b
            if f: fv = fv | f
        if op in ('sum', 'fold', 'ball'):
            lv = args[0]; bl = max(bl, lv)
            fv = frozenset(v for v in fv if not (v.op == 'bv' and v.args[0] == lv))
        a.bl = bl
        if op in ('var', 'bv'): fv = fv | {a}
        a.fv = fv
        _cons[k] = a
    return a


def info(x):
    if isinstance(x, Atom): return x.bl, x.fv
    if isinstance(x, (Poly, B, Ptr)): return x.bl, x.fv
    if isinstance(x, tuple):
        bl = 0; fv = frozenset()
        for y in x:
            b, f = info(y); bl = max(bl, b); fv = fv | f
        return bl, fv
    return 0, frozenset()


class Poly:
    __slots__ = ('d', 'sort', '_h', 'bl', 'fv')
    def __init__(self, d, sort):
        self.d = d; self.sort = sort; self._h = None
        bl = 0; fv = set()
        for m in d:
            for a, e in m:
                if a.bl > bl: bl = a.bl
                if a.fv: fv |= a.fv
        self.bl = bl; self.fv = frozenset(fv)
    def __hash__(self):
        if self._h is None: self._h = hash((frozenset(self.d.items()), self.sort))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.sort == o.sort and self.d == o.d
    def __ne__(self, o): return not self == o
    def const(self):
        """Fraction if constant else None"""
        if not self.d: return F0
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None
    def __add__(self, o): return padd(self, lift(o, self.sort))
    def __radd__(self, o): return padd(lift(o, self.sort), self)
    def __sub__(self, o): return padd(self, pscale(lift(o, self.sort), -1))
    def __rsub__(self, o): return padd(lift(o, self.sort), pscale(self, -1))
    def __mul__(self, o): return pmul(self, lift(o, self.sort))
    def __rmul__(self, o): return pmul(lift(o, self.sort), self)
    def __neg__(self): return pscale(self, -1)
    def __truediv__(self, o): return pdiv(self, lift(o, self.sort))
    def __rtruediv__(self, o): return pdiv(lift(o, self.sort), self)
    def __lt__(self, o): return lt(self, lift(o, self.sort))
    def __gt__(self, o): return lt(lift(o, self.sort), self)
    def __le__(self, o): return le(self, lift(o, self.sort))
    def __ge__(self, o): return le(lift(o, self.sort), self)
    def __repr__(self): return show(self)


def R(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x, 1),): F1}, x.sort)
    x = Fraction(x)
    return Poly({(): x} if x else {}, 'R')


def I(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x, 1),): F1}, 'I')
    x = Fraction(x)
    return Poly({(): x} if x else {}, 'I')


def lift(x, sort):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x, 1),): F1}, x.sort)
    if isinstance(x, float): x = real_const(x)
    if isinstance(x, Poly): return x
    x = Fraction(x)
    return Poly({(): x} if x else {}, sort)


def padd(a, b):
    if not a.d: return b if b.sort == a.sort or not b.d else b
    if not b.d: return a
    s = a.sort if a.sort == 'R' else b.sort
    if len(a.d) < len(b.d): a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, F0) + c
        if v: d[m] = v
        else: d.pop(m, None)
    return Poly(d, s)


def pscale(a, c):
    c = Fraction(c)
    if not c: return Poly({}, a.sort)
    if c == 1: return a
    return Poly({m: v * c for m, v in a.d.items()}, a.sort)


def mmul(m1, m2):
    """multiply monomials -> (poly-extra list or None, mono). Handles ind and sqrt powers."""
    if not m1: return m2, ()
    if not m2: return m1, ()
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    extra = []
    out = []
    for a, e in d.items():
        if e == 0: continue
        if a.op == 'ind' and e > 1: e = 1
        if a.op == 'fn' and a.args[0] == 'sqrt' and not (0 <= e <= 1):
            q = e // 2; r = e - 2 * q
            extra.append((a.args[1], q))
            e = r
            if e == 0: continue
        out.append((a, e))
    # [p<0]*[p==0] = 0
    inds = [a for a, e in out if a.op == 'ind']
    if len(inds) > 1:
        seen = {}
        for a in inds:
            b = a.args[0]
            if b.op == 'cmp':
                q = seen.setdefault(b.args[1], b.args[0])
                if q != b.args[0]: return None, ()
    out.sort(key=lambda t: t[0].id)
    return tuple(out), extra


def pmul(a, b):
    if not a.d or not b.d: return Poly({}, a.sort if a.d else b.sort)
    s = 'R' if 'R' in (a.sort, b.sort) else 'I'
    d = {}; ex = []
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, extra = mmul(m1, m2)
            if m is None: continue
            if extra:
                p = Poly({m: c1 * c2}, s)
                for base, q in extra: p = pmul(p, ppow(base, q))
                ex.append(p)
            else:
                v = d.get(m, F0) + c1 * c2
                if v: d[m] = v
                else: d.pop(m, None)
    r = Poly(d, s)
    for p in ex: r = padd(r, p)
    return r


def ppow(p, n):
    if n == 0: return Poly({(): F1}, p.sort)
    if n < 0: return pdiv(Poly({(): F1}, p.sort), ppow(p, -n))
    r = p
    for _ in range(n - 1): r = pmul(r, p)
    return r


def lead(p):
    m = min(p.d, key=lambda m: tuple((a.id, e) for a, e in m) if m else (((1 << 60), 0),))
    return p.d[m]


def pdiv(a, b):
    c = b.const()
    if c is not None:
        if c == 0: return pmul(a, R(mk('fn', 'div0', sort='R')))
        return pscale(a, 1 / c)
    if len(b.d) == 1:
        (m, c), = b.d.items()
        if all(at.op != 'ind' for at, e in m):
            inv = Poly({tuple((at, -e) for at, e in m): 1 / c}, b.sort)
            # renormalise sqrt negative powers
            inv = pmul(inv, Poly({(): F1}, b.sort)) if not any(at.op == 'fn' and at.args[0] == 'sqrt' for at, e in m) else _invsq(m, c, b.sort)
            return pmul(a, inv)
    l = lead(b)
    q = pscale(b, 1 / l)
    at = mk('poly', q, sort=b.sort)
    return pmul(a, Poly({((at, -1),): 1 / l}, b.sort))


def _invsq(m, c, s):
    r = Poly({(): 1 / c}, s)
    for at, e in m:
        if at.op == 'fn' and at.args[0] == 'sqrt':
            r = pmul(r, pmul(pdiv(Poly({(): F1}, s), at.args[1]), Poly({((at, 1),): F1}, s)))
        else: r = pmul(r, Poly({((at, -e),): F1}, s))
    return r


class Ptr:
    __slots__ = ('op', 'args', '_h', 'bl', 'fv')
    def __init__(self, op, *args):
        self.op = op; self.args = args; self._h = hash((op, args)); self.bl, self.fv = info(args)
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Ptr) and self.op == o.op and self.args == o.args
    def __repr__(self):
        if self.op == 'null': return 'NULL'
        if self.op == 'p': return '&%s%s+%r' % (self.args[0], list(self.args[1]) if self.args[1] else '', self.args[2])
        return 'P%s%r' % (self.op, self.args)


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ('op', 'args', '_h', 'bl', 'fv')
    def __init__(self, op, *args):
        self.op = op; self.args = args; self._h = hash((op, args))
        self.bl, self.fv = info(args)
        if op == 'ball':
            lv = args[0]; self.bl = max(self.bl, lv)
            self.fv = frozenset(v for v in self.fv if not (v.op == 'bv' and v.args[0] == lv))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, B) and self.op == o.op and self.args == o.args
    def __ne__(self, o): return not self == o
    def __repr__(self): return show_b(self)
    def __and__(self, o): return And(self, o)
    def __or__(self, o): return Or(self, o)
    def __invert__(self): return Not(self)


TRUE = B('true'); FALSE = B('false')


def Bool(x): return TRUE if x else FALSE


def Not(b):
    if b.op == 'true': return FALSE
    if b.op == 'false': return TRUE
    if b.op == 'not': return b.args[0]
    if b.op == 'and': return Or(*[Not(x) for x in b.args])
    if b.op == 'or': return And(*[Not(x) for x in b.args])
    if b.op == 'cmp' and b.args[1].sort == 'I' and b.args[0] == '<':
        p = b.args[1]   # not(p<0)  <=> p>=0 <=> -p-1<0 ; keep canonical orientation
        return B('not', b)
    return B('not', b)


def And(*bs):
    out = []; seen = set()
    for b in bs:
        if b.op == 'true': continue
        if b.op == 'false': return FALSE
        for x in (b.args if b.op == 'and' else (b,)):
            if x in seen: continue
            if Not(x) in seen: return FALSE
            seen.add(x); out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return B('and', *sorted(out, key=bkey))


def Or(*bs):
    out = []; seen = set()
    for b in bs:
        if b.op == 'false': continue
        if b.op == 'true': return TRUE
        for x in (b.args if b.op == 'or' else (b,)):
            if x in seen: continue
            if Not(x) in seen: return TRUE
            seen.add(x); out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return B('or', *sorted(out, key=bkey))


_bk = {}
def bkey(b):
    k = _bk.get(b)
    if k is None: k = _bk[b] = len(_bk)
    return k


def Implies(a, b): return Or(Not(a), b)


def cmp0(op, p):
    """p op 0, op in '<','==','<='"""
    c = p.const()
    if c is not None:
        return Bool(c < 0 if op == '<' else c == 0 if op == '==' else c <= 0)
    # lift indicator-only polynomials: one indicator atom, linear
    if len(p.d) <= 2:
        nonc = [m for m in p.d if m]
        if len(nonc) == 1 and len(nonc[0]) >= 1 and all(a.op == 'ind' for a, e in nonc[0]):
            k0 = p.d.get((), F0); k1 = k0 + p.d[nonc[0]]
            f = lambda v: v < 0 if op == '<' else v == 0 if op == '==' else v <= 0
            b = And(*[a.args[0] for a, e in nonc[0]])
            t, e = f(k1), f(k0)
            return TRUE if t and e else FALSE if not t and not e else b if t else Not(b)
    if len(p.d) <= 12 and all(a.op == 'ind' for m in p.d for a, e in m):
        ats = sorted({a for m in p.d for a, e in m}, key=lambda a: a.id)
        if len(ats) <= 4:
            import itertools
            alts = []
            for bits in itertools.product((0, 1), repeat=len(ats)):
                on = {a for a, x in zip(ats, bits) if x}; seen = set(); bad = False
                for a in on:
                    if a.args[0].op == 'cmp':
                        if a.args[0].args[1] in seen: bad = True
                        seen.add(a.args[0].args[1])
                if bad: continue
                v = sum((c for m, c in p.d.items() if all(a in on for a, e in m)), F0)
                if v < 0 if op == '<' else v == 0 if op == '==' else v <= 0: alts.append(And(*[a.args[0] if a in on else Not(a.args[0]) for a in ats]))
            return Or(*alts)
    if p.sort == 'I':
        # integer tightening; divide by content
        from math import gcd
        dens = 1
        for v in p.d.values(): dens = dens * v.denominator // gcd(dens, v.denominator)
        if dens != 1: p = pscale(p, dens)
        if op == '<=':
            return cmp0('<', p - 1)
        g = 0
        for m, v in p.d.items():
            if m: g = gcd(g, int(abs(v)))
        k = p.d.get((), F0)
        if op == '==':
            if k % g: return FALSE
            if lead(p) < 0: g = -g
            return B('cmp', '==', pscale(p, Fraction(1, g)))
        # sum + k < 0  <=> sum/g < -k/g <=> sum/g + ceil(k/g) ... : s <= -k-1 => s/g <= floor((-k-1)/g)
        t = (-k - 1) // g     # s/g <= t  <=> s/g - t - 1 < 0
        q = pscale(Poly({m: v for m, v in p.d.items() if m}, 'I'), Fraction(1, g)) - t - 1
        if len(q.d) == 1 or (len(q.d) == 2 and () in q.d):      # lengths (names n_...) are natural numbers
            m = next(m for m in q.d if m); k0 = q.d.get((), F0)
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('fn', 'var') and str(m[0][0].args[0]).startswith('n_'):
                if q.d[m] == 1:
                    if k0 >= 0: return FALSE
                    if k0 == -1: return B('cmp', '==', q + 1)
                elif q.d[m] == -1:
                    if k0 < 0: return TRUE
                    if k0 == 0: return Not(B('cmp', '==', -q))
        if lead(q) > 0: return B('cmp', '<', q)
        return Not(B('cmp', '<', -q - 1))     # q<0  <=> not(-q-1 < 0)
    if op == '<=':
        return Or(cmp0('<', p), cmp0('==', p))
    l = lead(p)
    q = pscale(p, 1 / abs(l))
    if op == '==':
        if l < 0: q = -q
        return B('cmp', '==', q)
    if l > 0: return B('cmp', '<', q)
    # -q' < 0 with q' positive lead  <=> q' > 0 <=> not(q'<0) and not(q'==0)
    q = -q
    return And(B('not', B('cmp', '<', q)), B('not', B('cmp', '==', q)))


def lt(a, b): return cmp0('<', a - b)
def le(a, b): return cmp0('<=', a - b)
def eq(a, b): return cmp0('==', a - b)
def ne(a, b): return Not(eq(a, b))


def bvar(name, *args): return B('bv', name, tuple(args))


def ind(b, sort='R'):
    if b.op == 'true': return Poly({(): F1}, sort)
    if b.op == 'false': return Poly({}, sort)
    if b.op == 'not': return 1 - ind(b.args[0], sort)
    if b.op == 'and':
        r = ind(b.args[0], sort)
        for x in b.args[1:]: r = r * ind(x, sort)
        return r
    if b.op == 'or':
        r = 1 - ind(b.args[0], sort)
        for x in b.args[1:]: r = r * (1 - ind(x, sort))
        return 1 - r
    return Poly({((mk('ind', b, sort='I'), 1),): F1}, sort)


def ite(c, a, b):
    if c.op == 'true': return a
    if c.op == 'false': return b
    if isinstance(a, Ptr) or isinstance(b, Ptr): return pite(c, a, b)
    if isinstance(a, B): return Or(And(c, a), And(Not(c), b))
    if isinstance(a, tuple): return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a == b: return a
    s = 'R' if 'R' in (a.sort, b.sort) else 'I'
    if len(a.d) + len(b.d) > 60:
        if c.op == 'not': return ite(c.args[0], b, a)
        if a.sort == b.sort:
            com = {m: v for m, v in a.d.items() if b.d.get(m) == v}
            if com:
                q = Poly(com, s); return q + ite(c, a - q, b - q)
        if (not a.d or not b.d) and len(ind(c, s).d) <= 2: return b + ind(c, s) * (a - b)
        return R(mk('ite', c, a, b, sort=s))
    return b + ind(c, s) * (a - b)


def ball(k, lo, hi, body):
    """forall k in [lo,hi): body ; k is an Atom"""
    if body.op == 'true': return TRUE
    lv = max(body.bl, lo.bl, hi.bl) + 1
    body = subst(body, {k: I(mk('bv', lv, sort='I'))})
    return B('ball', lv, lo, hi, body)


# ------------------------------------------------------------------ functions
def fn(name, *args, sort='R'): return Poly({((mk('fn', name, *args, sort=sort), 1),): F1}, sort)
def var(name, sort='R'): return Poly({((mk('var', name, sort=sort), 1),): F1}, sort)
def atom_of(p):
    (m, c), = p.d.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


PI = mk('fn', 'pi')
PIp = R(PI)
INF = R(mk('fn', 'inf'))


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        from math import isqrt
        n, dd = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and dd * dd == c.denominator: return R(Fraction(n, dd))
    # pull out rational square content
    l = abs(lead(p)) if p.d else F1
    return fn('sqrt', p)


def fabs(p):
    if p == INF or p == -INF: return INF
    return ite(p < 0, -p, p)


_rc = {}
def real_const(x):
    """double literal -> exact-intent term: small rationals and rational multiples of pi^k are
    recognised (within 2 ulp); recorded as the 'decimal literal' assumption."""
    if x in _rc: return _rc[x]
    r = _real_const(x); _rc[x] = r
    return r


def _real_const(x):
    if math.isinf(x): return INF if x > 0 else -INF
    if math.isnan(x): return fn('nan')
    f = Fraction(x)
    if f.denominator <= 1 << 20: return R(f)
    for lim in (1000, 10 ** 6):
        g = f.limit_denominator(lim)
        if g and abs(float(g) - x) <= 2 * abs(math.ulp(x)) : return R(g)
    # decimal with few digits
    s = repr(x)
    if len(s.replace('.', '').replace('-', '').split('e')[0].strip('0')) <= 12: return R(Fraction(s))
    for k in (1, -1, 2, -2):
        y = x / math.pi ** k
        g = Fraction(y).limit_denominator(1000)
        if g and abs(float(g) - y) <= 6 * abs(math.ulp(y)):
            return pscale(ppow(PIp, k), g)
    return R(f)


# ------------------------------------------------------------------ pointers
NULL = Ptr('null')
def ptr(region, idx=(), off=0): return Ptr('p', region, tuple(I(x) for x in idx), I(off))
def punk(name, *args): return Ptr('unk', name, tuple(args))
def pite(c, a, b):
    if a == b: return a
    if c.op == 'true': return a
    if c.op == 'false': return b
    if c.op == 'not': return pite(c.args[0], b, a)
    return Ptr('ite', c, a, b)
def padd_off(p, o):
    if p.op == 'p': return Ptr('p', p.args[0], p.args[1], p.args[2] + o)
    if p.op == 'ite': return pite(p.args[0], padd_off(p.args[1], o), padd_off(p.args[2], o))
    if p.op == 'off': return padd_off2(p.args[0], p.args[1] + o)
    c = I(o).const()
    if c == 0: return p
    return Ptr('off', p, I(o))
def padd_off2(p, o): return p if o.const() == 0 else Ptr('off', p, o)


# ------------------------------------------------------------------ binders
def Sum(k, lo, hi, body):
    """sum_{k=lo}^{hi-1} body, k an Atom, assumes hi>=lo"""
    lo = I(lo) if not isinstance(lo, Poly) else lo
    hi = I(hi) if not isinstance(hi, Poly) else hi
    if not body.d: return body
    if lo.const() != 0:
        body = subst(body, {k: I(k) + lo}); hi = hi - lo
    n = hi
    c = n.const()
    if c is not None and c <= 3:
        r = Poly({}, body.sort)
        for j in range(max(0, int(c))): r = r + subst(body, {k: I(j)})
        return r
    out = Poly({}, body.sort)
    for m, cf in body.d.items():
        dep = tuple((a, e) for a, e in m if k in a.fv)
        ind_ = tuple((a, e) for a, e in m if k not in a.fv)
        if not dep:
            out = out + Poly({ind_: cf}, body.sort) * n
        else:
            lv = max(max(a.bl for a, e in dep), n.bl) + 1
            bb = subst(Poly({dep: F1}, body.sort), {k: I(mk('bv', lv, sort='I'))})
            s = mk('sum', lv, n, bb, sort=body.sort)
            out = out + pmul(Poly({ind_: cf}, body.sort), Poly({((s, 1),): F1}, body.sort))
    return out


def Fold(k, n, svars, inits, steps, which):
    """state machine fold: state tuple svars (Atoms / opaque), steps in terms of svars and k.
    Returns component `which` after n iterations."""
    c = n.const()
    if c is not None and c <= 0: return inits[which]
    for j, sv in enumerate(svars):      # 0/1-valued components: [s==0] -> 1-s
        if sv.sort != 'I' or inits[j].const() not in (0, 1): continue
        z = mk('ind', cmp0('==', I(sv)), sort='I')
        if not any(z in [a for a, e in m] for s_ in steps for m in s_.d): continue
        ats = sorted({a for m in steps[j].d for a, e in m}, key=lambda a: a.id)
        if len(ats) > 8 or any(a.op != 'ind' and a is not sv for a in ats): continue
        ok = True; oth = [a for a in ats if a is not sv and a is not z]
        for bits in range(1 << (len(oth) + 1)):
            val = {a: bits >> i & 1 for i, a in enumerate(oth)}; x = bits >> len(oth) & 1
            val[sv] = x; val[z] = 1 - x
            r = F0
            for m, cf in steps[j].d.items():
                for a, e in m: cf = cf * (val[a] ** e)
                r += cf
            if r not in (0, 1): ok = False; break
        if ok: steps = [subst(s_, {z: 1 - I(sv), '__ground__': True}) for s_ in steps]
    lv = max([info(s)[0] for s in steps] + [n.bl] + [info(s)[0] for s in inits]) + 1
    m = {k: I(mk('bv', lv, sort='I'))}
    for j, sv in enumerate(svars):
        m[sv] = I(mk('bv', lv, j, sort='I')) if sv.sort == 'I' else R(mk('bv', lv, j, sort='R'))
    steps = tuple(subst(s, m) for s in steps)
    a = mk('fold', lv, n, tuple(inits), steps, which, sort=svars[which].sort)
    return Poly({((a, 1),): F1}, a.sort)


# ------------------------------------------------------------------ substitution
def subst(x, m, cache=None):
    """m: Atom -> Poly (or Ptr handled by caller)"""
    if cache is None: cache = {}
    if isinstance(x, Poly):
        if not (x.fv & m.keys()) and not _hasground(m): return x
        key = x
        if key in cache: return cache[key]
        r = Poly({}, x.sort)
        acc = {}
        for mono, c in x.d.items():
            if not any(_touch(a, m) for a, e in mono):
                acc[mono] = acc.get(mono, F0) + c; continue
            t = Poly({(): c}, x.sort)
            for a, e in mono:
                v = subst_atom(a, m, cache)
                if e == 1: t = pmul(t, v)
                elif e > 1: t = pmul(t, ppow(v, e))
                else: t = pdiv(t, ppow(v, -e))
            r = padd(r, t)
        if acc: r = padd(r, Poly({k: v for k, v in acc.items() if v}, x.sort))
        if r.sort != x.sort: r = Poly(r.d, x.sort)
        cache[key] = r
        return r
    if isinstance(x, B):
        if not (x.fv & m.keys()) and not _hasground(m): return x
        if x in cache: return cache[x]
        r = subst_b(x, m, cache); cache[x] = r
        return r
    if isinstance(x, Ptr):
        if not (x.fv & m.keys()) and not _hasground(m): return x
        if x.op == 'p': return Ptr('p', x.args[0], tuple(subst(i, m, cache) for i in x.args[1]), subst(x.args[2], m, cache))
        if x.op == 'ite': return pite(subst(x.args[0], m, cache), subst(x.args[1], m, cache), subst(x.args[2], m, cache))
        if x.op == 'unk': return Ptr('unk', x.args[0], tuple(subst(i, m, cache) for i in x.args[1]))
        if x.op == 'off': return padd_off(subst(x.args[0], m, cache), subst(x.args[1], m, cache))
        return x
    if isinstance(x, tuple): return tuple(subst(y, m, cache) for y in x)
    if isinstance(x, Atom): return subst_atom(x, m, cache)
    return x


def _hasground(m): return '__ground__' in m
def _touch(a, m): return _hasground(m) or bool(a.fv & m.keys())


def subst_b(x, m, cache):
    if x.op == 'cmp':
        p = subst(x.args[1], m, cache)
        return cmp0(x.args[0], p)
    if x.op == 'not': return Not(subst(x.args[0], m, cache))
    if x.op == 'and': return And(*[subst(y, m, cache) for y in x.args])
    if x.op == 'or': return Or(*[subst(y, m, cache) for y in x.args])
    if x.op == 'bv': return B('bv', x.args[0], tuple(subst(y, m, cache) for y in x.args[1]))
    if x.op == 'ball':
        lo, hi, b = (subst(y, m, cache) for y in x.args[1:])
        return B('ball', x.args[0], lo, hi, b)
    return x


def subst_atom(a, m, cache):
    if a in m: return m[a]
    if a in cache: return cache[a]
    if not _touch(a, m): return Poly({((a, 1),): F1}, a.sort)
    op = a.op
    if op in ('var', 'bv'): r = Poly({((a, 1),): F1}, a.sort)
    elif op == 'fn':
        args = tuple(subst(x, m, cache) for x in a.args[1:])
        r = mkfn(a.args[0], args, a.sort)
    elif op == 'ind': r = ind(subst(a.args[0], m, cache), 'I')
    elif op == 'ite': r = ite(subst(a.args[0], m, cache), subst(a.args[1], m, cache), subst(a.args[2], m, cache))
    elif op == 'poly': r = subst(a.args[0], m, cache)
    elif op == 'sum':
        lv = a.args[0]
        # fresh name for the bound var to avoid capture/renormalise
        kk = mk('var', '$s%d' % fresh(), sort='I')
        b = subst(a.args[2], {mk('bv', lv, sort='I'): I(kk)})
        r = Sum(kk, I(0), subst(a.args[1], m, cache), subst(b, m))
    elif op == 'fold':
        lv, n, inits, steps, w = a.args
        ks = {mk('bv', lv, sort='I'): I(mk('var', '$f%d' % fresh(), sort='I'))}
        kk = atom_of(ks[mk('bv', lv, sort='I')])
        sv = []
        for j, s in enumerate(steps):
            so = s.sort
            v = mk('var', '$f%d' % fresh(), sort=so); sv.append(v)
            ks[mk('bv', lv, j, sort=so)] = Poly({((v, 1),): F1}, so)
        st = tuple(subst(subst(s, ks), m) for s in steps)
        r = Fold(kk, subst(n, m, cache), sv, tuple(subst(x, m, cache) for x in inits), st, w)
    else: raise Exception('subst ' + op)
    cache[a] = r
    return r


def mkfn(name, args, sort):
    if name == 'sqrt': return sqrt(args[0])
    return fn(name, *args, sort=sort)


_fresh = [0]
def fresh():
    _fresh[0] += 1
    return _fresh[0]


# ------------------------------------------------------------------ show
def show(p, lim=400):
    if not p.d: return '0'
    s = []
    for m, c in list(p.d.items())[:40]:
        f = '*'.join((repr(a) if e == 1 else '%r^%d' % (a, e)) for a, e in m)
        s.append((str(c) if not f else f if c == 1 else '-' + f if c == -1 else '%s*%s' % (c, f)))
    return ' + '.join(s) + (' + ...' if len(p.d) > 40 else '')


def show_atom(a):
    if a.op == 'var': return a.args[0]
    if a.op == 'bv': return 'k' + '_'.join(map(str, a.args))
    if a.op == 'fn': return a.args[0] + ('(%s)' % ', '.join(map(repr, a.args[1:])) if len(a.args) > 1 else '')
    if a.op == 'ind': return '[%r]' % a.args[0]
    if a.op == 'ite': return 'ite(%r, %r, %r)' % a.args
    if a.op == 'poly': return '(%r)' % a.args[0]
    if a.op == 'sum': return 'sum(k%d<%r: %r)' % a.args
    if a.op == 'fold': return 'fold(k%d<%r; %r; %r)#%d' % a.args
    return '%s%r' % (a.op, a.args)


def show_b(b):
    if b.op == 'cmp': return '%r %s 0' % (b.args[1], b.args[0])
    if b.op == 'not': return '!(%r)' % b.args[0]
    if b.op in ('and', 'or'): return '(' + (' %s ' % ('&&' if b.op == 'and' else '||')).join(map(repr, b.args)) + ')'
    if b.op == 'bv': return '%s(%s)' % (b.args[0], ', '.join(map(repr, b.args[1])))
    if b.op == 'ball': return 'forall k%d in [%r,%r): %r' % b.args
    return b.op


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception): pass


def ev(x, env):
    """env: dict with callables: env(name, args)->number for 'fn' memory symbols and vars"""
    if isinstance(x, Poly):
        # indicator factors first: terms that cancel or vanish under them are not evaluated
        r = 0; red = {}; iv = {}
        for m, c in x.d.items():
            rest = []
            for a, e in m:
                if a.op == 'ind':
                    v = iv.get(a)
                    if v is None: v = iv[a] = ev(a.args[0], env)
                    if not v: break
                else: rest.append((a, e))
            else:
                rest = tuple(rest); red[rest] = red.get(rest, 0) + c
        for m, c in red.items():
            if c == 0: continue
            t = c if x.sort == 'I' else tomp(c)
            for a, e in m:
                v = ev_atom(a, env)
                if e != 1:
                    if v == 0 and e < 0: raise EvalError('div0')
                    v = v ** e if e > 0 else 1 / mp.mpf(v) ** (-e)
                t = t * v
            r = r + t
        if x.sort == 'I' and isinstance(r, Fraction) and r.denominator == 1: r = int(r)
        return r
    if isinstance(x, B):
        o = x.op
        if o == 'true': return True
        if o == 'false': return False
        if o == 'not': return not ev(x.args[0], env)
        if o == 'and': return all(ev(y, env) for y in x.args)
        if o == 'or': return any(ev(y, env) for y in x.args)
        if o == 'cmp':
            v = ev(x.args[1], env)
            return v < 0 if x.args[0] == '<' else v == 0
        if o == 'bv': return bool(env(x.args[0], [ev(y, env) for y in x.args[1]]))
        if o == 'ball':
            lv, lo, hi, b = x.args
            return all(ev(b, Env2(env, lv, j)) for j in range(int(ev(lo, env)), int(ev(hi, env))))
    if isinstance(x, Ptr):
        if x.op == 'null': return ('null',)
        if x.op == 'p': return (x.args[0], tuple(ev(i, env) for i in x.args[1]), ev(x.args[2], env))
        if x.op == 'ite': return ev(x.args[1], env) if ev(x.args[0], env) else ev(x.args[2], env)
        return ('unk', x.args[0], tuple(ev(i, env) for i in x.args[1])) if x.op == 'unk' else ('off', ev(x.args[0], env), ev(x.args[1], env))
    raise EvalError('ev %r' % (x,))


class Env2:
    def __init__(self, base, lv, k, st=None): self.base = base; self.lv = lv; self.k = k; self.st = st
    def __call__(self, n, a): return self.base(n, a)
    def bv(self, args):
        if args[0] == self.lv:
            return self.k if len(args) == 1 else self.st[args[1]]
        return self.base.bv(args)


def ev_atom(a, env):
    if a.op in ('fn', 'ite', 'poly', 'sum', 'fold') and not any(v.op == 'bv' for v in a.fv):
        e = env
        while isinstance(e, Env2): e = e.base
        memo = e.__dict__.setdefault('memo', {}) if hasattr(e, '__dict__') else None
        if memo is not None:
            if a in memo: return memo[a]
            r = memo[a] = ev_atom_(a, e); return r
    return ev_atom_(a, env)


def ev_atom_(a, env):
    op = a.op
    if op == 'var': return env(a.args[0], [])
    if op == 'bv': return env.bv(a.args)
    if op == 'fn':
        n = a.args[0]; v = [ev(y, env) for y in a.args[1:]]
        f = NUM.get(n)
        if f: return f(*v)
        return env(n, v)
    if op == 'ind': return 1 if ev(a.args[0], env) else 0
    if op == 'ite': return ev(a.args[1], env) if ev(a.args[0], env) else ev(a.args[2], env)
    if op == 'poly': return ev(a.args[0], env)
    if op == 'sum':
        lv, n, b = a.args
        s = 0
        for j in range(int(ev(n, env))): s += ev(b, Env2(env, lv, j))
        return s
    if op == 'fold':
        lv, n, inits, steps, w = a.args
        st = [ev(i, env) for i in inits]
        for j in range(int(ev(n, env))):
            e2 = Env2(env, lv, j, st); st = [ev(s, e2) for s in steps]
        return st[w]
    raise EvalError(op)


import mpmath
from mpmath import mp
mp.dps = 110
BIG = mp.mpf(10) ** 60
def tomp(c): return c.numerator if c.denominator == 1 else mp.mpf(c.numerator) / c.denominator
def _div0(): raise EvalError('div0')
def _sq(x):
    if x < 0:
        if x > -1e-40: return mp.mpf(0)
        raise EvalError('sqrt')
    return mp.sqrt(x)
def _lg(x):
    if x <= 0: raise EvalError('log')
    return mp.log(x)
def _cexp(x):
    if x > 2000: raise EvalError('exp')
    return mp.exp(x)
def _tr(x): return int(x) if x >= 0 else -int(-x)
NUM = {'sqrt': _sq, 'pi': lambda: +mp.pi, 'inf': lambda: BIG, 'sin': mp.sin, 'cos': mp.cos,
       'exp': _cexp, 'erf': mp.erf, 'erfc': mp.erfc, 'log': _lg, 'atan2': mp.atan2, 'div0': _div0, 'nan': lambda: math.nan,
       'mod': lambda a, b: mp.fmod(a, b), 'floor': lambda x: int(mp.floor(x)), 'trunc': _tr, 'ceil': lambda x: int(mp.ceil(x)),
       'pow': lambda a, b: mp.power(a, b), 'fmod': lambda a, b: a - b * _tr(mp.mpf(a) / b), 'acos': mp.acos, 'asin': mp.asin, 'tan': mp.tan, 'atan': mp.atan,
       'sdiv': lambda a, b: _tr(Fraction(a) / Fraction(b)) if b else _div0(), 'srem': lambda a, b: int(math.fmod(a, b)) if b else _div0(), 'floordiv': lambda a, b: int(a // b) if b else _div0(),
       'ceildiv': lambda a, b: -int(-a // b) if b else _div0(), 'mod2': lambda a, b: int(a) % int(b),
       'udiv': lambda a, b: a // b if b else _div0(), 'urem': lambda a, b: a % b if b else _div0(), 'hypot': mp.hypot}
def fl(x):
    """mp value -> float"""
    if isinstance(x, (int, bool)): return x
    if isinstance(x, Fraction): return float(x)
    if x > mp.mpf(10) ** 50: return math.inf
    if x < -mp.mpf(10) ** 50: return -math.inf
    return float(x)
