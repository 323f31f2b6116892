"""Symbolic executor / VC generator over extracted LLVM IR.

Modular: calls to functions that have a contract use the contract, other defined
functions are executed in place.  Loops are summarised for an arbitrary number of
iterations: induction variables, carried scalars (registers and memory cells) and
per-element array updates are put in closed form (affine, delayed, sum, fold, map); the
closed form is the loop invariant, its base and step obligations are checked.
"""
from fractions import Fraction
import re, time
import z3
from .term import *
from . import term as T
from . import ir


class Unsupported(Exception):
    """outside the verifier's reach (tool limit, not a verdict)"""


class UnkPtr(Unsupported):
    def __init__(self, p): Unsupported.__init__(self, 'unresolved pointer %r' % (p,)); self.p = p


class State:
    __slots__ = ('mem', 'facts', 'trace', 'regs', 'ghost')
    def __init__(self): self.mem = {}; self.facts = (); self.trace = (); self.regs = None; self.ghost = {}
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.facts = self.facts; s.trace = self.trace; s.regs = dict(self.regs) if self.regs is not None else None
        s.ghost = dict(self.ghost)
        return s
    def assume(self, b):
        if b.op == 'true': return self
        if b.op == 'and':
            for x in b.args: self.assume(x)
            return self
        if b not in self.facts: self.facts = self.facts + (b,)
        return self


# ------------------------------------------------------------------ integer decision (z3 LIA)
class Decider:
    def __init__(self): self.cache = {}; self.z = {}; self.calls = 0; self.time = 0.0
    def zi(self, p):
        r = 0
        for m, c in p.d.items():
            t = None
            for a, e in m:
                if a.op == 'ind':
                    v = z3.If(self.zb(a.args[0]), z3.IntVal(1), z3.IntVal(0))
                else:
                    v = self.z.get(a)
                    if v is None: v = self.z[a] = z3.Int('a%d' % a.id) if a.sort == 'I' else z3.Real('a%d' % a.id)
                for _ in range(abs(e)): t = v if t is None else t * v
            if c.denominator != 1: c2 = z3.RealVal(str(c))
            else: c2 = z3.IntVal(int(c)) if p.sort == 'I' else z3.RealVal(int(c))
            t = c2 if t is None else (t if c == 1 else c2 * t)
            r = r + t
        return r if not isinstance(r, int) else (z3.IntVal(0) if p.sort == 'I' else z3.RealVal(0))
    def zb(self, b):
        if b.op == 'true': return z3.BoolVal(True)
        if b.op == 'false': return z3.BoolVal(False)
        if b.op == 'not': return z3.Not(self.zb(b.args[0]))
        if b.op == 'and': return z3.And([self.zb(x) for x in b.args])
        if b.op == 'or': return z3.Or([self.zb(x) for x in b.args])
        if b.op == 'cmp':
            p = b.args[1]
            if any(e < 0 for m in p.d for a, e in m): return z3.Bool('b%d' % bkey(b))
            x = self.zi(p)
            return x < 0 if b.args[0] == '<' else x == 0
        return z3.Bool('b%d' % bkey(b))
    def decide(self, facts, c):
        if c.op == 'true': return True
        if c.op == 'false': return False
        if c in facts: return True
        if Not(c) in facts: return False
        if c.op == 'and':
            rs = [self.decide(facts, x) for x in c.args]
            if all(r is True for r in rs): return True
            if any(r is False for r in rs): return False
        if c.op == 'or':
            rs = [self.decide(facts, x) for x in c.args]
            if any(r is True for r in rs): return True
            if all(r is False for r in rs): return False
        key = (facts, c)
        if key in self.cache: return self.cache[key]
        r = self._z(facts, c)
        self.cache[key] = r
        return r
    def _z(self, facts, c):
        # relevance: facts connected to c through shared atoms
        at = b_atoms(c); rel = []; todo = list(facts); ch = True
        while ch:
            ch = False; nt = []
            for f in todo:
                fa = b_atoms(f)
                if fa & at: rel.append(f); at = at | fa; ch = True
                else: nt.append(f)
            todo = nt
        if not rel and len(at) > 1 and c.op == 'cmp' and c.args[1].sort == 'R': return None
        self.calls += 1; t0 = time.time()
        s = z3.Solver(); s.set('rlimit', 400000); s.set('timeout', 20000)
        for f in rel: s.add(self.zb(f))
        zc = self.zb(c)
        s.push(); s.add(z3.Not(zc)); r1 = s.check(); s.pop()
        r = None
        if r1 == z3.unsat: r = True
        else:
            s.add(zc)
            if s.check() == z3.unsat: r = False
        self.time += time.time() - t0
        return r


_ba = {}
def b_atoms(b):
    r = _ba.get(b)
    if r is not None: return r
    out = set()
    def p_(p):
        for m in p.d:
            for a, e in m:
                if a.op == 'ind': out.update(b_atoms(a.args[0]))
                else: out.add(a)
    if b.op == 'cmp': p_(b.args[1])
    elif b.op in ('not', 'and', 'or'):
        for x in b.args: out.update(b_atoms(x))
    elif b.op == 'bv': out.add(b)
    _ba[b] = frozenset(out)
    return _ba[b]


# ------------------------------------------------------------------ memory updates
class St:   # single store
    __slots__ = ('idx', 'val')
    def __init__(self, idx, val): self.idx = idx; self.val = val
class Map:
    """for k in [0,n) (nested: dims): cell[idx] = val (if cond). dims: list of (k, n, pos, a, b):
    index position pos equals a*k+b; n of inner dims may mention outer k."""
    __slots__ = ('dims', 'idx', 'val', 'cond')
    def __init__(self, dims, idx, val, cond): self.dims = dims; self.idx = idx; self.val = val; self.cond = cond
class LoopW:
    """writes done by earlier iterations of the loop being summarised (values unknown)"""
    __slots__ = ('dims', 'idx')
    def __init__(self, dims, idx): self.dims = dims; self.idx = idx
class Hv:
    __slots__ = ('tag', 'keep')
    def __init__(self, tag, keep=None): self.tag = tag; self.keep = keep


def fnof(v, name):
    if isinstance(v, Poly) and len(v.d) == 1:
        (m, c), = v.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == name: return m[0][0].args[1:]
    return None


def pack32(lo, hi):
    """the 64-bit value of two neighbouring 32-bit members"""
    if not isinstance(lo, Poly) or not isinstance(hi, Poly): raise Unsupported('64-bit access to two members')
    a, b = lo.const(), hi.const()
    if a is not None and b is not None and a == int(a) and b == int(b): return I(int(a) % (1 << 32) + int(b) % (1 << 32) * (1 << 32))
    x, y = fnof(lo, 'lo32'), fnof(hi, 'hi32')
    if x and y and x[0] == y[0]: return x[0]
    return fn('pack32', lo, hi, sort='I')


def unpack32(v):
    c = v.const()
    if c is not None and c == int(c):
        s = lambda x: x - (1 << 32) if x >= 1 << 31 else x
        return I(s(int(c) % (1 << 32))), I(s((int(c) >> 32) % (1 << 32)))
    a = fnof(v, 'pack32')
    return a if a else (fn('lo32', v, sort='I'), fn('hi32', v, sort='I'))


class Region:
    def __init__(self, name, stride=0, ty=None, leaves=None):
        self.name = name; self.stride = stride; self.leaves = leaves or {}   # off -> (sort, fieldname)
        self.init = {}      # off -> callable(idx)->value
        self.dims = None; self.rowlen = None


class Engine:
    def __init__(self, mod):
        self.mod = mod
        self.dec = Decider()
        self.regions = {}
        self.contracts = []     # (regex on demangled, handler)
        self.rawcontracts = {}  # mangled name -> handler
        self.cfgs = {}
        self.depth = 0
        self.obl = []           # (name, facts, goal)
        self.calls_seen = {}
        self.max_paths = 4000
        self.npaths = 0
        self.merge = False; self.staged = None      # staged: called at the end of every round of an unrolled loop
        self.inlined = set()
        self.assumed = set()
        self.loopinfo = []
        self.dem = ir.demangle(list(mod.raw) + list(mod.decls))
        self.used_contracts = set()
        self.stubs = {}
        self.cuts = []          # loops with stated invariants
        self.catches = False    # every exception is of the type that a handler names
        self.unroll_most = 8    # rounds of a loop that ends within a constant number of rounds
        self.machine = False    # True: obligations that every interpretation of an integer register is in range (values are kept modulo 2^width)
        self.exact = {}         # (dividend atom, divisor) -> quotient known to be exact

    def inrange(self, st, signed, *xs):
        for v, w in xs:
            if not isinstance(v, Poly): continue
            c = v.const()
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
            if c is not None and lo <= c < hi: continue
            self.obl.append(('machine range', st.facts, And(v >= I(lo), v < I(hi))))

    def inrange_diff(self, st, d, w):
        if d.const() is not None and abs(d.const()) < (1 << w): return
        self.obl.append(('machine range', st.facts, And(d > I(-(1 << w)), d < I(1 << w))))

    # ---------------- regions
    def region(self, name, stride=0, ty=None, fields=None, nm=None):
        r = Region(name, stride)
        if ty:
            t = ir.Ty('named', ty) if isinstance(ty, str) else ty
            for o, l in self.mod.leaves(t):
                r.leaves[o] = (l, None)
            if stride is None: r.stride = self.mod.size(t)
        self.regions[name] = r
        if fields:
            for fname, off in fields.items(): self.setname(r, off, fname)
        return r
    def setname(self, r, off, fname):
        l = r.leaves.get(off, (None, None)); r.leaves[off] = (l[0], fname)

    def field(self, region, off):
        r = self.regions[region]; l = r.leaves.get(off)
        return '%s.%s' % (region, l[1] if l and l[1] else '@%d' % off)

    def sortof(self, ty):
        if ty.k in ('double', 'float'): return 'R'
        if ty.k == 'int': return 'I'
        return 'P'

    def initval(self, region, off, idx, ty):
        r = self.regions[region]
        f = r.init.get(off)
        if f: return f(*idx)
        l = r.leaves.get(off)
        if l and l[0] is not None and ty.k == 'int' and ty.n == 64 and l[0].k in ('double', 'ptr'): ty = l[0]
        name = self.field(region, off)
        if ty.k in ('double', 'float'): return fn(name, *idx)
        if ty.k == 'int': return fn(name, *idx, sort='I')
        if ty.k == 'ptr': return punk(name, *idx)
        raise Unsupported('load of %r' % ty)

    def resolve(self, p, st=None):
        """Ptr -> (region, off, idx)"""
        if p.op != 'p': raise UnkPtr(p)
        region, outer, off = p.args
        r = self.regions.get(region)
        if r is None: raise Unsupported('region %s' % region)
        if r.stride:
            S = r.stride; q = {}; c = 0
            for m, cf in off.d.items():
                if not m: c = int(cf); continue
                if (cf / S).denominator != 1: raise Unsupported('offset %r stride %d' % (off, S))
                q[m] = cf / S
            k, c = divmod(c, S)
            if k: q[()] = Fraction(k)
            if r.rowlen is not None:      # a matrix kept row after row: element k is (row, column) with k = row*rowlen + column, 0 <= column < rowlen
                c1 = r.rowlen.d.get((), Fraction(0)); (rm, rc), = [x for x in r.rowlen.d.items() if x[0]]; a = rm[0][0]; row = {}; col = {}      # rowlen = a + c1
                for m, cf in q.items():
                    e = dict(m).get(a, 0)
                    if e == 1: row[tuple(x for x in m if x[0] is not a)] = cf
                    elif e: raise Unsupported('row of %r' % off)
                    else: col[m] = cf
                row, col = Poly(row, 'I'), Poly(col, 'I'); col = col - row * I(int(c1))
                for _ in range(2):
                    if (col.const() if not col.d or () in col.d and len(col.d) == 1 else 0) < 0 or st is not None and c1 and self.dec.decide(st.facts, col < 0) is True: row, col = row - 1, col + r.rowlen
                    else: break
                if st is not None: self.obl.append(('column within the row', st.facts, And(col >= 0, col < r.rowlen)))
                return region, c, outer + (row, col)
            return region, c, outer + (Poly(q, 'I'),)
        c = off.const()
        if c is None:
            # indicator-only offsets handled as conditional pointers
            raise Unsupported('symbolic offset in %s: %r' % (region, off))
        return region, int(c), outer

    def load(self, st, p, ty):
        if p.op == 'ite':
            d = self.dec.decide(st.facts, p.args[0])
            if d is True: return self.load(st, p.args[1], ty)
            if d is False: return self.load(st, p.args[2], ty)
            if p.args[1].op == 'null': return self.load(st, p.args[2], ty)
            if p.args[2].op == 'null': return self.load(st, p.args[1], ty)
            for x, y, c in ((p.args[1], p.args[2], p.args[0]), (p.args[2], p.args[1], Not(p.args[0]))):
                if x.op == 'off' and x.args[0].op == 'null':
                    self.obl.append(('no null dereference', st.facts, Not(c))); return self.load(st, y, ty)
            return ite(p.args[0], self.load(st, p.args[1], ty), self.load(st, p.args[2], ty))
        if p.op in ('unk', 'off') or p.op == 'null':
            h = getattr(self, 'unk_load', None)
            if h:
                v = h(st, p, ty)
                if v is not None: return v
            raise UnkPtr(p)
        if ty.k in ('struct', 'named', 'array'):
            t = self.mod.res(ty)
            n = len(t.a) if t.k == 'struct' else t.n
            out = []
            for i in range(n):
                o, ft = self.mod.foff(t, i); out.append(self.load(st, padd_off(p, I(o)), ft))
            return tuple(out)
        if ty.k == 'vec':
            return tuple(self.load(st, padd_off(p, I(i * self.mod.size(ty.a))), ty.a) for i in range(ty.n))
        region, off, idx = self.resolve(p, st)
        hs = self.halves(st, region, off, ty)
        if hs: return pack32(*[self.readcell(st, region, off + 4 * k, idx, t) for k, t in enumerate(hs)])
        return self.readcell(st, region, off, idx, ty)

    def halves(self, st, region, off, ty):
        """the types of the two four-byte members a 64-bit access covers, if it does"""
        if ty is None or ty.k != 'int' or ty.n != 64: return None
        l = self.regions[region].leaves; h = l.get(off + 4)
        if h is not None and h[0] is not None and (h[0].k == 'int' and h[0].n <= 32 or h[0].k == 'float'): return (l[off][0] if off in l and l[off][0] is not None else ir.I32, h[0])
        if off not in l and (region, off + 4) in st.mem and not self.regions[region].stride: return (ir.I32, ir.I32)
        return None

    def readcell(self, st, region, off, idx, ty):
        h = st.mem.get((region, off), ())
        return self.rd(st, h, len(h) - 1, region, off, idx, ty)

    def rd(self, st, h, i, region, off, idx, ty):
        while i >= 0:
            u = h[i]
            if isinstance(u, St):
                c = idx_eq(u.idx, idx)
                d = self.dec.decide(st.facts, c)
                if d is True: return u.val
                if d is None:
                    rest = self.rd(st, h, i - 1, region, off, idx, ty)
                    return ite(c, u.val, rest)
            elif isinstance(u, Map):
                c, km = self.mapcond(u, idx)
                if c.op != 'false':
                    c = And(c, subst(u.cond, km))
                d = self.dec.decide(st.facts, c)
                if d is not False:
                    v = subst(u.val, km)
                    if d is True: return v
                    rest = self.rd(st, h, i - 1, region, off, idx, ty)
                    return ite(c, v, rest)
            elif isinstance(u, LoopW):
                c, km = self.mapcond(u, idx)
                if self.dec.decide(st.facts, c) is not False:
                    raise Unsupported('loop-carried array dependency on %s%r' % (self.field(region, off), idx))
            elif isinstance(u, Hv):
                if u.keep is not None:
                    c = u.keep(idx)
                    d = self.dec.decide(st.facts, c)
                    if d is True: i -= 1; continue
                    v = fn('%s%s' % (self.field(region, off), u.tag), *idx, sort=self.sortof(ty) if self.sortof(ty) != 'P' else 'I')
                    if d is False: return v
                    return ite(c, self.rd(st, h, i - 1, region, off, idx, ty), v)
                so = self.sortof(ty)
                if so == 'P': return punk('%s%s' % (self.field(region, off), u.tag), *idx)
                return fn('%s%s' % (self.field(region, off), u.tag), *idx, sort=so)
            i -= 1
        return self.initval(region, off, idx, ty)

    def mapcond(self, u, idx):
        """(condition that idx is hit, {k: value})"""
        cs = []; km = {}
        ps = [d[2] for d in u.dims]
        for k, n, pos, a, b in u.dims:
            d = idx[pos] - subst(b, km); q = {}
            for m, c in d.d.items():
                if (c / a).denominator != 1:
                    if not m and all((cc / a).denominator == 1 for mm, cc in d.d.items() if mm): return FALSE, {}
                    raise Unsupported('strided map index %r' % (idx,))
                q[m] = c / a
            kk = Poly(q, 'I'); km[k] = kk
            cs.append(kk >= 0)
            if n is not None: cs.append(kk < subst(n, km))
        for j, x in enumerate(idx):
            if j not in ps: cs.append(eq(subst(u.idx[j], km), x))
        return And(*cs), km

    def pnorm(self, st, p):
        """pointer with the alternatives the path excludes dropped"""
        if p.op == 'off' and p.args[0].op == 'ite': p = pite(p.args[0].args[0], padd_off(p.args[0].args[1], p.args[1]), padd_off(p.args[0].args[2], p.args[1]))
        if p.op != 'ite': return p
        d = self.dec.decide(st.facts, p.args[0])
        if d is None: return pite(p.args[0], self.pnorm(st, p.args[1]), self.pnorm(st, p.args[2]))
        return self.pnorm(st, p.args[1] if d else p.args[2])

    def store(self, st, p, v, ty=None):
        if p.op == 'ite':
            d = self.dec.decide(st.facts, p.args[0])
            if d is True: return self.store(st, p.args[1], v, ty)
            if d is False: return self.store(st, p.args[2], v, ty)
            for c, q in ((p.args[0], p.args[1]), (Not(p.args[0]), p.args[2])):
                if q.op == 'null' or q.op == 'off' and q.args[0].op == 'null':
                    self.obl.append(('no null dereference', st.facts, Not(c))); continue
                old = self.load(st, q, ty)
                self.store(st, q, ite(c, v, old), ty)
            return
        if isinstance(v, tuple):
            t = self.mod.res(ty)
            if t.k == 'vec':
                for i, x in enumerate(v): self.store(st, padd_off(p, I(i * self.mod.size(t.a))), x, t.a)
                return
            for i, x in enumerate(v):
                o, ft = self.mod.foff(t, i); self.store(st, padd_off(p, I(o)), x, ft)
            return
        if v is None: v = fn('undef%d' % fresh(), sort='R' if ty and ty.k in ('double', 'float') else 'I')
        region, off, idx = self.resolve(p, st)
        if isinstance(v, Poly):
            hs = self.halves(st, region, off, ty)
            if hs:
                for k, (t, x) in enumerate(zip(hs, unpack32(v))): self.store(st, padd_off(p, I(4 * k)), x, t)
                return
        h = st.mem.get((region, off), ())
        if h and isinstance(h[-1], St) and h[-1].idx == idx: h = h[:-1]
        st.mem[(region, off)] = h + (St(idx, v),)

    def memcpy(self, st, dst, src, n):
        c = n.const()
        if c is None and dst.op == 'p' and src.op == 'p':
            a, b = self.regions.get(dst.args[0]), self.regions.get(src.args[0])
            if a is not None and b is not None and a.rowlen is not None and a.rowlen == b.rowlen and n == a.rowlen * a.rowlen * 8 and not dst.args[2].d and not src.args[2].d: return self.matfill(st, dst.args[0], lambda i, j: self.readcell(st, src.args[0], 0, (i, j), b.leaves[0][0]))
        if c is None: raise Unsupported('memcpy symbolic length')
        c = int(c)
        for o, ty in self.leafrange(src, dst, c):
            self.store(st, padd_off(dst, I(o)), self.load(st, padd_off(src, I(o)), ty), ty)

    def matfill(self, st, reg, f):
        """a whole matrix gets new elements f(row, column)"""
        n = self.regions[reg].rowlen; ks = [mk('var', '$m%d' % fresh(), sort='I') for _ in range(2)]; v = f(*[I(k) for k in ks])
        st.mem[(reg, 0)] = st.mem.get((reg, 0), ()) + (Map([(k, n, p, 1, I(0)) for p, k in enumerate(ks)], tuple(I(k) for k in ks), v, TRUE),)

    def leafrange(self, src, dst, c):
        """leaf (offset,type) covering c bytes at src (or dst)"""
        for p in (src, dst):
            if p.op != 'p': continue
            region, off, idx = self.resolve(p)
            r = self.regions[region]
            if not r.leaves: continue
            out = []
            S = r.stride
            if S:
                for rep in range((off + c + S - 1) // S):
                    for o, (ty, _) in r.leaves.items():
                        oo = o + rep * S - off
                        if ty is not None and 0 <= oo < c: out.append((oo, ty))
            else:
                for o, (ty, _) in r.leaves.items():
                    if ty is not None and 0 <= o - off < c: out.append((o - off, ty))
            if out: return sorted(out, key=lambda t: t[0])
        raise Unsupported('memcpy without layout %r %r %d' % (dst, src, c))

    # ---------------- values
    def val(self, st, v):
        k = v.k
        if k == 'loc':
            try: return st.regs[v.v]
            except KeyError: raise Unsupported('undefined reg %s' % v.v)
        if k == 'int':
            if v.ty.k == 'int' and v.ty.n == 1: return Bool(v.v)
            if v.ty.k == 'int' and v.ty.n in (32, 64) and v.v < 0: return I(v.v)
            return I(v.v)
        if k == 'fp': return real_const(v.v)
        if k == 'null': return NULL
        if k == 'undef':
            if v.ty.k in ('struct', 'named', 'array', 'vec'):
                t = self.mod.res(v.ty); n = len(t.a) if t.k == 'struct' else t.n
                return (None,) * n
            return None
        if k == 'zero':
            return self.zero(v.ty)
        if k == 'glob':
            return self.globptr(v.v)
        if k == 'agg': return tuple(self.val(st, e) for e in v.v)
        if k == 'cexpr':
            if v.v[0] == 'gep':
                ops = v.v[2]
                return self.gep(st, self.val(st, ops[0]), v.v[1], ops[1:])
            if v.v[0] in ('inttoptr', 'bitcast', 'ptrtoint'): return self.val(st, v.v[1])
        raise Unsupported('operand %r' % (v,))

    def zero(self, ty):
        t = self.mod.res(ty)
        if t.k == 'double' or t.k == 'float': return R(0)
        if t.k == 'int': return Bool(0) if t.n == 1 else I(0)
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return tuple(self.zero(x) for x in t.a)
        if t.k in ('array', 'vec'): return tuple(self.zero(t.a) for _ in range(t.n))
        raise Unsupported('zero %r' % ty)

    def globptr(self, name):
        r = 'g:' + name
        if r not in self.regions:
            self.regions[r] = Region(r, 0)
            self.init_global(r, name)
        return ptr(r)

    def init_global(self, r, name):
        """constant initialisers of doubles / ints"""
        d = self.mod.globals.get(name, '')
        m = re.match(r'(?:[\w()]+ )*?(?:constant|global) (double|i\d+|float|ptr) ([^,]+)', d)
        reg = self.regions[r]
        if m and 'constant' in d:
            t = m.group(1); x = m.group(2).strip()
            v = ir.P(ir.tokenize(x), self.mod).value(ir.P(ir.tokenize(t), None).type())
            s = State(); s.regs = {}
            try:
                vv = self.val(s, v); reg.init[0] = lambda *a: vv
            except Unsupported: pass
            return
        m = re.match(r'(?:[\w()]+ )*?constant (\[.*)$', d)
        if m:
            try:
                p = ir.P(ir.tokenize(re.sub(r', align \d+.*$', '', m.group(1))), self.mod)
                t = p.type(); v = p.value(t)
                if v.k == 'agg':
                    reg.ginit = v; reg.gelem = t.a; self.init_agg(reg, 0, t, v)
            except (ir.ExtractError, Unsupported): pass

    def init_agg(self, reg, off, t, e):
        if e.k in ('int', 'fp', 'glob', 'cexpr', 'null'): x = self.val(State(), e)
        elif e.k in ('agg', 'zero'):
            tt = self.mod.res(t)
            if tt.k == 'struct':
                for j in range(len(tt.a)):
                    o, ft = self.mod.foff(tt, j)
                    self.init_agg(reg, off + o, ft, e.v[j] if e.k == 'agg' else ir.Val('zero', None, ft))
                return
            if tt.k == 'array':
                for j in range(tt.n if e.k == 'zero' else len(e.v)): self.init_agg(reg, off + j * self.mod.size(tt.a), tt.a, e.v[j] if e.k == 'agg' else ir.Val('zero', None, tt.a))
                return
            if e.k == 'agg' or tt.k not in ('int', 'double', 'float', 'ptr'): return
            x = self.zero(t)
        else: return
        reg.init[off] = lambda *a: x

    def cstring(self, p):
        """python string of a constant char array pointer"""
        if not isinstance(p, Ptr) or p.op != 'p' or not p.args[0].startswith('g:'): return None
        d = self.mod.globals.get(p.args[0][2:], '')
        m = re.search(r'constant \[\d+ x i8\] c"((?:[^"])*)"', d)
        if not m:
            if 'constant [1 x i8] zeroinitializer' in d: return ''
            return None
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), m.group(1))
        off = p.args[2].const()
        s = s[int(off):]
        return s.split('\0')[0]

    def gep(self, st, base, bt, idxs):
        off = I(0); t = bt
        for j, ix in enumerate(idxs):
            v = self.val(st, ix) if isinstance(ix, ir.Val) else ix
            if j == 0: off = off + v * self.mod.size(t); continue
            tt = self.mod.res(t)
            if tt.k in ('array', 'vec'): off = off + v * self.mod.size(tt.a); t = tt.a
            else:
                o, t = self.mod.foff(tt, int(v.const())); off = off + o
        if off.sort != 'I': off = Poly(off.d, 'I')
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        return padd_off(base, off)

    # ---------------- instruction semantics
    def binop(self, st, ins):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1]); op = ins.op
        if a is None or b is None: return None
        if isinstance(a, tuple):
            return tuple(self.arith(st, op, x, y, ins) for x, y in zip(a, b))
        return self.arith(st, op, a, b, ins)

    def arith(self, st, op, a, b, ins):
        if isinstance(a, B) or isinstance(b, B):
            if not isinstance(a, B): a = ne(a, I(0))
            if not isinstance(b, B): b = ne(b, I(0))
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'): return Or(And(a, Not(b)), And(Not(a), b))
            raise Unsupported('bool ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrarith(st, op, a, b)
        if op in ('fadd', 'add'): return a + b
        if op in ('fsub', 'sub'): return a - b
        if op in ('fmul', 'mul'): return a * b
        if op == 'fdiv': return a / b
        ca, cb = a.const(), b.const()
        if self.machine and op in ('sdiv', 'srem', 'ashr', 'udiv', 'urem', 'lshr') and ins.ty is not None:
            w = ins.ty.n
            if op[0] in 'sa': self.inrange(st, True, (a, w), (b, w))
            else:
                if ca is not None and ca < 0: a = a + (1 << w); ca = a.const()
                if cb is not None and cb < 0: b = b + (1 << w); cb = b.const()
                self.inrange(st, False, (a, w), (b, w))
            if op[1:] in ('div', 'rem'): self.obl.append(('no division by zero', st.facts, ne(b, I(0))))
        if self.exact and op in ('sdiv', 'udiv'):
            for (x, y), q in self.exact.items():
                if y != b: continue
                if isinstance(x, Poly):
                    if x == a: return q
                    continue
                out = {}; ok = bool(a.d)
                for m, c in a.d.items():
                    l = [i for i, (at, e) in enumerate(m) if at == x and e == 1]
                    if not l: ok = False; break
                    r = Poly({m[:l[0]] + m[l[0] + 1:]: c}, 'I') * q
                    for mm, cc in r.d.items(): out[mm] = out.get(mm, 0) + cc
                if ok: return Poly({m: c for m, c in out.items() if c}, 'I')
        if op in ('sdiv', 'udiv'):
            if cb is not None and cb != 0:
                if ca is not None:
                    q = abs(int(ca)) // abs(int(cb)); return I(q if (ca < 0) == (cb < 0) else -q)
                p = pscale(a, 1 / cb)
                if 'exact' in (ins.x or ()) or all(c.denominator == 1 for c in p.d.values()):
                    if all(c.denominator == 1 for c in p.d.values()): return p
            return fn('sdiv' if op == 'sdiv' else 'udiv', a, b, sort='I')
        if op in ('srem', 'urem'):
            if ca is not None and cb: return I(int(math.fmod(int(ca), int(cb))))
            return fn(op, a, b, sort='I')
        if op == 'shl' and cb is not None: return a * (1 << int(cb))
        if op in ('lshr', 'ashr') and cb == 32 and fnof(a, 'pack32'): return fnof(a, 'pack32')[1]
        if op in ('lshr', 'ashr') and cb is not None:
            p = pscale(a, Fraction(1, 1 << int(cb)))
            if all(c.denominator == 1 for c in p.d.values()): return p
            return fn('floordiv', a, I(1 << int(cb)), sort='I')
        if op in ('and', 'or', 'xor'):
            if ca is not None and cb is not None:
                x, y = int(ca), int(cb); return I(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
            if op == 'and':
                for x, y, cx in ((a, b, ca), (b, a, cb)):
                    if cx == 0: return I(0)
                    if cx == -1: return y
                    if cx is not None and cx > 0 and int(cx) & 1 and isflag(y): return y
                    if cx is not None and cx > 0 and (int(cx) & (int(cx) + 1)) == 0:
                        return fn('mod2', y, I(int(cx) + 1), sort='I')
            if op == 'or':
                if ca == 0: return b
                if cb == 0: return a
            if op == 'xor' and cb == 0: return a
            if op == 'xor' and cb == 1 and isflag(a): return 1 - a
            if op == 'xor' and cb == -1: return -a - 1
            return fn(op, a, b, sort='I')
        if op == 'frem': return fn('fmod', a, b)
        raise Unsupported(op)

    def ptrarith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr): return self.ptrdiff(a, b)
        if op == 'sub' and isinstance(a, Ptr): return padd_off(a, -b)
        if op == 'add': return padd_off(a, b) if isinstance(a, Ptr) else padd_off(b, a)
        raise Unsupported('pointer ' + op)

    def ptrdiff(self, a, b):
        if a == b: return I(0)
        if a.op == 'p' and b.op == 'p' and a.args[0] == b.args[0] and a.args[1] == b.args[1]: return a.args[2] - b.args[2]
        if a.op == 'ite': return ite(a.args[0], self.ptrdiff(a.args[1], b), self.ptrdiff(a.args[2], b))
        if b.op == 'ite': return ite(b.args[0], self.ptrdiff(a, b.args[1]), self.ptrdiff(a, b.args[2]))
        if a.op == 'off' and b.op == 'off' and a.args[0] == b.args[0]: return a.args[1] - b.args[1]
        if a.op == 'off' and a.args[0] == b: return a.args[1]
        if b.op == 'off' and b.args[0] == a: return -b.args[1]
        if a.op == 'null' and b.op == 'null': return I(0)
        raise Unsupported('ptrdiff %r %r' % (a, b))

    def ptrcmp(self, st, pred, a, b):
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'ite':
                f = lambda z: self.ptrcmp(st, pred, z, y) if not sw else self.ptrcmp(st, pred, y, z)
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
        if pred in ('eq', 'ne'):
            if a == b: r = TRUE
            elif a.op == 'null' or b.op == 'null':
                o = b if a.op == 'null' else a
                if o.op == 'p': r = FALSE
                elif o.op == 'unk': r = bvar('null?' + o.args[0], *o.args[1])
                elif o.op == 'off': r = FALSE
                else: raise Unsupported('ptrcmp')
            elif a.op == 'p' and b.op == 'p' and a.args[0] != b.args[0]: r = FALSE
            elif a.op == 'p' and b.op == 'p':
                r = And(*[eq(x, y) for x, y in zip(a.args[1], b.args[1])], eq(a.args[2], b.args[2]))
            elif a.op == 'unk' and b.op == 'unk': r = bvar('peq', fn('P' + a.args[0], *a.args[1], sort='I'), fn('P' + b.args[0], *b.args[1], sort='I'))
            else:
                try: r = eq(self.ptrdiff(a, b), I(0))
                except Unsupported: r = bvar('peq?%r?%r' % (a, b))
            return r if pred == 'eq' else Not(r)
        d = self.ptrdiff(a, b)
        return {'ult': d < 0, 'slt': d < 0, 'ule': d <= 0, 'sle': d <= 0, 'ugt': d > 0, 'sgt': d > 0, 'uge': d >= 0, 'sge': d >= 0}[pred]

    def icmp(self, st, pred, a, b):
        if a is None or b is None: return bvar('undef%d' % fresh())
        if isinstance(a, B) or isinstance(b, B):
            if not isinstance(a, B): a = ne(a, I(0))
            if not isinstance(b, B): b = ne(b, I(0))
            x = Or(And(a, b), And(Not(a), Not(b)))
            if pred == 'eq': return x
            if pred == 'ne': return Not(x)
            raise Unsupported('icmp bool ' + pred)
        if isinstance(a, Ptr) and isinstance(b, Ptr): return self.ptrcmp(st, pred, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('icmp ptr/int')
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return ne(a, b)
        if pred[0] == 'u':
            ca, cb = a.const(), b.const()
            if cb is not None and cb < 0: return Bool(pred in ('ult', 'ule'))
            if ca is not None and ca < 0: return Bool(pred in ('ugt', 'uge'))
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]

    def fcmp(self, st, pred, a, b):
        if pred == 'true': return TRUE
        if pred == 'false': return FALSE
        h = getattr(self, 'fcmp_hook', None)
        if h:
            r = h(st, pred, a, b)
            if r is not None: return r
        if pred in ('ord', 'uno'):
            n = Or(isnan(a), isnan(b)); return n if pred == 'uno' else Not(n)
        if has_nan(a) or has_nan(b):
            n = Or(isnan(a), isnan(b)); c = self.fcmp(st, 'o' + pred[1:], nonan(a), nonan(b))
            return Or(n, c) if pred[0] == 'u' else And(Not(n), c)
        # infinities against finite terms
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x == INF or x == -INF:
                if not has_inf(y):
                    s = 1 if x == INF else -1      # x - y sign
                    if sw: s = -s                   # now sign of (a-b)... a=y,b=x
                    p = pred[1:]
                    # sign of a-b
                    return Bool({'lt': s < 0, 'le': s < 0, 'gt': s > 0, 'ge': s > 0, 'eq': False, 'ne': True}[p])
        p = pred[1:]
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'eq': lambda: eq(a, b), 'ne': lambda: ne(a, b)}[p]()

    # ---------------- CFG
    def cfg(self, f):
        c = self.cfgs.get(f.name)
        if c is None: c = self.cfgs[f.name] = CFG(f)
        return c

    def tick(self):
        self.npaths += 1
        if self.npaths > self.max_paths: raise Unsupported('path limit')

    # run f with args in state st: returns list of (state, retval, kind)
    def call(self, f, args, st):
        if isinstance(f, str):
            g = self.mod.get(f)
            if g is None: raise Unsupported('no body for %s' % f)
            f = g
        self.depth += 1
        if self.depth > 40: self.depth -= 1; raise Unsupported('call depth')
        try:
            saved = st.regs
            st = st.copy(); st.regs = {}
            for (n, t, a), v in zip(f.params, args):
                if 'byval' in a and isinstance(v, Ptr):
                    # private copy
                    r = 'bv%d' % fresh()
                    self.region(r, 0, a['byval'])
                    q = ptr(r)
                    for o, ty in self.mod.leaves(a['byval']):
                        self.store(st, padd_off(q, I(o)), self.load(st, padd_off(v, I(o)), ty), ty)
                    v = q
                st.regs[n] = v
            outs = []
            for kind, s, x in self.run(f, f.order[0], None, st, None):
                if kind == 'ret':
                    s.regs = saved; outs.append((s, x, 'ret'))
                elif kind == 'exc':
                    s.regs = saved; outs.append((s, None, 'exc'))
                elif kind == 'quit': s.regs = saved; outs.append((s, None, 'quit'))
                elif kind == 'dead': pass
                else: raise Unsupported('call out %s' % kind)
            if self.merge and len(outs) > 1: outs = self.merge_outs(outs)
            return outs
        finally: self.depth -= 1

    def merge_outs(self, outs):
        res = [o for o in outs if o[2] == 'quit']
        for kind in ('ret', 'exc'):
            os = [o for o in outs if o[2] == kind]
            if len(os) <= 1: res += os; continue
            common = common_facts([o[0].facts for o in os])
            try:
                s, v = self.merge_states([(And(*[f for f in o[0].facts if f not in common]), o[0], o[1]) for o in os], common)
                res.append((s, v, kind))
            except Unsupported: res += os
        return res

    def merge_states(self, items, common):
        """items: (cond, state, extra) exclusive & exhaustive under common facts"""
        base = items[-1][1].copy(); base.facts = common
        keys = set()
        for c, s, v in items: keys |= set(s.mem)
        for k in keys:
            hs = [s.mem.get(k, ()) for c, s, v in items]
            if all(h == hs[0] for h in hs): base.mem[k] = hs[0]; continue
            if all(len(h) == len(hs[0]) and all(x is y for x, y in zip(h, hs[0])) for h in hs): base.mem[k] = hs[0]; continue
            pre = 0
            while all(len(h) > pre for h in hs) and all(h[pre] is hs[0][pre] for h in hs): pre += 1
            # only plain stores may differ
            locs = []
            for h in hs:
                for u in h[pre:]:
                    if not isinstance(u, St): raise Unsupported('merge of non-store updates')
                    if u.idx not in locs: locs.append(u.idx)
            nh = hs[0][:pre]
            if len(locs) > 1 and not all(self.dec.decide(common, idx_eq(a, b)) is False for i, a in enumerate(locs) for b in locs[:i]):
                raise Unsupported('merge of overlapping stores')
            for idx in locs:
                vs = []
                for (c, s, v), h in zip(items, hs):
                    ty = self.celltype(k, h, pre, idx, hs)
                    vs.append(self.rd(s, h, len(h) - 1, k[0], k[1], idx, ty))
                nh = nh + (St(idx, decision([(c, x) for (c, s, v), x in zip(items, vs)])),)
            base.mem[k] = nh
        ret = None
        vs = [v for c, s, v in items]
        if all(v is None for v in vs): ret = None
        elif any(v is None for v in vs): raise Unsupported('merge undef')
        else: ret = decision([(c, v) for c, s, v in items])
        # traces
        tr = [s.trace for c, s, v in items]
        if not all(t == tr[0] for t in tr):
            pre = 0
            while all(len(t) > pre for t in tr) and all(t[pre] == tr[0][pre] for t in tr): pre += 1
            out = tr[0][:pre]
            for (c, s, v), t in zip(items, tr):
                for e in t[pre:]: out = out + ((And(c, e[0]),) + e[1:],)
            base.trace = out
        g = {}
        for k in set().union(*[s.ghost.keys() for c, s, v in items]):
            xs = [s.ghost.get(k) for c, s, v in items]
            if all(x == xs[0] for x in xs): g[k] = xs[0]
            elif any(x is None for x in xs): raise Unsupported('merge ghost')
            else: g[k] = decision([(c, x) for (c, s, v), x in zip(items, xs)])
        base.ghost = g
        return base, ret

    def celltype(self, k, h, pre, idx, hs):
        r = self.regions[k[0]]; l = r.leaves.get(k[1])
        if l and l[0] is not None: return l[0]
        for hh in hs:
            for u in hh[pre:]:
                v = u.val
                if isinstance(v, Ptr): return ir.PTR
                if isinstance(v, B): return ir.I8
                if isinstance(v, Poly): return ir.DBL if v.sort == 'R' else ir.I64
        return ir.DBL

    # generator-less DFS; stop: Loop being summarised (outcomes 'back'/'exit') or a merge block name
    def run(self, f, blk, prev, st, ctx, skip=False):
        """ctx: None or ('loop', loop) ; returns list of (kind, state, x)"""
        out = []
        work = [(blk, prev, st, skip)]
        cfg = self.cfg(f)
        while work:
            blk, prev, st, skip_hdr = work.pop()
            while True:
                if ctx is not None and not skip_hdr:
                    if ctx[0] == 'loop':
                        L = ctx[1]
                        if blk == L.header: out.append(('back', st, prev)); break
                        if blk not in L.blocks: out.append(('exit', st, (blk, prev))); break
                    elif ctx[0] == 'until':
                        if blk == ctx[1]: out.append(('stop', st, prev)); break
                        L = ctx[2]
                        if L is not None:
                            if blk == L.header: out.append(('back', st, prev)); break
                            if blk not in L.blocks: out.append(('exit', st, (blk, prev))); break
                lp = cfg.loops.get(blk)
                if lp is not None and not (skip_hdr):
                    # entering an inner loop
                    for tgt, pv, s2 in self.loop(f, lp, prev, st, ctx):
                        if tgt in ('$exc', '$quit'): out.append((tgt[1:], s2, None)); continue
                        work.append((tgt, pv, s2, False))
                    break
                skip_hdr = False
                b = f.blocks[blk]
                st = self.phis(st, b, prev)
                res = self.block(f, b, st)
                # res: list of (state) after straight-line, or terminal kinds
                if len(res) != 1:
                    # several outcomes of calls: push each terminator separately
                    for kind, s in res:
                        if kind != 'ok': out.append((kind, s, None)); continue
                        for nb in self.terminate(f, b, s, out, ctx): work.append((nb[0], b.name if len(nb) < 3 else nb[2], nb[1], False))
                    break
                kind, s = res[0]
                if kind != 'ok': out.append((kind, s, None)); break
                nxt = self.terminate(f, b, s, out, ctx)
                if not nxt: break
                if len(nxt) == 1:
                    blk, st = nxt[0][0], nxt[0][1]; prev = b.name if len(nxt[0]) < 3 else nxt[0][2]; continue
                for nb in nxt: work.append((nb[0], b.name if len(nb) < 3 else nb[2], nb[1], False))
                break
        return out

    def phis(self, st, b, prev):
        if not b.phis or prev == JOINED: return st
        st = st.copy()
        vals = []
        for p in b.phis:
            for pb, v in p.x:
                if pb == prev: vals.append((p.res, self.val(st, v) if not (v.k == 'loc' and v.v not in st.regs) else None)); break
            else: raise Unsupported('phi pred %s' % prev)
        for r, v in vals: st.regs[r] = v
        return st

    def block(self, f, b, st):
        """straight-line instructions; returns [(kind,state)]"""
        states = [st]
        st = st.copy(); i = 0
        cur = [(st, 0)]; done = []
        while cur:
            st, i = cur.pop()
            while i < len(b.ins):
                ins = b.ins[i]; i += 1
                r = self.step(st, ins)
                if r is not None:
                    # list of (state, kind) forks
                    for s2, kind in r[1:]:
                        if kind == 'ok': cur.append((s2, i))
                        else: done.append((kind, s2))
                    if r[0][1] != 'ok': done.append((r[0][1], r[0][0])); st = None; break
                    st = r[0][0]
            if st is not None: done.append(('ok', st))
        return done

    def step(self, st, ins):
        op = ins.op; R_ = st.regs
        if op in ir.BIN:
            R_[ins.res] = self.binop(st, ins); return
        if op == 'load':
            p = self.val(st, ins.ops[0]); R_[ins.res] = self.load(st, p, ins.ty); return
        if op == 'store':
            v = self.val(st, ins.ops[0]); self.store(st, self.val(st, ins.ops[1]), v, ins.ty); return
        if op == 'getelementptr':
            R_[ins.res] = self.gep(st, self.val(st, ins.ops[0]), ins.x, ins.ops[1:]); return
        if op == 'icmp':
            a_, b_ = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            if self.machine and isinstance(a_, Poly) and isinstance(b_, Poly) and ins.ops[0].ty.k == 'int':
                w = ins.ops[0].ty.n
                if ins.x in ('eq', 'ne'): self.inrange_diff(st, a_ - b_, w)
                elif ins.x[0] == 's': self.inrange(st, True, (a_, w), (b_, w))
                else:
                    if b_.const() is not None and b_.const() < 0: b_ = b_ + (1 << w)
                    if a_.const() is not None and a_.const() < 0: a_ = a_ + (1 << w)
                    self.inrange(st, False, (a_, w), (b_, w))
            R_[ins.res] = self.icmp(st, ins.x, a_, b_); return
        if op == 'fcmp':
            R_[ins.res] = self.fcmp(st, ins.x, self.val(st, ins.ops[0]), self.val(st, ins.ops[1])); return
        if op == 'select':
            c, a, b = (self.val(st, o) for o in ins.ops)
            d = self.dec.decide(st.facts, c)
            R_[ins.res] = a if d is True else b if d is False else ite(c, self.fixb(a, b), self.fixb(b, a)); return
        if op == 'fneg':
            R_[ins.res] = -self.val(st, ins.ops[0]); return
        if op in ir.CAST:
            R_[ins.res] = self.cast(st, ins); return
        if op == 'freeze': R_[ins.res] = self.val(st, ins.ops[0]); return
        if op == 'alloca':
            r = 'a%d' % fresh()
            if ins.ops:
                # VLA: array of elements
                self.region(r, self.mod.size(ins.ty), ins.ty); R_[ins.res] = ptr(r); return
            t = self.mod.res(ins.ty)
            if t.k == 'array' and t.n > 64: self.region(r, self.mod.size(t.a), t.a)
            else: self.region(r, 0, ins.ty)
            R_[ins.res] = ptr(r); return
        if op == 'extractvalue':
            v = self.val(st, ins.ops[0])
            for i in ins.x: v = v[i]
            R_[ins.res] = v; return
        if op == 'insertvalue':
            v = self.val(st, ins.ops[0]); x = self.val(st, ins.ops[1])
            if len(ins.x) != 1: raise Unsupported('insertvalue depth')
            v = list(v); v[ins.x[0]] = x; R_[ins.res] = tuple(v); return
        if op == 'insertelement':
            v = list(self.val(st, ins.ops[0])); v[int(self.val(st, ins.ops[2]).const())] = self.val(st, ins.ops[1]); R_[ins.res] = tuple(v); return
        if op == 'extractelement':
            R_[ins.res] = self.val(st, ins.ops[0])[int(self.val(st, ins.ops[1]).const())]; return
        if op == 'shufflevector':
            a = self.val(st, ins.ops[0]); b = self.val(st, ins.ops[1]); m = ins.ops[2]
            if m.k == 'zero': idx = [0] * self.mod.res(m.ty).n
            elif m.k == 'agg': idx = [e.v if e.k == 'int' else None for e in m.v]
            else: idx = [None] * self.mod.res(m.ty).n
            ab = tuple(a) + tuple(b); R_[ins.res] = tuple(None if i is None else ab[i] for i in idx); return
        if op == 'call': return self.docall(st, ins)
        if op == 'landingpad': R_[ins.res] = (None, I(1) if self.catches else None); return
        raise Unsupported('instruction %s' % ins.txt)

    def fixb(self, a, b):
        if isinstance(a, B) and isinstance(b, Poly): return ind(a, b.sort)
        if a is None: raise Unsupported('select undef')
        return a

    def cast(self, st, ins):
        v = self.val(st, ins.ops[0]); op = ins.op; ft = ins.ops[0].ty; tt = ins.ty
        if v is None: return None
        if self.machine and isinstance(v, Poly) and ft.k == 'int' and ft.n > 1:
            if op in ('zext', 'uitofp'):
                if v.const() is not None and v.const() < 0: v = v + (1 << ft.n)
                self.inrange(st, False, (v, ft.n))
            elif op in ('sext', 'sitofp'): self.inrange(st, True, (v, ft.n))
        if op in ('zext', 'sext'):
            if isinstance(v, B): return ind(v, 'I') if op == 'zext' else -ind(v, 'I')
            c = v.const()
            if op == 'zext' and c is not None and c < 0: return I(int(c) + (1 << ft.n))
            return v
        if op == 'trunc':
            if tt.n == 1: return v if isinstance(v, B) else ne(v, I(0))
            if isinstance(v, Ptr): raise Unsupported('trunc ptr')
            if ft.n == 64 and tt.n == 32 and fnof(v, 'pack32'): return fnof(v, 'pack32')[0]
            if isinstance(v, B): return ind(v, 'I')
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, B): v = ind(v, 'I') if op == 'uitofp' else -ind(v, 'I')
            return Poly(v.d, 'R')
        if op in ('fptosi', 'fptoui'):
            c = v.const()
            if c is not None: return I(int(c))
            if all(x.denominator == 1 for x in v.d.values()) and all(a.sort == 'I' and e > 0 for m in v.d for a, e in m): return Poly(v.d, 'I')
            return fn('trunc', v, sort='I')
        if op in ('fpext', 'fptrunc'): return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'inttoptr' and isinstance(v, Poly):
                if v.const() == 0: return NULL
                raise Unsupported('inttoptr')
            return v
        raise Unsupported(op)

    def terminate(self, f, b, st, out, ctx):
        t = b.term
        if t.op == 'ret':
            self.tick()
            out.append(('ret', st, self.val(st, t.ops[0]) if t.ops else None)); return []
        if t.op == 'br': return [(t.x[0], st)]
        if t.op == 'unreachable': out.append(('dead', st, None)); return []
        if t.op == 'resume': out.append(('exc', st, None)); return []
        if t.op == 'condbr':
            c = self.val(st, t.ops[0])
            if c is None: c = bvar('undef%d' % fresh())
            d = self.dec.decide(st.facts, c)
            if d is True: return [(t.x[0], st)]
            if d is False: return [(t.x[1], st)]
            return self.fork(f, b, st, [(c, t.x[0]), (Not(c), t.x[1])], out, ctx)
        if t.op == 'switch':
            v = self.val(st, t.ops[0]); cs, dflt = t.x
            alts = []; rest = []
            for cv, tgt in cs:
                c = eq(v, I(cv)) if not isinstance(v, B) else (v if cv else Not(v)); d = self.dec.decide(st.facts, c)
                if d is True: return [(tgt, st)]
                if d is None: alts.append((c, tgt))
                rest.append(Not(c))
            if self.dec.decide(st.facts, And(*rest)) is not False and f.blocks[dflt].term.op != 'unreachable': alts.append((And(*rest), dflt))
            return self.fork(f, b, st, alts, out, ctx)
        if t.op == 'invoke':
            r = self.docall(st, t)
            nx = []
            if r is None: return [(t.x['ok'], st)]
            for s, kind in r:
                if kind == 'ok': nx.append((t.x['ok'], s))
                elif kind == 'exc': nx.append((t.x['unw'], s))
                else: out.append((kind, s, None))
            return nx
        raise Unsupported('terminator ' + t.txt)

    def fork(self, f, b, st, alts, out, ctx):
        states = []
        if self.merge:
            pd = self.cfg(f).ipdom(b.name)
            L = ctx[1] if ctx and ctx[0] == 'loop' else (ctx[2] if ctx else None)
            if pd is not None:
                if L is None or (pd in L.blocks and pd != L.header):
                    items = []; ok = True; rest = []
                    for c, tgt in alts:
                        s = st.copy(); s.assume(c)
                        if tgt == pd: items.append((s, b.name)); continue
                        for kind, s2, x in self.run(f, tgt, b.name, s, ('until', pd, L)):
                            if kind == 'stop': items.append((s2, x))
                            else: rest.append((kind, s2, x))
                    for k_ in rest:
                        out.append(k_)
                    if not items: return []
                    if len(items) == 1: return [(pd, items[0][0], items[0][1])]
                    try:
                        return [self.join(f, pd, items, st)]
                    except Unsupported:
                        return [(pd, s, pv) for s, pv in items]
        for c, tgt in alts:
            self.tick()
            s = st.copy(); s.assume(c); states.append((tgt, s))
        return states

    def join(self, f, pd, items, st0):
        """merge states arriving at block pd from several preds: evaluates phis, returns pseudo edge"""
        blk = f.blocks[pd]
        its = []
        common = common_facts([s.facts for s, pv in items])
        phv = []
        for s, pv in items:
            s2 = self.phis(s, blk, pv)
            cond = And(*[x for x in s2.facts if x not in common])
            its.append((cond, s2, None))
        # registers: keep those equal; merge those differing that are defined in all
        base, _ = self.merge_states(its, common)
        regs = {}
        keys = set(its[0][1].regs)
        for c, s, v in its[1:]: keys &= set(s.regs)
        for k in keys:
            vs = [s.regs[k] for c, s, v in its]
            if all(v is vs[0] or v == vs[0] for v in vs): regs[k] = vs[0]; continue
            if any(v is None for v in vs): regs[k] = None; continue
            try: regs[k] = decision([(c, x) for (c, s, v_), x in zip(its, vs)])
            except Exception:
                if k in [p.res for p in blk.phis]: raise Unsupported('merge reg')
        base.regs = regs
        # pseudo-predecessor: phis already evaluated
        return (pd, base, JOINED)

    # ---------------- calls
    def docall(self, st, ins):
        cal = ins.x['callee']
        if cal[0] == 'g': name = cal[1]
        else:
            h = getattr(self, 'indirect', None)
            if h: return h(self, st, ins)
            raise Unsupported('indirect call')
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name)
        args = [self.val(st, a) for a in ins.ops]
        h = self.handler(name)
        if h is not None:
            r = h(self, st, args, ins)
            return self.finish(st, ins, r)
        g = self.mod.get(name)
        if g is not None:
            self.inlined.add(name)
            outs = self.call(g, args, st)
            rr = []
            for s, v, kind in outs:
                # restore caller regs
                s.regs = dict(st.regs)
                if kind == 'ret':
                    if ins.res is not None: s.regs[ins.res] = v
                    rr.append((s, 'ok'))
                else: rr.append((s, kind))
            if not rr: return [(st, 'dead')]
            return rr
        raise Unsupported('external %s' % self.dem.get(name, name))

    def finish(self, st, ins, r):
        """handler results: None | value | list[(state,value,kind)]"""
        if isinstance(r, list):
            rr = []
            for s, v, kind in r:
                if s.regs is None or s is not st: s.regs = dict(st.regs) if s.regs is None else s.regs
                if kind == 'ret':
                    if ins.res is not None: s.regs[ins.res] = v
                    rr.append((s, 'ok'))
                else: rr.append((s, kind))
            return rr or [(st, 'dead')]
        if ins.res is not None: st.regs[ins.res] = r
        return None

    def handler(self, name):
        if name in self.rawcontracts: return self.rawcontracts[name]
        d = self.dem.get(name, name)
        for rx, h in self.contracts:
            if re.search(rx, d) or re.search(rx, name):
                self.rawcontracts[name] = h; self.used_contracts.add(d); return h
        h = LIBM.get(name)
        if h: return h
        return None

    def intrinsic(self, st, ins, name):
        a = [self.val(st, x) for x in ins.ops]
        n = name[5:]
        if n.startswith('lifetime.end'):      # what the object held is undefined from here on
            q = a[-1]
            if isinstance(q, Ptr) and q.op == 'p' and not q.args[1] and q.args[2].const() == 0 and q.args[0] not in getattr(self.unit, 'decl', {}):
                for ro in [ro for ro in st.mem if ro[0] == q.args[0]]: del st.mem[ro]
            return None
        if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'stackrestore', 'prefetch', 'va_')): return None
        if n.startswith('stacksave'): st.regs[ins.res] = punk('stack'); return None
        if n.startswith(('memcpy', 'memmove')): self.memcpy(st, a[0], a[1], a[2]); return None
        if n.startswith('memset'):
            c = a[2].const()
            if a[1].const() != 0: raise Unsupported('memset nonzero')
            if c is None: return self.memset_sym(st, a)
            for o, ty in self.leafrange(a[0], a[0], int(c)): self.store(st, padd_off(a[0], I(o)), self.zero(ty), ty)
            return None
        r = None
        if n.startswith('fmuladd') or n.startswith('fma.'): r = a[0] * a[1] + a[2]
        elif n.startswith('fabs'): r = self.habs(st, a[0])
        elif n.startswith('sqrt'): r = T.sqrt(a[0])
        elif n.startswith(('minnum', 'minimum')): r = ite(a[0] < a[1], a[0], a[1])
        elif n.startswith(('maxnum', 'maximum')): r = ite(a[0] > a[1], a[0], a[1])
        elif n.startswith(('smax', 'umax')): r = ite(a[0] > a[1], a[0], a[1])
        elif n.startswith(('smin', 'umin')): r = ite(a[0] < a[1], a[0], a[1])
        elif n.startswith('abs.'): r = ite(a[0] < 0, -a[0], a[0])
        elif n.startswith('expect'): r = a[0]
        elif n.startswith('eh.typeid'): r = I(1) if self.catches else I(fn('typeid%d' % fresh(), sort='I'))
        elif n.startswith('is.fpclass'):
            h = getattr(self, 'fpclass_hook', None)
            mask = int(a[1].const())
            r = h(st, a[0], mask) if h else self.fpclass(a[0], mask)
        elif n.startswith('copysign'): raise Unsupported(name)
        elif n.split('.')[0] in ('sin', 'cos', 'exp', 'log', 'pow', 'floor', 'ceil', 'trunc', 'log10'):
            r = fn(n.split('.')[0], *a)
        elif n.startswith(('umul.with', 'smul.with')): r = (a[0] * a[1], FALSE)
        elif n.startswith(('uadd.with', 'sadd.with')): r = (a[0] + a[1], FALSE)
        elif n.startswith(('usub.with', 'ssub.with')): r = (a[0] - a[1], a[0] < a[1] if n[0] == 'u' else FALSE)
        elif n == 'trap': return [(st, 'dead')]
        elif n.startswith(('usub.sat',)): r = ite(a[0] < a[1], I(0), a[0] - a[1])
        else: raise Unsupported(name)
        st.regs[ins.res] = r

    def habs(self, st, x): return T.fabs(x)

    def fpclass(self, x, mask):
        # finite reals: classes normal/subnormal/zero by sign  (bits: 0 snan 1 qnan 2 -inf 3 -norm 4 -sub 5 -zero 6 +zero 7 +sub 8 +norm 9 +inf)
        if x == INF: return Bool(mask & 512)
        if x == -INF: return Bool(mask & 4)
        if has_nan(x):
            n = isnan(x); c = self.fpclass(nonan(x), mask & ~3)
            return Or(And(n, Bool((mask & 3) != 0)), And(Not(n), c))
        if mask & 3 == mask: return FALSE
        fin = mask & 0x1f8
        if fin == 0x1f8: return TRUE
        if fin == 0: return FALSE
        c = FALSE
        for bits, k in ((0x18, x < 0), (0x60, eq(x, R(0))), (0x180, x > 0)):
            if fin & bits == bits: c = Or(c, k)
            elif fin & bits: raise Unsupported('fpclass %x' % mask)
        return c

    def memset_sym(self, st, a):
        p = a[0]
        region, off, idx = self.resolve(p)
        S = self.regions[region].stride
        if not S: raise Unsupported('memset')
        rl = self.regions[region].rowlen
        if rl is not None:
            if a[2] == rl * rl * 8 and not p.args[2].d: return self.matfill(st, region, lambda i, j: self.zero(self.regions[region].leaves[0][0]))
            raise Unsupported('memset of a part of a matrix')
        n = pscale(a[2], Fraction(1, S))
        k = mk('var', '$m%d' % fresh(), sort='I')
        for o, (ty, _) in self.regions[region].leaves.items():
            if ty is None: continue
            h = st.mem.get((region, o), ())
            st.mem[(region, o)] = h + (Map([(k, n, len(idx) - 1, 1, idx[-1])], idx, self.zero(ty), TRUE),)
        return None

    # ---------------- loops
    def loop(self, f, L, prev, st, ctx):
        from .loops import summarise
        if self.cuts:
            from . import cuts
            c = cuts.match(self, f, L)
            if c is not None: return cuts.cut(self, f, L, prev, st, ctx, c)
        mark = len(self.obl)
        try: return summarise(self, f, L, prev, st)
        except Unsupported as ex:
            del self.obl[mark:]
            try: return self.unroll(f, L, prev, st)
            except Unsupported: del self.obl[mark:]; raise ex

    def unroll(self, f, L, prev, st):
        """a loop that provably ends within a few rounds (every exit test is decided), executed round by round"""
        work = [(prev, st)]; res = []; most = self.unroll_most
        for rnd in range(most + 1):
            nxt = []
            for pv, s in work:
                for kind, s2, x in self.run(f, L.header, pv, s, ('loop', L), True):
                    if kind == 'back': nxt.append(self.staged(self, f, L, s2, x) if self.staged else (x, s2))
                    elif kind == 'exit': res.append((x[0], x[1], s2))
                    elif kind in ('exc', 'quit'): res.append(('$' + kind, None, s2))
                    elif kind != 'dead': raise Unsupported('unrolled loop: ' + kind)
            work = nxt
            if not work: return res
            if rnd == most or len(work) + len(res) > 3 * most: break
        raise Unsupported('loop not bounded by a constant')


JOINED = '$joined'


NANT = fn('nan')
NANA = atom_of(NANT)
def has_nan(p): return isinstance(p, Poly) and any(a is NANA for m in p.d for a, e in m)
def isnan(p):
    """a carried NaN constant (never a computed one: reals)"""
    if not has_nan(p): return FALSE
    out = []; some = {}
    for m, c in p.d.items():
        if not any(a is NANA for a, e in m): continue
        o = [a for a, e in m if a is not NANA]
        if not all(a.op == 'ind' for a in o): raise Unsupported('nan arithmetic')
        out.append(And(*[a.args[0] for a in o])); some[tuple((a, e) for a, e in m if a is not NANA)] = c
    if all(c > 0 for c in some.values()): return Or(*out)
    # alternatives that cancel (1 - [c]): NaN where what remains is not zero
    lits = sorted({a.args[0] for m in some for a, e in m}, key=repr)
    if len(lits) > 8: raise Unsupported('nan alternatives')
    res = []
    for bits in range(1 << len(lits)):
        on = {l for i, l in enumerate(lits) if bits >> i & 1}
        if sum(c for m, c in some.items() if all(a.args[0] in on for a, e in m)): res.append(And(*[l if l in on else Not(l) for l in lits]))
    return Or(*res)
def nonan(p): return Poly({m: c for m, c in p.d.items() if not any(a is NANA for a, e in m)}, p.sort)


def has_inf(p):
    if not isinstance(p, Poly): return False
    for m in p.d:
        for a, e in m:
            if a.op == 'fn' and a.args[0] in ('inf', 'nan'): return True
            if a.op in ('ind', 'fold', 'ite', 'sum', 'poly') and _ainf(a): return True
    return False
_ai = {}
def _ainf(a):
    r = _ai.get(a)
    if r is None:
        r = _ai[a] = 'inf' in repr(a)
    return r


def isflag(p):
    from .loops import isflag as f
    return isinstance(p, Poly) and f(p)


def idx_eq(a, b): return And(*[eq(x, y) for x, y in zip(a, b)])


def common_facts(fl):
    s = set(fl[0])
    for f in fl[1:]: s &= set(f)
    return tuple(x for x in fl[0] if x in s)


def decision(items):
    """[(cond, value)] exclusive+exhaustive -> nested ite"""
    v = items[-1][1]
    for c, x in reversed(items[:-1]):
        if isinstance(x, Poly) and isinstance(v, B): x = ne(x, I(0))
        if isinstance(v, Poly) and isinstance(x, B): x = ind(x, v.sort)
        v = ite(c, x, v)
    return v


# ------------------------------------------------------------------ libm contracts (assumed: exact real functions)
def _m1(n): return lambda E, st, a, ins: fn(n, a[0])
LIBM = {
    'sqrt': lambda E, st, a, ins: T.sqrt(a[0]), 'fabs': lambda E, st, a, ins: E.habs(st, a[0]),
    'sin': _m1('sin'), 'cos': _m1('cos'), 'exp': _m1('exp'), 'erf': _m1('erf'), 'erfc': _m1('erfc'), 'log': _m1('log'), 'floor': _m1('floor'), 'ceil': _m1('ceil'), 'tan': _m1('tan'), 'acos': _m1('acos'), 'asin': _m1('asin'), 'atan': _m1('atan'),
    'atan2': lambda E, st, a, ins: fn('atan2', a[0], a[1]), 'pow': lambda E, st, a, ins: (a[0] * a[0] if a[1].const() == 2 else fn('pow', a[0], a[1])),
    'hypot': lambda E, st, a, ins: T.sqrt(a[0] * a[0] + a[1] * a[1]), 'fmod': lambda E, st, a, ins: fn('fmod', a[0], a[1]),
    'log10': _m1('log10'),
    'fmax': lambda E, st, a, ins: ite(a[0] > a[1], a[0], a[1]), 'fmin': lambda E, st, a, ins: ite(a[0] < a[1], a[0], a[1]),
    '_ZdlPv': lambda E, st, a, ins: None, '_ZdlPvm': lambda E, st, a, ins: None, 'free': lambda E, st, a, ins: None,
    '_ZSt9terminatev': lambda E, st, a, ins: [(st, None, 'dead')],
    '__clang_call_terminate': lambda E, st, a, ins: [(st, None, 'dead')],
    'exit': lambda E, st, a, ins: [(st, None, 'quit')], 'abort': lambda E, st, a, ins: [(st, None, 'quit')],
}


# ------------------------------------------------------------------ CFG
class Loop:
    def __init__(self, h): self.header = h; self.blocks = {h}; self.latches = []


class CFG:
    def __init__(self, f):
        self.f = f
        self.succ = {}
        for n in f.order:
            t = f.blocks[n].term
            if t is None: s = []
            elif t.op in ('br', 'condbr'): s = list(t.x)
            elif t.op == 'switch': s = [x for _, x in t.x[0]] + [t.x[1]]
            elif t.op == 'invoke': s = [t.x['ok'], t.x['unw']]
            else: s = []
            self.succ[n] = s
        self.pred = {n: [] for n in f.order}
        for n in f.order:
            for s in self.succ[n]: self.pred[s].append(n)
        # dominators
        order = []; seen = set()
        def dfs(n0):
            stack = [(n0, iter(self.succ[n0]))]; seen.add(n0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen: seen.add(s); stack.append((s, iter(self.succ[s]))); break
                else: order.append(n); stack.pop()
        dfs(f.order[0]); rpo = order[::-1]; self.rpo = rpo
        num = {n: i for i, n in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for n in rpo[1:]:
                ps = [p for p in self.pred[n] if p in idom]
                x = ps[0]
                for p in ps[1:]: x = inter(x, p)
                if idom.get(n) != x: idom[n] = x; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == rpo[0]: return False
                b = idom[b]
        self.loops = {}
        for n in rpo:
            for s in self.succ[n]:
                if s in idom and dom(s, n):
                    L = self.loops.setdefault(s, Loop(s)); L.latches.append(n)
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in L.blocks: continue
                        L.blocks.add(x); st += self.pred[x]
        self._pd = None
    def ipdom(self, n):
        if self._pd is None: self.build_pd()
        return self._pd.get(n)
    def build_pd(self):
        # ignore unreachable/exception sinks when a normal exit exists
        nodes = self.rpo
        dead = set()
        ch = True
        for x in nodes:
            t = self.f.blocks[x].term
            if t is None or t.op in ('unreachable', 'resume'): dead.add(x)
        while ch:
            ch = False
            for x in nodes:
                if x not in dead and self.succ[x] and all(s in dead for s in self.succ[x]): dead.add(x); ch = True
        EXIT = '$exit'
        succ = {}
        for x in nodes:
            s = [y for y in self.succ[x] if y not in dead]
            # drop unwind edges
            if self.f.blocks[x].term is not None and self.f.blocks[x].term.op == 'invoke': s = [self.f.blocks[x].term.x['ok']]
            succ[x] = s or [EXIT]
        pd = {x: None for x in nodes}
        allb = set(nodes) | {EXIT}
        P = {x: set(allb) for x in nodes}; P[EXIT] = {EXIT}
        ch = True
        while ch:
            ch = False
            for x in reversed(nodes):
                s = set.intersection(*[P[y] for y in succ[x]]) | {x}
                if s != P[x]: P[x] = s; ch = True
        for x in nodes:
            c = P[x] - {x}
            # immediate: the one whose P is largest
            best = None
            for y in c:
                if best is None or len(P[y]) > len(P[best]): best = y
            pd[x] = best if best != EXIT else None
        self._pd = pd
