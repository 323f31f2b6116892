"""Contracts on real functions: specification terms, obligations, native cross-check."""
import time, random, math, ctypes, re, mpmath
from . import ir, sym, native
from .term import *
from .prove import Prover, NumEnv, violated, holds, STAT, all_atoms
from .sym import Unsupported, Engine, State


class Decl:
    def __init__(self, name, stride, size, leaves, dims):
        self.name = name; self.stride = stride; self.size = size; self.leaves = leaves; self.dims = dims; self.init = {}


class Unit:
    """regions + module: the memory a group of contracts talks about"""
    def __init__(self, chk, mod, so=None):
        self.chk = chk; self.mod = mod; self.so = so; self.decl = {}; self.contracts = []; self.ints = set(); self.rawc = {}
        self.gen = None; self.setup_hooks = []
        self._E0 = None
    def region(self, name, cls, members=(), dims=None, array=False, elem=None):
        """cls: C++ class; members named; array: last dim indexes consecutive elements.
        elem: name->(ty) for plain element arrays ('double','ptr','i64')"""
        if elem is not None:
            t = {'double': ir.DBL, 'ptr': ir.PTR, 'i32': ir.Ty('int', 32), 'i64': ir.I64, 'i8': ir.I8, 'float': ir.Ty('float')}[elem]
            sz = self.mod.size(t); lv = {0: (t, 'v')}
        else:
            ln = llvm_name(self.mod, cls)
            t = ir.Ty('named', ln)
            sz = self.mod.size(t); lv = {o: (l, None) for o, l in self.mod.leaves(t)}
            for m in members:
                o = self.chk.off(cls, m)
                if o not in lv: raise ir.ExtractError('no leaf %s.%s' % (cls, m))
                lv[o] = (lv[o][0], m)
        d = Decl(name, sz if array else 0, sz, lv, dims or [])
        d.cls = cls
        self.decl[name] = d
        for o, (l, f) in lv.items():
            if l.k == 'int': self.ints.add('%s.%s' % (name, f if f else '@%d' % o))
        self._E0 = None
        return d
    def raw(self, name, stride, leaves, dims=None, array=True):
        """region of elements given by explicit leaves {offset: (kind, name or None)}"""
        K = {'double': ir.DBL, 'ptr': ir.PTR, 'i32': ir.Ty('int', 32), 'i64': ir.I64, 'i8': ir.I8, 'float': ir.Ty('float')}
        d = Decl(name, stride if array else 0, stride, {o: (K[k], n) for o, (k, n) in leaves.items()}, dims or []); d.cls = None
        self.decl[name] = d
        for o, (k, n) in leaves.items():
            if k[0] == 'i': self.ints.add('%s.%s' % (name, n if n else '@%d' % o))
        self._E0 = None; return d
    def matrix(self, name, n, m=None, elem='double'):
        """n x m (n x n) numbers kept row after row; indexed (row, column)"""
        m = n if m is None else m; d = self.raw(name, {'double': 8, 'float': 4}[elem], {0: (elem, 'v')}, [n, m]); d.rowlen = I(m); return d
    def off(self, region, member): return self.chk.off(self.decl[region].cls, member)
    def cellty(self, region, member):
        d = self.decl[region]
        if member == 'v' and d.leaves.get(0, (0, 0))[1] == 'v': return 0, d.leaves[0][0]
        o = self.chk.off(d.cls, member) if isinstance(member, str) else member
        return o, d.leaves[o][0]
    def setptr(self, region, member, f):
        o = self.chk.off(self.decl[region].cls, member); self.decl[region].init[o] = f
    def setoff(self, region, off, f): self.decl[region].init[off] = f
    def vec(self, region, member, target, n, cap=None):
        """std::vector at region.member over block `target`; n: fn(idx) -> length"""
        d = self.decl[region]; o = self.chk.off(d.cls, member); S = self.decl[target].stride
        d.init[o] = lambda *i: ptr(target, i)
        d.init[o + 8] = lambda *i: ptr(target, i, n(*i) * S)
        d.init[o + 16] = lambda *i: ptr(target, i, (cap(*i) if cap else n(*i)) * S)
    def engine(self, merge=True):
        E = Engine(self.mod); E.merge = merge; E.unit = self
        for n, d in self.decl.items():
            r = E.region(n, d.stride); r.leaves = dict(d.leaves); r.init = dict(d.init); r.rowlen = getattr(d, 'rowlen', None)
        E.contracts = list(self.contracts) + STDC
        for h in self.setup_hooks: h(E)
        return E
    @property
    def E0(self):
        if self._E0 is None: self._E0 = self.engine()
        return self._E0
    def F(self, region, member):
        """symbol of initial cell content: returns fn(*idx) -> term"""
        d = self.decl[region]; o, ty = self.cellty(region, member)
        E = self.E0
        return lambda *idx: E.initval(region, o, tuple(I(x) for x in idx), ty)


def llvm_name(mod, cls):
    for k in ('class.', 'struct.'):
        if k + cls in mod.types: return k + cls
    # std containers etc: explicit
    if cls in mod.types: return cls
    raise ir.ExtractError('no type %s' % cls)


# ---- assumed contracts on the standard library
def push_back(E, st, a, ins):
    vec, src = a[0], a[1]
    end = E.load(st, padd_off(vec, I(8)), ir.PTR)
    S = E.regions[end.args[0]].stride
    E.memcpy(st, end, src, I(S))
    E.store(st, padd_off(vec, I(8)), padd_off(end, I(S)), ir.PTR)
    return None
def nothing(E, st, a, ins): return None
def throw(E, st, a, ins): return [(st, None, 'exc')]
def newexc(E, st, a, ins):
    E.region('$exc', 0); return ptr('$exc')
STDC = [(r'^(void )?std::vector<.*>::push_back\(', push_back), (r'^__cxa_allocate_exception$', newexc), (r'^__cxa_free_exception$', nothing), (r'^__cxa_throw$', throw), (r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|domain_error|length_error|range_error|bad_alloc)::(~)?\w+\(', nothing)]


class Case:
    def __init__(self, name, unit, func, args, pre, post, ret, ignore, gen, samples, exc, native, tol, frame, merge, hints, engine_setup, nargs, extra_post, min_n, lemmas=(), events=None):
        self.__dict__.update(locals()); del self.__dict__['self']
        self.status = None; self.obl = []; self.why = ''; self.nat = 0; self.fail = None


def goal_eq(a, b):
    """formula: engine value a equals spec value b"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        return And(*[goal_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Ptr) or isinstance(b, Ptr): return ptr_eq(a, b)
    if isinstance(a, B) and isinstance(b, Poly): a = ind(a, b.sort)
    if isinstance(b, B) and isinstance(a, Poly): a = ne(a, I(0))
    if isinstance(a, B): return And(Or(Not(a), b), Or(a, Not(b)))
    return eq(a, b)


def ptr_eq(a, b):
    if not isinstance(a, Ptr) or not isinstance(b, Ptr): return FALSE
    if a == b: return TRUE
    if a.op == 'ite': return And(Or(Not(a.args[0]), ptr_eq(a.args[1], b)), Or(a.args[0], ptr_eq(a.args[2], b)))
    if b.op == 'ite': return And(Or(Not(b.args[0]), ptr_eq(a, b.args[1])), Or(b.args[0], ptr_eq(a, b.args[2])))
    if a.op == 'p' and b.op == 'p' and a.args[0] == b.args[0]:
        return And(*[eq(x, y) for x, y in zip(a.args[1], b.args[1])], eq(a.args[2], b.args[2]))
    if a.op == 'unk' and b.op == 'unk' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        return And(*[eq(x, y) for x, y in zip(a.args[1], b.args[1])])
    return FALSE


def dim_facts(d, idx):
    out = []; done = ()
    for j, x in enumerate(idx):
        b = d.dims[j]
        if callable(b): b = b(*done)
        out += [x >= 0, x < I(b)]; done = done + (x,)
    return out


def with_facts(fs, extra): return tuple(fs) + tuple(x for x in extra if x.op != 'true' and x not in fs)


def abstract_folds(obl, prover):
    """name every loop recurrence (fold) once: folds of the code and of the contract that are proved to be the same recurrence get
    the same symbol, so that the obligations around them stay small"""
    from .prove import subst_all, with_fact
    from .loops import isflag
    memo = {}
    def top(x, acc):
        if isinstance(x, Poly):
            for m in x.d:
                for a, e in m: topa(a, acc)
        elif isinstance(x, B):
            for y in x.args:
                if isinstance(y, (Poly, B)): top(y, acc)
                elif isinstance(y, tuple):
                    for z in y: top(z, acc)
    def topa(a, acc):
        if a in memo: acc |= memo[a]; return
        r = set()
        if a.op == 'fold' and closed(a): r.add(a)
        else:
            for y in a.args:
                if isinstance(y, (Poly, B)): top(y, r)
                elif isinstance(y, tuple):
                    for z in y: top(z, r)
        memo[a] = r; acc |= r
    allf = set(); loc = []
    for name, fs, g in obl:
        acc = set(); top(g, acc)
        for f in fs: top(f, acc)
        loc.append(acc); allf |= acc
    if not allf or sum(len(repr(R(a) if a.sort == 'R' else I(a))) for a in allf) < 6000: return obl
    classes = []; facts0 = None
    real = [o for o in obl if not o[0].startswith('lemma ')]
    base = set(real[0][1])
    for _, fs, _ in real: base &= set(fs)
    base = tuple(f for f in real[0][1] if f in base and len(repr(f)) < 2000)
    for a in sorted(allf, key=lambda a: a.id):
        for cl in classes:
            b = cl[0]
            if a.sort != b.sort or len(a.args[3]) != len(b.args[3]): continue
            try:
                if prover.ateq(base, a, b, 0, [prover.maxsplit]): cl.append(a); break
            except (OverflowError, RecursionError): pass
        else: classes.append([a])
    m = {}; extra = {}
    for cl in classes:
        v = mk('var', '$F%d' % fresh(), sort=cl[0].sort); P = Poly({((v, 1),): F1}, v.sort)
        for a in cl: m[a] = P
        if v.sort == 'I' and any(isflag(I(a)) for a in cl): extra[v] = (P >= 0, P <= 1)
    out = []
    for (name, fs, g), acc in zip(obl, loc):
        if not acc: out.append((name, fs, g)); continue
        mm = {a: m[a] for a in acc}
        fs2 = ()
        for f in fs: fs2 = with_fact(fs2, subst_all(f, mm))
        fs2 += tuple(x for v, xs in extra.items() if any(m[a].fv == frozenset([v]) or v in m[a].fv for a in acc) for x in xs)
        out.append((name, fs2, subst_all(g, mm)))
    return out


def closed(a):
    """no bound variable of an enclosing binder"""
    r = _cl.get(a)
    if r is None:
        r = _cl[a] = not (freebv(a, {}) - set())
    return r
_cl = {}
def freebv(x, memo):
    if isinstance(x, Poly):
        r = set()
        for m in x.d:
            for a, e in m: r |= freebv(a, memo)
        return r
    if isinstance(x, B):
        if x in memo: return memo[x]
        r = set()
        for y in x.args:
            if isinstance(y, (Poly, B)): r |= freebv(y, memo)
            elif isinstance(y, tuple):
                for z in y: r |= freebv(z, memo)
        if x.op == 'ball': r = {b for b in r if b[0] != x.args[0]}
        memo[x] = r; return r
    if not isinstance(x, Atom): return set()
    if x in memo: return memo[x]
    if x.op == 'bv': r = {x.args}
    else:
        r = set()
        if x.op in ('sum', 'fold'):
            inner = set()
            for y in (x.args[2:3] if x.op == 'sum' else x.args[3]): inner |= freebv(y, memo)
            r = {b for b in inner if b[0] != x.args[0]} | freebv(x.args[1], memo)
            if x.op == 'fold':
                for y in x.args[2]: r |= freebv(y, memo)
        else:
            for y in x.args:
                if isinstance(y, (Poly, B)): r |= freebv(y, memo)
                elif isinstance(y, tuple):
                    for z in y: r |= freebv(z, memo)
    memo[x] = r; return r


class Ev:
    """an expected call: happens exactly when `guard` holds, with these argument values"""
    def __init__(self, name, *args, guard=TRUE): self.name = name; self.args = args; self.guard = guard


class For:
    """the events f(k) for k = 0..n-1 in that order; split(k): conditions the calls of one round depend on (every combination is checked on its own)"""
    def __init__(self, n, f, split=None): self.n = n; self.f = f; self.split = split


def under(b, lits):
    """what is left of a condition when the given literals hold"""
    if b in lits: return TRUE
    if Not(b) in lits: return FALSE
    if b.op == 'and': return And(*[under(x, lits) for x in b.args])
    if b.op == 'or': return Or(*[under(x, lits) for x in b.args])
    if b.op == 'not': return Not(under(b.args[0], lits))
    return b


def emit(st, name, *args): st.trace = st.trace + ((TRUE, name) + args,)


def events_obl(act, exp, facts, tag):
    """obligations: the sequence of calls made is exactly the expected one"""
    out = []
    # calls made on exclusive branches stand for one call
    act = list(act); i = 0
    groups = []
    for a in act:
        if a[1] != 'loop' and groups and groups[-1][0][1] == a[1] and len(act) > len(exp) and any(excl(a[0], b[0]) for b in groups[-1]) and all(excl(a[0], b[0]) for b in groups[-1]): groups[-1].append(a)
        else: groups.append([a])
    if len(groups) != len(exp):
        return [('events%s: %d calls or loops of calls made, %d expected' % (tag, len(groups), len(exp)), facts, FALSE)]
    for j, (g, x) in enumerate(zip(groups, exp)):
        t = '%s.%d' % (tag, j)
        if isinstance(x, For):
            a = g[0]
            if a[1] != 'loop' or len(g) != 1: return [('events%s: a loop of calls expected' % t, facts, FALSE)]
            _, _, k, at, evs, known = a; facts2 = with_facts(facts, [a[0]] + list(known))
            if callable(x.n): facts2 = facts2 + tuple(y for f in known if f.op == 'ball' for z in (at - 1, I(0)) for y in [Or(lt(z, f.args[1]), le(f.args[2], z), subst(f.args[3], {mk('bv', f.args[0], sort='I'): z}))])
            n = at if callable(x.n) else x.n
            out.append(('events%s: number of rounds' % t, facts2, x.n(at) if callable(x.n) else eq(at, I(x.n))))
            q = mk('var', '$e%d' % fresh(), sort='I'); m = {k: I(q)}
            evs = [tuple(subst(y, m) if isinstance(y, (Poly, B, Ptr)) else subst_ev(y, m) for y in e) for e in evs]; facts2 = with_facts(facts2, [I(q) >= 0, I(q) < I(n)])
            if x.split is None: out += events_obl(evs, x.f(I(q)), facts2, t); continue
            cs = x.split(I(q))
            for bits in range(1 << len(cs)):
                lits = [c if bits >> i & 1 else Not(c) for i, c in enumerate(cs)]; ls = set(lits)
                here = [(under(e[0], ls),) + tuple(e[1:]) for e in evs]; want_ = [y for y in x.f(I(q)) if not isinstance(y, Ev) or under(y.guard, ls) is not FALSE and under(y.guard, ls).op != 'false']
                out += events_obl([e for e in here if e[0].op != 'false'], want_, with_facts(facts2, lits), '%s[%s]' % (t, format(bits, '0%db' % len(cs))))
            continue
        if g[0][1] != x.name: return [('events%s: call of %s expected, %s made' % (t, x.name, g[0][1]), facts, FALSE)]
        ga = Or(*[a[0] for a in g])
        out.append(('events%s: %s only when specified' % (t, x.name), with_facts(facts, [ga]), x.guard))
        out.append(('events%s: %s whenever specified' % (t, x.name), with_facts(facts, [x.guard]), ga))
        for a in g:
            for n, (u, v) in enumerate(zip(a[2:], x.args)):
                if v is None: continue
                out.append(('events%s: %s, argument %d' % (t, x.name, n), with_facts(facts, [a[0], x.guard]), goal_eq(u, v)))
    return out


def events_poset(E, st, exp, facts, tag=''):
    """the calls made are exactly the expected ones, each after those it has to follow; independent calls may come in any order.
    exp: [(Ev, indices of the calls it follows)]"""
    out = []; at = {}
    for i, a in enumerate(st.trace):
        hit = None
        for j, (x, _) in enumerate(exp):
            if j in at or a[1] != x.name: continue
            same = And(*[goal_eq(E.pnorm(st, u) if isinstance(u, Ptr) else u, v) for u, v in zip(a[2:], x.args) if v is not None])
            if same.op == 'true' or same.op != 'false' and E.dec.decide(tuple(facts), same) is True: hit = j; break
        if hit is None: return [('events%s: a call of %s that is not expected' % (tag, a[1]), facts, FALSE)]
        at[hit] = i; out.append(('events%s: %s made' % (tag, a[1]), with_facts(facts, [exp[hit][0].guard]), a[0]))
    for j, (x, before) in enumerate(exp):
        if j not in at: out.append(('events%s: %s is missing' % (tag, x.name), facts, Not(x.guard))); continue
        for b in before:
            if b in at and at[b] > at[j]: out.append(('events%s: %s has to follow %s' % (tag, x.name, exp[b][0].name), facts, FALSE))
    return out


def excl(a, b):
    x = set(a.args if a.op == 'and' else (a,)); y = set(b.args if b.op == 'and' else (b,))
    if any(Not(p) in y for p in x): return True
    return DEC.decide(tuple(y), And(*x)) is False
DEC = sym.Decider()


def subst_ev(y, m):
    if isinstance(y, tuple): return tuple(subst(z, m) if isinstance(z, (Poly, B, Ptr)) else subst_ev(z, m) for z in y)
    return y


class TooLong(BaseException): pass


def timed(f, seconds):
    """f(), or None when it takes longer"""
    import signal, threading
    if threading.current_thread() is not threading.main_thread(): return f()
    def late(*a): raise TooLong()
    import z3
    dog = threading.Timer(seconds + .2, z3.main_ctx().interrupt); dog.daemon = True          # a solver call does not look at the alarm
    old = signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, seconds); dog.start()
    try: return f()
    except TooLong: return None
    finally: dog.cancel(); signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)


def prove_case(c, prover, budget=60):
    """run the engine on the real function, discharge all obligations of the contract"""
    u = c.unit
    E = u.engine(merge=c.merge)
    if c.engine_setup: c.engine_setup(E)
    t0 = time.time()
    st = State(); st.regs = {}; st.ghost = dict(getattr(E, 'ghost0', {}))
    for p in c.pre: st.assume(p)
    args = [ptr(a.r) if isinstance(a, native.Byval) else a for a in c.args]
    if c.func in u.mod.raw: func = c.func
    else: raise Unsupported('function %s not found' % c.func)
    outs = E.call(func, args, st)
    c.inlined = sorted(E.dem.get(x, x) for x in E.inlined); c.used = sorted(E.used_contracts); c.loops = len(E.loopinfo)
    obl = []
    for name, facts, g in E.obl: obl.append((name, facts, g))
    if not outs: raise Unsupported('no outcome')
    for k, (s, v, kind) in enumerate(outs):
        tag = '' if len(outs) == 1 else ' [path %d]' % k
        if kind == 'exc':
            obl.append(('throws only when specified' + tag, s.facts, c.exc if c.exc is not None else FALSE))
            if getattr(c.extra_post, 'exc', None): obl += [(n + tag, f, g) for n, f, g in c.extra_post.exc(E, s)]
            continue
        if kind == 'quit':
            obl.append(('ends the program only when specified' + tag, s.facts, FALSE)) if not getattr(c.extra_post, 'quit', None) else obl.extend((n + tag, f, g) for n, f, g in c.extra_post.quit(E, s))
            continue
        if kind != 'ret': continue
        if c.exc is not None: obl.append(('does not throw when valid' + tag, s.facts, Not(c.exc)))
        if c.events is not None: obl += events_obl(s.trace, c.events, s.facts, tag)
        if c.ret is not None:
            r = c.ret
            obl.append(('return value' + tag, s.facts, goal_eq(v, r)))
        posted = set()
        for (reg, mem), spec in c.post.items():
            d = u.decl[reg]; o, ty = u.cellty(reg, mem); posted.add((reg, o))
            idx = tuple(I(mk('var', '$q%d' % fresh(), sort='I')) for _ in d.dims)
            fs = s.facts
            for f in dim_facts(d, idx): fs = fs + ((f,) if f.op != 'true' else ())
            s2 = s.copy(); s2.facts = fs
            act = E.readcell(s2, reg, o, idx, ty)
            sp = spec(*idx) if callable(spec) else spec
            obl.append(('%s.%s%s' % (reg, mem, tag), fs, goal_eq(act, sp)))
        for (reg, o), h in s.mem.items():
            if (reg, o) in posted or reg not in u.decl or not h: continue
            d = u.decl[reg]
            if (reg, o) in c.ignore or (reg, '*') in c.ignore: continue
            if o not in d.leaves: continue
            ty = d.leaves[o][0]
            idx = tuple(I(mk('var', '$q%d' % fresh(), sort='I')) for _ in d.dims)
            fs = s.facts
            for f in dim_facts(d, idx): fs = fs + ((f,) if f.op != 'true' else ())
            s2 = s.copy(); s2.facts = fs
            act = E.readcell(s2, reg, o, idx, ty); ini = E.initval(reg, o, idx, ty)
            obl.append(('frame %s%s' % (E.field(reg, o), tag), fs, goal_eq(act, ini)))
        if c.extra_post:
            obl += [(n + tag, f, g) for n, f, g in c.extra_post(E, s, v)]
    concl = ()
    for lname, lobl, lf in c.lemmas: concl += tuple(lf)
    obl = [(n, with_facts(f, concl), g) for n, f, g in obl]
    for lname, lobl, lf in c.lemmas: obl += [('lemma %s: %s' % (lname, n), tuple(f), g) for n, f, g in lobl]
    c.exec_time = time.time() - t0
    res = []
    if getattr(c, 'keep', None): obl = [o for o in obl if c.keep(o[0])]      # the others are decided under another property
    obl = abstract_folds(obl, prover)
    for name, fs, g in obl:
        t1 = time.time()
        if time.time() - t0 > budget: res.append((name, 'timeout', None, fs, g, 0)); continue
        r = timed(lambda: prover.prove(fs, g), min(60, max(1, budget - (t1 - t0))) if budget < 1000 else 600)
        if r is None: prover = prover.__class__(); res.append((name, 'timeout', None, fs, g, time.time() - t1)); continue
        res.append((name, 'proved' if r else 'open', r.by, fs, g, time.time() - t1))
    c.obl = res
    c.total_time = time.time() - t0
    return res


class Env(NumEnv):
    def __init__(self, rnd, base, gen, ints):
        NumEnv.__init__(self, rnd, base, gen); self.ints = ints
    def __call__(self, name, args):
        k = (name,) + tuple(args)
        if k in self.v: return self.v[k]
        x = self.base.get(k)
        if x is None and self.gen: x = self.gen(name, args, self.r)
        if x is None:
            r = self.r
            if name in self.ints: x = r.choice([0, 1, 2, 3])
            elif name[:2] in ('n', 'm') or name.startswith(('$', 'n_')): x = r.choice([0, 1, 2, 3, 4, 5])
            else: x = r.choice([0.0, 1.0, -1.0, 0.5, 2.0]) if r.random() < 0.25 else round(r.uniform(-3, 3), 3)
        elif name in self.ints: x = int(x)
        if isinstance(x, float): x = mpmath.mpf(x)
        self.v[k] = x
        return x


def mag(p, env):
    m = 0.0
    if isinstance(p, Poly):
        for mm, c in p.d.items():
            try: v = abs(fl(ev(Poly({mm: c}, p.sort), env)))
            except EvalError: continue
            if v < math.inf: m += v
    return m


def close(a, b, scale, tol, floor=0.0):
    """a: value computed by the code, b: exact value of the contract, scale: size of the terms that cancel"""
    if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= tol * abs(b) + 1e-12 * scale + floor


def inmax(env):
    m = 0.0
    for v in env.v.values():
        if isinstance(v, mpmath.mpf):
            f = abs(float(v))
            if f < 1e30 and f > m: m = f
    return m


RET = {'double': ctypes.c_double, 'int': ctypes.c_int, 'long': ctypes.c_long, 'bool': ctypes.c_bool, 'ptr': ctypes.c_void_p, 'void': None,
       'vec': native.TVecS, 'uint': ctypes.c_uint, 'size_t': ctypes.c_size_t}


def run_native(c, env, lib):
    """execute the real function on the concrete state env; -> None if as specified, else message"""
    u = c.unit
    m = native.Mem(u, env)
    before = m.snapshot()
    # expected values first (spec over the initial state)
    args = []
    for a in (c.nargs if c.nargs is not None else c.args):
        if isinstance(a, native.Byval):
            class S_(ctypes.Structure): _fields_ = [('b', ctypes.c_ubyte * a.size)] if a.size > 24 or True else []
            S_ = type('BV%d' % a.size, (ctypes.Structure,), {'_fields_': [('d', ctypes.c_double * (a.size // 8))]})
            s = S_(); ctypes.memmove(ctypes.addressof(s), m.celladdr(a.r, (), 0), a.size); args.append(s)
        elif isinstance(a, Ptr): args.append(ctypes.c_void_p(m.address(a)))
        elif isinstance(a, B): args.append(ctypes.c_bool(ev(a, env)))
        elif a.sort == 'R': args.append(ctypes.c_double(float(ev(a, env))))
        else: args.append(ctypes.c_long(int(ev(a, env))))
    exp = {}
    for (reg, mem), spec in c.post.items():
        d = u.decl[reg]; o, ty = u.cellty(reg, mem)
        for (name, outer), n in m.cnt.items():
            if name != reg: continue
            for j in range(n if d.stride else 1):
                idx = outer + ((j,) if d.stride else ())
                sp = spec(*[I(x) for x in idx]) if callable(spec) else spec
                if isinstance(sp, Ptr): exp[(reg, o, idx)] = (m.address(sp), 0, ty, mem)
                elif isinstance(sp, B): exp[(reg, o, idx)] = (int(ev(sp, env)), 0, ty, mem)
                else: exp[(reg, o, idx)] = (fl(ev(sp, env)), mag(sp, env), ty, mem)
    rexp = None
    if c.ret is not None:
        rexp = [(m.address(x) if isinstance(x, Ptr) else fl(ev(x, env)), mag(x, env)) for x in (c.ret if isinstance(c.ret, tuple) else (c.ret,))]
    floor = 1e-11 * (1 + inmax(env) ** 2) if c.tol < 1e-6 else c.tol * (1 + inmax(env) ** 2) * 1e-2
    f = getattr(lib, c.native['sym'] if c.native and 'sym' in c.native else c.func)
    rt = (c.native or {}).get('ret')
    f.restype = RET[rt] if rt else None
    f.argtypes = [type(a) for a in args]
    got = f(*args)
    if rexp is not None and rt:
        gv = [got.x, got.y] if rt == 'vec' else [got if got is not None else 0]
        for (e, sc), g in zip(rexp, gv):
            if isinstance(e, tuple): continue
            if isinstance(e, bool) or rt in ('bool', 'ptr', 'int', 'long', 'uint', 'size_t'):
                if int(e) != int(g): return 'returned %r, contract says %r' % (g, e)
            elif not close(float(g), float(e), sc, c.tol, floor): return 'returned %r, contract says %r' % (g, e)
    for name, off, ty, idx in m.cells():
        key = (name, off, idx)
        a = m.read(m.celladdr(name, idx, off), ty)
        if key in exp:
            e, sc, ty, mem = exp[key]
            if isinstance(e, tuple): continue
            if ty.k in ('double', 'float'):
                if not close(float(a), float(e), sc, c.tol if ty.k == 'double' else 1e-5, floor): return '%s.%s%s = %r, contract says %r' % (name, mem, list(idx), a, e)
            elif ty.k == 'int':
                mask = (1 << ty.n) - 1 if ty.n > 8 else 255
                if (int(a) & mask) != (int(e) & mask): return '%s.%s%s = %r, contract says %r' % (name, mem, list(idx), a, e)
            elif int(a) != int(e): return '%s.%s%s = pointer %r, contract says %r' % (name, mem, list(idx), a, e)
        else:
            if (name, off) in c.ignore or (name, '*') in c.ignore: continue
            b = before[key]
            if a != b and not (isinstance(a, float) and a != a and b != b):
                return 'frame: %s%s changed from %r to %r' % (u.E0.field(name, off), list(idx), b, a)
    return None


# ---- helpers for writing callee contracts
def setall(E, st, u, region, member, f, n):
    """callee contract effect: region.member[k] := f(k) for all 0<=k<n (single array dimension)"""
    o, ty = u.cellty(region, member)
    k = mk('var', '$c%d' % fresh(), sort='I')
    h = st.mem.get((region, o), ())
    st.mem[(region, o)] = h + (sym.Map([(k, n, 0, 1, I(0))], (I(k),), f(I(k)), TRUE),)


def cell(E, st, u, region, member, *idx):
    o, ty = u.cellty(region, member)
    return E.readcell(st, region, o, tuple(I(x) for x in idx), ty)


def havoc(E, st, u, region, member, tag):
    o, ty = u.cellty(region, member)
    st.mem[(region, o)] = st.mem.get((region, o), ()) + (sym.Hv(tag),)


def i2r(p): return Poly(dict(p.d), 'R') if isinstance(p, Poly) else p
