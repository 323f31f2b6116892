"""Loop summarisation: closed forms for an arbitrary iteration k and for the exit."""
import os
from .term import *
from . import term as T
from . import ir
from .sym import Unsupported, UnkPtr, St, Map, LoopW, Hv, JOINED, common_facts, decision, idx_eq, State


def static_iv(f, L, phi):
    """constant step of an induction phi: returns ('int'|'ptr', step-evaluator) or None"""
    lat = [v for b, v in phi.x if b in L.blocks]
    if len(lat) == 0: return None
    defs = f.__dict__.get('_defs')
    if defs is None:
        defs = {}
        for b in f.blocks.values():
            for i in b.ins:
                if i.res is not None: defs[i.res] = i
            for p in b.phis: defs[p.res] = p
        f._defs = defs
    steps = set()
    for v in lat:
        tot = 0; kind = None
        while True:
            if v.k != 'loc': return None
            if v.v == phi.res: break
            d = defs.get(v.v)
            if d is None: return None
            if d.op == 'getelementptr' and len(d.ops) == 2 and d.ops[1].k == 'int':
                tot = ('ptr', d.x, d.ops[1].v) if tot == 0 else None
                if tot is None: return None
                kind = 'ptr'; v = d.ops[0]; continue
            if d.op == 'add' and d.ops[1].k == 'int' and kind in (None, 'int'):
                tot = tot + d.ops[1].v; kind = 'int'; v = d.ops[0]; continue
            return None
        steps.add((kind, tot))
    if len(steps) != 1: return None
    return steps.pop()


class NeedShape(Unsupported):
    """an inner loop found what an outer loop's unknown pointer points to"""
    def __init__(self, x, shape): Unsupported.__init__(self, 'pointer of unknown shape'); self.x = x; self.shape = shape


class Cell:
    __slots__ = ('region', 'off', 'idx', 'ty')
    def __init__(self, r, o, i, ty): self.region = r; self.off = o; self.idx = i; self.ty = ty
    def key(self): return (self.region, self.off, self.idx)


def summarise(E, f, L, prev, st):
    hb = f.blocks[L.header]
    k = mk('var', '$k%d' % fresh(), sort='I'); kp = I(k)
    init = {}
    for p in hb.phis:
        if prev == JOINED: init[p.res] = st.regs.get(p.res)
        else:
            for pb, v in p.x:
                if pb == prev:
                    init[p.res] = E.val(st, v)
                    break
            else: raise Unsupported('loop entry')
    closed = {}       # name -> closed form in k
    for p in hb.phis:
        iv = static_iv(f, L, p)
        v = init[p.res]
        if iv is None or v is None: continue
        if iv[0] == 'int' and isinstance(v, Poly): closed[p.res] = v + kp * iv[1]
        elif iv[0] == 'ptr' and isinstance(v, Ptr):
            closed[p.res] = padd_off(v, kp * (E.mod.size(iv[1][1]) * iv[1][2]))
        elif iv[0] is None: closed[p.res] = v
    for p in hb.phis:      # the previous value of another induction variable
        if p.res in closed or init[p.res] is None: continue
        src = {v.v if v.k == 'loc' else None for b, v in p.x if b in L.blocks}
        if len(src) == 1:
            q, = src
            if q in closed and q in [x.res for x in hb.phis] and q != p.res: closed[p.res] = ite(eq(kp, I(0)), init[p.res], subst(closed[q], {k: kp - 1}))
    unk = {}          # name -> unknown placeholder value
    guess = set()     # pointers guessed loop-invariant (checked below)
    noguess = set()
    for p in hb.phis:
        if p.res not in closed and isinstance(init[p.res], Ptr): closed[p.res] = init[p.res]; guess.add(p.res)
    cells = {}        # key -> Cell
    cinit = {}
    arrs = {}         # (region,off) -> list of LoopW
    accs = {}         # (region,off) -> [dims, idx, name, closed value or None]: cells updated by every iteration
    ptrshape = {}; flags = set(); alias = {}
    brk_names = E.dec

    def placeholder(name, v, ty):
        if name in unk: return unk[name]
        t = fresh()
        if isinstance(v, B) or (ty is not None and ty.k == 'int' and ty.n == 1):
            x = ne(I(mk('var', '$u%d' % t, sort='I')), I(0))
        elif isinstance(v, Ptr) or (ty is not None and ty.k == 'ptr'):
            sh = ptrshape.get(name)
            if sh is None: x = Ptr('unk', '$u%d' % t, ())
            else:
                reg, outer, hasnull, unit = sh
                q = Ptr('p', reg, outer, I(mk('var', '$u%d' % t, sort='I')) * unit)
                x = pite(ne(I(mk('var', '$n%d' % t, sort='I')), I(0)), NULL, q) if hasnull else q
        else:
            so = v.sort if isinstance(v, Poly) else E.sortof(ty)
            if ty is not None and ty.k in ('double', 'float'): so = 'R'
            x = Poly({((mk('var', '$u%d' % t, sort=so), 1),): F1}, so)
        unk[name] = x
        return x

    def setup(at, arrays_n=None, maps=None, facts=()):
        """state with every carried location at iteration `at`"""
        s = st.copy()
        for b in facts: s.assume(b)
        for p in hb.phis:
            if p.res in closed: s.regs[p.res] = subst(closed[p.res], {k: at}) if at is not kp else closed[p.res]
            elif init[p.res] is None and not (p.ty.k in ('int', 'double', 'ptr')): s.regs[p.res] = None
            else: s.regs[p.res] = placeholder(p.res, init[p.res], p.ty)
        for key, c in cells.items():
            v = closed.get(key)
            if v is None: v = placeholder(key, cinit[key], c.ty)
            elif at is not kp: v = subst(v, {k: at})
            h = s.mem.get((c.region, c.off), ())
            s.mem[(c.region, c.off)] = h + (St(c.idx, v),)
        for ro, (dims, idx, name, val) in accs.items():
            if val is None: val = fn(name, *[I(d[0]) for d in dims])
            elif at is not kp: val = subst(val, {k: at})
            s.mem[ro] = s.mem.get(ro, ()) + (Map(dims, idx, val, TRUE),)
        if maps is None:
            for ro, ws in arrs.items():
                s.mem[ro] = s.mem.get(ro, ()) + tuple(ws)
        else:
            for ro, ms in maps.items():
                h = s.mem.get(ro, ())
                for m in ms:
                    h = h + (Map([(m.dims[0][0], at) + m.dims[0][2:]] + m.dims[1:], m.idx, m.val, m.cond),)
                s.mem[ro] = h
        return s

    Nknown = None
    ob0 = len(E.obl)
    for rnd in range(14):
        del E.obl[ob0:]      # of a round with values not known yet: the last round makes them anew
        facts = [kp >= 0]
        s0 = setup(kp, facts=facts)
        mark = T._fresh[0]
        try: outs = E.run(f, L.header, JOINED, s0, ('loop', L), True)
        except NeedShape as ex:
            n = [n for n, x in unk.items() if x == ex.x]
            if not n or n[0] in ptrshape: raise
            ini = init[n[0]] if n[0] in init else cinit[n[0]]
            ptrshape[n[0]] = (ex.shape[0], ex.shape[1], ex.shape[2] or any(l.op == 'null' for l in ptr_leaves(ini)), ex.shape[3]); del unk[n[0]]
            continue
        except UnkPtr as ex:      # a pointer kept across rounds: it stays in the block it starts in (the update has to keep it there)
            base = ex.p
            while base.op == 'off': base = base.args[0]
            n = [n for n, x in unk.items() if x is base or x == base]
            if not n or n[0] in ptrshape: raise
            ini = init[n[0]] if n[0] in init else cinit[n[0]]
            if not isinstance(ini, Ptr) or ini.op != 'p': raise
            S = E.regions[ini.args[0]].stride; ptrshape[n[0]] = (ini.args[0], ini.args[1], False, S if S and all(c % S == 0 for c in ini.args[2].d.values()) else 1); del unk[n[0]]
            continue
        backs = [(s, x) for kind, s, x in outs if kind == 'back']
        exits = [(s, x) for kind, s, x in outs if kind == 'exit']
        others = [(kind, s) for kind, s, x in outs if kind not in ('back', 'exit', 'dead')]
        for kind, s in others:
            if kind in ('exc', 'exit') and getattr(E, 'ignore_exc', False): continue
            if kind not in ('exc', 'quit'): raise Unsupported('loop body ends with %s' % kind)
            exits.append((s, ('$' + kind, None)))      # leaves the function from inside the loop
        if not backs:
            # body never loops back: just leave
            return [(x[0], x[1], s) for s, x in exits]
        # ---- discover written cells / arrays
        new = False
        writes = {}   # (region,off) -> list of (pathindex, update)
        for pi, (s, _) in enumerate(backs):
            for ro, h in s.mem.items():
                h0 = s0.mem.get(ro, ())
                n0 = 0
                while n0 < len(h0) and n0 < len(h) and h[n0] is h0[n0]: n0 += 1
                if n0 == len(h0) == len(h): continue
                r = E.regions[ro[0]]
                if ro[0].startswith('a') and ro[0][1:].isdigit() and int(ro[0][1:]) > mark: continue   # body-local alloca
                if ro[0].startswith('bv') and ro[0][2:].isdigit() and int(ro[0][2:]) > mark: continue
                for u in h[n0:]:
                    if isinstance(u, Hv): raise Unsupported('havoc inside loop')
                    if isinstance(u, LoopW): raise Unsupported('loopw')
                    writes.setdefault(ro, []).append((pi, u))
        for ro, us in writes.items():
            for pi, u in us:
                if isinstance(u, St):
                    dep = [j for j, x in enumerate(u.idx) if k in x.fv]
                    if not dep and not any(isun(x) for x in u.idx):
                        key = (ro[0], ro[1], u.idx)
                        if key not in cells:
                            l = E.regions[ro[0]].leaves.get(ro[1])
                            ty = l[0] if l and l[0] is not None else tyof(u.val)
                            c = Cell(ro[0], ro[1], u.idx, ty); cells[key] = c
                            cinit[key] = E.readcell(st, ro[0], ro[1], u.idx, ty)
                            if isinstance(cinit[key], Ptr) and key not in noguess: closed[key] = cinit[key]; guess.add(key)
                            new = True
                        continue
                    w = mkw(u.idx, dep, k, E)
                    if w is None:
                        if any(isun(x) for x in u.idx): continue     # wait until more is known
                        raise Unsupported('array index %r' % (u.idx,))
                    lst = arrs.setdefault(ro, [])
                    if not any(x.dims[0][2:] == w.dims[0][2:] and x.idx == w.idx for x in lst): lst.append(w); new = True
                else:
                    if u.dims[0][0] is k: raise Unsupported('map')
                    dep = [j for j, x in enumerate(u.idx) if k in x.fv and j not in [d[2] for d in u.dims]]
                    if not dep:
                        # the same cells are updated by every iteration
                        if any(isun(x) for j, x in enumerate(u.idx) if j not in [d[2] for d in u.dims]): continue     # wait until more is known
                        if any(k in x.fv for d in u.dims for x in (d[1], d[4])): raise Unsupported("inner array update not indexed by the outer loop %r %r" % (u.dims, u.idx))
                        if ro not in accs: accs[ro] = [list(u.dims), u.idx, '$acc%d' % fresh(), None]; new = True
                        elif not same_w(LoopW(accs[ro][0], accs[ro][1]), LoopW(u.dims, u.idx), 0): raise Unsupported('two inner array updates')
                        continue
                    w = mkw(u.idx, dep, k, E)
                    if w is None: raise Unsupported('nested array index')
                    w.dims = w.dims + list(u.dims)
                    lst = arrs.setdefault(ro, [])
                    if not any(same_w(x, w) for x in lst): lst.append(w); new = True
        if new: continue
        # ---- next values
        common = common_facts([s.facts for s, _ in backs])
        conds = [And(*[x for x in s.facts if x not in common]) for s, _ in backs]
        nxt = {}
        for p in hb.phis:
            if p.res in closed and p.res not in guess: continue
            vs = []
            for s, latch in backs:
                if latch == JOINED: raise Unsupported('joined latch')
                for pb, v in p.x:
                    if pb == latch: vs.append(under(E.val(s, v), s.facts)); break
            nxt[p.res] = vs
        for key, c in cells.items():
            if key in closed and key not in guess: continue
            nxt[key] = [E.readcell(s, c.region, c.off, c.idx, c.ty) for s, _ in backs]
        progress = False
        for ro, acc in accs.items():
            if acc[3] is not None: continue
            if ro in arrs: raise Unsupported('accumulated and indexed updates of one array')
            l = E.regions[ro[0]].leaves.get(ro[1]); vals = []; rng = []
            for d in acc[0]: rng += [I(d[0]) >= 0, I(d[0]) < d[1]]
            for s, _ in backs:
                q = s.copy()
                for x in rng: q.assume(x)
                vals.append(E.readcell(q, ro[0], ro[1], acc[1], l[0] if l and l[0] is not None else ir.DBL))
            q = st.copy()
            for x in rng: q.assume(x)
            ini = E.readcell(q, ro[0], ro[1], acc[1], l[0] if l and l[0] is not None else ir.DBL)
            t = decision(list(zip(conds, vals))) - fn(acc[2], *[I(d[0]) for d in acc[0]])
            ns = {a[2] for a in accs.values() if a[3] is None}
            if has_fresh(t, mark): raise Unsupported('array value depends on per-iteration unknown')
            if os.environ.get('VV_ACC'): print('ACC', ro, acc[2], str(t)[:1500])
            if not any(n in repr(t) for n in ns) and not isun(t):
                j = mk('var', '$j%d' % fresh(), sort='I'); acc[3] = ini + Sum(j, I(0), kp, Poly(subst(t, {k: I(j)}).d, 'R')); progress = True
        if progress: continue
        bad = [n for n in guess if any(v != closed[n] for v in nxt[n])]
        for n in bad: del closed[n]; guess.discard(n); noguess.add(n)
        if bad: continue
        names = [n for n in nxt if n not in guess]
        if not names:
            if any(a[3] is None for a in accs.values()): raise Unsupported('inner array update that is not a sum over the outer loop')
            break
        unkatoms = {}
        for n in names:
            x = unk[n] if n in unk else None
            if x is not None: unkatoms[n] = x.fv if not (isinstance(x, Ptr) and x.op == 'unk') else frozenset()
        allun = frozenset().union(*unkatoms.values()) if unkatoms else frozenset()
        # several names of one value (a variable and the memory cell it is stored to)
        for n, r_ in alias.items():
            if n in nxt and r_ in nxt and nxt[n] != nxt[r_]: raise Unsupported('aliased values differ')
            if r_ in closed and n not in closed: closed[n] = closed[r_]; progress = True
        if progress: continue
        names = [n for n in names if n not in alias]
        cand = [n for n in names if n in unk and isinstance(unk[n], Poly) and (init[n] if n in init else cinit[n]) is not None and isinstance(init[n] if n in init else cinit[n], Poly) and all(isinstance(v, Poly) for v in nxt[n])]
        part = []
        for n in cand:
            i_ = init[n] if n in init else cinit[n]
            for g in part:
                if g[0][1] == i_ and g[0][1].sort == i_.sort and unk[g[0][0]].sort == unk[n].sort: g.append((n, i_)); break
            else: part.append([(n, i_)])
        part = [[n for n, _ in g] for g in part]
        while any(len(g) > 1 for g in part):
            rep = {}
            for g in part:
                for n in g[1:]: rep[atom_of(unk[n])] = unk[g[0]]
            nv = {n: tuple(subst(v, rep) for v in nxt[n]) for g in part for n in g}; np_ = []
            for g in part:
                subs = []
                for n in g:
                    for h in subs:
                        if nv[h[0]] == nv[n]: h.append(n); break
                    else: subs.append([n])
                np_ += subs
            if len(np_) == len(part): break
            part = np_
        for g in part:
            g.sort(key=lambda n: n not in cells)
            for n in g[1:]: alias[n] = g[0]; unk[n] = unk[g[0]]; progress = True
        if progress: continue
        for n in names:
            vs = nxt[n]; x = unk.get(n); ini = init[n] if n in init else cinit[n]
            if any(v is None for v in vs): continue
            # (a) invariant
            if all(v == x for v in vs):
                # an uninitialised value that is only carried along: any value
                closed[n] = ini if ini is not None or x is None or isinstance(x, Ptr) and x.op == 'unk' else rename_u(x); progress = True; continue
            # pointer shape discovery / affine pointers
            if isinstance(x, Ptr) and x.op == 'unk':
                offs = []
                for v in vs:
                    if v.op == 'off' and v.args[0] == x: offs.append(v.args[1])
                    else: offs.append(None)
                if all(o is not None for o in offs) and all(o == offs[0] for o in offs) and not offs[0].fv and isinstance(ini, Ptr):
                    closed[n] = padd_off(ini, kp * offs[0]); progress = True; continue
            v = decision(list(zip(conds, vs)))
            bad = fvs(v) & allun or has_unkptr(v, unk)
            mine = x is not None and (fvs(v) & (x.fv if not isinstance(x, Ptr) or x.op != 'unk' else frozenset()))
            # (c) delayed
            if not bad and not has_fresh(v, mark):
                if ini is None: closed[n] = subst(v, {k: kp - 1}); progress = True; continue
                if isinstance(v, Ptr) and not isinstance(ini, Ptr): raise Unsupported('mixed')
                closed[n] = ite(eq(kp, I(0)), conv(ini, v), subst(v, {k: kp - 1})); progress = True; continue
            if has_fresh(v, mark): raise Unsupported('loop-carried value depends on per-iteration unknown')
            if isinstance(x, Poly) and isinstance(v, Poly):
                t = v - x
                if not (t.fv & allun):
                    j = mk('var', '$j%d' % fresh(), sort='I')
                    closed[n] = ini + (Poly(t.d, x.sort) * kp if k not in t.fv else Sum(j, I(0), kp, Poly(subst(t, {k: I(j)}).d, x.sort)))
                    progress = True; continue
            if isinstance(x, Ptr) and x.op == 'p' and n in ptrshape and isinstance(v, Ptr) and v.op == 'p' and isinstance(ini, Ptr) and ini.op == 'p' and x.args[:2] == v.args[:2] == ini.args[:2]:
                d = v.args[2] - x.args[2]
                if d.const() is not None: closed[n] = Ptr('p', ini.args[0], ini.args[1], ini.args[2] + kp * d); progress = True; continue
        if progress: continue
        # pointer shapes
        unow = list(unk.values())
        for n in names:
            x = unk.get(n); ini = init[n] if n in init else cinit[n]
            if isinstance(x, Ptr) and x.op == 'unk' and n not in ptrshape:
                leaves = []
                for v in nxt[n] + [ini]:
                    if v is None: continue
                    leaves += ptr_leaves(v)
                regs = {(l.args[0], l.args[1]) for l in leaves if l.op == 'p'}
                hasnull = any(l.op == 'null' for l in leaves)
                mineu = [l for l in leaves if l.op == 'unk' and l != x and l in unow]
                if mineu: continue
                alien = [l for l in leaves if l.op == 'unk' and l != x]
                if len(regs) == 1 and alien and all(l.op in ('p', 'null', 'unk') for l in leaves):
                    (reg, outer), = regs; S = E.regions[reg].stride
                    if not any(k in o.fv for o in outer):
                        raise NeedShape(alien[0], (reg, outer, hasnull, S if S and all(c % S == 0 for l in leaves if l.op == 'p' for c in l.args[2].d.values()) else 1))
                if len(regs) == 1 and all(l.op in ('p', 'null') or l == x for l in leaves):
                    (reg, outer), = regs
                    if not any(k in o.fv for o in outer):
                        S = E.regions[reg].stride
                        unit = S if S and all(c % S == 0 for l in leaves if l.op == 'p' for c in l.args[2].d.values()) else 1
                        ptrshape[n] = (reg, outer, hasnull, unit); del unk[n]; progress = True
        if progress: continue
        # truth values kept in a byte
        from .prove import subst_all
        for n in names:
            x = unk.get(n); ini = init[n] if n in init else cinit[n]
            if not isinstance(x, Poly) or x.sort != 'I' or n in flags or len(x.d) != 1 or not isinstance(ini, (Poly, B)) or not (isinstance(ini, B) or is01(ini)): continue
            a = atom_of(x); m1 = {mk('fn', 'mod2', x, I(2), sort='I'): x}; m2 = {mk('fn', 'xor', x, I(1), sort='I'): 1 - x}
            low = lambda v: subst_all(subst_all(v, m1), m2) if isinstance(v, (Poly, B)) else v
            vs = [low(v) for v in nxt[n]]
            if all(isinstance(v, B) or v == x or v == 1 - x or is01(v, a) for v in vs):
                flags.add(n); nxt[n] = vs
                for q in names: nxt[q] = [low(v) if isinstance(v, Poly) else v for v in nxt[q]]
        # (e) fold over the remaining state
        svars = []; inits = []; steps = []; pos = {}
        for n in names:
            x = unk[n]; ini = init[n] if n in init else cinit[n]; vs = nxt[n]
            v = decision(list(zip(conds, vs)))
            if has_fresh(v, mark): raise Unsupported('fold over per-iteration unknown')
            for a_, i_, s_ in comps(x, ini, v, ptrshape[n][3] if n in ptrshape else 1):
                pos.setdefault(n, []).append(len(svars)); svars.append(a_); inits.append(i_); steps.append(s_)
        nulls = {}
        for n in names:
            x = unk[n]
            if isinstance(x, Ptr) and x.op == 'ite':
                na = svars[pos[n][1]]; nulls[mk('ind', cmp0('==', I(na)), sort='I')] = 1 - I(na)
        if nulls:      # null flags are 0/1
            from .prove import subst_all
            steps = [Poly(subst_all(s_, {**nulls, **{mk('ind', a.args[0], sort='R'): Poly(v.d, 'R') for a, v in nulls.items()}}).d, s_.sort) for s_ in steps]
        for s_ in steps:
            extra = (s_.fv & allun) - set(svars)
            if extra: raise Unsupported('fold state')
        for n in names:
            x = unk[n]
            m = {}
            for j in pos[n]:
                w = mkfold(k, kp, svars, inits, steps, j)
                if (n in flags or isinstance(x, Ptr) and x.op == 'ite' and j == pos[n][1]) and isinstance(w, Poly) and len(w.d) == 1:
                    for a_, _ in list(w.d)[0]:
                        if a_.op == 'fold' and a_.args[4] == 0: FLAGS.add(fkey(a_))
                m[svars[j]] = w
            closed[n] = subst(x, m)
        continue
    else:
        raise Unsupported('loop not summarised')
    if any(p.res not in closed for p in hb.phis if init[p.res] is not None) or any(key not in closed for key in cells):
        raise Unsupported('loop not summarised')
    # base obligations: closed(0) == init
    from .contract import goal_eq
    for n, c in closed.items():
        ini = init[n] if n in init else cinit[n]
        if ini is None: continue
        c0 = subst(c, {k: I(0)})
        E.obl.append(('loop-base %s %s' % (E.dem.get(f.name, f.name).split('(')[0], L.header), st.facts, TRUE if conv(ini, c0) == c0 else goal_eq(conv(ini, c0), c0)))
    # ---- array maps of one iteration
    maps = {}
    for ro, ws in arrs.items():
        # re-read written values per path, in order of appearance
        seen = []
        for pi, (s, _) in enumerate(backs):
            h = s.mem.get(ro, ()); h0 = s0.mem.get(ro, ())
            for u in h[len(h0):]:
                if not any(same_target(u, q) for q in seen): seen.append(u)
        ms = []
        for u in seen:
            if isinstance(u, St):
                dep = [j for j, x in enumerate(u.idx) if k in x.fv]
                if not dep: raise Unsupported('mixed scalar/array cell')
                w = mkw(u.idx, dep, k, E)
                vals = []
                wr = []
                for pi, (s, _) in enumerate(backs):
                    h = s.mem.get(ro, ())[len(s0.mem.get(ro, ())):]
                    hit = [q for q in h if isinstance(q, St) and q.idx == u.idx]
                    wr.append(bool(hit))
                    l = E.regions[ro[0]].leaves.get(ro[1]); ty = l[0] if l and l[0] is not None else tyof(u.val)
                    vals.append(hit[-1].val if hit else E.readcell(setup_prior(st, s), ro[0], ro[1], u.idx, ty))
                v = decision(list(zip(conds, vals)))
                if has_fresh(v, mark): raise Unsupported('array value depends on per-iteration unknown')
                ms.append(Map([(k, None) + w.dims[0][2:]], u.idx, v, TRUE))
            else:
                if len(backs) != 1:
                    cc = Or(*[c for (s, _), c in zip(backs, conds) if any(q is u for q in s.mem.get(ro, ()))])
                    nsame = [1 for (s, _) in backs if any(same_target(u, q) for q in s.mem.get(ro, ())[len(s0.mem.get(ro, ())):])]
                    if len(nsame) != len([1 for (s, _) in backs if any(q is u for q in s.mem.get(ro, ()))]): raise Unsupported('nested maps on several paths')
                else: cc = TRUE
                dep = [j for j, x in enumerate(u.idx) if k in x.fv and j not in [d[2] for d in u.dims]]
                w = mkw(u.idx, dep, k, E)
                # fresh inner vars are per-map; fine
                ms.append(Map([(k, None) + w.dims[0][2:]] + list(u.dims), u.idx, u.val, And(cc, u.cond)))
        maps[ro] = ms
    # ghost / trace in loops
    ltr = None
    if any(len(s.trace) != len(st.trace) for s, _ in backs):
        ev_ = []
        for (s, _), c in zip(backs, conds):
            for e in s.trace[len(st.trace):]: ev_.append((And(c, e[0]),) + e[1:])
        ltr = ev_
    # ---- exit analysis
    base = set(s0.facts)
    bcommon = [x for x in common_facts([s.facts for s, _ in backs]) if x not in base]
    N = None; nlit = None
    for s, x in exits:
        rel = [y for y in s.facts if y not in base]
        for y in rel:
            if Not(y) in bcommon and y.op in ('cmp', 'not'):
                q = solveN(y, k)
                if q is not None:
                    if N is None: N, nlit, nform = q[0], y, q[1]
    if N is not None:
        for ro, ms in maps.items():
            for m in ms:
                if isinstance(m.val, Poly): m.val = known(E, m.val, tuple(st.facts) + tuple([kp >= 0, kp < N] + [y for d in m.dims[1:] for y in (I(d[0]) >= 0, I(d[0]) < d[1])]))
    outp = []
    bconds = []
    for s, x in exits:
        rel = [y for y in s.facts if y not in base]
        if nlit is not None and nlit in rel: continue
        bconds.append(And(*[y for y in rel if nlit is None or y != Not(nlit)]))
    anyb = Or(*bconds) if bconds else FALSE
    E.loopinfo.append((f.name, L.header, N, len(backs), len(exits), {str(n): c for n, c in closed.items()}))
    def finish(at, extra):
        s1 = setup(at, maps=maps, facts=extra)
        if ltr is not None:
            s1.trace = s1.trace + ((TRUE, 'loop', k, at, tuple(ltr), tuple(extra)),)
        tr0 = s1.trace
        res = []
        for kind, s2, x in E.run(f, L.header, JOINED, s1, ('loop', L), True):
            if kind == 'exit': res.append((x[0], x[1], s2))
            elif kind == 'back':
                continue
            elif kind == 'dead' or getattr(E, 'ignore_exc', False) and kind == 'exc': pass
            elif kind in ('exc', 'quit'): res.append(('$' + kind, None, s2))
            else: raise Unsupported('loop exit run: %s' % kind)
        return res
    if N is not None:
        d = E.dec.decide(st.facts, N >= 0)
        cases = [(N, [N >= 0])]
        if d is None:
            if nform == 'eq': raise Unsupported('loop bound sign unknown: %r' % N)
            cases.append((I(0), [N < 0]))
        elif d is False:
            if nform == 'eq': raise Unsupported('loop bound negative')
            cases = [(I(0), [N < 0])]
        for at, fx in cases:
            ex = list(fx)
            if anyb.op != 'false': ex.append(ball(k, I(0), at, Not(anyb)))
            if at is N:
                r = finish(N, ex + ([subst(nlit, {k: N})] if False else []))
            else: r = finish(at, ex)
            if not r: raise Unsupported('no exit at N')
            # keep only the normal exits
            outp += r
    elif anyb.op == 'false': raise Unsupported('loop without recognised exit')
    if anyb.op != 'false':
        kb = mk('var', '$b%d' % fresh(), sort='I'); kbp = I(kb)
        for bc in bconds:
            ex = [kbp >= 0]
            if N is not None: ex.append(kbp < N)
            ex.append(subst(bc, {k: kbp})); ex.append(ball(k, I(0), kbp, Not(anyb)))
            if E.dec.decide(st.facts + tuple(ex[:-1]), FALSE if False else And(*ex[:2])) is False: continue
            r = finish(kbp, ex)
            outp += r
    return outp


def known(E, v, facts):
    """replace the indicators that the facts decide"""
    m = {}
    for mono in v.d:
        for a, _ in mono:
            if a.op == 'ind' and a not in m:
                d = E.dec.decide(facts, a.args[0])
                if d is not None: m[a] = I(1 if d else 0)
    if not m: return v
    from .prove import subst_all
    return Poly(subst_all(v, m).d, v.sort)


def rename_u(x):
    m = {a: I(mk('var', '$z' + a.args[0][2:], sort=a.sort)) if a.sort == 'I' else Poly({((mk('var', '$z' + a.args[0][2:], sort=a.sort), 1),): F1}, a.sort) for a in x.fv if a.op == 'var' and a.args[0].startswith(('$u', '$n'))}
    return subst(x, m)


def under(v, facts):
    """a condition, with the literals that the facts contain replaced by their truth value"""
    if not isinstance(v, B) or v.op in ('true', 'false'): return v
    fs = set(facts)
    def go(b):
        if b in fs: return TRUE
        if Not(b) in fs: return FALSE
        if b.op == 'and': return And(*[go(x) for x in b.args])
        if b.op == 'or': return Or(*[go(x) for x in b.args])
        if b.op == 'not': return Not(go(b.args[0]))
        return b
    return go(v)


def setup_prior(st, s):
    q = st.copy(); q.facts = s.facts; return q


def same_w(a, b, lo=1):
    """same written set, up to the names of the inner loop counters"""
    if len(a.dims) != len(b.dims): return False
    m = {y[0]: I(x[0]) for x, y in zip(a.dims[lo:], b.dims[lo:])}
    t = lambda v: subst(v, m) if isinstance(v, Poly) and m else v
    if lo == 0: return tuple(a.idx) == tuple(t(x) for x in b.idx) and all(x[1] == t(y[1]) and x[2:4] == y[2:4] and x[4] == t(y[4]) for x, y in zip(a.dims, b.dims))
    return a.dims[0][2:] == b.dims[0][2:] and tuple(a.idx) == tuple(t(x) for x in b.idx) and all(x[1] == t(y[1]) and x[2:4] == y[2:4] and x[4:] == tuple(t(z) for z in y[4:]) for x, y in zip(a.dims[1:], b.dims[1:]))


def same_target(u, q):
    if type(u) is not type(q): return False
    if isinstance(u, St): return u.idx == q.idx
    return u is q


def tyof(v):
    if isinstance(v, Ptr): return ir.PTR
    if isinstance(v, B): return ir.I8
    return ir.DBL if v.sort == 'R' else ir.I64


def mkw(idx, dep, k, E):
    """LoopW for index tuple idx whose position dep[0] is a*k+b"""
    if len(dep) != 1: return None
    x = idx[dep[0]]
    a = None; b = {}
    for m, c in x.d.items():
        if m == ((k, 1),): a = c; continue
        if any(k in at.fv for at, e in m): return None
        b[m] = c
    if a is None: return None
    if any(isun(Poly({m: c}, 'I')) for m, c in b.items()): return None
    return LoopW([(k, I(k), dep[0], a, Poly(b, 'I'))], idx)


def isun(p):
    return any(a.op == 'var' and a.args[0].startswith(('$u', '$n')) for a in p.fv)


def fvs(v):
    if isinstance(v, (Poly, B, Ptr)): return v.fv
    return frozenset()


def has_unkptr(v, unk):
    us = [x for x in unk.values() if isinstance(x, Ptr) and x.op == 'unk']
    if not us: return False
    r = repr(v)
    return any('$u' in u.args[0] and u.args[0] in r for u in us)


def has_fresh(v, mark):
    """mentions an existential (break index / undefined) created inside the body run"""
    for a in fvs(v):
        if a.op == 'var' and a.args[0].startswith(('$b', '$h')) and int(a.args[0][2:]) > mark: return True
    return False


def conv(ini, v):
    if isinstance(v, Poly) and isinstance(ini, Poly) and ini.sort != v.sort: return Poly(ini.d, v.sort)
    if isinstance(v, Poly) and isinstance(ini, B): return ind(ini, v.sort)
    if isinstance(v, B) and isinstance(ini, Poly): return ne(ini, I(0))
    return ini


def ptr_leaves(v):
    if v.op == 'ite': return ptr_leaves(v.args[1]) + ptr_leaves(v.args[2])
    return [v]


FLAGS = set()
def fkey(a): return (a.args[0], a.args[3], a.args[4])
def flag(c):
    """c is `t != 0` for a term t that is always 0 or 1 -> t"""
    if c.op != 'not' or c.args[0].op != 'cmp' or c.args[0].args[0] != '==' or len(c.args[0].args[1].d) != 1: return None
    p = c.args[0].args[1]; (m, x), = p.d.items()
    if len(m) != 1 or m[0][1] != 1 or abs(x) != 1: return None
    a = m[0][0]
    return I(a) if isflag(I(a)) else None
def isflag(p):
    if p.const() in (0, 1): return True
    if len(p.d) != 1: return False
    (m, x), = p.d.items()
    if x != 1 or len(m) != 1 or m[0][1] != 1: return False
    a = m[0][0]
    return a.op == 'var' and str(a.args[0]).startswith('$n') and str(a.args[0])[2:].isdigit() or a.op == 'fold' and fkey(a) in FLAGS and is01(a.args[2][0])


def is01(p, x=None):
    """the value is 0 or 1 whatever the conditions in it (and the 0/1 variable x) are"""
    if isflag(p): return True
    at = set()
    for m in p.d:
        for a, e in m:
            if a.op != 'ind' and a is not x: return False
            at.add(a)
    if not at or len(at) > 12: return False
    at = sorted(at, key=lambda a: a.id); pos = {a: 1 << i for i, a in enumerate(at)}
    ms = [(sum(pos[a] for a, e in m), c) for m, c in p.d.items()]
    ex = {}
    for a in at:
        if a.op == 'ind' and a.args[0].op == 'cmp': ex.setdefault(a.args[0].args[1], []).append(pos[a])
    ex = [l for l in ex.values() if len(l) > 1]
    for bits in range(1 << len(at)):
        if any(sum(1 for q in l if bits & q) > 1 for l in ex): continue
        if sum(c for m, c in ms if m & bits == m) not in (0, 1): return False
    return True


def uatom(p):
    (m, c), = p.d.items(); return m[0][0]


def comps(x, ini, v, unit=1):
    """decompose a carried value into numeric fold components [(atom, init, step)]"""
    if isinstance(x, Poly):
        if not isinstance(v, Poly): v = ind(v, x.sort)
        return [(atom_of(x), Poly(conv(ini, x).d, x.sort), Poly(v.d, x.sort))]
    if isinstance(x, B):      # ne(var,0)
        b = x.args[0] if x.op == 'not' else x
        p = b.args[1]; (m, c), = p.d.items()
        if isinstance(v, Poly): v = ne(v, I(0))
        if isinstance(ini, Poly): ini = ne(ini, I(0))
        sa = m[0][0]
        z = mk('ind', cmp0('==', I(sa)), sort='I')
        from .prove import subst_all
        return [(sa, ind(ini, 'I'), subst_all(ind(v, 'I'), {z: 1 - I(sa)}))]
    if isinstance(x, Ptr):
        def off_of(q):
            if q.op == 'p': return q.args[2] if unit == 1 else pscale(q.args[2], F1 / unit)
            if q.op == 'null': return I(0)
            if q.op == 'ite' and q.args[1].op == 'null': return off_of(q.args[2])      # the offset of a null pointer is irrelevant
            if q.op == 'ite' and q.args[2].op == 'null': return off_of(q.args[1])
            if q.op == 'ite': return ite(q.args[0], off_of(q.args[1]), off_of(q.args[2]))
            raise Unsupported('fold pointer')
        def null_of(q):
            if q.op == 'p': return I(0)
            if q.op == 'null': return I(1)
            if q.op == 'ite' and {q.args[1].op, q.args[2].op} == {'null', 'p'}:
                fl = flag(q.args[0] if q.args[1].op == 'null' else Not(q.args[0]))
                if fl is not None: return fl
            if q.op == 'ite': return ite(q.args[0], null_of(q.args[1]), null_of(q.args[2]))
            raise Unsupported('fold pointer')
        if x.op == 'ite':
            b = x.args[0]; neg = b.op == 'not'; b = b.args[0] if neg else b
            (m, c), = b.args[1].d.items(); na = m[0][0]
            q = x.args[2] if x.args[1].op == 'null' else x.args[1]
            # simplify steps: within null/offset extraction conditions on own null flag cancel when nested
            return [(uatom(q.args[2]), off_of(ini), off_of(v)), (na, null_of(ini), null_of(v))]
        return [(uatom(x.args[2]), off_of(ini), off_of(v))]
    raise Unsupported('fold component')


def mkfold(k, n, svars, inits, steps, which):
    """merge components that always hold the same value, keep only the needed ones
    (the wanted one first) and build the fold"""
    svars = list(svars); steps = list(steps)
    # coarsest partition: same init, then refine by step equality under representatives
    cls = {}
    part = []
    for j in range(len(svars)):
        for g in part:
            if inits[g[0]] == inits[j] and svars[g[0]].sort == svars[j].sort: g.append(j); break
        else: part.append([j])
    while True:
        rep = {svars[j]: Poly({((svars[g[0]], 1),): F1}, svars[j].sort) for g in part for j in g[1:]}
        st = [subst(s, rep) if rep else s for s in steps]
        np_ = []
        for g in part:
            subs = []
            for j in g:
                for h in subs:
                    if st[h[0]] == st[j]: h.append(j); break
                else: subs.append([j])
            np_ += subs
        if len(np_) == len(part): break
        part = np_
    which = [g[0] for g in part if which in g][0]
    steps = st
    need = [which]; i = 0
    while i < len(need):
        for j, sv in enumerate(svars):
            if sv in steps[need[i]].fv and j not in need: need.append(j)
        i += 1
    return Fold(k, n, [svars[j] for j in need], [inits[j] for j in need], [steps[j] for j in need], 0)


def solveN(lit, k):
    """exit literal -> (N, form) : first iteration index at which lit holds"""
    neg = lit.op == 'not'; b = lit.args[0] if neg else lit
    if b.op != 'cmp' or b.args[1].sort != 'I': return None
    p = b.args[1]; a = F0; rest = {}
    for m, c in p.d.items():
        if m == ((k, 1),): a = c
        elif any(k in at.fv for at, e in m): return None
        else:
            if any(at.op == 'var' and at.args[0].startswith('$u') for at, e in m): return None
            rest[m] = c
    if a == 0: return None
    bb = Poly(rest, 'I')
    if b.args[0] == '==':
        if neg: return None
        if abs(a) != 1: return None
        return pscale(bb, -1 / a), 'eq'
    # b is p<0 : a*k + bb < 0
    if neg:   # exit when a*k+bb >= 0 ; continue while a*k + bb < 0
        if a == 1: return -bb, 'lt'
        if a > 0: return fn('ceildiv', -bb, I(a), sort='I'), 'lt'
        return None
    else:     # exit when a*k+bb<0 ; continue while a*k+bb>=0, a<0
        if a == -1: return bb + 1, 'lt'
        return None
