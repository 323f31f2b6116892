"""Loops with a stated invariant: assert it on entry, havoc what the loop changes, assume it, run one arbitrary
iteration, assert it at every back edge; what leaves the loop continues from the arbitrary iteration."""
from .term import *
from . import term as T, ir
from .sym import Unsupported, Hv, JOINED


def ptr_eq(a, b):
    from . import contract as ct
    return ct.ptr_eq(a, b)


class Inv:
    """func: regex on the demangled function; names: source names of the loop's variables (all must be header phis);
    inv(v, rd) -> [conditions]; v: name -> value now, rd(region, member, *idx) -> memory now; measure(v, rd) -> term that must decrease and stay >= 0.
    points(v0, v1): element indices at which the quantified facts are instantiated (they are consequences: a hint, not an assumption);
    back(E, s0, s1): further obligations on one round; enter(E, s): further shape of the arbitrary state a round starts from;
    plan(E, st, phis): an object made when the loop is reached, for loops described by what one round does: .enter(s, phis), .round(s0, phis0, s1, phis1, calls) -> obligations, .leave(s) (phis: header values in order), .event: what the trace shows for all rounds;
    when(E, f, L): which of the function's loops it describes (loops without names); events(E, s0, s1, calls): obligations on the calls one round makes (in the trace every round is the one entry 'rounds')"""
    def __init__(self, func, names, inv, measure=None, keep=(), name=None, shapes=None, after=None, back=None, points=None, enter=None, events=None, when=None, plan=None):
        self.plan = plan; self.when = when; self.enter = enter; self.events = events
        self.func = func; self.names = tuple(names); self.inv = inv; self.measure = measure; self.keep = set(keep); self.name = name or '/'.join(names); self.shapes = shapes or {}; self.after = after; self.back = back; self.points = points


def base(n): return n.split('.')[0]


def match(E, f, L):
    import re
    d = E.dem.get(f.name, f.name)
    ph = {base(p.res) for p in f.blocks[L.header].phis}
    for c in getattr(E, 'cuts', ()):
        if re.search(c.func, d) and all(n in ph for n in c.names) and (c.when is None or c.when(E, f, L)): return c
    return None


def cut(E, f, L, prev, st, ctx, spec):
    hb = f.blocks[L.header]
    st = st if prev == JOINED else E.phis(st, hb, prev)
    def view(s, at_header=True):
        v = {}
        for p in hb.phis: v.setdefault(base(p.res), s.regs.get(p.res))
        return v
    def rd(s):
        def r(region, member, *idx):
            u = E.unit; o, ty = u.cellty(region, member)
            return E.readcell(s, region, o, tuple(I(x) for x in idx), ty)
        return r
    for i, g in enumerate(spec.inv(view(st), rd(st))): E.obl.append(('invariant %s holds on entry (%d)' % (spec.name, i), st.facts, g))
    plan = spec.plan(E, st, [st.regs.get(p.res) for p in hb.phis]) if spec.plan else None
    phis = lambda s: [s.regs.get(p.res) for p in hb.phis]
    entry = view(st); modified = set(); fixed = set(); k = fresh()
    trace0 = st.trace
    for rnd in range(8):
        s = st.copy()
        for p in hb.phis:
            v = st.regs.get(p.res)
            if base(p.res) in spec.shapes: s.regs[p.res] = spec.shapes[base(p.res)](I(mk('var', '$c%d_%s' % (k, base(p.res)), sort='I'))); continue
            if v is None and p.ty.k == 'ptr': raise Unsupported('undefined pointer phi in a cut loop')
            if plan and isinstance(v, Ptr) and plan.shape(v) is not None: s.regs[p.res] = plan.shape(v); fixed.add(p.res); continue
            if isinstance(v, Ptr):
                d = v.op == 'p' and E.unit.decl.get(v.args[0])
                if not d or not d.stride or len(v.args[1]) != len(d.dims) - 1: raise Unsupported('pointer %s of a cut loop without a shape (%r)' % (base(p.res), v))
                s.regs[p.res] = ptr(v.args[0], v.args[1], v.args[2] + I(mk('var', '$c%d_%s' % (k, base(p.res)), sort='I')) * d.stride); continue      # a walk through an array
            if isinstance(v, B): s.regs[p.res] = ne(I(mk('var', '$c%d_%s' % (k, base(p.res)), sort='I')), I(0)); continue
            so = E.sortof(p.ty)
            s.regs[p.res] = Poly({((mk('var', '$c%d_%s' % (k, base(p.res)), sort=so), 1),): F1}, so)
        for ro in modified: s.mem[ro] = s.mem.get(ro, ()) + (Hv("'%d" % k),)
        if spec.enter: spec.enter(E, s)
        if plan: plan.enter(s, phis(s))
        v0 = view(s); r0 = rd(s); ghost = dict(s.ghost)
        for g in spec.inv(v0, r0): s.assume(g)
        m0 = spec.measure(v0, r0) if spec.measure else None
        nob = len(E.obl); start = dict(s.mem)
        outs = E.run(f, L.header, JOINED, s, ('loop', L), True)
        new = set()
        for kind, s2, x in outs:
            for ro, h in s2.mem.items():
                if h != start.get(ro, ()) and ro not in modified and ro[0] in E.unit.decl: new.add(ro)
                elif h != start.get(ro, ()) and ro not in modified and ro[0] not in E.unit.decl and ro in start: new.add(ro)
        if not new: break
        modified |= new; del E.obl[nob:]
    else: raise Unsupported('cut loop: modified set')
    res = []
    for kind, s2, x in outs:
        if kind == 'back':
            if s2.trace[:len(trace0)] != trace0: raise Unsupported('events in a cut loop')
            if spec.events: E.obl += spec.events(E, s, s2, s2.trace[len(trace0):])
            elif s2.trace != trace0 and not plan: raise Unsupported('events in a cut loop')
            if any(s2.ghost.get(g) != x_ for g, x_ in ghost.items()): raise Unsupported('ghost state changed in a cut loop')
            s3 = s2 if x == JOINED else E.phis(s2, hb, x)
            if spec.points:
                from .prove import instances_at
                t = s3.copy()
                for b in instances_at(s3.facts, spec.points(v0, view(s3))): t.assume(b)
                s3 = t
            for i, g in enumerate(spec.inv(view(s3), rd(s3))): E.obl.append(('invariant %s preserved (%d)' % (spec.name, i), s3.facts, g))
            if spec.back: E.obl += [('%s, one round: %s' % (spec.name, n_), f_, g_) for n_, f_, g_ in spec.back(E, s, s2)]
            for p in fixed: E.obl.append(('%s: %s keeps its value' % (spec.name, base(p)), s3.facts, ptr_eq(s3.regs[p], s.regs[p])))
            if plan: E.obl += [('%s, one round: %s' % (spec.name, n_), f_, g_) for n_, f_, g_ in plan.round(s, phis(s), s3, phis(s3), s2.trace[len(trace0):])]
            if m0 is not None:
                m1 = spec.measure(view(s3), rd(s3)); E.obl.append(('loop %s makes progress' % spec.name, s3.facts, And(m1 < m0, m0 >= 0)))
        elif kind == 'exit':
            if spec.events:
                if s2.trace != trace0: E.obl.append(('%s: a round is left halfway' % spec.name, s2.facts, FALSE))
                s2.trace = trace0 + ((TRUE, 'rounds'),)
            if plan:
                if s2.trace != trace0: E.obl.append(('%s: a round is left halfway' % spec.name, s2.facts, FALSE))
                s2.trace = trace0 + ((TRUE, plan.event),); plan.leave(s2)
            res.append((x[0], x[1], s2))
        elif kind == 'dead': pass
        else: raise Unsupported('cut loop: outcome ' + kind)
    E.loopinfo.append((f.name, L.header, spec.name))
    return res
