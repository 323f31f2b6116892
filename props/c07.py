"""The spatial tree."""
from fractions import Fraction as Fr
from vv.term import *
from vv import native, ir, contract as ct
from vv.contract import Ev, For
from .common import *
from .world import *
from .flowbat import *

TREE = 'libvvhd/src/TSortedTree.cpp'
BIG = fn('dblmax')


def setup(chk):
    chk.use('space', 'tree')
    for g in (leafmass, nodemass, nearfar, boxes, lists, partition, lookup, divide, build): chk.group(g)
    chk.battery('tree', runner(120, tree_one, 'tree of a random state'), True, 'trees built by the real code over random states: partition, boxes, mass centres, near/far cover, lookup')


RANGES = (('vRange', 'OV'), ('hRange', 'OH'), ('sRange', 'OS'))


def nodeunit(chk, ni=(), ranges=('vRange',)):
    probe_world(chk); m = chk.extract([TREE], noinline=list(ni)); u = chk.unit(m); u.region('N', 'snode', NODE); S = None; out = {}
    for rg, r in RANGES:
        if rg not in ranges: continue
        n = var('n_' + r, 'I'); u.region(r, 'TObj', OBJ, dims=[n], array=True); S = u.decl[r].stride; out[rg] = n
        u.setptr('N', rg + '.first', lambda r=r: ptr(r)); u.setptr('N', rg + '.last', lambda r=r, n=n: ptr(r, (), n * S))
    return u, out


def leafmass(chk):
    u, n = nodeunit(chk); n = n['vRange']; O = lambda m: u.F('OV', m); N = lambda m: u.F('N', m)(); post = {}
    for cm, sel in (('CMp', lambda k: O('g')(k) > 0), ('CMm', lambda k: Not(O('g')(k) > 0))):
        s = lambda f, sel=sel: SumN(n, lambda k: ite(sel(k), f(k), R(0)))
        G = s(O('g')); post[('N', cm + '.g')] = G
        for c in 'xy': post[('N', cm + '.r.' + c)] = ite(eq(G, R(0)), N(c), s(lambda k, c=c: O('r.' + c)(k) * O('g')(k)) / G); post[('N', cm + '.v.' + c)] = R(0)
        post[('N', cm + '._1_eps')] = fn('inf')
    chk.case('mass centres of a leaf', u, r'^snode::CalculateCMassFromScratch\(', [ptr('N')], [n >= 0], post)


def children(u, leaf):
    u.region('CH', 'snode', NODE, dims=[I(2)]); u.setptr('N', 'ch1', lambda: pite(leaf, NULL, ptr('CH', (I(0),)))); u.setptr('N', 'ch2', lambda: pite(leaf, NULL, ptr('CH', (I(1),))))


def nodemass(chk):
    u, _ = nodeunit(chk, ['CalculateCMass'], ()); leaf = ne(var('n_leaf', 'I'), I(0)); children(u, leaf); N = lambda m: u.F('N', m)()
    below = lambda cm, m: (lambda c: fn('%s_%s_below' % (cm, m), I(c)))     # strength (G) and first moments (x, y) of the vortices below child c
    def child(E, st, a, i):
        a = [E.pnorm(st, a[0])]; c = a[0].args[1][0] if a[0].op == 'p' and a[0].args[0] == 'CH' else None
        if c is None: E.obl.append(('a child of the node', st.facts, FALSE)); return None
        for cm in ('CMp', 'CMm'):
            at = lambda m: padd_off(a[0], I(chk.off('snode', cm + '.' + m)))
            G = below(cm, 'G')(c); E.store(st, at('g'), G, ir.DBL)
            for x in 'xy':
                r = fn('%s_%s_of' % (cm, x), c); E.store(st, at('r.' + x), r, ir.DBL); st.assume(eq(r * G, below(cm, x)(c)))
        ct.emit(st, 'centres', a[0]); return None
    def scratch(E, st, a, i): ct.emit(st, 'leaf centres', a[0]); return None
    u.contracts = [(r'^snode::CalculateCMassFromScratch\(', scratch), (r'^snode::CalculateCMass\(', child)]
    CM = [c + '.' + m for c in ('CMp', 'CMm') for m in OBJ]
    # the strength below a node is the sum over its children, and centre times strength is the sum of the first moments
    def extra(E, st, v):
        out = []
        for cm in ('CMp', 'CMm'):
            G = below(cm, 'G')(0) + below(cm, 'G')(1); cell = lambda m: ct.cell(E, st, u, 'N', cm + '.' + m)
            out.append(('strength of the %s centre' % cm, st.facts, Or(leaf, eq(cell('g'), G))))
            for x in 'xy': out.append(('first moment of the %s centre, %s' % (cm, x), st.facts, Or(leaf, eq(G, R(0)), eq(cell('r.' + x) * G, below(cm, x)(0) + below(cm, x)(1)))))
        d = E.dec.decide(st.facts, leaf)
        return out + ct.events_obl(st.trace, [Ev('leaf centres', ptr('N'), guard=leaf)] if d is True else [Ev('centres', ptr('CH', (I(0),)), guard=Not(leaf)), Ev('centres', ptr('CH', (I(1),)), guard=Not(leaf))], st.facts, '')
    chk.case('mass centres of a node', u, r'^snode::CalculateCMass\(', [ptr('N')], [], {}, extra_post=extra, samples=0, ignore=[('N', m) for m in CM] + [('CH', m) for m in CM], merge=False)


def nearfar(chk):
    u, _ = nodeunit(chk, ['FindNearNodes', 'push_back'], ()); u.region('M', 'snode', NODE); leaf = ne(var('n_leaf', 'I'), I(0))
    u.region('CH', 'snode', NODE, dims=[I(2)]); u.setptr('M', 'ch1', lambda: pite(leaf, NULL, ptr('CH', (I(0),)))); u.setptr('M', 'ch2', lambda: pite(leaf, NULL, ptr('CH', (I(1),))))
    u.region('TR', 'stree', ['farCriteria', 'minNodeSize', 'maxNodeSize']); u.setptr('N', 'parent', lambda: ptr('TR'))
    for l, r in (('NearNodes', 'NL'), ('FarNodes', 'FL')): u.raw(r, 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False); u.setptr('N', l, lambda r=r: ptr(r))
    def push(E, st, a, i): ct.emit(st, 'list', a[0], E.load(st, a[1], ir.PTR)); return None
    def rec(E, st, a, i): ct.emit(st, 'classify', a[0], E.pnorm(st, a[1])); return None
    u.contracts = [(r'^(void )?std::vector<snode\*.*>::(push_back|emplace_back)', push), (r'^snode::FindNearNodes\(', rec)]
    N = lambda m: u.F('N', m)(); M = lambda m: u.F('M', m)(); dx, dy, p = M('x') - N('x'), M('y') - N('y'), M('h') + M('w') + N('h') + N('w')
    far = dx * dx + dy * dy > ct.i2r(u.F('TR', 'farCriteria')()) * p * p
    chk.case('near and far nodes', u, r'^snode::FindNearNodes\(', [ptr('N'), ptr('M')], [], {}, samples=0, merge=False,
             events=None, extra_post=lambda E, st, v: ct.events_obl(st.trace, expected(far, leaf, E, st), st.facts, ''))
    def expected(far, leaf, E, st):
        """one of three: listed far; listed near (a leaf); both children classified"""
        if E.dec.decide(st.facts, far) is True: return [Ev('list', ptr('FL'), ptr('M'), guard=far)]
        if E.dec.decide(st.facts, leaf) is True: return [Ev('list', ptr('NL'), ptr('M'), guard=And(Not(far), leaf))]
        return [Ev('classify', ptr('N'), ptr('CH', (I(0),)), guard=And(Not(far), Not(leaf))), Ev('classify', ptr('N'), ptr('CH', (I(1),)), guard=And(Not(far), Not(leaf)))]


def boxes(chk):
    u, n = nodeunit(chk, (), ('vRange', 'hRange', 'sRange')); nb = var('n_bl', 'I'); u.region('A', 'TAtt', ATT, dims=[nb]); u.raw('BLp', 8, {0: ('ptr', None)}, [nb]); u.setoff('BLp', 0, lambda k: ptr('A', (k,))); u.vec('N', 'bllist', 'BLp', lambda: nb)
    def ext(c, less):
        e = FoldMax(nb, u.F('A', 'r.' + c), BIGV if less else -BIGV, less)
        for rg, r in RANGES: e = FoldMax(n[rg], u.F(r, 'r.' + c), e, less)
        return e
    BIGV = DMAX_()
    post = {}
    for c, s in (('x', 'w'), ('y', 'h')):
        lo, hi = ext(c, True), ext(c, False); post[('N', c)] = (lo + hi) / 2; post[('N', s)] = hi - lo
    chk.case('bounding box of a node', u, r'^snode::Stretch\(\)', [ptr('N')], [nb >= 0] + [x >= 0 for x in n.values()], post)


def DMAX_():
    from .eps import DMAX
    return DMAX


def lists(chk):
    u, _ = nodeunit(chk, ['push_back'], ()); nb = var('n_bl', 'I'); u.region('A', 'TAtt', ATT, dims=[nb]); u.raw('BLp', 8, {0: ('ptr', None)}, [nb]); u.setoff('BLp', 0, lambda k: ptr('A', (k,)))
    for r in ('PL', 'L1', 'L2'): u.raw(r, 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False)
    for o in (0, 8, 16): u.setoff('PL', o, lambda o=o: ptr('BLp', (), nb * 8 if o else I(0)))
    def push(E, st, a, i): ct.emit(st, 'append', a[0], E.load(st, a[1], ir.PTR)); return None
    u.contracts = [(r'^(void )?std::vector<TObj\*.*>::(push_back|emplace_back)', push)]
    N = lambda m: u.F('N', m)(); A = lambda m: u.F('A', m); first = lambda k: ite_b(N('h') < N('w'), A('r.x')(k) < N('x'), A('r.y')(k) < N('y'))
    chk.case('segments go to the half they lie in', u, r'^snode::DistributeContent\(std::vector', [ptr('N'), ptr('PL'), ptr('L1'), ptr('L2')], [nb >= 0], {}, samples=0,
             events=[For(nb, lambda k: [Ev('append', pite(first(k), ptr('L1'), ptr('L2')), ptr('A', (k,)))])])


def ite_b(c, a, b): return Or(And(c, a), And(Not(c), b))


def partition(chk):
    """in-place partition of a particle range about the dividing line: afterwards the first half satisfies the test, the second does not, and
    every round only exchanges two particles (so none is lost, duplicated or altered)"""
    from vv.cuts import Inv
    u, n = nodeunit(chk, (), ('vRange',)); n = n['vRange']; S = u.decl['OV'].stride; N = lambda m: u.F('N', m)()
    for r in ('PR', 'L1', 'L2'): u.raw(r, 16, {0: ('ptr', None), 8: ('ptr', None)}, array=False)
    u.setoff('PR', 0, lambda: ptr('OV')); u.setoff('PR', 8, lambda: ptr('OV', (), n * S))
    def pred(rd, k): return ite_b(N('h') < N('w'), rd('OV', 'r.x', k) < N('x'), rd('OV', 'r.y', k) < N('y'))
    ix = lambda q: pscale(q.args[2], Fr(1, S)) if q.op == 'p' and q.args[0] == 'OV' else None
    def inv(v, rd):
        a, b = ix(v['p1']), ix(v['p2']); k = mk('var', '$iv%d' % fresh(), sort='I')
        return [a >= 0, a <= n, b >= -1, b <= n, a <= b + 1, ball(k, I(0), a, pred(rd, I(k))), ball(k, a, n, Or(I(k) < b, Not(pred(rd, I(k)))))]
    def swap(E, s0, s1):
        out = []; o, ty = u.cellty('OV', 'g'); h0, h1 = s0.mem.get(('OV', o), ()), s1.mem.get(('OV', o), ()); ix_ = [w.idx[0] for w in h1[len(h0):] if hasattr(w, 'idx')]
        if len(ix_) not in (0, 2): return [('exchanges two particles or none', s1.facts, FALSE)]
        q = I(mk('var', '$q%d' % fresh(), sort='I'))
        for m in OBJ:
            o, ty = u.cellty('OV', m); at = lambda s, i: E.readcell(s, 'OV', o, (i,), ty); t = s1.copy(); t.facts = s1.facts + (q >= 0, q < n)
            sp = at(s0, q) if not ix_ else ite(eq(q, ix_[0]), at(s0, ix_[1]), ite(eq(q, ix_[1]), at(s0, ix_[0]), at(s0, q)))
            out.append(('exchanges two particles or none, ' + m, t.facts, eq(at(t, q), sp)))
        if ix_: out.append(('exchanged particles belong to the range', s1.facts, And(*[And(i >= 0, i < n) for i in ix_])))
        return out
    def setup_(E): E.cuts = [Inv(r'^snode::DistributeContent\(range', ('p1', 'p2'), inv, name='partition', shapes={'p1': lambda x: ptr('OV', (), x * S), 'p2': lambda x: ptr('OV', (), x * S)}, back=swap, points=lambda v0, v1: [ix(v0['p2']), ix(v1['p2']), ix(v1['p2']) + 1, ix(v1['p1'])], measure=lambda v, rd: ix(v['p2']) - ix(v['p1']) + 2)]
    def extra(E, st, v):
        p = E.load(st, ptr('L1', (), I(8)), ir.PTR); a = ix(p); k = mk('var', '$iv%d' % fresh(), sort='I')
        if a is None: return [('halves of the range', st.facts, FALSE)]
        rd = lambda r, m, k: E.readcell(st, r, *(lambda c: (c[0], (k,), c[1]))(u.cellty(r, m)))
        eqs = [(r, o, w) for r, o, w in (('L1', 0, ptr('OV')), ('L2', 0, p), ('L2', 8, ptr('OV', (), n * S)))]
        return [('halves of the range: %s %d' % (r, o), st.facts, ct.ptr_eq(E.load(st, ptr(r, (), I(o)), ir.PTR), w)) for r, o, w in eqs] + [('the dividing particle', st.facts, And(a >= 0, a <= n)),
            ('the first half lies before the dividing line', st.facts, ball(k, I(0), a, pred(rd, I(k)))), ('the second half does not', st.facts, ball(k, a, n, Not(pred(rd, I(k)))))]
    chk.case('particles are partitioned about the dividing line', u, r'^snode::DistributeContent\(range', [ptr('N'), ptr('PR'), ptr('L1'), ptr('L2')], [n >= 0], {}, extra_post=extra, engine_setup=setup_, samples=0,
             ignore=[('OV', '*'), ('L1', '*'), ('L2', '*')])


def lookup(chk):
    """looking up a position: from the root, always into the half the position falls in, down to a childless node"""
    from vv.cuts import Inv
    probe_world(chk); m = chk.extract([TREE]); u = chk.unit(m); nn = var('n_T', 'I'); u.region('T', 'snode', NODE, dims=[nn]); u.region('TR', 'stree', [])
    ne_ = ne(var('n_built', 'I'), I(0)); u.setptr('TR', 'rootNode', lambda: pite(ne_, ptr('T', (var('root', 'I'),)), NULL))
    inner = lambda c: ne(fn('n_inner', I(c), sort='I'), I(0)); ch = [lambda c, j=j: fn('ch%d' % j, I(c), sort='I') for j in (1, 2)]; path = lambda c: ne(fn('n_onpath', I(c), sort='I'), I(0))
    for j in (1, 2): u.setptr('T', 'ch%d' % j, lambda c, j=j: pite(inner(c), ptr('T', (ch[j - 1](c),)), NULL))
    x, y = var('px'), var('py'); T = lambda m: u.F('T', m); k = mk('var', '$lk', sort='I')
    left = lambda c: ite_b(T('h')(c) < T('w')(c), x < T('x')(c), y < T('y')(c)); sel = lambda c: ite(left(c), ch[0](c), ch[1](c))
    K = I(k); ok = lambda c: And(c >= 0, c < nn)
    # the path of the position: contains the root, and with an inner node the child of the half the position falls in
    defn = [ok(var('root', 'I')), path(var('root', 'I')), ball(k, I(0), nn, Or(Not(inner(K)), Not(path(K)), And(ok(ch[0](K)), ok(ch[1](K)), Or(Not(left(K)), path(ch[0](K))), Or(left(K), path(ch[1](K))))))]
    def inv(v, rd):
        def at(q):
            if q.op == 'ite': return [Or(Not(q.args[0]), x) for x in at(q.args[1])] + [Or(q.args[0], x) for x in at(q.args[2])]
            return [ok(q.args[1][0]), path(q.args[1][0])] if q.op == 'p' and q.args[0] == 'T' else [FALSE]
        return at(v['Node'])
    def setup_(E): E.cuts = [Inv(r'^stree::findNode\(', ('Node',), inv, name='descent', shapes={'Node': lambda c: ptr('T', (c,))})]
    def extra(E, st, v):
        v = E.pnorm(st, v)
        if v.op != 'p': return [('a node is returned', st.facts, FALSE)]
        c = v.args[1][0]; return [('the node is on the path of the position', st.facts, And(ok(c), path(c), eq(v.args[2], I(0)))), ('the node has no children', st.facts, Not(inner(c)))]
    chk.case('looking up a position', u, r'^stree::findNode\(', [ptr('TR'), x, y], defn + [nn >= 0], {}, extra_post=extra, engine_setup=setup_, samples=0, exc=Not(ne_))


def divide(chk):
    """a node either becomes a listed leaf as it is, or everything it holds is handed to two new nodes, which are fitted and divided"""
    u, n = nodeunit(chk, ['_ZN5snodeC', 'DistributeContent', 'Stretch', 'DivideNode', 'push_back', 'emplace_back', '_Znwm'], ('vRange', 'hRange', 'sRange')); S = u.decl['OV'].stride
    nb = var('n_bl', 'I'); u.region('A', 'TAtt', ATT, dims=[nb]); u.raw('BLp', 8, {0: ('ptr', None)}, [nb]); u.setoff('BLp', 0, lambda k: ptr('A', (k,))); u.vec('N', 'bllist', 'BLp', lambda: nb)
    u.region('TR', 'stree', ['minNodeSize', 'maxNodeSize']); u.setptr('N', 'parent', lambda: ptr('TR'))
    for c in ('C1', 'C2'): u.region(c, 'snode', NODE + ['i', 'j'])
    N = lambda m: u.F('N', m)(); T = lambda m: u.F('TR', m)(); at = lambda r, m: ptr(r, (), I(chk.off('snode', m)))
    def new(E, st, a, i):
        k = st.ghost.get('new', 0); st.ghost = dict(st.ghost, new=k + 1)
        if k > 1: E.obl.append(('two children', st.facts, FALSE))
        return ptr(('C1', 'C2')[min(k, 1)])
    def ctor(E, st, a, i): ct.emit(st, 'node', a[0], E.pnorm(st, a[1])); return None
    def ev(name): return lambda E, st, a, i: ct.emit(st, name, *[E.pnorm(st, x) if isinstance(x, Ptr) else x for x in a if isinstance(x, Ptr)])
    def push(E, st, a, i): ct.emit(st, 'leaf', a[0], E.pnorm(st, E.load(st, a[1], ir.PTR))); return None
    u.contracts = [(r'^operator new\(', new), (r'^(snode::snode\(|_ZN5snodeC)', ctor), (r'^snode::DistributeContent\(', ev('hand over')), (r'^snode::Stretch\(\)', ev('fit')), (r'^snode::DivideNode\(', ev('divide')), (r'^(void )?std::vector<snode\*.*>::(push_back|emplace_back)', push)]
    def extra(E, st, v):
        if any(a[1] == 'leaf' for a in st.trace): return ct.events_poset(E, st, [(Ev('leaf', ptr('TR', (), I(chk.off('stree', 'bottomNodes'))), ptr('N')), ())], st.facts)
        x = []; K = ('C1', 'C2'); exp = [(Ev('node', ptr(c), ptr('TR')), ()) for c in K]
        L = [m for m in ('vRange', 'hRange', 'sRange', 'bllist')]
        for m in L: exp.append((Ev('hand over', ptr('N'), at('N', m), at('C1', m), at('C2', m)), (0, 1)))
        exp += [(Ev('fit', ptr(c)), range(6)) for c in K]; exp += [(Ev('divide', ptr(c)), range(8)) for c in K]
        ends = [E.pnorm(st, E.load(st, padd_off(at('N', 'bllist'), I(o)), ir.PTR)) for o in (0, 8)]
        x.append(('the segments are handed over, not kept', st.facts, ct.ptr_eq(*ends)))
        for c, m in zip(K, ('ch1', 'ch2')): x.append(('child ' + m, st.facts, ct.ptr_eq(E.pnorm(st, E.load(st, at('N', m), ir.PTR)), ptr(c))))
        return x + ct.events_poset(E, st, exp, st.facts)
    chk.case('division of a node', u, r'^snode::DivideNode\(', [ptr('N')], [nb >= 0] + [x >= 0 for x in n.values()], {}, extra_post=extra, samples=0, merge=False, ignore=[('C1', '*'), ('C2', '*'), ('N', '*')])


def build(chk):
    """building: the root holds every wall segment and all particles of the chosen kinds, is fitted and divided; then every leaf classifies the whole tree"""
    for b in (True, False): build_case(chk, b)


def build_case(chk, bodies_):
    probe_world(chk); m = chk.extract([TREE], noinline=['_ZN5snodeC', 'Stretch', 'DivideNode', 'CalculateCMass', 'FindNearNodes', 'push_back', 'emplace_back', '_Znwm']); u = chk.unit(m)
    n = space(u, ('VortexList', 'HeatList', 'StreakList')); nb, na = bodies(u); S = u.decl['VL'].stride; u.region('R', 'snode', NODE + ['i', 'j']); u.region('TR', 'stree', []); u.setptr('TR', 'S', lambda: ptr('SP')); u.setptr('TR', 'rootNode', lambda: NULL)
    nl = var('n_LF', 'I'); u.region('LF', 'snode', NODE, dims=[nl]); u.raw('LFp', 8, {0: ('ptr', None)}, [nl]); u.setoff('LFp', 0, lambda k: ptr('LF', (k,)))
    u.vec('TR', 'bottomNodes', 'LFp', lambda: nl)
    for r in ('NV', 'RV'): u.raw(r, 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False)
    at = lambda r, m: ptr(r, (), I(chk.off('snode' if r == 'R' else 'stree', m)))
    def new(E, st, a, i):
        c = a[0].const(); return ptr('R') if c is not None and c > 100 else ptr('NV')
    def ctor(E, st, a, i):
        for l in ('vRange', 'hRange', 'sRange'):
            for e in ('first', 'last'): E.store(st, at('R', l + '.' + e), NULL, ir.PTR)
        for o in (0, 8, 16): E.store(st, padd_off(at('R', 'bllist'), I(o)), NULL, ir.PTR)
        ct.emit(st, 'node', a[0], E.pnorm(st, a[1])); return None
    def fit(E, st, a, i):
        ct.emit(st, 'fit', a[0], *[E.pnorm(st, E.load(st, at('R', l + '.' + e), ir.PTR)) for l in ('vRange', 'hRange', 'sRange') for e in ('first', 'last')]); return None
    def div(E, st, a, i):
        bn = at('TR', 'bottomNodes'); ct.emit(st, 'divide', a[0], E.pnorm(st, E.load(st, bn, ir.PTR)), E.pnorm(st, E.load(st, padd_off(bn, I(8)), ir.PTR)))
        E.store(st, bn, ptr('LFp'), ir.PTR); E.store(st, padd_off(bn, I(8)), ptr('LFp', (), nl * 8), ir.PTR); return None
    def ev(name): return lambda E, st, a, i: ct.emit(st, name, *[E.pnorm(st, x) for x in a])
    def push(E, st, a, i): ct.emit(st, 'append', a[0], E.load(st, a[1], ir.PTR)); return None
    u.contracts = [(r'^operator new\(', new), (r'^(snode::snode\(|_ZN5snodeC)', ctor), (r'^snode::Stretch\(\)', fit), (r'^snode::DivideNode\(', div), (r'^snode::CalculateCMass\(', ev('centres')), (r'^snode::FindNearNodes\(', ev('classify')), (r'^(void )?std::vector<TObj\*.*>::(push_back|emplace_back)', push)]
    iv, ih = (ne(var('n_' + x, 'I'), I(0)) for x in ('incV', 'incH'))
    ends = []
    for r, c in (('VL', iv), ('HL', ih), ('KL', TRUE)):
        k = var('n_' + r, 'I'); has = And(c, k > 0); ends += [pite(has, ptr(r), NULL), pite(has, ptr(r, (), k * S), NULL)]
    def exp():
        x = [Ev('node', ptr('R'), ptr('TR'))]
        if bodies_: x.append(For(nb, lambda b: [For(na(b), lambda k: [Ev('append', at('R', 'bllist'), ptr('A', (b,), k * u.decl['A'].stride))])]))
        return x + [Ev('fit', ptr('R'), *ends), Ev('divide', ptr('R'), ptr('LFp'), ptr('LFp')), Ev('centres', ptr('R')), For(nl, lambda l: [Ev('classify', ptr('LF', (l,)), ptr('R'))])]
    chk.case('building the tree, %s bodies' % ('with' if bodies_ else 'without'), u, r'^stree::build\(', [ptr('TR'), iv, Bool(bodies_), ih], [nl >= 0, nb >= 0] + [x >= 0 for x in n.values()], {}, samples=0, ignore=[('R', '*'), ('LF', '*'), ('TR', '*'), ('NV', '*')], events=exp())
