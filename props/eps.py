"""Neighbour searches and merging (MEpsilonFast): contracts shared by C06 and C14."""
from vv.term import *
from vv import native, contract as ct
from vv.loops import mkfold
from .world import *

from fractions import Fraction as Fr
DMAX = R((2 ** 53 - 1) * 2 ** 971); TINY = R(Fr(1, 2 ** 1022))


def sgn(x): return ite(x > 0, R(1), ite(x < 0, R(-1), R(0)))


def Fold2(na, cnt, inits, step, sorts=None):
    """fold of step(a, k, state) over k < cnt(a) for a < na, in that order; -> list of component terms"""
    n = len(inits); so = [x.sort for x in inits]
    a = mk('var', '$fo%d' % fresh(), sort='I'); k = mk('var', '$fo%d' % fresh(), sort='I')
    S = [mk('var', '$fs%d' % fresh(), sort=s) for s in so]; s = [mk('var', '$fs%d' % fresh(), sort=x) for x in so]
    P = lambda v: Poly({((v, 1),): F1}, v.sort)
    body = step(I(a), I(k), [P(x) for x in s])
    inner = [mkfold(k, cnt(I(a)), s, [P(x) for x in S], body, j) for j in range(n)]
    return [mkfold(a, na, S, inits, inner, j) for j in range(n)]


def eunit(chk, ni=()):
    probe_world(chk); chk.probe([('MEpsilonFast', m) for m in ('S', 'Tree', 'merged_')])
    m = chk.extract(['libvvhd/src/MEpsilonFast.cpp'], noinline=list(ni), types=[('MEpsilonFast', 'MEpsilonFast.hpp')])
    u = chk.unit(m); u.region('C', 'MEpsilonFast', ['merged_']); return u


def ranges(u, kind):
    """particle array VL[0..n) and a node N whose near nodes hold consecutive ranges lo(a)..hi(a) of it"""
    n = var('n_VL', 'I'); nn = var('n_NN', 'I'); lo = lambda a: fn('n_lo', I(a), sort='I'); c = lambda a: fn('n_cnt', I(a), sort='I')
    u.region('VL', 'TObj', OBJ, dims=[n], array=True); S = u.decl['VL'].stride
    u.region('N', 'snode', NODE); u.region('NN', 'snode', NODE, dims=[nn])
    u.raw('NNp', 8, {0: ('ptr', None)}, [nn]); u.setoff('NNp', 0, lambda k: ptr('NN', (k,)))
    u.raw('NNv', 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False)
    u.setoff('NNv', 0, lambda: ptr('NNp', ())); u.setoff('NNv', 8, lambda: ptr('NNp', (), nn * 8)); u.setoff('NNv', 16, lambda: ptr('NNp', (), nn * 8))
    u.setptr('N', 'NearNodes', lambda: ptr('NNv'))
    u.setptr('NN', kind + '.first', lambda a: ptr('VL', (), lo(a) * S)); u.setptr('NN', kind + '.last', lambda a: ptr('VL', (), (lo(a) + c(a)) * S))
    return n, nn, lo, c, S


def FoldLemma(name, inits, step, inv, final, facts, sorts=None):
    """a property of the state of a recurrence: holds initially, kept by every step, hence holds at the end"""
    S = [Poly({((mk('var', '$ls%d' % fresh(), sort=x.sort), 1),): F1}, x.sort) for x in inits]; a = var('$la%d' % fresh(), 'I'); k = var('$lk%d' % fresh(), 'I')
    return (name, [('holds initially', (), inv(inits))] + [('kept by a step, case %d' % j, tuple(facts(a, k)) + (inv(S), cond), inv(new)) for j, (cond, new) in enumerate(step(a, k, S))], [inv(final)])


def nearest2(read, i, nn, lo, c):
    """(distance^2, index+flag) of the two nearest live particles other than i over the near ranges, in list order
    read(member, index) -> term of the current state"""
    init, step, _ = search(read, i, lo); return Fold2(nn, c, init, step)


def search(read, i, lo):
    """insertion of one particle into the two nearest ones; -> initial state, step, and the step as a list of cases for any distance"""
    x, y = read('r.x', i), read('r.y', i)
    def cases(a, k, s, d):
        d1, i1, z1, d2, i2, z2 = s; j = lo(a) + k; skip = Or(eq(read('g', j), R(0)), eq(I(j), I(i)))
        return [(skip, s), (And(Not(skip), d < d1), [d, j, I(0), d1, i1, z1]), (And(Not(skip), d >= d1, d < d2), [d1, i1, z1, d, j, I(0)]), (And(Not(skip), d >= d1, d >= d2), s)]
    def step(a, k, s):
        j = lo(a) + k; dx, dy = x - read('r.x', j), y - read('r.y', j); cs = cases(a, k, s, dx * dx + dy * dy)
        skip = cs[0][0]; d = dx * dx + dy * dy
        return [ite(skip, s[n], ite(d < s[0], cs[1][1][n], ite(d < s[3], cs[2][1][n], s[n]))) for n in range(6)]
    return [DMAX, I(0), I(1), DMAX, I(0), I(1)], step, lambda a, k, s: cases(a, k, s, var('$ld'))


def eps_case(chk, kind, fname, nan):
    """one neighbour search from an arbitrary state: without merging (criterion NaN) or with"""
    u = eunit(chk, ['^_ZN12MEpsilonFast4eps[vh]E']); n, nn, lo, c, S = ranges(u, kind); i = var('i_lv', 'I')
    g0 = lambda m, j: u.F('VL', m)(j)
    pre = [i >= 0, i < n, n >= 0, nn >= 0, ne(u.F('VL', 'g')(i), R(0))]
    q = var('$rg', 'I'); k = mk('var', '$ra', sort='I')
    pre.append(ball(k, I(0), nn, And(lo(I(k)) >= 0, c(I(k)) >= 0, lo(I(k)) + c(I(k)) <= n)))
    args = [ptr('C'), ptr('N'), ptr('VL', (), i * S)]
    def result(read):
        d1, i1, z1, d2, i2, z2 = nearest2(read, i, nn, lo, c); return d1, i1, z1, d2, i2, z2
    def radius(read):
        d1, i1, z1, d2, i2, z2 = nearest2(read, i, nn, lo, c)
        if kind == 'vRange': return ite(ne(z1, I(0)), TINY, ite(ne(z2, I(0)), sqrt(d1), sqrt(d2)))
        return ite(eq(d1, DMAX), TINY, ite(eq(d2, DMAX), sqrt(d1), sqrt(d2)))
    if nan:
        chk.case('radius of one %s, merging off' % kind, u, r'^MEpsilonFast::%s\(' % fname, args + [fn('nan')], pre, {}, ret=radius(g0), native={'ret': 'double'}, samples=0)
        return
    crit = var('crit_sq')
    d1, i1, z1, d2, i2, z2 = result(g0); G = u.F('VL', 'g'); s = sgn(G(i))
    if kind == 'vRange': merge = And(eq(z1, I(0)), eq(z2, I(0)), Or(d1 < crit, And(eq(sgn(G(i1)), sgn(G(i2))), ne(sgn(G(i1)), s))))
    else: merge = And(ne(d1, DMAX), ne(d2, DMAX), d1 < crit)
    X = u.F('VL', 'r.x'); Y = u.F('VL', 'r.y')
    def after(m, j):
        f = u.F('VL', m); o = f(j)
        if m == 'g': v = ite(eq(I(j), i), G(i) + G(i1), ite(eq(I(j), i1), R(0), o))
        elif m in ('r.x', 'r.y'): v = ite(eq(I(j), i), mergedc(G(i), G(i1), f(i), f(i1)), o)
        else: return o
        return ite(merge, v, o)
    init, _, step = search(g0, i, lo)
    def found(d, j, z): return Or(And(eq(z, I(1)), eq(d, DMAX)), And(eq(z, I(0)), d < DMAX, ne(G(j), R(0)), ne(j, i), j >= 0, j < n))
    inv = lambda s: And(found(*s[:3]), found(*s[3:]))
    lem = FoldLemma('what the search finds is another live particle', init, step, inv, (d1, i1, z1, d2, i2, z2), lambda a, k: [k >= 0, k < c(a), lo(a) >= 0, lo(a) + c(a) <= n])
    u.contracts = [(r'^MEpsilonFast::%s\(' % fname, recur(u, i, n, after))]
    chk.case('radius of one %s, merging on' % kind, u, r'^MEpsilonFast::%s\(' % fname, args + [crit], pre,
             {('C', 'merged_'): u.F('C', 'merged_')() + ite(merge, I(1), I(0)), **{('VL', m): (lambda j, m=m: after(m, j)) for m in ('g', 'r.x', 'r.y')}},
             ret=ite(merge, fn('second_search'), radius(g0)), native={'ret': 'double'}, samples=0, lemmas=[lem])


def mergedc(g1, g2, x1, x2):
    """coordinate of a merged pair"""
    return ite(eq(sgn(g1), sgn(g2)), (x1 * g1 + x2 * g2) / (g1 + g2), ite(fabs(g1) < fabs(g2), x2, x1))


def recur(u, i, n, after):
    """the second search: same particle, merging off, on the state left by the merge; its result is the contract `merging off`"""
    def h(E, st, a, ins):
        E.obl.append(('second search: same particle', st.facts, ct.goal_eq(a[2], ptr('VL', (), i * u.decl['VL'].stride))))
        E.obl.append(('second search: merging off', st.facts, TRUE if a[3] == fn('nan') else FALSE))
        q = var('$q%d' % fresh(), 'I'); s2 = st.copy(); s2.assume(q >= 0); s2.assume(q < n)
        for m in ('r.x', 'r.y', 'g'): E.obl.append(('second search: after the merge, ' + m, s2.facts, ct.goal_eq(ct.cell(E, s2, u, 'VL', m, q), after(m, q))))
        return fn('second_search')
    return h


def walls(u):
    """near nodes NN(a) of N with pointer lists to wall segments A(a,k)"""
    nn = var('n_NN', 'I'); na = lambda a: fn('n_A', I(a), sort='I')
    if 'N' not in u.decl:
        u.region('N', 'snode', NODE); u.region('NN', 'snode', NODE, dims=[nn])
        u.raw('NNp', 8, {0: ('ptr', None)}, [nn]); u.setoff('NNp', 0, lambda k: ptr('NN', (k,)))
        u.raw('NNv', 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False)
        u.setoff('NNv', 0, lambda: ptr('NNp', ())); u.setoff('NNv', 8, lambda: ptr('NNp', (), nn * 8)); u.setoff('NNv', 16, lambda: ptr('NNp', (), nn * 8))
        u.setptr('N', 'NearNodes', lambda: ptr('NNv'))
    u.region('A', 'TAtt', ATT, dims=[nn, na])
    u.raw('BLp', 8, {0: ('ptr', None)}, [nn, na]); u.setoff('BLp', 0, lambda a, k: ptr('A', (a, k)))
    u.vec('NN', 'bllist', 'BLp', na)
    return nn, na


INFT = fn('inf')


def qwall(chk):
    u = eunit(chk); nn, na = walls(u); x, y = var('px'), var('py'); A = lambda m: u.F('A', m)
    def step(a, k, s):
        dx, dy = x - A('r.x')(a, k), y - A('r.y')(a, k); d = dx * dx + dy * dy; return [ite(d < s[0], d, s[0])]
    chk.case('distance to the nearest wall segment', u, r'^MEpsilonFast::h2\(', [ptr('N'), x, y], [nn >= 0], {}, ret=Fold2(nn, na, [INFT], step)[0], native={'ret': 'double'})


def qsecond(chk):
    u = eunit(chk); nn = var('n_NN', 'I'); nq = lambda a: fn('n_Q', I(a), sort='I'); x, y = var('px'), var('py')
    u.region('N', 'snode', NODE); u.region('NN', 'snode', NODE, dims=[nn])
    u.raw('NNp', 8, {0: ('ptr', None)}, [nn]); u.setoff('NNp', 0, lambda k: ptr('NN', (k,)))
    u.raw('NNv', 24, {0: ('ptr', None), 8: ('ptr', None), 16: ('ptr', None)}, array=False)
    u.setoff('NNv', 0, lambda: ptr('NNp', ())); u.setoff('NNv', 8, lambda: ptr('NNp', (), nn * 8)); u.setoff('NNv', 16, lambda: ptr('NNp', (), nn * 8))
    u.setptr('N', 'NearNodes', lambda: ptr('NNv'))
    u.region('Q', 'TObj', OBJ, dims=[nn, nq], array=True); S = u.decl['Q'].stride
    u.setptr('NN', 'vRange.first', lambda a: ptr('Q', (a,))); u.setptr('NN', 'vRange.last', lambda a: ptr('Q', (a,), nq(a) * S))
    Q = lambda m: u.F('Q', m)
    def step(a, k, s):
        dx, dy = x - Q('r.x')(a, k), y - Q('r.y')(a, k); d = dx * dx + dy * dy; z = eq(d, R(0))
        return [ite(z, s[0], ite(d < s[0], d, s[0])), ite(z, s[1], ite(d < s[0], s[0], ite(d < s[1], d, s[1])))]
    r1, r2 = Fold2(nn, nq, [INFT, INFT], step)
    fin = lambda t: ne(fabs(t), INFT)
    chk.case('distance to the second nearest vortex', u, r'^MEpsilonFast::eps2h\(', [ptr('N'), x, y], [nn >= 0], {}, ret=ite(fin(r2), r2, ite(fin(r1), r1, -DMAX)), native={'ret': 'double'})


def pass_cases(chk):
    """the pass over all leaves: who is searched, with which criterion, and what becomes of the result"""
    for merge in (0, 1): pass_case(chk, merge)


def pass_case(chk, merge):
    u = eunit(chk, ['^_ZN12MEpsilonFast4eps[vh]E', 'nearestBodySegment']); chk.probe([('stree', 'bottomNodes')])
    u.region('SP', 'Space', SPACE); u.region('TR', 'stree', []); nl, _, nr = leafset(u, ranges=('vRange', 'hRange'))
    u.vec('TR', 'bottomNodes', 'LFp', lambda: nl); u.setptr('C', 'S', lambda: ptr('SP')); u.setptr('C', 'Tree', lambda: ptr('TR'))
    u.region('A', 'TAtt', ATT, dims=[nl]); A = lambda m: u.F('A', m); S = u.decl['OV'].stride
    none = lambda l: eq(fn('m_wall', l, sort='I'), I(0)); cx = lambda l: u.F('LF', 'x')(l); cy = lambda l: u.F('LF', 'y')(l)
    def nearest(E, st, a, ins):
        l = a[1].args[1][0]; tru = And(eq(a[2], cx(l)), eq(a[3], cy(l)))
        E.obl.append(('wall searched from the leaf centre', st.facts, tru)); return pite(none(l), NULL, ptr('A', (l,)))
    def crit(l):
        dl2 = A('dl.x')(l) * A('dl.x')(l) + A('dl.y')(l) * A('dl.y')(l); dx, dy = cx(l) - A('r.x')(l), cy(l) - A('r.y')(l)
        return ite(none(l), R(0), R('0.16') * dl2 * (1 + sqrt(dx * dx + dy * dy))) if merge else fn('nan')
    def srch(name, reg):
        def h(E, st, a, ins):
            l = a[1].args[1][0]; E.obl.append(('%s: leaf of the particle, criterion' % name, st.facts, And(ct.goal_eq(ptr(a[2].args[0], a[2].args[1]), ptr(reg, (l,))), eq(a[3], crit(l)) if merge else (TRUE if a[3] == fn('nan') else FALSE))))
            return fn(name, l, pscale(a[2].args[2], Fr(1, S)))
        return h
    u.contracts = [(r'^(TSortedTree|stree)::getBottomNodes\(', lambda E, st, a, ins: padd_off(a[0], I(chk.off('stree', 'bottomNodes')))), (r'^MEpsilonFast::nearestBodySegment\(', nearest),
                   (r'^MEpsilonFast::epsv\(', srch('search_v', 'OV')), (r'^MEpsilonFast::epsh\(', srch('search_h', 'OH'))]
    def rad(name, reg):
        def f(l, k):
            r = fn(name, l, k); lim = ite(none(l), R(0), sqrt(A('dl.x')(l) * A('dl.x')(l) + A('dl.y')(l) * A('dl.y')(l)) / 3)
            return ite(eq(u.F(reg, 'g')(l, k), R(0)), u.F(reg, '_1_eps')(l, k), 1 / ite(r < lim, lim, r))
        return f
    chk.case('pass over all leaves, merging %s' % ('on' if merge else 'off'), u, r'^MEpsilonFast::CalcEpsilonFast\(', [ptr('C'), Bool(merge)], [nl >= 0],
             {('C', 'merged_'): I(0), ('OV', '_1_eps'): rad('search_v', 'OV'), ('OH', '_1_eps'): rad('search_h', 'OH')}, samples=0)
