"""Solving for circulations: storage of the matrix, registration of the unknowns, direct solve and stored inverse."""
from vv.term import *
from vv import cuts, native, ir, sym, contract as ct
from vv.contract import Ev, For
from .common import *
from .world import *
from vv.prove import instances_at
from vv.check import fail

MAT = 'libvvhd/src/TMatrix.cpp'
PTRS = {'BodyMatrix': 'BM', 'InverseMatrix': 'IM', 'InvertedMatrix': 'CP', 'RightCol': 'RC', 'ipvt': 'PV'}
FLAGS = ('bodyMatrixIsOk_', 'inverseMatrixIsOk_')


WRAP = '''
#include "TMatrix.hpp"
extern "C" {
Matrix* m_new(){ return new Matrix(); }
void m_delete(Matrix* m){ delete m; }
void m_resize(Matrix* m, unsigned n){ m->resize(n); }
void m_set(Matrix* m, unsigned c, double* p){ m->setSolutionForCol(c, p); }
unsigned m_col(Matrix* m, double* p){ return m->getColForSolution(p); }
double* m_ptr(Matrix* m, unsigned c){ return m->getSolutionForCol(c); }
void m_zero(Matrix* m){ m->fillWithZeros(); }
void m_cell(Matrix* m, unsigned row, double* p, double v){ *m->getCell(row, p) = v; }
void m_right(Matrix* m, unsigned row, double v){ *m->getRightCol(row) = v; }
void m_mark(Matrix* m){ m->markBodyMatrixAsFilled(); }
int m_ok(Matrix* m){ return m->bodyMatrixIsOk(); }
void m_solve(Matrix* m, int inv){ m->solveUsingInverseMatrix(inv); }
}
'''


def histories(lib, rnd, chk, progress):
    """fills, changes of size, registrations in any order and solves by both methods; every solve is checked by substitution"""
    import ctypes, numpy as np
    V, U, D, P = ctypes.c_void_p, ctypes.c_uint, ctypes.c_double, ctypes.c_void_p
    for nm, at, rt in (('m_new', [], V), ('m_delete', [V], None), ('m_resize', [V, U], None), ('m_set', [V, U, P], None), ('m_col', [V, P], U), ('m_ptr', [V, U], P), ('m_zero', [V], None), ('m_cell', [V, U, P, D], None), ('m_right', [V, U, D], None), ('m_mark', [V], None), ('m_ok', [V], ctypes.c_int), ('m_solve', [V, ctypes.c_int], None)):
        f = getattr(lib, nm); f.argtypes = at; f.restype = rt
    K = 64; buf = (D * K)(); base = ctypes.addressof(buf); addr = lambda q: base + 8 * q; done = 0
    TWINS = [(102.66, 132.644)]          # one-element matrices whose 32-bit hashes are equal
    for it in range(chk.n(400, 4000)):
        m = lib.m_new(); n = 0; reg = []; A = None; hist = []; filled = False; past = []
        def say(s): hist.append(s); progress(' ; '.join(hist[-30:]))
        def bad(msg): fail('%s after: %s' % (msg, ' ; '.join(hist)))
        small = rnd.random() < .3; cols = {}
        for step in range(rnd.randint(2, 9)):
            if n == 0 or rnd.random() < .25:
                n = rnd.randint(1, 2 if small else 9); n = rnd.choice([n, len(reg) or n]); say('resize %d' % n); lib.m_resize(m, n)
                if n != len(reg): filled = False; A = None
                cols = {c: q for c, q in cols.items() if c < n}; reg = None
            if reg is None or rnd.random() < .3:
                # the unknowns are given their columns, one column after another, possibly several times
                for _ in range(rnd.choice([1, 1, 1, 2])):
                    reg = rnd.sample(range(K), n) if rnd.random() < .5 or len(cols) < n else rnd.sample([cols[c] for c in range(n)], n)
                    order = list(range(n)); rnd.random() < .3 and rnd.shuffle(order)
                    for c in order: lib.m_set(m, c, addr(reg[c])); cols[c] = reg[c]
                    say('unknowns %r in the order %r' % (reg, order))
                A = None; filled = False; reg = list(reg)
                for c in range(n):
                    if lib.m_ptr(m, c) != addr(reg[c]): bad('column %d has another unknown' % c)
                    if lib.m_col(m, addr(reg[c])) != c: bad('unknown %d is found at column %d, registered for %d' % (reg[c], lib.m_col(m, addr(reg[c])), c))
            keep = A is not None and bool(lib.m_ok(m)) and rnd.random() < .5
            if not keep:
                old = A; mode = rnd.random()
                while True:
                    if n == 1 and rnd.random() < .5: A = np.array([[rnd.choice(rnd.choice(TWINS))]])
                    elif old is not None and mode < .25: A = old.copy()
                    elif old is not None and mode < .45: A = old.copy(); A[rnd.randrange(n), rnd.randrange(n)] += rnd.choice([1e-9, .5, -1, 3])
                    elif past and mode < .6:
                        A = rnd.choice(past).copy()
                        if A.size > n * n: A = A.ravel()[:n * n].reshape(n, n).copy()          # continues an earlier one row by row
                    elif old is not None and mode < .7: A = old.T.copy()
                    elif mode < .8: A = np.array([[rnd.choice([0, 1, 1, 2]) for _ in range(n)] for _ in range(n)], float); j = rnd.randrange(n); A[0, j] = A[j, 0]
                    else:
                        A = np.array([[rnd.choice([0, 0, 1, -1, rnd.uniform(-3, 3)]) for _ in range(n)] for _ in range(n)]); A += np.diag([rnd.choice([0, 1, 4]) for _ in range(n)])
                    if A.shape == (n, n) and np.linalg.matrix_rank(A) == n and np.linalg.cond(A) < 1e6: break
                    mode = 1 if A.shape != (n, n) else rnd.random()
                past.append(A.copy()); lib.m_zero(m); cells = [(i, j) for i in range(n) for j in range(n) if A[i, j]]
                rnd.random() < .3 and rnd.shuffle(cells)
                for i, j in cells: lib.m_cell(m, i, addr(reg[j]), A[i, j])
                lib.m_mark(m); say('matrix %r' % (A.tolist(),))
            b = np.array([rnd.choice([0, 1, rnd.uniform(-5, 5)]) for _ in range(n)])
            part = not keep and rnd.random() < .5
            for i in range(n):
                if b[i] or not part: lib.m_right(m, i, b[i])
            before = [rnd.uniform(10, 20) for _ in range(K)]
            for q in range(K): buf[q] = before[q]
            inv = rnd.random() < .6; say('right-hand side %r%s ; solve %s' % (b.tolist(), ' only' if keep else '', 'by inverse' if inv else 'directly')); lib.m_solve(m, int(inv)); done += 1
            x = np.array([buf[q] for q in reg]); r = A.dot(x) - b; scale = np.abs(A).dot(np.abs(x)).max() + np.abs(b).max() + 1e-300
            if not (np.abs(r).max() <= 1e-8 * scale): bad('the solution %r leaves the residual %r' % (x.tolist(), r.tolist()))
            for q in range(K):
                if q not in reg and buf[q] != before[q]: bad('unknown %d is not registered and was changed' % q)
        lib.m_delete(m)
    return done


def setup(chk):
    chk.wrapfile(WRAP); chk.battery('histories', histories, True, 'random histories of resizes, registrations, fills and solves of systems up to 9 by 9, checked by substitution')
    for g in (cells, resizing, registration, transposition, inversion, solve): chk.group(g)


def unit(chk, ni=()):
    chk.probe([('Matrix', m) for m in ('N', 'solution_ptr', 'solution_idx') + tuple(PTRS) + FLAGS]); m = chk.extract([MAT], noinline=list(ni), types=[('Matrix', 'TMatrix.hpp')]); u = chk.unit(m)
    u.region('M', 'Matrix', ['N'] + list(FLAGS)); n = var('n_N', 'I'); u.setptr('M', 'N', lambda: n)
    for r in ('BM', 'IM', 'CP'): u.matrix(r, n)
    u.raw('RC', 8, {0: ('double', 'v')}, [n]); u.raw('PV', 4, {0: ('i32', 'v')}, [n + 1])
    for m_, r in PTRS.items(): u.setptr('M', m_, lambda r=r: ptr(r))
    nx = var('n_X', 'I'); u.raw('X', 8, {0: ('double', 'v')}, [nx])          # all doubles that may be unknowns
    u.raw('SP', 8, {0: ('ptr', None)}, [n]); sp = lambda k: fn('n_sp', I(k), sort='I'); u.setoff('SP', 0, lambda k: ptr('X', (), sp(k) * 8)); u.vec('M', 'solution_ptr', 'SP', lambda: n)
    return u, n, nx, sp
F8 = ir.DBL


def cells(chk):
    """storage: the cell of an equation and an unknown, the right-hand side, zero filling"""
    u, n, nx, sp = unit(chk, ['getColForSolution']); row = var('row', 'I'); col = var('n_col', 'I')
    u.contracts = [(r'^Matrix::getColForSolution\(', lambda E, st, a, i: ct.emit(st, 'column of', a[1]) or col)]
    chk.case('cell of an equation and an unknown', u, r'^Matrix::getCell\(', [ptr('M'), row, ptr('X', (), var('q', 'I') * 8)], [row >= 0, row < n, col < n], {}, samples=0, extra_post=lambda E, st, v: [('the cell', st.facts, ct.ptr_eq(E.pnorm(st, v), ptr('BM', (), (row * n + col) * 8)))])
    chk.case('right-hand side of an equation', u, r'^Matrix::getRightCol\(', [ptr('M'), row], [row >= 0, row < n], {}, samples=0, extra_post=lambda E, st, v: [('the cell', st.facts, ct.ptr_eq(E.pnorm(st, v), ptr('RC', (), row * 8)))])
    chk.case('filling with zeros', u, r'^Matrix::fillWithZeros\(', [ptr('M')], [], {('BM', 0): lambda i, j: R(0), ('RC', 0): lambda i: R(0), ('M', 'bodyMatrixIsOk_'): I(0)}, samples=0)


def resizing(chk):
    """another number of unknowns: room for everything, the unknowns beyond it forgotten, nothing taken for filled or inverted"""
    u, n, nx, sp = unit(chk, ['forgetSolutionForCol', '^_ZNSt6vectorIPd']); m = var('n_new', 'I'); BACK = {r: f for f, r in PTRS.items()}; size = {'BM': m * m * 8, 'IM': m * m * 8, 'CP': m * m * 8, 'RC': m * 8, 'PV': (m + 1) * 4}
    def realloc(E, st, a, i):
        p = E.pnorm(st, a[0]); r = p.args[0] if p.op == 'p' else None
        if r not in size: raise sym.Unsupported('realloc of %r' % (p,))
        E.obl.append(('room for %s' % BACK[r], st.facts, And(ct.ptr_eq(p, ptr(r)), a[1] >= size[r]))); st.ghost = dict(st.ghost, **{r: 1}); return ptr(r, (), 0)
    u.contracts = [(r'^Matrix::forgetSolutionForCol\(', lambda E, st, a, i: ct.emit(st, 'forget the unknown of column', a[1])), (r'^realloc$', realloc), (r'^std::vector<double\*.*>::resize\(', lambda E, st, a, i: ct.emit(st, 'number of unknowns', a[1]))]
    def extra(E, st, v):
        same = eq(m, n); ev = ct.events_obl(st.trace, [For(ite(m < n, n - m, I(0)), lambda k: [Ev('forget the unknown of column', m + k)]), Ev('number of unknowns', m)], st.facts, '')
        if not st.ghost: return [('nothing happens only for the same size', st.facts, same), ('no effects', st.facts, Bool(not st.trace))]
        return ev + [('everything gets room: %s' % f, st.facts, Bool(st.ghost.get(r) == 1)) for f, r in PTRS.items()] + [('%s is withdrawn' % f, st.facts, eq(ct.cell(E, st, u, 'M', f), I(0))) for f in FLAGS] + [('the size', st.facts, eq(E.load(st, ptr('M', (), I(chk.off('Matrix', 'N'))), ir.I64), m)), ] + [('the block of %s' % f, st.facts, ct.ptr_eq(E.pnorm(st, E.load(st, ptr('M', (), I(chk.off('Matrix', f))), ir.PTR)), ptr(r))) for f, r in PTRS.items()]
    chk.case('another number of unknowns', u, r'^Matrix::resize\(', [ptr('M'), m], [m >= 0, m < 1 << 15, n < 1 << 15], {}, samples=0, merge=False, extra_post=extra, ignore=[('M', '*')])


def transposition(chk):
    u, n, nx, sp = unit(chk); A = u.F('BM', 'v')
    chk.case('transposition in place', u, r'^Matrix::transpose\(', [ptr('M'), ptr('BM'), n], [], {('BM', 0): lambda i, j: A(j, i)}, samples=0)


def registration(chk):
    """std::map as a finite map from unknowns to columns: a pseudo element ND(q) = (present, column) per unknown q"""
    u, n, nx, sp = unit(chk, ['^_ZNK?St3map']); u.raw('ND', 48, {0: ('i32', 'present'), 40: ('i32', 'column')}, [nx])
    END = ptr('M', (), I(chk.off('Matrix', 'solution_idx')) + 8); I32 = ir.Ty('int', 32)
    def key(E, st, p): return E.pnorm(st, E.load(st, p, ir.PTR))
    def ix(p):
        if p.op == 'ite': return ite(p.args[0], ix(p.args[1]), ix(p.args[2]))
        if p.op == 'p' and p.args[0] == 'X': return pscale(p.args[2], Fr8)
        raise sym.Unsupported('key of the map: %r' % (p,))
    def find(E, st, a, i):
        k = key(E, st, a[1]); q = ix(k); return pite(ne(E.readcell(st, 'ND', 0, (q,), I32), I(0)), ptr('ND', (), q * 48), END)
    def erase(E, st, a, i):
        it = a[1] if len(a) > 1 else a[0]; it = E.pnorm(st, it)
        if it.op == 'p' and it.args[0] == 'ND': E.store(st, ptr('ND', (), it.args[2]), I(0), I32); return None
        raise sym.Unsupported('erase')
    def erasekey(E, st, a, i): E.store(st, ptr('ND', (), ix(key(E, st, a[1])) * 48), I(0), I32); return None
    def at(E, st, a, i):
        q = ix(key(E, st, a[1])); E.store(st, ptr('ND', (), q * 48), I(1), I32); return ptr('ND', (), q * 48 + 40)
    u.contracts = [(r'^std::map<double const\*.*::find\(', find), (r'^std::map<double const\*.*::erase(\[abi:cxx11\])?\(std::_Rb_tree_(const_)?iterator', erase), (r'^std::map<double const\*.*::erase(\[abi:cxx11\])?\(double const', erasekey), (r'^std::map<double const\*.*::operator\[\]\(', at)]
    q, col = var('q', 'I'), var('col', 'I'); P0 = lambda k: ne(fn('ND.present', I(k), sort='I'), I(0)); C0 = lambda k: fn('ND.column', I(k), sort='I')
    inr = [col >= 0, col < n, q >= 0, q < nx, sp(col) >= 0, sp(col) < nx]
    def extra(E, st, v):
        P = lambda k: ne(E.readcell(st, 'ND', 0, (I(k),), I32), I(0)); C = lambda k: E.readcell(st, 'ND', 40, (I(k),), I32); S = lambda k: ix(E.pnorm(st, E.readcell(st, 'SP', 0, (I(k),), ir.PTR)))
        c = I(mk('var', '$k%d' % fresh(), sort='I')); f = st.facts + (c >= 0, c < n, sp(c) >= 0, sp(c) < nx); found = lambda P_, C_, s: And(P_(s), eq(C_(s), c))
        return [('the unknown is kept for its column', st.facts, eq(S(col), q)), ('the unknown is found at its column', st.facts, And(P(q), eq(C(q), col))),
                ('the other columns keep their unknowns', f + (ne(c, col),), eq(S(c), sp(c))), ('other unknowns are still found at their columns', f + (ne(c, col), ne(sp(c), q), found(P0, C0, sp(c))), found(P, C, S(c)))]
    chk.case('registration of an unknown', u, r'^Matrix::setSolutionForCol\(', [ptr('M'), col, ptr('X', (), q * 8)], inr, {}, extra_post=extra, samples=0, ignore=[('ND', '*'), ('SP', '*')])
    chk.case('column of an unknown', u, r'^Matrix::getColForSolution\(', [ptr('M'), ptr('X', (), q * 8)], inr, {}, samples=0, ret=ite(P0(q), C0(q), I(-1)))
from fractions import Fraction
Fr8 = Fraction(1, 8)


def lapack(u, n, chk):
    """assumed contracts on BLAS/LAPACK, with their argument conventions as obligations"""
    I32 = ir.Ty('int', 32)
    say = (r'^(fprintf|fwrite)$', lambda E, st, a, i: I(0))
    def val(E, st, p): return E.load(st, p, I32)
    def need(E, st, name, *cs):
        for k, c in enumerate(cs): E.obl.append(('%s: argument requirement %d' % (name, k), st.facts, c))
    def content(E, st, reg, f):
        i, j = (I(mk('var', '$q%d' % fresh(), sort='I')) for _ in range(2)); return st.facts + (i >= 0, i < n, j >= 0, j < n), eq(E.readcell(st, reg, 0, (i, j), F8), f(i, j))
    def info(E, st, p):
        k = I(mk('var', '$info%d' % fresh(), sort='I')); E.store(st, p, k, I32); st.ghost = dict(st.ghost, info=k)
    def getrf(E, st, a, i):
        need(E, st, 'dgetrf', *[eq(val(E, st, a[k]), n) for k in (0, 1, 3)], ct.ptr_eq(E.pnorm(st, a[2]), ptr('IM')), ct.ptr_eq(E.pnorm(st, a[4]), ptr('PV')))
        f, g = content(E, st, 'IM', u.F('BM', 'v')); E.obl.append(('dgetrf: factorises the assembled matrix', f, g))
        E.matfill(st, 'IM', lambda i, j: fn('lu', i, j)); st.mem[('PV', 0)] = st.mem.get(('PV', 0), ()) + (sym.Hv('lu'),); info(E, st, a[5]); st.ghost = dict(st.ghost, lu=1); return None
    def getri(E, st, a, i):
        need(E, st, 'dgetri', *[eq(val(E, st, a[k]), n) for k in (0, 2)], ct.ptr_eq(E.pnorm(st, a[1]), ptr('IM')), ct.ptr_eq(E.pnorm(st, a[3]), ptr('PV')), ct.ptr_eq(E.pnorm(st, a[4]), ptr('BM')), eq(val(E, st, a[5]), n * n), Bool(st.ghost.get('lu') == 1))
        f, g = content(E, st, 'IM', lambda i, j: fn('lu', i, j)); E.obl.append(('dgetri: works on the factors', f, g))
        E.matfill(st, 'IM', lambda i, j: fn('inverse', i, j)); E.matfill(st, 'BM', lambda i, j: fn('garbage', i, j)); info(E, st, a[6]); st.ghost = dict(st.ghost, inverted=1); return None
    def compare(E, st, a, i):
        need(E, st, 'compare', eq(a[2], n * n * 8)); ra, rb = (E.pnorm(st, x) for x in a[:2]); need(E, st, 'compare', Bool(ra.op == 'p' and rb.op == 'p' and not ra.args[2].d and not rb.args[2].d))
        s1, s2 = st.copy(), st.copy()
        same = lambda i, j: Or(i < 0, i >= n, j < 0, j >= n, eq(E.readcell(st, ra.args[0], 0, (i, j), F8), E.readcell(st, rb.args[0], 0, (i, j), F8)))
        s1.ghost = dict(s1.ghost, equal=same)
        return [(s1, I(0), 'ret'), (s2, I(1), 'ret')]
    def dgesv(E, st, a, i):
        need(E, st, 'dgesv', *[eq(val(E, st, a[k]), x) for k, x in ((0, n), (1, I(1)), (3, n), (6, n))], ct.ptr_eq(E.pnorm(st, a[2]), ptr('BM')), ct.ptr_eq(E.pnorm(st, a[5]), ptr('RC')), ct.ptr_eq(E.pnorm(st, a[4]), ptr('PV')))
        f, g = content(E, st, 'BM', lambda i, j: u.F('BM', 'v')(j, i)); E.obl.append(('dgesv: takes the assembled matrix column by column', f, g))
        k = I(mk('var', '$q%d' % fresh(), sort='I')); E.obl.append(('dgesv: takes the assembled right-hand side', st.facts + (k >= 0, k < n), eq(E.readcell(st, 'RC', 0, (k,), F8), u.F('RC', 'v')(k))))
        E.matfill(st, 'BM', lambda i, j: fn('garbage', i, j)); st.mem[('PV', 0)] = st.mem.get(('PV', 0), ()) + (sym.Hv('lu'),); ct.setall(E, st, u, 'RC', 'v', lambda k: fn('solution', k), n); info(E, st, a[7]); return None
    def gemv(E, st, a, i):
        ok = [eq(a[0], I(101)), eq(a[1], I(111)), eq(a[2], n), eq(a[3], n), eq(a[4], R(1)), eq(a[6], n), eq(a[8], I(1)), eq(a[9], R(0)), eq(a[11], I(1)), ct.ptr_eq(E.pnorm(st, a[5]), ptr('IM')), ct.ptr_eq(E.pnorm(st, a[7]), ptr('RC'))]
        need(E, st, 'dgemv', *ok); y = E.pnorm(st, a[10]); need(E, st, 'dgemv', Bool(y.op == 'p' and y.args[0] == 'Y' and not y.args[2].d))
        t = st.copy()
        def row(k, j): t.assume(And(k >= 0, k < n)); t.assume(And(j >= 0, j < n)); return E.readcell(t, 'IM', 0, (k, j), F8) * E.readcell(t, 'RC', 0, (j,), F8)
        ct.setall(E, st, u, 'Y', 'v', lambda k: fn('product', k), n); k = mk('var', '$pk', sort='I'); st.assume(ball(k, I(0), n, eq(fn('product', I(k)), SumN(n, lambda j: row(I(k), j))))); return None
    return [say, (r'^dgetrf_$', getrf), (r'^dgetri_$', getri), (r'^(bcmp|memcmp)$', compare), (r'^dgesv_$', dgesv), (r'^cblas_dgemv$', gemv)]


def quit_(E, s): return [('ends the program only when the matrix is singular', s.facts, ne(s.ghost['info'], I(0)) if 'info' in s.ghost else FALSE)]


def inversion(chk):
    """the stored inverse belongs to the assembled matrix afterwards, whether it was computed now or kept from an equal one"""
    u, n, nx, sp = unit(chk); u.contracts = lapack(u, n, chk); B0, C0, I0 = (u.F(r, 'v') for r in ('BM', 'CP', 'IM')); flag = {f: ne(u.F('M', f)(), I(0)) for f in FLAGS}
    def extra(E, st, v):
        i, j = (I(mk('var', '$q%d' % fresh(), sort='I')) for _ in range(2)); f = st.facts + (i >= 0, i < n, j >= 0, j < n); now = lambda r: E.readcell(st, r, 0, (i, j), F8); cell = lambda m: ct.cell(E, st, u, 'M', m)
        kept = [('the stored inverse is marked as valid', st.facts, ne(cell('inverseMatrixIsOk_'), I(0)))]
        if st.ghost.get('inverted'): return kept + [('the inverse is that of the assembled matrix', f, eq(now('IM'), fn('inverse', i, j))), ('the matrix it belongs to is kept', f, eq(now('CP'), B0(i, j))), ('the destroyed matrix is marked', st.facts, eq(cell('bodyMatrixIsOk_'), I(0)))]
        if 'equal' in st.ghost: f = f + (st.ghost['equal'](i, j),)          # an instance of what the comparison established
        return kept + [('a stored inverse existed', st.facts, flag['inverseMatrixIsOk_']), ('it belongs to an equal matrix', f, eq(C0(i, j), B0(i, j))), ('it is untouched', f, And(eq(now('IM'), I0(i, j)), eq(now('CP'), C0(i, j)))), ('the assembled matrix is untouched or marked', f, Or(eq(cell('bodyMatrixIsOk_'), I(0)), eq(now('BM'), B0(i, j))))]
    extra.quit = quit_
    chk.case('stored inverse', u, r'^Matrix::FillInverseMatrix\(', [ptr('M')], [flag['bodyMatrixIsOk_'], n > 0], {}, extra_post=extra, samples=0, merge=False, ignore=[(r, '*') for r in ('BM', 'IM', 'CP', 'PV', 'M')])


def solve(chk):
    """every unknown receives the value of its own column of the solution"""
    for inv in (False, True):
        u, n, nx, sp = unit(chk, ['selfTest', 'FillInverseMatrix', '^_ZN6Matrix9transpose', '_Znam']); u.contracts = lapack(u, n, chk) + [(r'^Matrix::selfTest\(', lambda E, st, a, i: ct.emit(st, 'self test'))]
        u.raw('Y', 8, {0: ('double', 'v')}, [n]); A, IM, RC = u.F('BM', 'v'), u.F('IM', 'v'), u.F('RC', 'v'); u.ints.add('Y.v') if 0 else None
        def fill(E, st, a, i): E.matfill(st, 'IM', lambda i, j: fn('inverse', i, j)); E.matfill(st, 'BM', lambda i, j: fn('garbage', i, j)); return None
        def tr(E, st, a, i):
            E.obl.append(('transposes the whole matrix', st.facts, And(ct.ptr_eq(E.pnorm(st, a[1]), ptr('BM')), eq(a[2], n)))); s0 = st.copy(); E.matfill(st, 'BM', lambda i, j: E.readcell(s0, 'BM', 0, (j, i), F8)); return None
        def new(E, st, a, i): E.obl.append(('room for the solution', st.facts, a[0] >= n * 8)); return ptr('Y')
        u.contracts += [(r'^Matrix::FillInverseMatrix\(', fill), (r'^Matrix::transpose\(', tr), (r'^operator new\[\]', new), (r'^operator delete\[\]', lambda E, st, a, i: None)]
        x = (lambda k: fn('product', I(k))) if inv else (lambda k: fn('solution', I(k)))
        k, l = mk('var', '$da', sort='I'), mk('var', '$db', sort='I')
        def extra(E, st, v, x=x, n=n, sp=sp, inv=inv, RC=RC):
            c = I(mk('var', '$q%d' % fresh(), sort='I')); f = st.facts + (c >= 0, c < n)
            o = [('the unknown of every column', f + tuple(instances_at(f, [c])), eq(E.readcell(st, 'X', 0, (sp(c),), F8), SumN(n, lambda j: fn('inverse', I(c), j) * RC(j)) if inv else x(c)))]
            return o
        pre = [n > 0, n < 1 << 31, ball(k, I(0), n, And(sp(I(k)) >= 0, sp(I(k)) < nx, eq(fn('n_column', sp(I(k)), sort='I'), I(k))))]      # distinct unknowns
        if not inv: pre.append(ne(u.F('M', 'bodyMatrixIsOk_')(), I(0)))
        extra.quit = quit_
        def cuts_(E, x=x, n=n, sp=sp):
            def inv_(v, rd):
                b = mk('var', '$dc', sort='I'); i = [v[k] for k in v if isinstance(v[k], Poly)][0]; return [i >= 0, i <= n, ball(b, I(0), i, eq(rd('X', 'v', sp(I(b))), x(b)))]
            E.cuts = [cuts.Inv(r'^Matrix::solveUsingInverseMatrix', [], inv_)]
        chk.case('solve by the stored inverse' if inv else 'direct solve', u, r'^Matrix::solveUsingInverseMatrix\(', [ptr('M'), Bool(inv)], pre, {} if inv else {('M', 'bodyMatrixIsOk_'): I(0)}, extra_post=extra, samples=0, engine_setup=cuts_, ignore=[(r, '*') for r in ('BM', 'IM', 'PV', 'Y', 'RC', 'X')] + ([('M', 'bodyMatrixIsOk_'), ('M', 'inverseMatrixIsOk_')] if inv else []))
