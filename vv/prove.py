"""Discharging obligations: polynomial normal form, case analysis on conditions,
pointwise (extensional) comparison of sums/folds, then z3 (and cvc5 as a second opinion).
A goal that is not proved is searched for a counterexample by exact/numeric evaluation."""
import time, random, math, subprocess
import z3
from .term import *
from . import term as T
from .sym import b_atoms, Decider, idx_eq

STAT = {'normal-form': 0, 'case-split': 0, 'z3': 0, 'z3_time': 0.0, 'cvc5': 0}


class Result:
    def __init__(self, status, by, why='', cex=None): self.status = status; self.by = by; self.why = why; self.cex = cex
    def __bool__(self): return self.status == 'proved'
    def __repr__(self): return 'Result(%s,%s,%s)' % (self.status, self.by, self.why)


class Prover:
    def __init__(self, axioms=(), maxsplit=400, z3ms=4000):
        self.dec = Decider(); self.axioms = list(axioms); self.maxsplit = maxsplit; self.z3ms = z3ms
        self.by = None; self.memo = {}

    # ---- equality of polynomials
    def eq0(self, facts, d, depth=0, budget=None):
        """prove d == 0 under facts"""
        if budget is None: budget = [self.maxsplit]
        d = self.simp(facts, d)
        if not d.d: return True
        key = (facts, d)
        if key in self.memo: return self.memo[key]
        r = self._eq0(facts, d, depth, budget)
        self.memo[key] = r
        return r

    def divzero(self, facts, d):
        for m in d.d:
            for a, x in m:
                if x < 0:
                    base = a.args[0] if a.op == 'poly' else Poly({((a, 1),): F1}, a.sort)
                    c = eq(base, Poly({}, base.sort))
                    if c in facts: return True
        return False

    def _eq0(self, facts, d, depth, budget):
        if self.divzero(facts, d): return False
        e = self.clear(d)
        if not e.d: return True
        # case split on indicators
        at = self.pick(e)
        if at is not None:
            budget[0] -= 1
            if budget[0] < 0: return False
            b = at.args[0]
            ok = True
            for lit, v in ((b, 1), (Not(b), 0)):
                if self.dec.decide(facts, lit) is False: continue
                d2 = subst_all(d, {at: Poly({(): Fraction(v)} if v else {}, 'I')})
                if not self.eq0(with_fact(facts, lit), d2, depth + 1, budget): ok = False; break
            if self.by in (None, 'normal-form'): self.by = 'case-split'
            return ok
        e2 = self.peel(facts, e)
        if e2 is not None: return self.eq0(facts, e2, depth + 1, budget)
        # unify equal sums / folds / function atoms with provably equal arguments
        e2 = self.unify(facts, e, depth, budget)
        if e2 is not None:
            e2 = self.clear(e2)
            if not e2.d: return True
            return self.eq0(facts, e2, depth + 1, budget)
        # rewrite with equality facts  (p==0 linear in some atom)
        for f in facts:
            if f.op == 'cmp' and f.args[0] == '==':
                q = f.args[1]
                for m, c in q.d.items():
                    if len(m) == 1 and m[0][1] == 1:
                        a = m[0][0]; rest = Poly({mm: -cc / c for mm, cc in q.d.items() if mm != m}, q.sort)
                        if a in rest.fv or any(a in [x for x, _ in mm] for mm in rest.d): continue
                        e3 = subst_all(e, {a: rest})
                        if e3 != e:
                            fs = tuple(x for x in facts if x is not f)
                            if self.eq0(fs, e3, depth + 1, budget): return True
                        break
        return False

    def simp(self, facts, p):
        """replace indicator atoms decided by facts (syntactic + linear)"""
        m = {}
        for a in all_atoms(p):
            if a.op == 'ind':
                r = None
                b = a.args[0]
                if b in facts: r = True
                elif Not(b) in facts: r = False
                elif not any(x.op == 'bv' for x in a.fv): r = self.dec.decide(facts, b)
                elif b.op == 'cmp' and b.args[1].sort == 'I': pass
                if r is not None: m[a] = Poly({(): F1} if r else {}, 'I')
        if m: p = subst_all(p, m)
        return p

    def clear(self, d):
        """multiply out negative powers and expand 'poly' atoms (divisors assumed nonzero)"""
        for _ in range(12):
            neg = {}
            for m in d.d:
                for a, e in m:
                    if e < 0: neg[a] = min(neg.get(a, 0), e)
            pos = any(a.op == 'poly' and e > 0 for m in d.d for a, e in m)
            if not neg and not pos: return d
            out = Poly({}, d.sort)
            for m, c in d.d.items():
                mm = dict(m)
                t = Poly({(): c}, d.sort)
                for a in set(mm) | set(neg):
                    e = mm.get(a, 0) - neg.get(a, 0)
                    if e == 0: continue
                    base = a.args[0] if a.op == 'poly' else Poly({((a, 1),): F1}, a.sort)
                    t = pmul(t, ppow(base, e))
                    if len(t.d) > 20000: raise OverflowError
                out = padd(out, t)
            if len(out.d) > 60000: raise OverflowError
            d = out
        return d

    def pick(self, d):
        best = None
        for a in sorted(all_atoms(d, binders=False), key=lambda a: a.id):
            if a.op == 'ind' and not any(x.op == 'bv' for x in a.fv): return a
            if a.op == 'ite' and not any(x.op == 'bv' for x in a.fv):
                return mk('ind', a.args[0], sort='I') if a.args[0].op not in ('and', 'or', 'not') else None or best
        return best

    def peel(self, facts, e):
        """sum or fold over k < n+c next to one over k < n (n >= 0 known): take the last c terms off"""
        ats = [a for a in all_atoms(e, binders=False) if a.op in ('sum', 'fold') and not any(x.op == 'bv' for x in a.fv)]
        for a in ats:
            for b in ats:
                if a is b or a.op != b.op: continue
                d = (a.args[1] - b.args[1]); c = d.const()
                if c is None or not (0 < c <= 4): continue
                lo = le(I(0), b.args[1])
                if lo not in facts and self.dec.decide(facts, lo) is not True: continue
                n = a.args[1] - I(1)
                k = mk('var', '$pl%d' % fresh(), sort='I'); bv = mk('bv', a.args[0], sort='I')
                if a.op == 'sum':
                    body = subst(a.args[2], {bv: I(k)}); r = Sum(k, I(0), n, body) + subst(body, {k: n})
                else:
                    sv = [mk('var', '$ps%d' % fresh(), sort=x.sort) for x in a.args[3]]; m = {bv: I(k)}
                    for j, x in enumerate(sv): m[mk('bv', a.args[0], j, sort=x.sort)] = Poly({((x, 1),): F1}, x.sort)
                    st = [subst(x, m) for x in a.args[3]]
                    r = subst(st[a.args[4]], {k: n, **{x: Fold(k, n, sv, a.args[2], st, j) for j, x in enumerate(sv)}})
                return subst_all(e, {a: r})
        return None

    def unify(self, facts, e, depth, budget):
        if depth > 8: return None
        ats = [a for a in all_atoms(e, binders=False) if a.op in ('sum', 'fold') or (a.op == 'fn' and len(a.args) > 1) or a.op == 'poly']
        groups = {}
        for a in ats:
            k = (a.op, a.args[0] if a.op == 'fn' else (len(a.args[3]), a.sort) if a.op == 'fold' else None, a.sort)
            groups.setdefault(k, []).append(a)
        for k, g in groups.items():
            for i in range(len(g)):
                for j in range(i):
                    if self.ateq(facts, g[i], g[j], depth, budget):
                        return subst_all(e, {g[i]: Poly({((g[j], 1),): F1}, g[j].sort)})
        # combine linear sums with the same bound
        sums = [a for a in ats if a.op == 'sum']
        if len(sums) > 1:
            byn = {}
            for a in sums: byn.setdefault(a.args[1], []).append(a)
            for n, g in byn.items():
                if len(g) < 2: continue
                kk = mk('var', '$q%d' % fresh(), sort='I'); tot = Poly({}, e.sort); rest = {}
                ok = True
                for m, c in e.d.items():
                    inm = [(a, x) for a, x in m if a in g]
                    if not inm: rest[m] = c; continue
                    if len(inm) != 1 or inm[0][1] != 1: ok = False; break
                    a = inm[0][0]
                    body = subst(a.args[2], {mk('bv', a.args[0], sort='I'): I(kk)})
                    tot = tot + Poly({tuple(t for t in m if t[0] is not a): c}, e.sort) * body
                if ok and not rest:
                    fs = facts + (lt(I(-1), I(kk)), lt(I(kk), n))
                    if self.eq0(fs, tot, depth + 1, budget): return Poly({}, e.sort)
        return None

    def ateq(self, facts, a, b, depth, budget):
        if a is b: return True
        if a.op == 'sum':
            if a.args[1] != b.args[1] and not self.eq0(facts, a.args[1] - b.args[1], depth + 1, budget): return False
            kk = I(mk('var', '$q%d' % fresh(), sort='I'))
            x = subst(a.args[2], {mk('bv', a.args[0], sort='I'): kk}); y = subst(b.args[2], {mk('bv', b.args[0], sort='I'): kk})
            fs = facts + (lt(I(-1), kk), lt(kk, a.args[1]))
            return self.eq0(fs, x - y, depth + 1, budget)
        if a.op == 'fold':
            if a.args[1] != b.args[1] and not self.eq0(facts, a.args[1] - b.args[1], depth + 1, budget): return False
            # same order of components assumed (canonicalised); permute small states
            import itertools
            na = len(a.args[3])
            if na > 4: perms = [tuple(range(na))]
            else: perms = itertools.permutations(range(na))
            for p in perms:
                if p[b.args[4]] != a.args[4] and p[b.args[4]] != a.args[4]: continue
                if any(a.args[2][p[j]].sort != b.args[2][j].sort for j in range(na)): continue
                if any(a.args[2][p[j]] != b.args[2][j] for j in range(na)):
                    if not all(self.eq0(facts, a.args[2][p[j]] - b.args[2][j], depth + 1, budget) for j in range(na)): continue
                kk = I(mk('var', '$q%d' % fresh(), sort='I'))
                sv = [mk('var', '$q%d' % fresh(), sort=a.args[3][p[j]].sort) for j in range(na)]
                ma = {mk('bv', a.args[0], sort='I'): kk}; mb = {mk('bv', b.args[0], sort='I'): kk}
                for j in range(na):
                    so = sv[j].sort
                    ma[mk('bv', a.args[0], p[j], sort=so)] = Poly({((sv[j], 1),): F1}, so)
                    mb[mk('bv', b.args[0], j, sort=so)] = Poly({((sv[j], 1),): F1}, so)
                fs = facts + (lt(I(-1), kk), lt(kk, a.args[1]))
                if all(self.eq0(fs, subst(a.args[3][p[j]], ma) - subst(b.args[3][j], mb), depth + 1, budget) for j in range(na)): return True
            return False
        if a.op == 'fn':
            if len(a.args) != len(b.args): return False
            return all(self.eq0(facts, x - y, depth + 1, budget) for x, y in zip(a.args[1:], b.args[1:]))
        if a.op == 'poly':
            return self.eq0(facts, a.args[0] - b.args[0], depth + 1, budget)
        return False

    # ---- goals
    def prove(self, facts, goal):
        facts = tuple(facts)
        self.by = 'normal-form'
        try: r = self._prove(facts, goal, 0)
        except (OverflowError, RecursionError) as ex: r = False
        if r:
            STAT[self.by] = STAT.get(self.by, 0) + 1
            return Result('proved', self.by)
        return Result('open', None, self.why if hasattr(self, 'why') else '')

    def _prove(self, facts, g, depth):
        if g.op == 'true': return True
        if g in facts: return True
        if g.op == 'and': return all(self._prove(facts, x, depth) for x in g.args)
        if g.op == 'ball':
            lv, lo, hi, body = g.args
            kk = I(mk('var', '$h%d' % fresh(), sort='I'))
            b = subst(body, {mk('bv', lv, sort='I'): kk})
            return self._prove(facts + tuple(x for x in (le(lo, kk), lt(kk, hi)) if x.op != 'true'), b, depth)
        if g.op == 'not' and g.args[0].op == 'ball' and g.args[0] not in facts: return self._prove(facts + (g.args[0],), FALSE, depth)      # by contradiction
        if any(f.op == 'false' for f in facts): return True
        if self.dec.decide(facts, g) is True:
            self.by = 'z3'; return True
        if g.op == 'or':
            # g1 or g2 : assume negation of all but one
            for i, x in enumerate(g.args):
                fs = facts
                for j, y in enumerate(g.args):
                    if j != i: fs = with_fact(fs, Not(y))
                if x.op == 'cmp' and x.args[0] == '==' or x.op in ('or', 'and', 'ball'):
                    if self._prove(fs, x, depth + 1): return True
        if g.op == 'cmp' and g.args[0] == '==':
            if self.eq0(facts, g.args[1]): return True
        r = self.zprove(facts, g)
        return r

    # ---- z3
    def zprove(self, facts, g):
        t0 = time.time()
        Z = ZX()
        s = z3.Solver(); s.set('rlimit', self.z3ms * 2000); s.set('timeout', 60000)
        try:
            for f in list(facts) + self.axioms: s.add(Z.b(f))
            for f in instances(facts, g): s.add(Z.b(f))
            s.add(z3.Not(Z.b(g)))
            for ax in Z.axioms(): s.add(ax)
            r = s.check()
            if r == z3.sat and getattr(Z, 'skipped', False):       # the model may owe itself to a congruence left out
                for ax in Z.axioms(40): s.add(ax)
                r = s.check()
        except z3.Z3Exception as ex: r = z3.unknown; self.why = str(ex)
        STAT['z3_time'] += time.time() - t0
        if r == z3.unsat: self.by = 'z3'; return True
        self.why = 'z3: %s' % r
        self.model = s.model() if r == z3.sat else None
        self.Z = Z
        return False

    # ---- refutation by evaluation
    def refute(self, facts, goal, hints=None, tries=400, seed=1, gen=None):
        """search an assignment satisfying facts and violating goal (numerically, with margin)"""
        rnd = random.Random(seed)
        base = {}
        m = getattr(self, 'model', None)
        if m is not None:
            try: base = self.Z.modelvals(m)
            except Exception: base = {}
        for t in range(tries):
            env = NumEnv(random.Random(rnd.random()), base if t % 2 == 0 else {}, gen)
            try:
                if not all(holds(f, env) for f in facts): continue
                if violated(goal, env): return env
            except (EvalError, OverflowError, ZeroDivisionError, ValueError): continue
        return None


def holds(b, env): return ev(b, env)


def violated(g, env):
    if g.op == 'cmp' and g.args[0] == '==' and g.args[1].sort == 'R':
        # margin
        return abs(ev(g.args[1], env)) > 1e-40
    if g.op == 'and': return any(violated(x, env) for x in g.args)
    if g.op == 'or': return all(violated(x, env) for x in g.args)
    if g.op == 'ball':
        lv, lo, hi, b = g.args
        return any(violated(b, Env2(env, lv, j)) for j in range(int(ev(lo, env)), int(ev(hi, env))))
    if g.op == 'not' and g.args[0].op == 'cmp' and g.args[0].args[1].sort == 'R':
        c = g.args[0]; v = ev(c.args[1], env)
        return v < -1e-40 if c.args[0] == '<' else False
    if g.op == 'cmp' and g.args[1].sort == 'R' and g.args[0] == '<': return ev(g.args[1], env) > 1e-40
    return not ev(g, env)


class NumEnv:
    def __init__(self, rnd, base, gen=None): self.r = rnd; self.v = {}; self.base = base; self.gen = gen
    def bv(self, args): raise EvalError('bv')
    def __call__(self, name, args):
        k = (name,) + tuple(args)
        if k in self.v: return self.v[k]
        x = self.base.get(k)
        if x is None and self.gen: x = self.gen(name, args, self.r)
        if x is None:
            if name in ('n', 'm') or name.startswith('$') or name.startswith('n_'): x = self.r.choice([0, 1, 2, 3, 4, 5])
            else: x = self.r.choice([0, 1, -1, 0.5, 2.0]) if self.r.random() < 0.3 else round(self.r.uniform(-3, 3), 3)
        self.v[k] = x
        return x
    def dump(self): return {'%s%s' % (k[0], list(k[1:]) if len(k) > 1 else ''): v for k, v in sorted(self.v.items(), key=str)}


class ZX:
    """translation to z3: atoms are real/int variables; sqrt, inverse and ordering axioms"""
    def __init__(self): self.v = {}; self.ax = []
    def p(self, p):
        r = None
        for m, c in p.d.items():
            t = z3.RealVal(str(c)) if p.sort == 'R' else (z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(str(c)))
            first = c == 1 and m
            tt = None if first else t
            for a, e in m:
                v = self.a(a)
                if p.sort == 'R' and a.sort == 'I': v = z3.ToReal(v)
                if e < 0:
                    w = self.inv(a, v); v = w; e = -e
                for _ in range(e): tt = v if tt is None else tt * v
            r = tt if r is None else r + tt
        if r is None: return z3.RealVal(0) if p.sort == 'R' else z3.IntVal(0)
        return r
    def inv(self, a, v):
        k = ('inv', a)
        if k not in self.v:
            w = z3.Real('inv%d' % a.id); self.v[k] = w
            if z3.is_int(v): v = z3.ToReal(v)
            self.ax.append(z3.Implies(v != 0, w * v == 1))
        return self.v[k]
    def a(self, a):
        if a in self.v: return self.v[a]
        if a.op == 'ind':
            w = z3.If(self.b(a.args[0]), z3.IntVal(1), z3.IntVal(0))
            self.v[a] = w; return w
        if a.op == 'poly':
            w = self.p(a.args[0]); self.v[a] = w; return w
        if a.op == 'ite':
            x, y = self.p(a.args[1]), self.p(a.args[2])
            if a.sort == 'R':
                if z3.is_int(x): x = z3.ToReal(x)
                if z3.is_int(y): y = z3.ToReal(y)
            w = z3.If(self.b(a.args[0]), x, y); self.v[a] = w; return w
        w = z3.Int('a%d' % a.id) if a.sort == 'I' else z3.Real('a%d' % a.id)
        self.v[a] = w
        if a.op in ('fn', 'var') and a.sort == 'I' and str(a.args[0]).startswith('n_'): self.ax.append(w >= 0)     # lengths
        if a.op == 'fn':
            n = a.args[0]
            if n == 'sqrt':
                x = self.p(a.args[1]); self.ax.append(w >= 0); self.ax.append(z3.Implies(x >= 0, w * w == x))
            elif n == 'pi': self.ax.append(z3.And(w > z3.RealVal('3.14159'), w < z3.RealVal('3.1416')))
            elif n == 'exp': self.ax.append(w > 0)
            elif n == 'trunc':
                x = self.p(a.args[1]); wr = z3.ToReal(w); self.ax.append(z3.If(x >= 0, z3.And(wr <= x, x < wr + 1), z3.And(wr >= x, x > wr - 1)))
            elif n == 'floor':
                x = self.p(a.args[1]); self.ax.append(z3.And(w <= x, x < w + 1))
            elif n in ('urem', 'mod2'):
                x = self.p(a.args[1]); y = self.p(a.args[2]); q = z3.Int('q%d' % a.id)
                self.ax.append(z3.Implies(y > 0, z3.And(w >= 0, w < y, x == q * y + w)))
            elif n == 'srem':
                x = self.p(a.args[1]); y = self.p(a.args[2]); q = z3.Int('q%d' % a.id)
                self.ax.append(z3.Implies(y != 0, z3.And(z3.Implies(x >= 0, z3.And(w >= 0, w <= x)), z3.Implies(x <= 0, z3.And(w <= 0, w >= x)), z3.Implies(y > 0, z3.And(w < y, w > -y)), z3.Implies(y < 0, z3.And(w < -y, w > y)))))
            elif n in ('udiv', 'floordiv'):
                x = self.p(a.args[1]); y = self.p(a.args[2]); self.ax.append(z3.Implies(y > 0, z3.And(w * y <= x, x < w * y + y)))
            elif n == 'sdiv':
                x = self.p(a.args[1]); y = self.p(a.args[2]); self.ax.append(z3.Implies(z3.And(y > 0, x >= 0), z3.And(w * y <= x, x < w * y + y)))
        return w
    def b(self, b):
        if b.op == 'true': return z3.BoolVal(True)
        if b.op == 'false': return z3.BoolVal(False)
        if b.op == 'not': return z3.Not(self.b(b.args[0]))
        if b.op == 'and': return z3.And([self.b(x) for x in b.args])
        if b.op == 'or': return z3.Or([self.b(x) for x in b.args])
        if b.op == 'cmp':
            x = self.p(b.args[1]); return x < 0 if b.args[0] == '<' else x == 0
        return z3.Bool('B%d' % T.bkey(b))
    def axioms(self, most=8):
        # congruence: map reads with equal indices are equal
        groups = {}
        for a in list(self.v):
            if isinstance(a, Atom) and a.op == 'fn' and a.args[0] not in NUM and len(a.args) > 1 and all(isinstance(x, Poly) and x.sort == 'I' for x in a.args[1:]): groups.setdefault((a.args[0], a.sort, len(a.args)), []).append(a)
        cong = []
        for g in groups.values():
            if len(g) > most: self.skipped = True; continue
            for i, a in enumerate(g):
                for b in g[i + 1:]:
                    if any((x - y).const() not in (None, 0) for x, y in zip(a.args[1:], b.args[1:])): continue
                    cong.append(z3.Implies(z3.And([self.p(x) == self.p(y) for x, y in zip(a.args[1:], b.args[1:])]), self.v[a] == self.v[b]))
        self.ax += cong
        done = 0; out = []
        while done < len(self.ax): out.append(self.ax[done]); done += 1
        return out
    def modelvals(self, m):
        out = {}
        for a, w in list(self.v.items()):
            if not isinstance(a, Atom) or a.op not in ('var', 'fn'): continue
            if a.op == 'fn' and a.args[0] in NUM: continue
            x = m.eval(w, model_completion=True)
            try:
                if z3.is_int_value(x): val = x.as_long()
                elif z3.is_rational_value(x): val = float(x.as_fraction())
                else: val = float(x.approx(12).as_fraction())
            except Exception: continue
            if a.op == 'var': out[(a.args[0],)] = val
            else:
                try:
                    e = _ME(self, m)
                    out[(a.args[0],) + tuple(ev(y, e) for y in a.args[1:])] = val
                except Exception: pass
        return out


class _ME:
    def __init__(self, Z, m): self.Z = Z; self.m = m
    def bv(self, a): raise EvalError('bv')
    def __call__(self, n, args):
        if args: raise EvalError('nested')
        for so in 'IR':
            a = T._cons.get(('var', (n,), so))
            if a is not None and a in self.Z.v:
                x = self.m.eval(self.Z.v[a], model_completion=True)
                return x.as_long() if z3.is_int_value(x) else float(x.as_fraction())
        return 0


def instances(facts, g):
    """the quantified facts at the indices that occur as free names"""
    balls = [f for f in facts if f.op == 'ball']
    if not balls: return []
    free = {I(a) for f in list(facts) + [g] for a in f.fv if a.op == 'var' and a.sort == 'I' and a.args[0][:2] in ('$b', '$h', '$k', '$q', '$c')}
    at = set()
    for f in list(facts) + [g]: all_atoms(f, False, at)
    idx = {}
    for a in at:
        if a.op == 'fn' and len(a.args) > 1 and not any(x.op == 'bv' for y in a.args[1:] if isinstance(y, Poly) for x in y.fv) and not (freebv_(a)):
            for i, y in enumerate(a.args[1:]): idx.setdefault((a.args[0], i), set()).add(y)
    out = []; gv = {a for a in g.fv if a.op == 'var' and a.sort == 'I'}
    for f in balls:
        lv, lo, hi, body = f.args; bv = mk('bv', lv, sort='I'); c = set(free)
        # the values of the bound variable at which the body speaks of a term that occurs
        bat = set(); all_atoms(body, True, bat)
        for a in bat:
            if a.op != 'fn': continue
            for i, y in enumerate(a.args[1:]):
                if not isinstance(y, Poly) or y.sort != 'I': continue
                k = y.d.get(((bv, 1),))
                if k not in (1, -1): continue
                rest = y - I(bv) * k
                if bv in rest.fv: continue
                for z in idx.get((a.args[0], i), ()): c.add((z - rest) * k)
        if len(c) > 16: c = sorted(c, key=lambda t: (not (gv & t.fv), len(repr(t)), repr(t)))[:16]
        for a in c: out.append(Or(lt(a, lo), le(hi, a), subst(body, {bv: a})))
    return out if len(out) < 120 else []


def instances_at(facts, points):
    """the quantified facts about array elements, at the given element indices (consequences of the facts)"""
    out = []
    for f in facts:
        if f.op != 'ball': continue
        lv, lo, hi, body = f.args; bv = mk('bv', lv, sort='I'); c = set(); bat = set(); all_atoms(body, True, bat)
        for a in bat:
            if a.op != 'fn': continue
            for y in a.args[1:]:
                if not isinstance(y, Poly) or y.sort != 'I': continue
                k = y.d.get(((bv, 1),))
                if k in (1, -1) and bv not in (y - I(bv) * k).fv: c |= {(I(z) - (y - I(bv) * k)) * k for z in points}
        for a in sorted(c, key=repr): out.append(Or(lt(a, lo), le(hi, a), subst(body, {bv: a})))
    return out


def freebv_(a):
    from .contract import freebv
    return freebv(a, {})


def with_fact(facts, b):
    out = facts
    for x in (b.args if b.op == 'and' else (b,)):
        if x.op == 'true' or x in out: continue
        out = out + (x,)
    return out


def subst_all(p, m):
    """substitution of arbitrary (non-variable) atoms everywhere"""
    mm = dict(m); mm['__ground__'] = True
    return subst(p, mm)


def all_atoms(p, binders=True, acc=None):
    if acc is None: acc = set()
    if isinstance(p, Poly):
        for m in p.d:
            for a, e in m: _aa(a, binders, acc)
    elif isinstance(p, B):
        for x in p.args:
            if isinstance(x, (Poly, B)): all_atoms(x, binders, acc)
            elif isinstance(x, tuple):
                for y in x: all_atoms(y, binders, acc)
    return acc


def _aa(a, binders, acc):
    if a in acc: return
    acc.add(a)
    if a.op in ('sum', 'fold') and not binders:
        all_atoms(a.args[1], binders, acc); return
    for x in a.args:
        if isinstance(x, (Poly, B)): all_atoms(x, binders, acc)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Poly, B)): all_atoms(y, binders, acc)
