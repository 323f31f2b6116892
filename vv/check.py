"""Runner: one property = contracts (cases) proved on the real code + concrete executions of the real code."""
import mpmath
import os, sys, time, json, random, traceback, pickle, signal, ctypes, select, hashlib, re
from . import ir, sym, native, contract, prove
from .contract import Unit, Case, prove_case, run_native, Env, timed
from .prove import Prover, holds, STAT
from .sym import Unsupported
from .term import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON_ASSUMPTIONS = [
    'doubles are treated as exact reals and machine integers as mathematical integers in the deductive part (rounding, overflow not modelled there; decimal literals and multiples of pi are read as the exact number); the concrete executions use the real arithmetic',
    'divisors occurring in a contract are assumed nonzero unless the contract says otherwise',
    'clang 18 front end, the fixed LLVM simplification pass list, z3 and the vv executor/normaliser are trusted',
    'OpenMP pragmas are ignored by the extraction (sequential semantics); libm functions are exact real functions',
    'distinct objects/vectors do not overlap in memory; operator new does not fail',
]


class Finding(Exception): pass


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid; self.tier = tier; self.seed = seed; self.groups = []; self.cases = []; self.batteries = []
        self.offs = {}; self.offreq = set(); self.limits = []; self.assumptions = list(COMMON_ASSUMPTIONS); self.so = None; self.shim = ''; self.build_err = None
        self.t0 = time.time(); self.native_opts = {}; self.level = 'proof'; self.notes = []; self.external = []
        self.includes = ['TBody.hpp', 'TSpace.hpp', 'TTime.hpp', 'TMatrix.hpp', 'TSortedTree.hpp', 'MConvectiveFast.hpp', 'MDiffusiveFast.hpp', 'MEpsilonFast.hpp', 'MFlowmove.hpp', 'MStepdata.hpp', 'XField.hpp', 'XIsoline.hpp', 'XPressure.hpp', 'XVorticity.hpp', 'XVelocity.hpp', 'XStreamfunction.hpp']

    def quick(self): return self.tier == 'quick'
    def use(self, *shims):
        """compile /verif/shim/<name>_shim.cpp into the shared object under test"""
        l = self.native_opts.setdefault('extra_srcs', [])
        for x in shims:
            f = os.path.join(ROOT, 'shim', x + '_shim.cpp')
            if f not in l: l.append(f)
    def n(self, q, t=None): return q if self.quick() else (t if t is not None else q * 10)

    def off(self, cls, member):
        k = (cls, member)
        if k not in self.offs: self.probe([k])
        return self.offs[k]
    def probe(self, keys):
        keys = [k for k in keys if k not in self.offs]
        if not keys: return
        r = ir.probe_offsets([('e%d' % i, c, m) for i, (c, m) in enumerate(keys)], self.includes)
        for i, k in enumerate(keys): self.offs[k] = r['e%d' % i]
    def wrapfile(self, code):
        """extern "C" wrappers around inline members: added to the extraction and to the shared object"""
        f = os.path.join(ir.scratch(), 'wrap%s.cpp' % hashlib.md5(code.encode()).hexdigest()[:8]); open(f, 'w').write(code)
        if code not in self.shim: self.shim += '\n' + code
        return f
    TYPES = {'stree': 'TSortedTree.hpp', 'MConvectiveFast': 'MConvectiveFast.hpp', 'TBody': 'TBody.hpp', 'TAtt': 'TBody.hpp', 'TObj': 'TObj.hpp', 'TVec': 'TVec.hpp', 'TVec3D': 'TVec3D.hpp', 'TEval': 'TEval.hpp', 'TTime': 'TTime.hpp', 'Space': 'TSpace.hpp'}
    def extract(self, sources, types=(), **kw):
        code = ''.join('#include "%s"\n' % h for h in sorted(set(self.TYPES.values()) | {t[1] for t in types}))
        ts = list(self.TYPES) + [t[0] for t in types]
        code += ''.join('extern %s vvt_%d; const void* vvf_%d() { return &vvt_%d; }\n' % (t, i, i, i) for i, t in enumerate(ts))
        f = os.path.join(ir.scratch(), 'types%s.cpp' % hashlib.md5(code.encode()).hexdigest()[:8]); open(f, 'w').write(code)
        return ir.extract(list(sources) + [f], **kw)
    def unit(self, mod): return Unit(self, mod)
    def find(self, mod, pat):
        l = ir.find(mod, pat)
        if not l: raise Unsupported('function %s not found' % pat)
        return l[0]

    def group(self, f): self.groups.append(f); return f
    def case(self, name, unit, func, args, pre=(), post=None, ret=None, ignore=(), gen=None, samples=40, exc=None, native=None, tol=1e-9, frame=True, merge=True, hints=None, engine_setup=None, nargs=None, extra_post=None, min_n=1, lemmas=(), events=None):
        ig = set()
        for r, m in ignore: ig.add((r, m) if m == '*' or isinstance(m, int) else (r, unit.off(r, m)))
        if not func.startswith('_Z') and func not in unit.mod.raw: func = self.find(unit.mod, func)
        c = Case(name, unit, func, list(args), list(pre), dict(post or {}), ret, ig, gen or unit.gen, samples, exc, native, tol, frame, merge, hints, engine_setup, nargs, extra_post, min_n, lemmas, events)
        self.cases.append(c); return c
    def battery(self, name, f, bounded=True, what=''): self.batteries.append((name, f, bounded, what))

    # ---------------------------------------------------------------- running
    def run(self):
        for g in self.groups:
            try: g(self)
            except (Unsupported, ir.ExtractError, sym.Unsupported) as ex:
                self.limits.append((g.__name__, 'outside the verifier\'s reach: %s' % str(ex)[:300]))
            except Exception as ex:
                self.limits.append((g.__name__, 'internal: %s' % traceback.format_exc()[-400:]))
        # native build
        need_native = any(c.samples for c in self.cases) or self.batteries
        if need_native:
            try: self.so = native.build(self.shim, **self.native_opts)
            except native.BuildError as ex:
                self.build_err = str(ex); self.so = None
                if True:
                    try: self.so = native.build('', **{k: v for k, v in self.native_opts.items() if k != 'extra_srcs'})
                    except native.BuildError: pass
        jobs = [('prove', c, None) for c in self.cases]
        if self.so:
            jobs += [('native', c, None) for c in self.cases if c.samples]
            if not self.build_err: jobs += [('battery', b, None) for b in self.batteries]
        if self.build_err: self.limits.append(('native build', self.build_err[-400:]))
        res = self.pool(jobs)
        return self.verdict(jobs, res)

    def pool(self, jobs, width=8):
        """fork one process per job; result dict per job (None = crashed/timeout)"""
        budget = 200 if self.quick() else 1500
        out = {}; active = {}; todo = list(range(len(jobs)))[::-1]
        todo.sort(key=lambda j: 0 if jobs[j][0] == 'prove' else 1, reverse=True)
        while todo or active:
            while todo and len(active) < width:
                j = todo.pop(); r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r); code = 0
                    if not os.environ.get('VV_DEBUG'):
                        dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                    try: rr = self.work(jobs[j], w)
                    except Finding as ex: rr = {'error': str(ex)[:3000]}
                    except BaseException as ex: rr = {'error': traceback.format_exc()[-1500:]}
                    try:
                        data = pickle.dumps(rr)
                    except Exception as ex: data = pickle.dumps({'error': 'pickle %r' % ex})
                    with os.fdopen(w, 'wb') as f: f.write(b'R' + data)
                    os._exit(0)
                os.close(w); active[r] = (j, pid, time.time(), bytearray())
            rl, _, _ = select.select(list(active), [], [], 1.0)
            for r in rl:
                b = os.read(r, 1 << 16)
                if b: active[r][3].extend(b); continue
                self.reap(out, active, r, jobs)
            for r in list(active):
                if time.time() - active[r][2] > budget:
                    os.kill(active[r][1], signal.SIGKILL); active[r][3].extend(b'T'); self.reap(out, active, r, jobs, True)
        return out

    def reap(self, out, active, r, jobs, timeout=False):
        j, pid, t, buf = active.pop(r); os.close(r)
        _, status = os.waitpid(pid, 0)
        i = buf.find(b'R'); prog = bytes(buf if i < 0 else buf[:i])
        if i >= 0 and not timeout:
            try: out[j] = pickle.loads(bytes(buf[i + 1:])); out[j]['wall'] = time.time() - t; return
            except Exception: pass
        last = prog.split(b'\n')[-2:-1]
        out[j] = {'crash': None if timeout else status, 'timeout': timeout, 'last': last[0].decode('latin1') if last else '', 'wall': time.time() - t}

    def work(self, job, w):
        kind, c, _ = job
        if kind == 'prove':
            P = Prover(); begun = time.time(); whole = 185 if self.quick() else 1400
            for k in STAT: STAT[k] = 0
            try: res = prove_case(c, P, budget=150 if self.quick() else 1200)
            except (Unsupported, ir.ExtractError) as ex: return {'limit': str(ex)[:400]}
            except (RecursionError, OverflowError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
                return {'limit': 'internal %s' % traceback.format_exc()[-600:]}
            ob = []; open_ = []
            for name, status, by, fs, g, t in res:
                d = {'name': name, 'status': status, 'by': by, 't': round(t, 3)}
                if status == 'open':
                    P2 = Prover(); left = whole - (time.time() - begun)
                    if left > 2: timed(lambda: P2.prove(fs, g), min(left, 40))
                    d['goal'] = repr(g)[:1500]; d['facts'] = repr(fs)[:800]; d['why'] = getattr(P2, 'why', '')
                    cex = self.refute(c, P2, fs, g, min(25, whole - (time.time() - begun)))
                    if cex is not None: d['cex'] = cex
                elif status == 'timeout' and whole - (time.time() - begun) > 3:
                    cex = self.refute(c, P, fs, g, min(8, whole - (time.time() - begun)))
                    if cex is not None: d.update(status='open', goal=repr(g)[:1500], facts=repr(fs)[:800], why='evaluation', cex=cex)
                ob.append(d)
            return {'obl': ob, 'stat': dict(STAT), 'inlined': c.inlined, 'used': c.used, 'loops': c.loops, 'exec': c.exec_time}
        lib = ctypes.CDLL(self.so)
        if kind == 'native':
            return self.native_case(c, lib, w)
        name, f, bounded, what = c
        rnd = random.Random(self.seed * 7919 + hash_(name))
        n = f(lib, rnd, self, lambda s: os.write(w, (s.replace('R', 'r').replace('T', 't') + '\n').encode()))
        return {'count': n}

    def refute(self, c, P, fs, g, seconds=25):
        """numeric counterexample to a failed obligation -> env dump + native replay"""
        fs = tuple(f for f in fs)
        m = getattr(P, 'model', None); base = {}
        if m is not None:
            try: base = P.Z.modelvals(m)
            except Exception: base = {}
        rnd = random.Random(1)
        tries = 0; t0 = time.time()
        for t in range(600):
            if time.time() - t0 > seconds: break
            env = Env(random.Random(rnd.random()), base if t % 3 == 0 else {}, self.wrapgen(c, random.Random(rnd.random())), c.unit.ints)
            try:
                if not all(holds(f, env) for f in c.pre): continue
                if not all(holds(f, env) for f in fs): continue
                if prove.violated(g, env): return dump(env)
            except (EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError): continue
        return None

    def wrapgen(self, c, r):
        if c.gen is None: return None
        if hasattr(c.gen, 'make'): return c.gen.make(r)
        return c.gen

    def native_case(self, c, lib, w):
        rnd = random.Random(self.seed * 1000003 + hash_(c.name))
        done = 0; tries = 0; N = self.n(c.samples); t0 = time.time()
        while done < N and tries < N * 30 and time.time() - t0 < (40 if self.quick() else 600):
            tries += 1
            sd = rnd.random()
            env = Env(random.Random(sd), {}, self.wrapgen(c, random.Random(sd + 1)), c.unit.ints)
            try:
                if not all(holds(f, env) for f in c.pre): continue
            except (EvalError, OverflowError, ZeroDivisionError, ValueError): continue
            os.write(w, (json.dumps({'case': c.name, 'seed': sd}).replace('R', 'r').replace('T', 't') + '\n').encode())
            try: msg = run_native(c, env, lib)
            except (EvalError, OverflowError, ZeroDivisionError, ValueError): continue
            done += 1
            if msg: return {'count': done, 'fail': msg, 'env': dump(env)}
        return {'count': done}

    # ---------------------------------------------------------------- verdict
    def verdict(self, jobs, res):
        viol = []; nobl = 0; ndis = 0; funcs = []; bounded = []; stat = {}; natcount = 0; limits = list(self.limits); inl = set(); used = set()
        natfail = {}
        for j, (kind, c, _) in enumerate(jobs):
            r = res.get(j) or {}
            if kind == 'native':
                natcount += r.get('count', 0)
                if r.get('fail'): natfail[c.name] = r; viol.append((c.name, 'input', 'real function disagrees with its contract: ' + r['fail'], r.get('env')))
                elif 'crash' in r and r['crash'] is not None: viol.append((c.name, 'input', 'real function crashed (wait status %s) on a state satisfying the precondition' % r['crash'], r.get('last')))
                elif r.get('error'): limits.append((c.name, 'native: ' + r['error'][-300:]))
                elif r.get('count', 0) == 0: limits.append((c.name, 'native: no concrete state generated'))
        for j, (kind, c, _) in enumerate(jobs):
            r = res.get(j) or {}
            if kind == 'battery':
                name = c[0]
                if r.get('crash') is not None: viol.append((name, 'input', 'the real code crashed (wait status %s)' % r['crash'], r.get('last')))
                elif r.get('timeout'):
                    if getattr(c[1], 'hang_is_violation', False): viol.append((name, 'input', 'the real code did not finish', r.get('last')))
                    else: limits.append((name, 'battery timeout'))
                elif r.get('error'):
                    m = re.search(r'BATTERY-FAIL: (.*)', r['error'], re.S)
                    if m: viol.append((name, 'input', m.group(1).strip()[:1500], None))
                    else: limits.append((name, 'battery: ' + r['error'][-400:]))
                else:
                    natcount += r.get('count', 0) or 0
                    bounded.append({'check': name, 'executions': r.get('count', 0), 'what': c[3], 'label': 'bounded' if c[2] else 'cross-check'})
            elif kind == 'prove':
                fname = ir.demangle([c.func]).get(c.func, c.func)
                if 'obl' in r:
                    o = r['obl']; nobl += len(o); d = [x for x in o if x['status'] == 'proved']; ndis += len(d)
                    for k, v in r['stat'].items(): stat[k] = stat.get(k, 0) + v
                    inl |= set(r['inlined']); used |= set(r['used'])
                    funcs.append({'function': fname, 'contract': c.name, 'obligations': len(o), 'discharged': len(d), 'loops': r['loops'], 'time_s': round(r.get('wall', 0), 2)})
                    for x in o:
                        if os.environ.get('VV_OPEN') and x['status'] != 'proved': print('   OPEN', c.name, '|', x['name'], x['status'], x.get('why'), '\n      ', x.get('goal', '')[:int(os.environ['VV_OPEN'])], '\n     facts', x.get('facts'), 'CEX' if x.get('cex') else '')
                        if x['status'] == 'open' and c.name not in natfail:
                            if x.get('cex'):
                                rep = self.replay_native(c, x['cex'])
                                if rep: viol.append((c.name, 'input', 'obligation "%s" fails; replayed on the real code: %s' % (x['name'], rep), x['cex']))
                                else: viol.append((c.name, 'noinput', 'obligation "%s" refuted by evaluation, not reproduced natively' % x['name'], x))
                            else: viol.append((c.name, 'noinput', 'obligation "%s" not discharged (%s)' % (x['name'], x.get('why')), x))
                        elif x['status'] == 'timeout': limits.append((c.name, 'obligation "%s": time limit' % x['name']))
                else:
                    why = r.get('limit') or r.get('error') or ('timeout' if r.get('timeout') else 'prover process died')
                    limits.append((c.name, why)); funcs.append({'function': fname, 'contract': c.name, 'obligations': 0, 'discharged': 0, 'label': 'bounded (verifier limit)', 'why': why[-400:]})
        viol.sort(key=lambda v: 0 if v[1] == 'input' else 1)
        found = [v for v in viol if v[1] == 'input']; also = [v for v in viol if v[1] != 'input'] if found else []       # failed obligations next to a failing input go into its report
        code = 0; lines = []
        rd = os.path.join(ROOT, 'replays'); os.makedirs(rd, exist_ok=True)
        for k, (name, kind, msg, data) in enumerate((found or viol)[:6]):
            p = os.path.join(rd, '%s-%d.json' % (self.pid, k))
            json.dump({'property': self.pid, 'contract': name, 'kind': kind, 'message': msg, 'data': data, 'failed_obligations': ['%s: %s' % (v[0], v[2][:300]) for v in also[:20]], 'rerun': 'python3-vt %s/run.py %s %s' % (ROOT, self.pid, self.tier)}, open(p, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s%s' % (self.pid, p, ' no-failing-input-found' if kind == 'noinput' else ''))
            print('  [%s] %s' % (name, msg[:600]), file=sys.stderr)
            code = 1
        cov = {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt run.py %s %s' % (self.pid, self.tier),
               'trusted_base': ['clang-18 + LLVM opt (extraction)', 'vv symbolic executor, loop summariser and polynomial normaliser', 'z3', 'assumed library contracts: ' + (', '.join(sorted(used)) or 'none')],
               'functions_under_contract': funcs, 'functions_executed_in_place': sorted(inl), 'discharged_by': {k: v for k, v in stat.items() if k != 'z3_time'}, 'solver_time_s': round(stat.get('z3_time', 0), 2),
               'bounded': bounded, 'concrete_executions_of_real_code': natcount, 'verifier_limits': [list(x) for x in limits],
               'counterexamples': [v[2][:300] for v in viol[:6]]}
        if self.notes: cov['notes'] = self.notes
        if nobl == 0 and self.level == 'proof': cov['note'] = 'no obligation could be generated on this tree; only bounded executions were made'
        if natcount == 0 and nobl == 0: cov['note'] = 'NOTHING DECIDED on this tree'
        ev_ = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        if self.level != 'proof': self.fill_level(ev_)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev_, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        for l in known_lines(self.pid): print(l)
        for l in lines: print(l)
        print('%s %s: %d/%d obligations discharged over %d contracts, %d concrete executions, %d limits, %.1fs' % (self.pid, 'VIOLATED' if code else 'ok', ndis, nobl, len(funcs), natcount, len(limits), time.time() - self.t0))
        if os.environ.get('VV_VERBOSE'):
            for l in limits: print('  limit', l)
            for f in funcs: print('  ', f)
            for b in bounded: print('  ', b)
        return code

    def fill_level(self, ev_): pass

    def replay_native(self, c, cex):
        own = getattr(c, 'replay', None)
        if not self.so or not (c.samples or own): return None
        env = Env(random.Random(5), undump(cex), None, c.unit.ints)
        r = self.pool([('replay', (c, cex), None)])[0] if False else None
        rd, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                m = (own(ctypes.CDLL(self.so), undump(cex)) if own else run_native(c, env, ctypes.CDLL(self.so))) or ''
            except BaseException as ex: m = ''
            os.write(wr, m.encode()[:3000]); os._exit(0)
        os.close(wr); b = b''
        while True:
            x = os.read(rd, 65536)
            if not x: break
            b += x
        os.close(rd); _, stt = os.waitpid(pid, 0)
        if os.WIFSIGNALED(stt): return 'crash with signal %d' % os.WTERMSIG(stt)
        return b.decode() or None


def hash_(s): return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)
def dump(env): return [[list(map(str, k[:1])) + [num(x) for x in k[1:]], num(v)] for k, v in env.v.items()]
def undump(l): return {(k[0],) + tuple(k[1:]): v for k, v in l}
def num(x):
    from fractions import Fraction
    if isinstance(x, mpmath.mpf): return float(x)
    if isinstance(x, Fraction): return int(x) if x.denominator == 1 else float(x)
    return x


def known_lines(pid):
    p = os.path.join(ROOT, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid): out.append(l.strip())
    return out


def fail(msg): raise Finding('BATTERY-FAIL: ' + msg)
