"""Extraction: /repo sources -> LLVM IR (clang) -> parsed functions.

Nothing is hand-copied: on every run the translation units named by a check are
compiled from /repo's working tree by clang, simplified by a fixed list of
semantics-preserving LLVM passes (mem2reg/inlining/CSE; no vectoriser, no loop
rewriting), and the resulting IR is what the verifier executes symbolically.
"""
import os, re, struct, subprocess, sys, tempfile, shutil, hashlib
from fractions import Fraction

REPO = os.environ.get('VV_REPO', '/repo')
DEPS = '/opt/vp/deps'
LLVM = '/usr/lib/llvm-18/bin'
CXXFLAGS = ['-std=c++11', '-I%s/libvvhd/headers' % REPO, '-I%s/hdf5/include' % DEPS,
            '-I%s/lua/src' % DEPS, '-I%s/utils/vvflow' % REPO, '-I%s/libarchive/include' % DEPS]
PASSES = ("always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),"
          "cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,"
          "gvn<no-pre;no-load-pre>,simplifycfg,adce,simplifycfg)")


class ExtractError(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'n')
    def __init__(self, k, a=None, n=0):
        self.k = k; self.a = a; self.n = n
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'struct': return '{' + ','.join(map(repr, self.a)) + '}'
        if self.k == 'array': return '[%d x %r]' % (self.n, self.a)
        if self.k == 'named': return '%' + self.a
        return self.k
I1 = Ty('int', n=1); I8 = Ty('int', n=8); I32 = Ty('int', n=32); I64 = Ty('int', n=64)
PTR = Ty('ptr'); DBL = Ty('double'); FLT = Ty('float'); VOID = Ty('void')

_tok = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<meta>!\d+|![A-Za-z_.][\w.]*|!\{[^}]*\}|!"[^"]*")|
  (?P<loc>%(?:"[^"]*"|[\w.$\-]+))|
  (?P<glob>@(?:"[^"]*"|[\w.$\-]+))|
  (?P<attr>\#\d+)|
  (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)|
  (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|
  (?P<word>[A-Za-z_][\w.$]*)|
  (?P<dots>\.\.\.)|
  (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ExtractError('tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup; out.append((k, m.group(k)))
    return out


def nm(s):
    s = s[1:]
    if s.startswith('"'): s = s[1:-1]
    return s


class Val:
    """operand: kind in loc, glob, int, fp, null, undef, cexpr, zero, agg"""
    __slots__ = ('k', 'v', 'ty')
    def __init__(self, k, v, ty): self.k = k; self.v = v; self.ty = ty
    def __repr__(self): return '%s:%s' % (self.k, self.v)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'txt')
    def __init__(self, op, res=None, ty=None, ops=(), x=None, txt=''):
        self.op = op; self.res = res; self.ty = ty; self.ops = list(ops); self.x = x; self.txt = txt
    def __repr__(self): return '%s = %s' % (self.res, self.txt)


class Block:
    def __init__(self, name): self.name = name; self.phis = []; self.ins = []; self.term = None


class Func:
    def __init__(self, name): self.name = name; self.params = []; self.blocks = {}; self.order = []; self.ret = None


PARAM_ATTRS = set('''noundef nonnull zeroext signext inreg nocapture noalias readonly writeonly readnone returned
 immarg nofree writable dead_on_unwind nest swiftself noalias allocptr allocalign dso_local local_unnamed_addr unnamed_addr
 fastcc ccc tail musttail notail nounwind cold nobuiltin builtin captures'''.split())


class P:
    """token-stream parser"""
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.mod = mod
    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else ('end', '')
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'word', 'dots'): self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise ExtractError('expected %r at %r' % (v, self.t[self.i:self.i + 8]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.match(r'i\d+$', v): t = Ty('int', n=int(v[1:]))
            elif v in ('ptr',): t = PTR
            elif v == 'double': t = DBL
            elif v == 'float': t = FLT
            elif v in ('x86_fp80', 'fp128', 'half'): t = Ty('fpx')
            elif v == 'void': t = VOID
            elif v in ('label', 'metadata', 'token', 'opaque'): t = Ty(v)
            else: raise ExtractError('type? %r' % v)
        elif k == 'loc': t = Ty('named', nm(v))
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); t = Ty('array', e, n)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); fs = []
                while not self.acc('}'):
                    fs.append(self.type()); self.acc(',')
                self.exp('>'); t = Ty('struct', fs, 1)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); t = Ty('vec', e, n)
        elif v == '{':
            fs = []
            while not self.acc('}'):
                fs.append(self.type()); self.acc(',')
            t = Ty('struct', fs)
        else: raise ExtractError('type? %r' % (v,))
        # function types
        if self.peek()[1] == '(' and self.mod is not None:
            # only for call "ret (args...) @f"
            pass
        return t

    def skip_attrs(self):
        x = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range', 'captures', 'memory', 'initializes'):
                self.next()
                if self.peek()[1] == '(':
                    self.next(); d = 1; st = self.i
                    while d:
                        q = self.next()[1]
                        if q == '(': d += 1
                        if q == ')': d -= 1
                    if v in ('byval', 'sret'):
                        sub = P(self.t[st:self.i - 1], None); x[v] = sub.type()
                elif v == 'align': self.next()
            elif k == 'word' and v in PARAM_ATTRS: self.next()
            elif k == 'attr': self.next()
            else: return x

    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return Val('loc', nm(v), ty)
        if k == 'glob': return Val('glob', nm(v), ty)
        if k == 'num':
            if ty.k == 'int': return Val('int', int(v), ty)
            if ty.k in ('double', 'float'): return Val('fp', float(v), ty)
        if k == 'hex':
            b = v[2:]
            if b[0] in 'KMLHR': return Val('undef', None, ty)
            return Val('fp', struct.unpack('>d', int(b, 16).to_bytes(8, 'big'))[0], ty)
        if k == 'word':
            if v == 'null': return Val('null', None, ty)
            if v == 'true': return Val('int', 1, ty)
            if v == 'false': return Val('int', 0, ty)
            if v in ('undef', 'poison'): return Val('undef', None, ty)
            if v == 'zeroinitializer': return Val('zero', None, ty)
            if v == 'none': return Val('undef', None, ty)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    w = self.next()[1]
                    if w == 'inrange' and self.peek()[1] == '(':
                        while self.next()[1] != ')': pass
                self.exp('('); bt = self.type(); self.exp(',')
                ops = []
                while True:
                    self.acc('inrange'); t = self.type(); self.skip_attrs(); ops.append(self.value(t))
                    if not self.acc(','): break
                self.exp(')')
                return Val('cexpr', ('gep', bt, ops), ty)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc'):
                self.exp('('); t = self.type(); o = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return Val('cexpr', (v, o, t2), ty)
            if v in ('sub', 'add', 'icmp'):
                self.i -= 1
                d = 0; st = self.i
                while True:
                    q = self.next()[1]
                    if q == '(': d += 1
                    if q == ')':
                        d -= 1
                        if d == 0: break
                return Val('cexpr', ('other', self.t[st:self.i]), ty)
            if v == 'asm':
                raise ExtractError('asm')
        if k == 'str': return Val('str', v, ty)
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next(); close = '}'
            es = []
            while not self.acc(close):
                t = self.type(); es.append(self.value(t)); self.acc(',')
            if v == '<' and close == '}': self.exp('>')
            return Val('agg', es, ty)
        raise ExtractError('value? %r %r' % (k, v))

    def tval(self):
        t = self.type(); a = self.skip_attrs(); v = self.value(t)
        return v


BIN = set('add sub mul sdiv udiv srem urem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptosi fptoui sitofp uitofp fpext fptrunc ptrtoint inttoptr bitcast'.split())
FLAGS = set('nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc disjoint nneg volatile atomic nusw samesign'.split())


class Module:
    def __init__(self):
        self.types = {}; self.funcs = {}; self.globals = {}; self.decls = set()

    # ---- layout
    def res(self, t):
        if t.k == 'named':
            if t.a not in self.types: raise ExtractError('unknown type %s' % t.a)
            return self.types[t.a]
        return t
    def align(self, t):
        t = self.res(t)
        if t.k == 'int': return max(1, min(8, (t.n + 7) // 8))
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'fpx': return 16
        if t.k == 'array': return self.align(t.a)
        if t.k == 'vec': return self.size(t)
        if t.k == 'struct':
            if t.n == 1: return 1
            return max([self.align(x) for x in t.a] or [1])
        raise ExtractError('align %r' % t)
    def size(self, t):
        t = self.res(t)
        if t.k == 'int': return (t.n + 7) // 8
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'fpx': return 16
        if t.k == 'array': return t.n * self.size(t.a)
        if t.k == 'vec': return t.n * self.size(t.a)
        if t.k == 'struct':
            o = 0
            for x in t.a:
                if t.n != 1:
                    a = self.align(x); o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise ExtractError('size %r' % t)
    def foff(self, t, i):
        t = self.res(t)
        if t.k in ('array', 'vec'): return i * self.size(t.a), t.a
        o = 0
        for j, x in enumerate(t.a):
            if t.n != 1:
                a = self.align(x); o = (o + a - 1) // a * a
            if j == i: return o, x
            o += self.size(x)
        raise ExtractError('foff')
    def leaves(self, t, base=0):
        t = self.res(t)
        if t.k in ('struct', 'array', 'vec'):
            n = len(t.a) if t.k == 'struct' else t.n
            if t.k != 'struct' and n > 4096: return
            for i in range(n):
                o, x = self.foff(t, i)
                yield from self.leaves(x, base + o)
        elif t.k in ('int', 'ptr', 'double', 'float', 'fpx'):
            yield base, t

    # ---- parse
    def parse(self, text):
        # named types first
        for m in re.finditer(r'^%("[^"]*"|[\w.$\-]+) = type (.*)$', text, re.M):
            n = m.group(1).strip('"')
            if m.group(2).strip() == 'opaque': self.types[n] = Ty('struct', []); continue
            self.types[n] = P(tokenize(m.group(2)), None).type()
        for m in re.finditer(r'^@("[^"]*"|[\w.$\-]+) = (.*)$', text, re.M):
            self.globals[m.group(1).strip('"')] = m.group(2)
        for m in re.finditer(r'^declare .*?@("[^"]*"|[\w.$\-]+)\(', text, re.M):
            self.decls.add(m.group(1).strip('"'))
        cur = None; blk = None
        lines = text.split('\n')
        i = 0; self.raw = {}
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', ln)
                name = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}': j += 1
                self.raw.setdefault(name, (ln, lines[i + 1:j]))
                i = j
            i += 1
        return self

    def get(self, name):
        if name in self.funcs: return self.funcs[name]
        if name not in self.raw: return None
        hdr, body = self.raw[name]
        self.funcs[name] = f = self.parse_func(name, hdr, body)
        return f

    def parse_func(self, name, hdr, body):
        f = Func(name)
        m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', hdr)
        h = hdr[m.end() - 1:]
        p = P(tokenize(h), self)
        p.exp('(')
        cnt = 0
        while not p.acc(')'):
            if p.acc('...'): continue
            t = p.type(); a = p.skip_attrs()
            if p.peek()[0] == 'loc': n = nm(p.next()[1])
            else: n = str(cnt)
            cnt += 1
            f.params.append((n, t, a)); p.acc(',')
        blk = Block(None); first = True
        # name of entry block = number of params if unnamed
        f.order = []
        def addblk(n):
            b = Block(n); f.blocks[n] = b; f.order.append(n); return b
        blk = None
        k = 0
        while k < len(body):
            ln = body[k]; k += 1
            s = ln.split(' ;')[0] if (' ;' in ln and '"' not in ln) else ln
            if not s.strip() or s.strip().startswith(';'): continue
            mm = re.match(r'^("[^"]*"|[\w.$\-]+):', s)
            if mm: blk = addblk(mm.group(1).strip('"')); continue
            if blk is None: blk = addblk(str(cnt))
            s = s.strip()
            if s.startswith('switch') :
                while not s.rstrip().endswith(']'): s += ' ' + body[k].strip(); k += 1
            if re.match(r'(%\S+ = )?invoke', s):
                s += ' ' + body[k].strip(); k += 1
            if 'landingpad' in s:
                while k < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[k]): s += ' ' + body[k].strip(); k += 1
            ins = self.parse_ins(s)
            if ins is None: continue
            if ins.op == 'phi': blk.phis.append(ins)
            elif ins.op in ('br', 'condbr', 'switch', 'ret', 'unreachable', 'invoke', 'resume'): blk.term = ins
            else: blk.ins.append(ins)
        return f

    def parse_ins(self, s):
        txt = s
        s = re.sub(r', ![\w.]+ !\d+', '', s)
        s = re.sub(r', !srcloc.*$', '', s)
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = nm(p.next()[1]); p.next()
        k, op = p.next()
        def flags():
            fl = set()
            while p.peek()[0] == 'word' and p.peek()[1] in FLAGS: fl.add(p.next()[1])
            return fl
        if op in ('tail', 'musttail', 'notail'): k, op = p.next()
        if op in BIN:
            fl = flags(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return Ins(op, res, t, [a, b], fl, txt)
        if op == 'fneg':
            flags(); t = p.type(); return Ins(op, res, t, [p.value(t)], None, txt)
        if op in CAST:
            flags(); a = p.tval(); p.exp('to'); t = p.type(); return Ins(op, res, t, [a], None, txt)
        if op in ('icmp', 'fcmp'):
            flags(); pred = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return Ins(op, res, I1, [a, b], pred, txt)
        if op == 'select':
            flags(); a = p.tval(); p.exp(','); b = p.tval(); p.exp(','); c = p.tval()
            return Ins(op, res, b.ty, [a, b, c], None, txt)
        if op == 'phi':
            flags(); t = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(t); p.exp(','); b = nm(p.next()[1]); p.exp(']'); inc.append((b, v))
                if not p.acc(','): break
            return Ins(op, res, t, [], inc, txt)
        if op == 'alloca':
            p.acc('inalloca'); t = p.type(); n = None
            if p.acc(',') and p.peek()[1] != 'align':
                n = p.tval()
            return Ins(op, res, t, [n] if n else [], None, txt)
        if op == 'load':
            flags(); t = p.type(); p.exp(','); a = p.tval(); return Ins(op, res, t, [a], None, txt)
        if op == 'store':
            flags(); v = p.tval(); p.exp(','); a = p.tval(); return Ins(op, None, v.ty, [v, a], None, txt)
        if op == 'getelementptr':
            flags(); bt = p.type(); p.exp(','); ops = []
            while True:
                ops.append(p.tval())
                if not p.acc(','): break
            return Ins(op, res, PTR, ops, bt, txt)
        if op == 'br':
            if p.acc('label'): return Ins('br', None, None, [], [nm(p.next()[1])], txt)
            c = p.tval(); p.exp(','); p.exp('label'); a = nm(p.next()[1]); p.exp(','); p.exp('label'); b = nm(p.next()[1])
            return Ins('condbr', None, None, [c], [a, b], txt)
        if op == 'switch':
            c = p.tval(); p.exp(','); p.exp('label'); d = nm(p.next()[1]); p.exp('['); cs = []
            while not p.acc(']'):
                v = p.tval(); p.exp(','); p.exp('label'); cs.append((v.v, nm(p.next()[1])))
            return Ins('switch', None, None, [c], (cs, d), txt)
        if op == 'ret':
            if p.acc('void'): return Ins('ret', None, None, [], None, txt)
            return Ins('ret', None, None, [p.tval()], None, txt)
        if op == 'unreachable': return Ins(op, txt=txt)
        if op == 'resume': return Ins(op, txt=txt, ops=[])
        if op == 'landingpad':
            return Ins(op, res, p.type(), [], None, txt)
        if op in ('extractvalue', 'insertvalue'):
            a = p.tval(); ops = [a]
            p.exp(',')
            if op == 'insertvalue': ops.append(p.tval()); p.exp(',')
            idx = [int(p.next()[1])]
            while p.acc(','): idx.append(int(p.next()[1]))
            return Ins(op, res, a.ty, ops, idx, txt)
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            ops = [p.tval()]
            while p.acc(','): ops.append(p.tval())
            return Ins(op, res, ops[0].ty, ops, None, txt)
        if op == 'freeze':
            return Ins('freeze', res, None, [p.tval()], None, txt)
        if op in ('call', 'invoke'):
            flags(); p.skip_attrs()
            rt = p.type()
            p.skip_attrs()
            if p.peek()[1] == '(':   # function type
                d = 0
                while True:
                    q = p.next()[1]
                    if q == '(': d += 1
                    if q == ')':
                        d -= 1
                        if d == 0: break
            if p.peek()[1] == 'asm': return Ins('asm', res, rt, txt=txt)
            k, v = p.peek()
            if k == 'glob': callee = ('g', nm(v)); p.next()
            elif k == 'loc': callee = ('l', nm(v)); p.next()
            else:
                cv = p.value(PTR); callee = ('c', cv)
            p.exp('('); args = []
            while not p.acc(')'):
                t = p.type()
                if t.k == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        q = p.next()[1]
                        if q == '(': d += 1
                        if q == ')': d -= 1
                    args.append(Val('undef', None, t)); p.acc(','); continue
                a = p.skip_attrs(); v = p.value(t); args.append(v); p.acc(',')
            x = {'callee': callee}
            if op == 'invoke':
                while not p.acc('to'): p.next()
                p.exp('label'); x['ok'] = nm(p.next()[1]); p.exp('unwind'); p.exp('label'); x['unw'] = nm(p.next()[1])
            return Ins(op, res, rt, args, x, txt)
        if op in ('fence',): return None
        if op in ('cmpxchg', 'atomicrmw', 'va_arg'):
            return Ins('unsupported', res, None, [], op, txt)
        raise ExtractError('ins? %s' % txt)


# ------------------------------------------------------------------ compile
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vv-')
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def src(rel): return os.path.join(REPO, rel)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)
    if r.returncode: raise ExtractError('%s: %s' % (' '.join(cmd[:3]), r.stderr[-3000:]))
    return r.stdout


def extract(sources, noinline=(), extra='', defs=(), passes=None, threshold=4000, rewrite=()):
    """compile sources (relative to REPO), link, simplify; return Module.
    noinline: regexes on mangled names which must stay calls (contract boundary)."""
    d = scratch(); lls = []
    procs = []
    for k, s in enumerate(sources):
        o = os.path.join(d, 'x%s_%d.ll' % (hashlib.md5((s + extra).encode()).hexdigest()[:8], k))
        p = s if os.path.isabs(s) else src(s)
        if rewrite:      # what clang does not accept (gcc extensions), replaced mechanically
            t = t0 = open(p).read()
            for a, b in rewrite: t = re.sub(a, b, t)
            if t != t0:
                inc = os.path.dirname(p); p = o[:-3] + '.rw.cpp'; open(p, 'w').write(t); defs = list(defs) + ['-I' + inc]
        cmd = ['clang++-18', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-access-control',
               '-fno-discard-value-names', '-w', '-fno-threadsafe-statics', '-S', '-emit-llvm', '-idirafter', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shim', 'include')] + CXXFLAGS + list(defs) + [p, '-o', o]
        procs.append((subprocess.Popen(cmd, stderr=subprocess.PIPE, universal_newlines=True), o, s))
        lls.append(o)
    for pr, o, s in procs:
        e = pr.communicate()[1]
        if pr.returncode: raise ExtractError('clang %s: %s' % (s, e[-2000:]))
    texts = []
    rx = re.compile('|'.join('(?:%s)' % x for x in noinline)) if noinline else None
    for o in lls:
        t = open(o).read()
        if rx:
            always = {n for n, body in re.findall(r'^attributes (#\d+) = \{(.*)\}', t, re.M) if 'alwaysinline' in body}
            out = []
            for ln in t.split('\n'):
                if ln.startswith('define '):
                    m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', ln)
                    if m and rx.search(m.group(1).strip('"')):
                        # insert noinline before attribute group / at end
                        ln = re.sub(r'(\) (?:local_unnamed_addr |unnamed_addr )?)(#\d+)', lambda m: m.group(1) + 'noinline ' + (m.group(2) if m.group(2) not in always else ''), ln, count=1) if re.search(r'#\d+', ln) else ln
                out.append(ln)
            t = '\n'.join(out)
        open(o, 'w').write(t)
    if len(lls) > 1:
        lk = os.path.join(d, 'linked_%s.ll' % hashlib.md5(''.join(lls).encode()).hexdigest()[:8])
        run([LLVM + '/llvm-link', '-S'] + lls + ['-o', lk])
    else: lk = lls[0]
    oo = lk[:-3] + '.o.ll'
    run([LLVM + '/opt', '-S', '-passes=' + (passes or PASSES), '-inline-threshold=%d' % threshold, '-inlinehint-threshold=%d' % threshold, lk, '-o', oo])
    t = open(oo).read()
    m = Module(); m.text = t; m.parse(t)
    return m


def demangle(names):
    names = list(names)
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, universal_newlines=True)
    return dict(zip(names, r.stdout.split('\n')))


def find(mod, pat):
    """mangled names of defined functions whose demangled name matches pat"""
    if not hasattr(mod, 'dem'): mod.dem = demangle(mod.raw.keys())
    return [k for k, v in mod.dem.items() if re.search(pat, v)]


def probe_offsets(exprs, includes, pre='', flags=()):
    """exprs: list of (name, type, member) -> {name: offset}; also sizeof entries (name, type, None)"""
    d = scratch()
    s = '\n'.join('#include "%s"' % i for i in includes) + '\n#include <cstdio>\n#include <cstddef>\n' + pre + '\nint main(){\n'
    for n, t, m in exprs:
        if m is None: s += 'printf("%s %%zu\\n", sizeof(%s));\n' % (n, t)
        else: s += 'printf("%s %%zu\\n", (size_t)((char*)&(((%s*)4096)->%s)-(char*)4096));\n' % (n, t, m)
    s += '}\n'
    f = os.path.join(d, 'probe%s.cpp' % hashlib.md5(s.encode()).hexdigest()[:8]); open(f, 'w').write(s)
    run(['clang++-18', '-O0', '-w', '-fno-access-control', '-Wno-invalid-offsetof'] + CXXFLAGS + [f, '-o', f[:-4], '-fopenmp=libgomp'] + list(flags))
    out = run([f[:-4]])
    return {a: int(b) for a, b in (l.split() for l in out.strip().split('\n'))}


if __name__ == '__main__':
    m = extract(sys.argv[1:])
    bad = 0
    for n in m.raw:
        try: m.get(n)
        except Exception as e: print(n, repr(e)[:300]); bad += 1
    print(len(m.raw), 'functions', bad, 'bad')
