"""Builds LLVM IR from /repo's current header and parses it (text form) into a small object model.

The IR is produced by clang at -O0 (no optimisation), every internal helper is then inlined into the
public entry points and memory locals are turned into SSA form (always-inline, sroa, early-cse, adce):
helper boundaries, local variable names and statement order inside a block do not matter to the analyses.
"""
import os, re, subprocess, tempfile, shutil, hashlib

REPO = os.environ.get('ZZ_REPO', '/repo')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'


class AnalysisError(Exception):
    """The analysis cannot decide (unsupported construct, vanished anchor): exit 2."""


# ----------------------------------------------------------------------------- building

PRELUDE = '''#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
%(defs)s
#define inline __inline__ __attribute__((used))
#include "%(header)s"
%(extra)s
'''


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p


def compile_raw(lang='c', defs='', extra='', header='zzzjson.h', std=None, opts=()):
    d = tempfile.mkdtemp(prefix='zzir')
    try:
        src = os.path.join(d, 'h.c' if lang == 'c' else 'h.cpp')
        with open(src, 'w') as f:
            f.write(PRELUDE % dict(defs=defs, header=os.path.join(REPO, header), extra=extra))
        out = os.path.join(d, 'h.ll')
        std = std or ('c99' if lang == 'c' else 'c++11')
        cmd = [CLANG, '-x', 'c' if lang == 'c' else 'c++', '-std=' + std, '-O0', '-Xclang', '-disable-O0-optnone',
               '-fno-builtin', '-fno-exceptions', '-w', '-g', '-fstandalone-debug', '-S', '-emit-llvm'] + list(opts) + [src, '-o', out]
        p = run(cmd)
        if p.returncode != 0:
            raise AnalysisError('clang cannot compile %s (%s, %s): %s' % (header, lang, defs.replace('\n', ' '), p.stderr[:2000]))
        return open(out).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hpp_uses():
    """definitions that force clang to emit every public member function of the C++ wrapper header"""
    d = tempfile.mkdtemp(prefix='zzir')
    try:
        src = os.path.join(d, 'h.cpp')
        open(src, 'w').write('#include "%s"\n' % os.path.join(REPO, 'zzzjson.hpp'))
        p = run([CLANG, '-x', 'c++', '-std=c++11', '-fsyntax-only', '-w', '-Xclang', '-ast-dump', '-Xclang', '-ast-dump-filter=zzzjson::Value', src])
        if p.returncode != 0: raise AnalysisError('clang cannot compile zzzjson.hpp: ' + p.stderr[:1500])
        out = []; acc = 'private'
        for l in p.stdout.split('\n'):
            m = re.match(r'[| `-]*AccessSpecDecl .* (public|private|protected)$', l)
            if m: acc = m.group(1)
            m = re.search(r"CXXMethodDecl 0x\w+ <[^>]*> \S+ (?:used |referenced |implicit )*(\w+) '([^']*?)\((.*)\)([^']*)'(.*)$", l)
            if not m or acc != 'public' or 'implicit' in l.split("'")[0]: continue
            nm, ret, args, q, tail = m.groups()
            if nm.startswith('operator'): continue
            i = len(out)
            if ' static' in tail: out.append('__attribute__((used)) static %s(*zz_m%d)(%s) = &Value::%s;' % (ret, i, args, nm))
            else: out.append('__attribute__((used)) static %s(Value::*zz_m%d)(%s)%s = &Value::%s;' % (ret, i, args, q, nm))
        return 'namespace zzzjson {\n%s\nstatic inline void zz_use() { Allocator a; (void)a; }\n}\n' % '\n'.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cname(mangled, subprog=None):
    return subprog or mangled


DEF_RE = re.compile(r'^define .*$', re.M)


def fn_names(text):
    """map IR symbol -> source-level name (via DISubprogram)"""
    sp = {}
    for m in re.finditer(r'^(!\d+) = distinct !DISubprogram\(name: "([^"]*)"', text, re.M):
        sp[m.group(1)] = m.group(2)
    out = {}
    for m in DEF_RE.finditer(text):
        l = m.group(0)
        n = re.search(r'@("?)([\w.$~]+)\1\(', l).group(2)
        d = re.search(r'!dbg (!\d+)', l)
        out[n] = sp.get(d.group(1), n) if d else n
    return out


def inline_ir(text, keep, passes='always-inline,function(lower-expect,sroa,early-cse,adce)'):
    names = fn_names(text)

    def f(m):
        l = m.group(0)
        n = re.search(r'@("?)([\w.$~]+)\1\(', l).group(2)
        k = names.get(n, n) in keep or n in keep
        l2 = re.sub(r' #\d+(?= |$)', ' #%d' % (9901 if k else 9900), l, count=1)
        if l2 == l:
            l2 = re.sub(r'\) (?=(!dbg|personality|align|comdat|\{))', ') #%d ' % (9901 if k else 9900), l, count=1)
        return l2
    t = DEF_RE.sub(f, text)
    t += ('\nattributes #9900 = { alwaysinline nounwind "no-builtins" }\n'
          'attributes #9901 = { noinline nounwind "no-builtins" }\n')
    # calls marked noinline at the call site (-fno-builtin does not do that) would block inlining
    d = tempfile.mkdtemp(prefix='zzir')
    try:
        a = os.path.join(d, 'a.ll'); b = os.path.join(d, 'b.ll')
        open(a, 'w').write(t)
        p = run([OPT, '-S', '-passes=' + passes, a, '-o', b])
        if p.returncode != 0:
            raise AnalysisError('opt failed: ' + p.stderr[:2000])
        return open(b).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ----------------------------------------------------------------------------- parsing

class Ty:
    __slots__ = ('k', 'n', 'el', 'name')

    def __init__(self, k, n=0, el=None, name=None):
        self.k = k; self.n = n; self.el = el; self.name = name

    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % self.el
        return self.k


PTR = Ty('ptr'); VOID = Ty('void'); DOUBLE = Ty('double'); FLOAT = Ty('float')
_ity = {}


def ity(n):
    if n not in _ity: _ity[n] = Ty('i', n)
    return _ity[n]


ATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
         'inbounds', 'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'volatile', 'tail', 'notail', 'musttail', 'immarg',
         'inreg', 'readnone', 'fast', 'nnan', 'ninf', 'nsz', 'internal', 'dso_local', 'private', 'unnamed_addr',
         'local_unnamed_addr', 'linkonce_odr', 'hidden', 'fastcc', 'swiftself', 'noreturn', 'mustprogress'}

TOK = re.compile(r'\s*(c"(?:[^"])*"|"(?:[^"])*"|[%@]"[^"]*"|[%@][-\w.$]+|![\w.]+|#\d+|-?0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[][(){}<>,=*:|])')


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise AnalysisError('IR token: ' + s[i:i + 60])
        out.append(m.group(1)); i = m.end()
    return out


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'raw', 'blk', 'idx')

    def __init__(self, op, res, ty, args, x=None):
        self.op = op; self.res = res; self.ty = ty; self.args = args; self.x = x; self.dbg = None; self.raw = ''

    def __repr__(self):
        return self.raw


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'rpo', 'livein', 'loophead', 'fn', 'loop', 'depth')

    def __init__(self, name):
        self.name = name; self.insts = []; self.succs = []; self.preds = []; self.rpo = 0; self.livein = None
        self.loophead = False


class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.entry = None; self.rty = VOID; self.src = name
        self.dbg = None; self.vararg = False


class Parser:
    """recursive descent on the tokens of one line"""

    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek(); self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x): raise AnalysisError('IR: expected %r at %r' % (x, self.t[self.i - 3:self.i + 5]))

    def attrs(self):
        while True:
            p = self.peek()
            if p in ATTRS: self.i += 1
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'sret', 'byval', 'captures', 'memory'):
                self.i += 1
                if self.eat('('):
                    d = 1
                    while d:
                        q = self.next()
                        d += q == '('; d -= q == ')'
                else: self.i += 1
            elif p is not None and p.startswith('#'): self.i += 1
            else: return

    def type(self):
        p = self.next()
        if p is None: raise AnalysisError('IR type eof')
        if re.fullmatch(r'i\d+', p): t = ity(int(p[1:]))
        elif p == 'ptr': t = PTR
        elif p == 'void': t = VOID
        elif p == 'double': t = DOUBLE
        elif p in ('float', 'x86_fp80', 'half', 'label', 'metadata', 'fp128', 'token'): t = Ty(p)
        elif p == '[':
            n = int(self.next()); self.expect('x'); el = self.type(); self.expect(']'); t = Ty('arr', n, el)
        elif p == '{':
            els = []
            if not self.eat('}'):
                while True:
                    els.append(self.type())
                    if not self.eat(','): break
                self.expect('}')
            t = Ty('struct', 0, els)
        elif p == '<':
            if self.peek() == '{':
                self.next(); els = []
                if not self.eat('}'):
                    while True:
                        els.append(self.type())
                        if not self.eat(','): break
                    self.expect('}')
                self.expect('>')
                t = Ty('struct', 1, els)  # packed
            else:
                n = int(self.next()); self.expect('x'); el = self.type(); self.expect('>'); t = Ty('vec', n, el)
        elif p.startswith('%'):
            t = Ty('struct', 0, None, p)
        else:
            raise AnalysisError('IR type %r' % p)
        # function type "ret (args)" (vararg call)
        return t

    def const(self, ty):
        """constant or value operand of type ty"""
        p = self.next()
        if p.startswith('%'): return ('reg', p)
        if p.startswith('@'): return ('glob', p[1:].strip('"'))
        if p in ('null',): return ('null',)
        if p == 'true': return ('int', 1)
        if p == 'false': return ('int', 0)
        if p in ('undef', 'poison'): return ('undef',)
        if p == 'zeroinitializer': return ('zero', ty)
        if p.startswith('c"'):
            b = bytearray(); s = p[2:-1]; i = 0
            while i < len(s):
                if s[i:i + 2] == '\\\\':
                    b.append(92); i += 2
                elif s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b += s[i].encode('latin1', 'replace'); i += 1
            return ('bytes', bytes(b))
        if p in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[p]
            if p == '<' and self.peek() == '{':
                self.next(); v = self._agg('}'); self.expect('>'); return v
            return self._agg(close)
        if p == 'getelementptr':
            self.attrs(); self.expect('(')
            t = self.type(); self.expect(',')
            pt = self.type(); base = self.const(pt); idx = []
            while self.eat(','):
                self.attrs(); it = self.type(); idx.append((it, self.const(it)))
            self.expect(')')
            return ('cgep', t, base, idx)
        if p in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('('); t = self.type(); v = self.const(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', p, t, v, t2)
        if p in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            self.attrs(); self.expect('('); t = self.type(); a = self.const(t); self.expect(','); t2 = self.type(); b = self.const(t2); self.expect(')')
            return ('cbin', p, t, a, b)
        if p.startswith('0x') or p.startswith('-0x'):
            return ('fp', p)
        if re.fullmatch(r'-?\d+', p): return ('int', int(p)) if ty.k == 'i' else ('fp', p)
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', p): return ('fp', p)
        raise AnalysisError('IR const %r' % p)

    def _agg(self, close):
        els = []
        if not self.eat(close):
            while True:
                t = self.type(); els.append((t, self.const(t)))
                if not self.eat(','): break
            self.expect(close)
        return ('agg', els)

    def tval(self):
        t = self.type(); self.attrs()
        return t, self.const(t)


def sccs(nodes, blocks):
    """strongly connected components in topological order (iterative Tarjan)"""
    ns = set(nodes); idx = {}; low = {}; on = set(); st = []; out = []; c = [0]
    for root in nodes:
        if root in idx: continue
        work = [(root, iter([x for x in blocks[root].succs if x in ns]))]
        idx[root] = low[root] = c[0]; c[0] += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter([x for x in blocks[w].succs if x in ns]))); adv = True
                    break
                elif w in on: low[v] = min(low[v], idx[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                scc = []
                while True:
                    w = st.pop(); on.discard(w); scc.append(w)
                    if w == v: break
                out.append(scc)
    out.reverse()
    return out


class Module:
    def __init__(self, text):
        self.text = text
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.di = {}
        self._parse(text)

    # --- layout
    def size(self, t):
        return self._lay(t)[0]

    def _lay(self, t):
        if t.k == 'i':
            s = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n)
            if s is None: s = (t.n + 7) // 8
            return s, s
        if t.k in ('ptr', 'double'): return 8, 8
        if t.k == 'float': return 4, 4
        if t.k == 'x86_fp80': return 16, 16
        if t.k == 'arr':
            s, a = self._lay(t.el)
            return s * t.n, a
        if t.k == 'struct':
            els = t.el if t.el is not None else self.structs[t.name][0]
            packed = t.n if t.el is not None else self.structs[t.name][1]
            off = 0; al = 1
            for e in els:
                s, a = self._lay(e)
                if packed: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            return (off + al - 1) // al * al, al
        raise AnalysisError('layout of %r' % t)

    def fields(self, t):
        els = t.el if t.el is not None else self.structs[t.name][0]
        packed = t.n if t.el is not None else self.structs[t.name][1]
        off = 0; out = []
        for e in els:
            s, a = self._lay(e)
            if packed: a = 1
            off = (off + a - 1) // a * a
            out.append((off, e)); off += s
        return out

    # --- parse
    def _parse(self, text):
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, _, body = l.partition(' = type ')
                p = Parser(self, tokenize(body))
                if body.strip() == 'opaque': self.structs[name.strip()] = ([], 0)
                else:
                    t = p.type(); self.structs[name.strip()] = (t.el, t.n)
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self._func(l, lines[i + 1:j]); i = j
            elif l.startswith('declare '):
                m = re.search(r'@("?)([\w.$~]+)\1\(', l)
                self.decls.add(m.group(2))
            elif l.startswith('!'):
                m = re.match(r'(!\d+) = (.*)$', l)
                if m: self.di[m.group(1)] = m.group(2)
            i += 1

    def _global(self, l):
        m = re.match(r'@("?)([^"=\s]+)\1\s*=\s*(.*)$', l)
        name, body = m.group(2), m.group(3)
        body = re.sub(r', !dbg.*$', '', body)
        const = re.search(r'\bconstant\b', body.split('"')[0]) is not None
        m2 = re.search(r'\b(constant|global)\b(.*)$', body)
        if not m2 or 'external' in body.split('"')[0].split():
            self.globals[name] = dict(ty=None, init=None, const=False, name=name); return
        rest = m2.group(2)
        rest = re.sub(r', (align \d+|comdat.*|section "[^"]*")', '', rest)
        p = Parser(self, tokenize(rest))
        t = p.type()
        init = p.const(t)
        dbg = re.search(r'!dbg (!\d+)', l)
        self.globals[name] = dict(ty=t, init=init, const=const, name=name, dbg=dbg.group(1) if dbg else None)

    def _func(self, head, body):
        m = re.search(r'@("?)([\w.$~]+)\1\(', head)
        f = Func(m.group(2))
        # params
        depth = 0; k = m.end() - 1; j = k
        while True:
            if head[j] == '(': depth += 1
            if head[j] == ')':
                depth -= 1
                if depth == 0: break
            j += 1
        pp = Parser(self, tokenize(head[k + 1:j]))
        while pp.peek() is not None:
            if pp.eat('...'): f.vararg = True; continue
            t = pp.type(); pp.attrs(); nm = pp.next(); f.params.append((t, nm)); pp.eat(',')
        hp = Parser(self, tokenize(head[len('define '):m.start()]))
        hp.attrs(); hp.attrs()
        f.rty = hp.type()
        d = re.search(r'!dbg (!\d+)', head[j:])
        f.dbg = d.group(1) if d else None
        cur = None
        # numbering of unnamed entry block
        unn = len(f.params)
        k = 0
        while k < len(body):
            l = body[k]
            if not l.strip(): k += 1; continue
            ml = re.match(r'^("?)([-\w.$]+)\1:', l)
            if ml:
                cur = Block('%' + ml.group(2)); f.blocks[cur.name] = cur
                if f.entry is None: f.entry = cur
                k += 1; continue
            if cur is None:
                cur = Block('%' + str(unn)); f.blocks[cur.name] = cur; f.entry = cur
            s = l
            if re.search(r'\bswitch\b', s) and s.rstrip().endswith('['):
                while not body[k].strip().startswith(']'):
                    k += 1; s += ' ' + body[k].strip()
            self._inst(cur, s); k += 1
        self.funcs[f.name] = f

    def _inst(self, blk, s):
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m: dbg = m.group(1)
        core = re.sub(r', ![\w.]+ ![\w]+', '', s)
        core = re.sub(r', ![\w.]+ !\{\}', '', core)
        if 'llvm.dbg.' in core: return
        core = core.split(' ; ')[0]
        toks = tokenize(core)
        p = Parser(self, toks)
        res = None
        if len(toks) > 1 and toks[1] == '=':
            res = p.next(); p.next()
        while p.peek() in ('tail', 'notail', 'musttail'): p.next()
        op = p.next()
        ins = None
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem',
                  'fadd', 'fsub', 'fmul', 'fdiv'):
            p.attrs(); t = p.type(); a = p.const(t); p.expect(','); b = p.const(t)
            ins = Inst(op, res, t, [a, b])
        elif op in ('icmp', 'fcmp'):
            p.attrs(); pred = p.next(); t = p.type(); a = p.const(t); p.expect(','); b = p.const(t)
            ins = Inst(op, res, t, [a, b], pred)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            p.attrs(); t = p.type(); a = p.const(t); p.expect('to'); t2 = p.type()
            ins = Inst(op, res, t2, [a], t)
        elif op in ('freeze', 'fneg'):
            t = p.type(); a = p.const(t); ins = Inst(op, res, t, [a])
        elif op == 'load':
            p.attrs(); t = p.type(); p.expect(','); pt, a = p.tval(); ins = Inst(op, res, t, [a])
        elif op == 'store':
            p.attrs(); t, v = p.tval(); p.expect(','); pt, a = p.tval(); ins = Inst(op, None, t, [v, a])
        elif op == 'alloca':
            t = p.type(); cnt = None
            if p.eat(','):
                if p.peek() != 'align':
                    ct, cnt = p.tval()
            ins = Inst(op, res, t, [], cnt)
        elif op == 'getelementptr':
            p.attrs(); t = p.type(); p.expect(','); pt, base = p.tval(); idx = []
            while p.eat(','):
                p.attrs(); it, v = p.tval(); idx.append((it, v))
            ins = Inst(op, res, t, [base] + [v for _, v in idx], idx)
        elif op == 'br':
            if p.peek() == 'label':
                p.next(); lab = p.next(); ins = Inst('br', None, None, [], [lab]); blk.succs = [lab]
            else:
                t, c = p.tval(); p.expect(','); p.next(); a = p.next(); p.expect(','); p.next(); b = p.next()
                ins = Inst('condbr', None, None, [c], [a, b]); blk.succs = [a, b]
        elif op == 'switch':
            t, v = p.tval(); p.expect(','); p.next(); d = p.next(); p.expect('['); cases = []
            while not p.eat(']'):
                ct = p.type(); cv = p.const(ct); p.expect(','); p.next(); cases.append((cv[1], p.next()))
            ins = Inst('switch', None, t, [v], (d, cases)); blk.succs = [d] + [c for _, c in cases]
        elif op == 'ret':
            t = p.type(); ins = Inst('ret', None, t, [] if t.k == 'void' else [p.const(t)])
        elif op == 'unreachable':
            ins = Inst(op, None, None, [])
        elif op == 'phi':
            p.attrs(); t = p.type(); inc = []
            while True:
                p.expect('['); v = p.const(t); p.expect(','); lab = p.next(); p.expect(']'); inc.append((v, lab))
                if not p.eat(','): break
            ins = Inst('phi', res, t, [v for v, _ in inc], inc)
        elif op == 'select':
            p.attrs(); ct, c = p.tval(); p.expect(','); t, a = p.tval(); p.expect(','); t2, b = p.tval()
            ins = Inst('select', res, t, [c, a, b])
        elif op == 'call':
            p.attrs(); rt = p.type()
            if p.peek() == '(':  # function type
                d = 0
                while True:
                    q = p.next(); d += q == '('; d -= q == ')'
                    if d == 0: break
            callee = p.const(PTR); p.expect('('); args = []
            while not p.eat(')'):
                at = p.type(); p.attrs()
                if at.k == 'metadata':
                    p.next(); args.append((at, ('undef',)))
                else: args.append((at, p.const(at)))
                p.eat(',')
            ins = Inst('call', res, rt, [v for _, v in args], (callee, args))
        elif op in ('extractvalue', 'insertvalue'):
            ins = Inst(op, res, None, [], core)
        else:
            raise AnalysisError('IR instruction not supported: ' + core)
        ins.dbg = dbg; ins.raw = core.strip()
        ins.blk = blk; ins.idx = len(blk.insts)
        blk.insts.append(ins)

    # --- debug info helpers
    def loc(self, dbg):
        """-> (line, function) innermost"""
        d = self.di.get(dbg, '')
        m = re.search(r'DILocation\(line: (\d+)', d)
        line = int(m.group(1)) if m else 0
        return line, self.scope_fn(d)

    def scope_fn(self, d):
        m = re.search(r'scope: (!\d+)', d)
        seen = 0
        while m and seen < 20:
            s = self.di.get(m.group(1), '')
            if 'DISubprogram' in s:
                mm = re.search(r'name: "([^"]*)"', s)
                return mm.group(1) if mm else '?'
            m = re.search(r'scope: (!\d+)', s); seen += 1
        return '?'

    def members(self, sname):
        """debug-info member list of a struct: [(name, byte offset, byte size, base type node)] (unions flattened)"""
        for k, d in self.di.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in d and 'name: "%s"' % sname in d and 'elements:' in d:
                return self._members(d, 0)
        return None

    def struct_ty(self, name):
        for n in self.structs:
            b = n.strip('%"')
            if b in ('struct.' + name, 'class.' + name) or b.endswith('::' + name): return Ty('struct', 0, None, n)
        raise AnalysisError('struct %s not found' % name)

    def enum(self, name):
        """enumerator -> value of an enumeration, from debug info"""
        out = {}
        for k, d in self.di.items():
            if 'DW_TAG_enumeration_type' in d and 'name: "%s"' % name in d:
                m = re.search(r'elements: (!\d+)', d)
                for e in re.findall(r'!\d+', self.di[m.group(1)]):
                    x = re.search(r'DIEnumerator\(name: "([^"]*)", value: (-?\d+)', self.di[e])
                    if x: out[x.group(1)] = int(x.group(2))
        return out

    def _members(self, d, base):
        m = re.search(r'elements: (!\d+)', d)
        out = []
        if not m: return out
        for e in re.findall(r'!\d+', self.di[m.group(1)]):
            md = self.di[e]
            if 'DW_TAG_member' not in md: continue
            if 'DIFlagStaticMember' in md: continue
            nm = re.search(r'name: "([^"]*)"', md)
            off = re.search(r'offset: (\d+)', md); sz = re.search(r'size: (\d+)', md)
            bt = re.search(r'baseType: (!\d+)', md)
            o = base + (int(off.group(1)) if off else 0) // 8
            b = self.strip_td(bt.group(1)) if bt else None
            bd = self.di.get(b, '')
            if 'DW_TAG_union_type' in bd or ('DW_TAG_structure_type' in bd and 'elements:' in bd):
                for (n2, o2, s2, b2) in self._members(bd, o):
                    out.append(((nm.group(1) + '.' if nm else '') + n2, o2, s2, b2))
            else:
                out.append((nm.group(1) if nm else '', o, (int(sz.group(1)) if sz else 0) // 8, b))
        return out

    def strip_td(self, k):
        for _ in range(10):
            d = self.di.get(k, '')
            if 'DW_TAG_typedef' in d or 'DW_TAG_const_type' in d or 'DW_TAG_volatile_type' in d:
                m = re.search(r'baseType: (!\d+)', d)
                if not m: return None
                k = m.group(1)
            else: return k
        return k

    # --- CFG analyses
    def prepare(self, f):
        if getattr(f, 'ready', False): return f
        f.ready = True
        order = []; seen = set(); stack = [(f.entry, iter(f.entry.succs))]
        seen.add(f.entry.name)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((f.blocks[s], iter(f.blocks[s].succs))); adv = True; break
            if not adv:
                order.append(b); stack.pop()
        order.reverse()
        for n in list(f.blocks):
            if n not in seen: del f.blocks[n]
        for i, b in enumerate(order): b.rpo = i
        for b in order: b.preds = []
        for b in order:
            for s in dict.fromkeys(b.succs): f.blocks[s].preds.append(b.name)
        # weak topological order: loop bodies come before what follows the loop, so inner loops stabilise first
        rpo = {b.name: b.rpo for b in order}; heads = set(); wto = []

        def comp(nodes):
            for scc in sccs(nodes, f.blocks):
                if len(scc) == 1 and scc[0] not in f.blocks[scc[0]].succs: wto.append(scc[0]); continue
                h = min(scc, key=lambda n: rpo[n])
                heads.add(h); wto.append(h)
                comp([n for n in scc if n != h])
        comp([b.name for b in order])
        if getattr(self, 'wto', False):
            for i, n in enumerate(wto): f.blocks[n].rpo = i; f.blocks[n].loophead = n in heads
            order = [f.blocks[n] for n in wto]
        else:
            for b in order:
                for s in b.succs:
                    if f.blocks[s].rpo <= b.rpo: f.blocks[s].loophead = True
        # liveness
        use = {}; dfn = {}
        for b in order:
            u = set(); d = set()
            for ins in b.insts:
                if ins.op == 'phi':
                    d.add(ins.res); continue
                for a in ins.args:
                    for r in regs(a):
                        if r not in d: u.add(r)
                if ins.res: d.add(ins.res)
            use[b.name] = u; dfn[b.name] = d
        livein = {b.name: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in b.succs:
                    sb = f.blocks[s]
                    out |= livein[s]
                    for ins in sb.insts:
                        if ins.op != 'phi': break
                        out.discard(ins.res)
                    for ins in sb.insts:
                        if ins.op != 'phi': break
                        for v, lab in ins.x:
                            if lab == b.name: out |= set(regs(v))
                li = use[b.name] | (out - dfn[b.name])
                # phi results of this block are live-in as "already evaluated"
                for ins in b.insts:
                    if ins.op == 'phi': li.add(ins.res)
                if li != livein[b.name]:
                    livein[b.name] = li; ch = True
        # a phi result is only really live if used
        used = set()
        for b in order:
            for ins in b.insts:
                for a in ins.args: used.update(regs(a))
        for b in order:
            b.livein = {r for r in livein[b.name] if r in used}
            b.fn = f
        f.order = order
        # discrete registers: only ever compared / switched on / passed through phis, casts and selects
        arith = set(); flow = {}
        for b in order:
            for ins in b.insts:
                if ins.op in ('icmp', 'switch', 'condbr', 'ret'): continue
                if ins.op in ('phi', 'select', 'zext', 'sext', 'trunc', 'freeze'):
                    for a in ins.args:
                        for r in regs(a): flow.setdefault(ins.res, set()).add(r)
                    continue
                for a in ins.args: arith.update(regs(a))
                if ins.res and ins.op not in ('load',): arith.add(ins.res)
        ch = True
        while ch:
            ch = False
            for r, srcs in flow.items():
                if r in arith:
                    for s in srcs:
                        if s not in arith: arith.add(s); ch = True
        f.arith = arith
        return f

    def fn_by_source(self, name):
        for f in self.funcs.values():
            if f.name == name: return f
        names = fn_names_cached(self)
        for k, v in names.items():
            if v == name and k in self.funcs: return self.funcs[k]
        return None


def fn_names_cached(mod):
    if not hasattr(mod, '_names'): mod._names = fn_names(mod.text)
    return mod._names


def regs(a):
    if a[0] == 'reg': return (a[1],)
    return ()
