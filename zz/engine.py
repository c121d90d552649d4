"""Abstract interpreter over the inlined SSA form: a worklist fixpoint whose states are (block, values, heap, ghost).

States are joined losslessly at ordinary join points (a split on one input byte is re-united as a finite
function of that byte) and with an affine-hull (Karr) join plus inferred inequalities at loop heads.
"""
import heapq, operator, os, time
from .ir import AnalysisError, regs, fn_names_cached
from .dom import *

NULL = ('p', O(0), ZERO)
UNDEF = ('undef',)


def ptr(o, off=ZERO): return ('p', o, off)


def isptr(v): return isinstance(v, tuple) and v and v[0] == 'p'


def isnull(v): return isptr(v) and v[1] == 0


class Fork(Exception):
    def __init__(self, alts, why=''):
        self.alts = alts; self.why = why


class Enough(Exception):
    """the operation has enough findings; stop"""


class Budget(AnalysisError):
    fatal = True


class Kill(Exception):
    """path is infeasible or already reported"""


class Obj:
    __slots__ = ('kind', 'size', 'fields', 'log', 'meta', 'init', 'name')

    def __init__(self, kind, size=None, name='', meta=None):
        self.kind = kind; self.size = size; self.fields = {}; self.log = None; self.meta = meta or {}; self.init = None
        self.name = name

    def clone(self):
        o = Obj(self.kind, self.size, self.name, dict(self.meta))
        o.fields = dict(self.fields); o.log = list(self.log) if self.log is not None else None
        o.init = dict(self.init) if self.init is not None else None
        return o

    def __repr__(self):
        return '<%s %s size=%s %s%s %s>' % (self.kind, self.name, self.size, self.fields, ' log=%s' % self.log if self.log else '', self.meta)


class State:
    __slots__ = ('blk', 'idx', 'env', 'objs', 'own', 'cons', 'dom', 'gh', 'cnt', 'tr', 'eng', 'subs', 'lossy', 'pid')

    def __init__(self, eng):
        self.eng = eng; self.blk = None; self.idx = 0; self.env = {}; self.objs = {}; self.own = set(); self.cons = []
        self.dom = {}; self.gh = {}; self.cnt = 1; self.tr = None; self.subs = None; self.lossy = False; self.pid = None

    def copy(self):
        s = State(self.eng)
        s.blk = self.blk; s.idx = self.idx; s.env = dict(self.env); s.objs = dict(self.objs); s.own = set()
        self.own = set()
        s.cons = list(self.cons); s.dom = dict(self.dom); s.gh = ghcopy(self.gh); s.cnt = self.cnt; s.tr = self.tr; s.subs = self.subs; s.lossy = self.lossy; s.pid = self.pid
        return s

    # --- objects
    def new(self, obj):
        o = O(self.cnt); self.cnt += 1
        self.objs[o] = obj; self.own.add(o)
        return o

    def obj(self, o):
        if o < 0: return self.eng.gobjs[o]
        return self.objs[o]

    def mut(self, o):
        if o < 0: raise AnalysisError('write to a global object')
        if o not in self.own:
            self.objs[o] = self.objs[o].clone(); self.own.add(o)
        return self.objs[o]

    def sym(self, hint='x'):
        s = '%s%d' % (hint, self.cnt); self.cnt += 1
        return s

    def byte(self, mask=FULL):
        b = B(self.cnt); self.cnt += 1
        self.dom[b] = mask
        return b

    # --- numeric
    def lin(self, n):
        """abstract byte-function terms by bounded symbols"""
        if not n.bf: return n
        n = norm(n, self.dom)
        r = Num(n.k, n.co)
        for f in n.bf:
            nm = 'f' + '_'.join(str(int(s)) for s in f.sup) + '_%x' % (hash(tuple(sorted(f.tab.items()))) & 0xffffffff)
            lo = min(f.tab.values()); hi = max(f.tab.values())
            self.eng.tmpc[nm] = (Num(-lo, ((nm, 1),)), Num(hi, ((nm, -1),)))
            r = r + S(nm)
        return r

    def allcons(self, extra=()):
        out = list(self.cons)
        for c in self.eng.auto_cons(self):
            out.append(self.lin(c) if c.bf else c)
        out += list(extra)
        for c in list(out):
            for s, _ in c.co:
                if s in self.eng.tmpc: out.extend(self.eng.tmpc[s])
        return out

    def now(self, e):
        """an expression computed before symbols were replaced, in the current symbols"""
        if self.subs and any(x in self.subs for x, _ in e.co): return e.subst(self.subs)
        return e

    def entails(self, e):
        """e >= 0 ?"""
        e = self.now(e)
        e = self.lin(norm(e, self.dom) if e.bf else e)
        if not e.co: return e.k >= 0
        ex = []
        for s, _ in e.co:
            if s in self.eng.tmpc: ex.extend(self.eng.tmpc[s])
        return entails(self.allcons(ex), e)

    def isconst(self, n):
        n = norm(self.now(n), self.dom)
        c = n.const
        if c is not None and type(c) is not int:
            if c.denominator != 1: raise Kill()      # an integer quantity
            c = int(c)
        return c

    def eqzero(self, n):
        """is n == 0 entailed"""
        c = self.isconst(n)
        if c is not None: return c == 0
        return self.entails(n) and self.entails(n.scale(-1))

    def assume(self, e):
        """add e >= 0; False if infeasible"""
        e = norm(self.now(e), self.dom)
        if e.bf:
            e = self.lin(e)
            cs = [e]
            for s, _ in e.co:
                if s in self.eng.tmpc: cs.extend(self.eng.tmpc[s])
            return satisfiable(self.allcons(cs))  # not recorded
        if not e.co: return e.k >= 0
        if not satisfiable(self.allcons([e])): return False
        if e not in self.cons: self.cons.append(e)
        # promote to equality when forced
        neg = e.scale(-1)
        if entails(self.allcons(), neg): return self.assume_eq(e)
        return True

    def assume_eq(self, e):
        e = norm(self.now(e), self.dom)
        if e.bf:
            if not e.co:
                return self.split_bytes_eq(e)
            return self.assume(e) and self.assume(e.scale(-1))
        if not e.co: return e.k == 0
        cand = [(s, c) for s, c in e.co if c in (1, -1)]
        if not cand:
            if not satisfiable(self.allcons([e, e.scale(-1)])): return False
            self.cons += [e, e.scale(-1)]
            return True
        s, c = sorted(cand, key=lambda x: self.eng.sym_rank(x[0]))[0]
        rest = Num(e.k, tuple((a, b) for a, b in e.co if a != s)).scale(-c)  # s = rest (c=+-1)
        self.substitute({s: rest})
        return satisfiable(self.allcons())

    def split_bytes_eq(self, e):
        g = joint(e.bf, e.k)
        keep = [t for t, v in g.tab.items() if v == 0]
        if not keep: return False
        if len(g.sup) == 1:
            return self.refine(g.sup[0], mask_of(t[0] for t in keep))
        for i, s in enumerate(g.sup):
            if not self.refine(s, mask_of({t[i] for t in keep})): return False
        return True

    def substitute(self, m):
        f = lambda n: n.subst(m)
        subs = {k: v.subst(m) for k, v in self.subs.items()} if self.subs else {}
        subs.update(m); self.subs = subs
        self.env = {k: mapv(v, f) for k, v in self.env.items()}
        for o in list(self.objs):
            ob = self.objs[o]
            nb = mapobj(ob, f)
            if nb is not None:
                self.objs[o] = nb; self.own.add(o)
        self.gh = mapv(self.gh, f)
        nc = []
        for c in self.cons:
            c = c.subst(m)
            if not c.co:
                if c.k < 0: nc.append(c)
                continue
            if c not in nc: nc.append(c)
        self.cons = nc

    def refine(self, b, mask):
        m = self.dom[b] & mask
        if not m: return False
        if m == self.dom[b]: return True
        self.dom[b] = m
        return self.eng.on_refine(self, b)

    def note(self, s):
        self.tr = (self.tr, s)


def ghcopy(g):
    if isinstance(g, dict): return {k: ghcopy(v) for k, v in g.items()}
    if isinstance(g, list): return [ghcopy(v) for v in g]
    return g


def mapv(x, f):
    """maps the numbers in a value; parts that do not change are shared"""
    t = type(x)
    if t is Num: return f(x)
    if t is tuple:
        for i, e in enumerate(x):
            y = mapv(e, f)
            if y is not e: return x[:i] + (y,) + tuple([mapv(q, f) for q in x[i + 1:]])
        return x
    if t is list: return [mapv(e, f) for e in x]
    if t is dict: return {k: mapv(v, f) for k, v in x.items()}
    return x


def has(x, f):
    t = type(x)
    if t is Num: return f(x) is not x
    if t is tuple or t is list:
        for e in x:
            if has(e, f): return True
        return False
    if t is dict:
        for e in x.values():
            if has(e, f): return True
    return False


def mapobj(ob, f):
    if not (has(ob.size, f) or has(ob.fields, f) or has(ob.log, f) or has(ob.meta, f) or has(ob.init, f)): return None
    n = Obj(ob.kind, mapv(ob.size, f), ob.name)
    n.fields = mapv(ob.fields, f); n.log = mapv(ob.log, f); n.meta = mapv(ob.meta, f); n.init = mapv(ob.init, f)
    return n


# ----------------------------------------------------------------------------- canonical form

class Canon:
    """serialises a state in a deterministic order; can rebuild it with renamed identities and numbers"""

    def __init__(self, st, live, discrete, coarse=False):
        self.st = st; self.on = {}; self.bn = {}; self.leaves = []; self.out = []; self.order = []
        self.border = []; self.discrete = discrete; self.coarse = coarse; self.direct = set()
        self.shape = (self.ser(st.gh, None), tuple((r, self.ser(st.env[r], r)) for r in sorted(live) if r in st.env))
        if coarse:
            for n in self.leaves:
                for f in n.bf:
                    for b in f.sup: self.ser(b, None)

    def ser(self, x, ctx):
        t = type(x)
        if t is Num:
            return self.num(x, ctx)
        if t is O:
            if x <= 0: return ('O', int(x))
            if x in self.on: return ('O', self.on[x])
            k = len(self.on) + 1; self.on[x] = k; self.order.append(x)
            ob = self.st.objs[x]
            return ('O', k, ob.kind, ob.name, self.ser(ob.meta, None), self.ser(ob.size, None),
                    tuple((off, self.ser(ob.fields[off], ('f', ob, off))) for off in sorted(ob.fields)),
                    self.ser(ob.log, None),
                    None if ob.init is None else tuple((off, self.ser(ob.init[off], ('f', ob, off))) for off in sorted(ob.init)))
        if t is B:
            if x in self.bn: return ('B', self.bn[x])
            k = len(self.bn) + 1; self.bn[x] = k; self.border.append(x)
            return ('B', k)
        if t is tuple: return tuple([self.ser(e, ctx) for e in x])
        if t is list: return ('l',) + tuple([self.ser(e, ctx) for e in x])
        if t is dict: return ('D',) + tuple([(k, self.ser(x[k], ctx)) for k in korder(x)])
        return x

    def num(self, n, ctx):
        if n.bf:
            n = norm(n, self.st.dom)
        if self.coarse:
            if isinstance(ctx, str) and type(self.st.env.get(ctx)) is Num: self.direct.add(len(self.leaves))
            self.leaves.append(n); return 'n'
        bs = []
        for f in n.bf:
            bs.append((tuple(self.ser(s, None) for s in f.sup), tuple(sorted(f.tab.items()))))
        if not n.co and not n.bf and self.discrete and self.discrete(ctx):
            return ('k', n.k)
        self.leaves.append(n)
        return ('n', tuple(bs)) if bs else 'n'

    def rename(self, live, leaffn=None):
        """rebuild state with canonical ids; leaffn(i, Num)->Num with B already renamed"""
        st = self.st; on = self.on; bn = self.bn
        i = [0]
        seen = set(); objs = {}

        def num(x, ctx):
            n = norm(x, st.dom) if x.bf else x
            # visit support in the same order as ser (B numbering already done)
            bf = n.bf
            if bf:
                bf = tuple(sorted((BFn(*sorted_sup(f, bn)) for f in bf), key=lambda f: f.sup))
            if not n.co and not n.bf and self.discrete and self.discrete(ctx):
                return n
            j = i[0]; i[0] += 1
            r = Num(n.k, n.co, bf)
            return leaffn(j, r) if leaffn else r

        def go(x, ctx):
            t = type(x)
            if t is Num: return num(x, ctx)
            if t is O:
                if x <= 0: return x
                k = O(on[x])
                if x not in seen:
                    seen.add(x)
                    ob = st.objs[x]
                    n = Obj(ob.kind, None, ob.name)
                    objs[k] = n
                    n.meta = go(ob.meta, None); n.size = go(ob.size, None)
                    n.fields = {off: go(ob.fields[off], ('f', ob, off)) for off in sorted(ob.fields)}
                    n.log = go(ob.log, None)
                    n.init = None if ob.init is None else {off: go(ob.init[off], ('f', ob, off)) for off in sorted(ob.init)}
                return k
            if t is B: return B(bn[x])
            if t is tuple: return tuple([go(e, ctx) for e in x])
            if t is list: return [go(e, ctx) for e in x]
            if t is dict: return {k: go(x[k], ctx) for k in korder(x)}
            return x
        s = State(st.eng)
        s.blk = st.blk; s.idx = st.idx; s.tr = st.tr; s.lossy = st.lossy; s.pid = st.pid
        s.gh = go(st.gh, None)
        s.env = {r: go(st.env[r], r) for r in sorted(live) if r in st.env}
        s.objs = objs; s.own = set(objs)
        s.dom = {B(bn[b]): st.dom[b] for b in self.border}
        s.cnt = max(len(on), len(bn)) + 1000
        s.cons = list(st.cons)
        return s


def sorted_sup(f, bn):
    sup = [B(bn[s]) for s in f.sup]
    idx = sorted(range(len(sup)), key=lambda i: sup[i])
    if idx == list(range(len(sup))): return tuple(sup), f.tab
    return tuple(sup[i] for i in idx), {tuple(t[i] for i in idx): v for t, v in f.tab.items()}


_ko = {}


def korder(d):
    """the keys of a dictionary in a fixed order"""
    k = tuple(d)
    r = _ko.get(k)
    if r is None:
        if len(_ko) > 50000: _ko.clear()
        r = _ko[k] = tuple(sorted(k, key=keyord))
    return r


def keyord(k):
    return (str(type(k)), k) if not isinstance(k, tuple) else ('~t', tuple(str(x) for x in k))


# ----------------------------------------------------------------------------- engine

class Engine:
    MAX_STATES = 60000
    MAX_FINDINGS = 12
    WBOUND = 4

    def __init__(self, mod, model):
        self.mod = mod; self.model = model; self.gobjs = {}; self.gname = {}
        self.tmpc = {}; self.findings = {}; self.stats = dict(states=0, forks=0, joins=0, blocks=set(), shapes=0, insts=0, accesses=0)
        self.stored_globals = self._stored_globals()
        self.fnnames = fn_names_cached(mod)
        model.eng = self
        self.deadline = None; self.drain = None; self.grace = 0
        self.partial = None     # a path was given up (the operation stays undecided unless a violation was found)

    def _stored_globals(self):
        if hasattr(self.mod, '_stored'): return self.mod._stored
        w = set()
        for f in self.mod.funcs.values():
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op == 'store':
                        a = i.args[1]
                        while a[0] == 'cgep': a = a[2]
                        if a[0] == 'glob': w.add(a[1])
        self.mod._stored = w
        return w

    # hooks to the model
    def auto_cons(self, st): return self.model.auto_cons(st)

    def on_refine(self, st, b): return self.model.on_refine(st, b)

    def sym_rank(self, s): return self.model.sym_rank(s)

    # --- findings
    def report(self, kind, st, ins, msg, kill=True):
        line, fn = (0, '?')
        if ins is not None and ins.dbg: line, fn = self.mod.loc(ins.dbg)
        key = (kind, fn, line, msg)
        if key not in self.findings:
            self.findings[key] = dict(kind=kind, function=fn, line=line, message=msg, entry=self.entry, config=getattr(self.mod, 'config', ''),
                                      path=self.path(st), inst=ins.raw if ins else '')
            if len(self.findings) >= self.MAX_FINDINGS: raise Enough()
        if kill: raise Kill()

    def path(self, st):
        out = []; t = st.tr
        while t is not None and len(out) < 60:
            out.append(t[1]); t = t[0]
        return list(reversed(out))

    # --- globals
    def glob(self, name):
        if name in self.gname: return self.gname[name]
        o = O(-(len(self.gname) + 1)); self.gname[name] = o
        g = self.mod.globals.get(name)
        ob = Obj('glob', None, name)
        ob.meta['g'] = g
        if g and g['ty'] is not None: ob.size = N(self.mod.size(g['ty']))
        self.gobjs[o] = ob
        return o

    def gread(self, o, off, ty):
        """read constant data: off int"""
        ob = self.gobjs[o]; g = ob.meta['g']
        if g is None or g['ty'] is None: raise AnalysisError('read of external global ' + ob.name)
        if not g['const'] and ob.name in self.stored_globals: raise AnalysisError('read of mutable global ' + ob.name)
        return self._gread(g['ty'], g['init'], off, ty)

    def _gread(self, t, init, off, ty):
        M = self.mod
        if init[0] == 'zero':
            if ty.k == 'ptr': return NULL
            return ZERO
        if init[0] == 'undef': return UNDEF
        if t.k == 'arr':
            es = M.size(t.el)
            if init[0] == 'bytes':
                n = M.size(ty)
                if ty.k != 'i': raise AnalysisError('typed read of string data')
                return N(int.from_bytes(init[1][off:off + n], 'little'))
            return self._gread(t.el, init[1][off // es][1], off % es, ty)
        if t.k == 'struct':
            fs = M.fields(t)
            for i, (o, ft) in enumerate(fs):
                if o <= off < o + M.size(ft):
                    return self._gread(ft, init[1][i][1], off - o, ty)
            raise AnalysisError('read of padding')
        if off != 0: raise AnalysisError('partial read of a global scalar')
        return self.cval(init, t)

    def cval(self, c, ty=None):
        k = c[0]
        if k == 'int':
            return N(c[1])
        if k == 'null': return NULL
        if k == 'glob':
            if c[1] in self.mod.funcs or c[1] in self.mod.decls: return ('fn', c[1])
            return ptr(self.glob(c[1]))
        if k == 'undef': return UNDEF
        if k == 'cgep':
            b = self.cval(c[2]); off = self.gepoff(c[1], [self.cval(v) for _, v in c[3]])
            return ptr(b[1], b[2] + off)
        if k == 'zero':
            return NULL if c[1].k == 'ptr' else ZERO
        if k == 'fp': return ('o', 'fp', c[1])
        if k == 'ccast':
            v = self.cval(c[3]); return v
        raise AnalysisError('constant %r' % (c,))

    def gepoff(self, ty, idx):
        off = idx[0].scale(self.mod.size(ty)); t = ty
        for v in idx[1:]:
            if t.k == 'arr':
                t = t.el; off = off + v.scale(self.mod.size(t))
            elif t.k == 'struct':
                c = v.const; o, t = self.mod.fields(t)[c]; off = off + o
            else: raise AnalysisError('gep')
        return off

    def val(self, st, a):
        if a[0] == 'reg':
            v = st.env.get(a[1])
            if v is None: raise AnalysisError('undefined register %s' % a[1])
            return v
        return self.cval(a)

    # --- memory
    def size_of(self, ob): return ob.size

    def check_bounds(self, st, o, off, size, ins, write):
        ob = st.obj(o)
        self.stats['accesses'] += 1
        if ob.meta.get('freed'):
            self.report('uaf', st, ins, '%s memory after it was freed' % ('writes' if write else 'reads'))
        if ob.size is None: return
        if not st.entails(off):
            self.report('oob-write' if write else 'oob-read', st, ins, '%s before the start of %s' % ('writes' if write else 'reads', self.oname(ob)))
        if not st.entails(ob.size - off - size):
            self.report('oob-write' if write else 'oob-read', st, ins, 'may %s past the end of %s' % ('write' if write else 'read', self.oname(ob)))

    def oname(self, ob):
        return ob.name or ob.kind

    def deref(self, st, p, ins, what):
        if isinstance(p, tuple) and p[0] == 'undef':
            self.report('uninit', st, ins, '%s through an uninitialised pointer' % what)
        if isinstance(p, tuple) and p[0] == 'pf':
            b = p[1]; groups = {}
            for v in mbits(st.dom[b]): groups.setdefault(p[2][v], []).append(v)
            if len(groups) > 1:
                raise Fork([(lambda s, m=mask_of(g): s.refine(b, m)) for g in groups.values()], 'ptrfn')
            return next(iter(groups))
        if not isptr(p):
            raise AnalysisError('%s through %r at %s' % (what, p, ins.raw))
        if isnull(p):
            self.report('null', st, ins, '%s through a null pointer' % what)
        return p

    def load(self, st, p, ty, ins):
        size = self.mod.size(ty)
        if isinstance(p, tuple) and p[0] == 'pf' and ty.k == 'i':
            tab = {}
            for v in mbits(st.dom[p[1]]):
                q = p[2][v]
                r = self.load(st, q, ty, ins)
                if not isinstance(r, Num) or r.const is None: break
                tab[(v,)] = r.const
            else:
                return simp(Num(0, (), (BFn((p[1],), tab),)))
        p = self.deref(st, p, ins, 'reads')
        o, off = p[1], p[2]
        ob = st.obj(o)
        off = norm(off, st.dom)
        if ob.kind == 'glob': return self.load_glob(st, o, ob, off, ty, size, ins)
        if ob.kind == 'text': return self.model.text_load(st, o, off, ty, size, ins)
        self.check_bounds(st, o, off, size, ins, False)
        r = self.model.load_hook(st, o, off, ty, size, ins)
        if r is not None: return r
        if ob.log is not None: return self.load_log(st, o, ob, off, ty, size, ins)
        c = off.const
        if c is None:
            if off.bf and not off.co: self.split_num(st, off)
            raise AnalysisError('symbolic offset load %r from %s at %s' % (off, self.oname(ob), ins.raw))
        if c in ob.fields:
            s, v = ob.fields[c]
            if s == size: return self.resolve(st, v, ty, ins)
        for fo, (s, v) in ob.fields.items():
            if fo < c + size and c < fo + s:
                if isinstance(v, Num) and v.const is not None and fo <= c and c + size <= fo + s:
                    return N((v.const >> (8 * (c - fo))) & ((1 << (8 * size)) - 1))
                raise AnalysisError('partial field read at %s' % ins.raw)
        if ob.init is not None or ob.meta.get('lazy'):
            return self.model.lazy(st, o, c, size, ty, ins)
        return UNDEF

    def resolve(self, st, v, ty, ins):
        if isinstance(v, tuple) and v and v[0] == 'init':
            return self.model.lazy_init(st, v[1], v[2], v[3], ty, ins)
        return v

    def split_num(self, st, n):
        """fork on the value of a pure byte value"""
        n = norm(n, st.dom)
        if len(n.bf) >= 1:
            f = n.bf[0]
            b = f.sup[0]
            groups = {}
            for t, v in f.tab.items(): groups.setdefault(v if len(f.sup) == 1 else t[0], set()).add(t[0])
            raise Fork([(lambda s, m=mask_of(g): s.refine(b, m)) for g in groups.values()], 'value split')

    def load_glob(self, st, o, ob, off, ty, size, ins):
        if ob.size is None: raise AnalysisError('read of external global ' + ob.name)
        if not st.entails(off) or not st.entails(ob.size - off - size):
            # decide per value if finite
            self.report('oob-read', st, ins, 'may read outside constant data %s' % ob.name)
        c = off.const
        if c is not None: return self.gread(o, c, ty)
        if off.co:
            hi = ob.size.const - size
            if hi > 64: raise AnalysisError('symbolic index into large constant')
            raise Fork([(lambda s, v=v: s.assume_eq(off - v)) for v in range(hi + 1)], 'const index')
        if len(off.bf) == 1 and len(off.bf[0].sup) == 1:
            f = off.bf[0]; tab = {}; allnum = True
            for t, v in f.tab.items():
                r = self.gread(o, v + off.k, ty)
                tab[t] = r
                if not isinstance(r, Num): allnum = False
            if allnum:
                return simp(Num(0, (), (BFn(f.sup, {t: r.const for t, r in tab.items()}),)))
            if len(set(tab.values())) == 1: return next(iter(tab.values()))
            return ('pf', f.sup[0], FrozenTab({t[0]: r for t, r in tab.items()}))
        self.split_num(st, off)
        raise AnalysisError('constant index')

    def load_log(self, st, o, ob, off, ty, size, ins):
        for e in reversed(ob.log):
            if e[0] == 'v':
                eo, es, v = e[1], e[2], e[3]
                d = off - eo
                c = st.isconst(d)
                if c is not None:
                    if c == 0 and es == size: return self.resolve(st, v, ty, ins)
                    if c >= es or c + size <= 0: continue
                    raise AnalysisError('partial read at %s' % ins.raw)
                if st.entails(d - es) or st.entails(d.scale(-1) - size): continue
                raise Fork([lambda s: s.assume_eq(d), lambda s: s.assume(d - 1), lambda s: s.assume(d.scale(-1) - 1)], 'alias')
            elif e[0] == 'copy':
                eo, so, soff, ln = e[1], e[2], e[3], e[4]
                d = off - eo
                if st.entails(d) and st.entails(ln - d - size):
                    return self.load(st, ptr(so, soff + d), ty, ins)
                if st.entails(d - ln) or st.entails(d.scale(-1) - size): continue
                raise Fork([lambda s: s.assume(d.scale(-1) - 1), lambda s: s.assume(d) and s.assume(ln - d - size), lambda s: s.assume(d - ln),
                            lambda s: size > 1 and s.assume(d) and s.assume(d + size - ln - 1) and s.assume(ln - d - 1) and self._partial(s, ins)], 'copy')
            elif e[0] == 'fill':
                eo, ln, v = e[1], e[2], e[3]
                d = off - eo
                if st.entails(d) and st.entails(ln - d - size):
                    if ty.k == 'ptr': return NULL
                    return v if size == 1 else N(int.from_bytes(bytes([v.const]) * size, 'little'))
                if st.entails(d - ln) or st.entails(d.scale(-1) - size): continue
                raise Fork([lambda s: s.assume(d.scale(-1) - 1), lambda s: s.assume(d) and s.assume(ln - d - size), lambda s: s.assume(d - ln)], 'fill')
            else:
                r = self.model.log_load(st, o, ob, e, off, ty, size, ins)
                if r is not None: return r
        if ob.init is not None or ob.meta.get('lazy'):
            c = off.const
            if c is not None: return self.model.lazy(st, o, c, size, ty, ins)
        return UNDEF

    def _partial(self, s, ins):
        raise AnalysisError('read straddles a copy at %s' % ins.raw)

    def tolog(self, ob):
        if ob.log is None:
            ob.log = [('v', N(off), s, v) for off, (s, v) in sorted(ob.fields.items())]
            ob.fields = {}

    def store(self, st, p, v, ty, ins):
        size = self.mod.size(ty)
        p = self.deref(st, p, ins, 'writes')
        o, off = p[1], norm(p[2], st.dom)
        ob = st.obj(o)
        if ob.kind == 'glob':
            self.report('global-write', st, ins, 'writes the global %s' % ob.name)
        if ob.kind == 'text':
            self.report('write-input', st, ins, 'writes into %s' % self.oname(ob))
        self.check_bounds(st, o, off, size, ins, True)
        if self.model.store_hook(st, o, off, v, ty, size, ins): return
        ob = st.mut(o)
        c = off.const
        if ob.log is None and c is not None:
            for fo in list(ob.fields):
                s = ob.fields[fo][0]
                if fo < c + size and c < fo + s:
                    if fo == c and s == size: continue
                    if ob.init is not None: raise AnalysisError('partial overwrite at %s' % ins.raw)
                    old = ob.fields.pop(fo)
                    if isinstance(old[1], Num) and old[1].const == 0:
                        for q in range(fo, fo + s):
                            if not (c <= q < c + size): ob.fields[q] = (1, ZERO)
            ob.fields[c] = (size, v)
            return
        self.tolog(ob)
        ob.log.append(('v', off, size, v))

    def copyobj(self, st, dst, src, ln, ins, known_bounds=False):
        """memcpy semantics with a length expression"""
        ln = norm(ln, st.dom)
        if ln.const == 0: return
        if ln.bf and not ln.co: self.split_num(st, ln)
        if isinstance(src, tuple) and src[0] == 'pf':
            c = ln.const
            if c is not None and c <= 64:
                for i in range(c):
                    tab = {}
                    for bv in mbits(st.dom[src[1]]):
                        q = src[2][bv]
                        r = self.load(st, ptr(q[1], q[2] + i), self.i8, ins)
                        if not isinstance(r, Num) or r.const is None: raise AnalysisError('memcpy from table')
                        tab[(bv,)] = r.const
                    self.store(st, ptr(dst[1], dst[2] + i), simp(Num(0, (), (BFn((src[1],), tab),))), self.i8, ins)
                return
        if not st.entails(ln): self.report('oob-write', st, ins, 'copies a negative (wrapped) number of bytes')
        if ln.const is None and st.entails(ln.scale(-1)): return
        if ln.const is None and not st.entails(ln - 1) and (isnull(src) or isnull(dst)):
            raise Fork([lambda s: s.assume_eq(ln), lambda s: s.assume(ln - 1)], 'len0')
        src = self.deref(st, src, ins, 'copies from'); dst = self.deref(st, dst, ins, 'copies to')
        so, soff = src[1], norm(src[2], st.dom); do, doff = dst[1], norm(dst[2], st.dom)
        sob = st.obj(so); dob = st.obj(do)
        if dob.kind == 'glob': self.report('global-write', st, ins, 'writes the global %s' % dob.name)
        if dob.kind == 'text': self.report('write-input', st, ins, 'writes into %s' % self.oname(dob))
        if sob.kind == 'text': self.model.text_bounds(st, so, soff, ln, ins)
        else: self.check_bounds(st, so, soff, ln, ins, False)
        self.check_bounds(st, do, doff, ln, ins, True)
        if self.model.copy_hook(st, do, doff, so, soff, ln, ins): return
        c = ln.const
        if sob.kind == 'glob':
            if c is None: raise AnalysisError('symbolic-length copy from constant data at %s' % ins.raw)
            for i in range(c):
                v = self.load(st, ptr(so, soff + i), self.i8, ins)
                self.store(st, ptr(do, doff + i), v, self.i8, ins)
            return
        if sob.kind == 'text' or sob.log is not None or c is None or soff.const is None:
            if sob.kind != 'text':
                snap = sob.clone(); snap.name = sob.name; snap.meta = dict(sob.meta, snap=1)
                so = st.new(snap)
            dm = st.mut(do); self.tolog(dm)
            dm.log.append(('copy', doff, so, soff, ln))
            return
        # field-wise copy of a struct-like object
        a = soff.const; vals = []
        for fo, (s, v) in sob.fields.items():
            if fo < a + c and a < fo + s:
                if fo < a or fo + s > a + c: raise AnalysisError('partial struct copy at %s' % ins.raw)
                vals.append((fo - a, s, v))
        if sob.init is not None or sob.meta.get('lazy'):
            have = set(sob.fields)
            for (fo, s) in self.model.layout(sob):
                if fo not in have and a <= fo and fo + s <= a + c: vals.append((fo - a, s, ('init', so, fo, s)))
        dm = st.mut(do)
        if dm.log is not None or doff.const is None:
            self.tolog(dm)
            for fo, s, v in vals: dm.log.append(('v', doff + fo, s, v))
            return
        d = doff.const
        for fo in list(dm.fields):
            s = dm.fields[fo][0]
            if fo < d + c and d < fo + s: del dm.fields[fo]
        if dm.init is not None or dm.meta.get('lazy'):
            have = {d + fo for fo, s, v in vals}
            for fo, s in self.model.layout(dm):
                if d <= fo and fo + s <= d + c and fo not in have: dm.fields[fo] = (s, UNDEF)
        for fo, s, v in vals: dm.fields[d + fo] = (s, v)

    # --- arithmetic
    def binop(self, st, op, a, b, w, ins):
        if not isinstance(a, Num) or not isinstance(b, Num):
            if isinstance(a, tuple) and a[0] == 'undef' or isinstance(b, tuple) and b[0] == 'undef':
                self.report('uninit', st, ins, 'computes with an uninitialised value')
            r = self.model.binop_hook(st, op, a, b, w, ins)
            if r is not None: return r
            raise AnalysisError('%s on %r, %r at %s' % (op, a, b, ins.raw))
        a = norm(a, st.dom); b = norm(b, st.dom)
        pure = not a.co and not b.co
        M = 1 << w
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul':
            if b.const is not None: r = a.scale(b.const)
            elif a.const is not None: r = b.scale(a.const)
            elif pure:
                raise AnalysisError('product of byte values at %s' % ins.raw)
            else:
                r = self.model.mul_hook(st, a, b, ins)
                if r is None: raise AnalysisError('product of symbolic values at %s' % ins.raw)
        elif op == 'shl' and b.const is not None:
            r = a.scale(1 << b.const)
        elif op in ('and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'shl'):
            if pure and a.const is not None and b.const is not None:
                return N(sgn(self.cbin(op, a.const % M, b.const % M, w) % M, w) if w > 8 or True else 0)
            if pure:
                a = wrapw(a, w) if a.bf else N(a.k % M); b = wrapw(b, w) if b.bf else N(b.k % M)
                if op in ('and', 'or', 'xor'):
                    return bitwise({'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op], a, b, w)
                if b.const is not None and b.const > 0 and b.const & (b.const - 1) == 0 and (op[0] == 'u' or op in ('sdiv', 'srem') and brange(a)[1] < M // 2):
                    if op in ('udiv', 'sdiv'): op = 'lshr'; b = N(b.const.bit_length() - 1)
                    elif op in ('urem', 'srem'): op = 'and'; b = N(b.const - 1)
                if b.const is not None:
                    c = b.const
                    if op == 'and': return bmap(a, lambda v: v & c, True, w)
                    if op == 'lshr': return bmap(a, lambda v: v >> c, c == 0 or True, w)
                    if op == 'or':
                        its = separate(a)
                        return bmap(a, lambda v: v | c, len(its) == 1, w) if len(a.bf) == 1 else self.bor(a, b, w)
                    return bmap(a, lambda v: self.cbin(op, v, c, w), False, w)
                if op in ('or', 'add', 'xor'): return self.bor(a, b, w) if op == 'or' else self.bjoint(op, a, b, w)
                if a.const is not None:
                    c = a.const
                    if op == 'and': return bmap(b, lambda v: v & c, True, w)
                    return bmap(b, lambda v: self.cbin(op, c, v, w), False, w)
                return self.bjoint(op, a, b, w)
            if op == 'and' and b.const is not None and a.co:
                # masks that keep every value of a small nonnegative number
                if b.const in (0xffffffff, -1): return a
            if op == 'or' and b.const == 0: return a
            r = self.model.binop_hook(st, op, a, b, w, ins)
            if r is None: r = self.divide(st, op, a, b, w)
            if r is not None: return r
            raise AnalysisError('%s on symbolic values %r %r at %s' % (op, a, b, ins.raw))
        else:
            raise AnalysisError('operation %s' % op)
        if not r.co:
            if not r.bf: return N(sgn(r.k % M, w))
            return wrapw(simp(r), w)
        return r

    def divide(self, st, op, a, b, w):
        """division of a linear non-negative quantity by a constant, in any of its forms: a = c*q + d"""
        if b.const is None or a.bf or not st.entails(a): return None
        k = b.const; M = 1 << w
        if op in ('udiv', 'urem', 'sdiv', 'srem'): c = k
        elif op == 'lshr' or op == 'ashr': c = 1 << k if 0 <= k < w else 0
        elif op == 'and' and k % M & (k % M + 1) == 0: c = k % M + 1; op = 'urem'
        elif op == 'and' and -k % M & (-k % M - 1) == 0: c = -k % M; op = 'align'
        else: return None
        if c <= 0 or c >= M: return None
        q = S(st.sym('q')); d = a - q.scale(c)
        st.cons += [q, d, N(c - 1) - d]
        return d if op in ('urem', 'srem') else q.scale(c) if op == 'align' else q

    def bor(self, a, b, w):
        def mask(n):
            m = n.k
            for f in n.bf:
                for v in f.tab.values(): m |= v
            return m
        sa = separate(a); sb = separate(b)

        def im(it):
            if isinstance(it, int): return it
            m = 0
            for v in it.tab.values(): m |= v
            return m
        ok = all(not (im(x) & im(y)) for x in sa for y in sb)
        if ok: return wrapw(a + b, w)
        return self.bjoint('or', a, b, w)

    def bjoint(self, op, a, b, w):
        fa = joint(a.bf, a.k) if a.bf else None; fb = joint(b.bf, b.k) if b.bf else None
        if fa is None: return bmap(b, lambda v: self.cbin(op, a.k, v, w), False, w)
        if fb is None: return bmap(a, lambda v: self.cbin(op, v, b.k, w), False, w)
        # pair encoding through a joint table
        BIG = 1 << 40
        g = joint([fa, BFn(fb.sup, {t: v * BIG for t, v in fb.tab.items()})])
        return simp(Num(0, (), (reduce_sup(BFn(g.sup, {t: self.cbin(op, v % BIG, v // BIG, w) % (1 << w) for t, v in g.tab.items()})),)))

    def cbin(self, op, a, b, w):
        M = 1 << w
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) % M if b < w else 0
        if op == 'lshr': return a >> b
        if op == 'ashr': return (sgn(a, w) >> b) % M
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            return (q if op == 'sdiv' else x - q * y) % M
        if op == 'add': return (a + b) % M
        raise AnalysisError(op)

    def cast(self, st, op, v, wf, wt, ins):
        if isinstance(v, Num):
            v = norm(v, st.dom)
            if not v.co:
                if op == 'zext':
                    if not v.bf: return N(v.k % (1 << wf))
                    return wrapw(v, wf)
                if op == 'sext':
                    if not v.bf: return N(sgn(v.k % (1 << wf), wf))
                    v = wrapw(v, wf)
                    if brange(v)[1] < (1 << (wf - 1)): return v
                    return bmap(v, lambda x: sgn(x, wf) % (1 << wt), False, wt)
                if op == 'trunc':
                    if not v.bf: return N(sgn(v.k % (1 << wt), wt) if wt > 1 else v.k & 1)
                    m = (1 << wt) - 1
                    v = wrapw(v, wf)
                    return bmap(v, lambda x: x & m, True, wt)
            else:
                if op == 'zext':
                    if not st.entails(v):
                        r = self.model.neg_hook(st, v, ins)
                        if r is not None: return r
                        raise Fork([lambda s: s.assume(v), lambda s: s.assume(v.scale(-1) - 1) and self.neg_zext(s, v, ins)], 'zext')
                    return v
                if op == 'sext': return v
                if op == 'trunc':
                    if wt >= 32: return v   # sizes below 2^31 (stated assumption)
                    r = self.model.trunc_hook(st, v, wt, ins)
                    if r is not None: return r
                    raise AnalysisError('narrowing of a symbolic value at %s' % ins.raw)
        if isinstance(v, tuple) and v[0] == 'undef': return v
        r = self.model.cast_hook(st, op, v, wf, wt, ins)
        if r is not None: return r
        raise AnalysisError('%s of %r at %s' % (op, v, ins.raw))

    def neg_zext(self, s, v, ins):
        self.report('wrap', s, ins, 'an unsigned size or index may wrap below zero', kill=False)
        return False

    # --- comparisons -> 0/1 or Fork
    def icmp(self, st, pred, a, b, w, ins):
        if isinstance(a, Num) and isinstance(b, Num):
            a = norm(a, st.dom); b = norm(b, st.dom)
            if not a.co and not b.co:
                return self.cmp_pure(st, pred, a, b, w, ins)
            return self.cmp_lin(st, pred, a, b, w, ins)
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == 'undef':
                self.report('uninit', st, ins, 'decides on an uninitialised value')
        if isinstance(a, tuple) and a[0] == 'pf' or isinstance(b, tuple) and b[0] == 'pf':
            a2 = self.deref(st, a, ins, 'cmp') if a[0] == 'pf' else a
            b2 = self.deref(st, b, ins, 'cmp') if b[0] == 'pf' else b
            a, b = a2, b2
        if isptr(a) and isptr(b):
            r = self.model.ptrcmp(st, pred, a, b, ins)
            if r is not None: return r
            if a[1] == b[1]:
                d = a[2] - b[2]
                return self.cmp_lin(st, pred, norm(a[2], st.dom), norm(b[2], st.dom), 64, ins) if norm(d, st.dom).const is None else \
                    N(1 if {'eq': d.k == 0, 'ne': d.k != 0, 'ult': d.k < 0, 'ule': d.k <= 0, 'ugt': d.k > 0, 'uge': d.k >= 0,
                            'slt': d.k < 0, 'sle': d.k <= 0, 'sgt': d.k > 0, 'sge': d.k >= 0}[pred] else 0)
            if min(a[1], b[1]) < 0 < max(a[1], b[1]) and st.obj(max(a[1], b[1])).kind == 'text':
                raise AnalysisError('whether a text is a particular constant object is not known at %s' % ins.raw)
            if pred == 'eq': return ZERO
            if pred == 'ne': return ONE
            raise AnalysisError('ordering of unrelated pointers at %s' % ins.raw)
        r = self.model.icmp_hook(st, pred, a, b, w, ins)
        if r is not None: return r
        raise AnalysisError('comparison of %r and %r at %s' % (a, b, ins.raw))

    def cmp_pure(self, st, pred, a, b, w, ins):
        M = 1 << w

        def truth(x, y):
            x %= M; y %= M
            if pred == 'eq': return x == y
            if pred == 'ne': return x != y
            if pred[0] == 's': x = sgn(x, w); y = sgn(y, w)
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        if a.const is not None and b.const is not None: return ONE if truth(a.const, b.const) else ZERO
        if len(a.bf) == 1 and not b.bf and len(a.bf[0].sup) == 1:
            # one byte against a constant: split its values
            f = a.bf[0]; s = f.sup[0]; dm = st.dom[s]; ak = a.k; y = b.k % M
            op = OPS[pred if pred in ('eq', 'ne') else pred[1:]]
            T = F = 0
            if pred[0] == 's':
                y = sgn(y, w)
                for (v,), x in f.tab.items():
                    if (dm >> v) & 1:
                        if op(sgn((x + ak) % M, w), y): T |= 1 << v
                        else: F |= 1 << v
            else:
                for (v,), x in f.tab.items():
                    if (dm >> v) & 1:
                        if op((x + ak) % M, y): T |= 1 << v
                        else: F |= 1 << v
            if not F: return ONE
            if not T: return ZERO
            raise Fork([lambda z: z.refine(s, T), lambda z: z.refine(s, F)], 'byte')
        if pred in ('eq', 'ne'):
            d = norm(a - b, st.dom)
            if d.const is not None: return ONE if truth(d.const, 0) else ZERO
            # two plain bytes: relation, not a value split
            r = self.model.byte_eq(st, pred, a, b, ins)
            if r is not None: return r
        sup = {s for f in a.bf + b.bf for s in f.sup}
        if len(sup) == 1:
            s = next(iter(sup))
            T = F = 0
            for v in mbits(st.dom[s]):
                x = a.k + sum(f.tab[(v,)] for f in a.bf); y = b.k + sum(f.tab[(v,)] for f in b.bf)
                if truth(x, y): T |= 1 << v
                else: F |= 1 << v
            if not F: return ONE
            if not T: return ZERO
            raise Fork([lambda z: z.refine(s, T), lambda z: z.refine(s, F)], 'byte')
        if a.bf: a = wrapw(a, w)
        if b.bf: b = wrapw(b, w)
        la, ha = brange(a) if a.bf else (a.k % M, a.k % M)
        lb, hb = brange(b) if b.bf else (b.k % M, b.k % M)
        if pred[0] == 's' and (ha >= M // 2 or hb >= M // 2):
            if ha < M // 2 and b.const is not None: pass
            else:
                return self._split_any(st, a, b)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if pred[0] == 's' and b.const is not None: lb = hb = sgn(b.const % M, w)
        dec = None
        if p in ('lt', 'ge'):
            if ha < lb: dec = True
            elif la >= hb: dec = False
            if dec is not None: dec = dec if p == 'lt' else not dec
        elif p in ('le', 'gt'):
            if ha <= lb: dec = True
            elif la > hb: dec = False
            if dec is not None: dec = dec if p == 'le' else not dec
        elif p in ('eq', 'ne'):
            if ha < lb or hb < la: dec = p == 'ne'
        if dec is not None: return ONE if dec else ZERO
        self._split_cmp(st, a, b, lb, hb, la, ha, p)
        self._split_any(st, a, b)

    def _split_cmp(self, st, a, b, lb, hb, la, ha, p):
        """split the widest byte term into values that decide the comparison, and the rest one by one"""
        fs = [(f, 0) for f in a.bf if len(f.sup) == 1] + [(f, 1) for f in b.bf if len(f.sup) == 1]
        if not fs: return
        f, side = max(fs, key=lambda x: max(x[0].tab.values()) - min(x[0].tab.values()))
        s = f.sup[0]
        if sum(1 for g in a.bf + b.bf if s in g.sup) != 1: return
        flo, fhi = min(f.tab.values()), max(f.tab.values())
        groups = {}
        for t, v in f.tab.items():
            if side == 0: xl, xh, yl, yh = la - flo + v, ha - fhi + v, lb, hb
            else: xl, xh, yl, yh = la, ha, lb - flo + v, hb - fhi + v
            if p in ('lt', 'ge'): d = 1 if xh < yl else 0 if xl >= yh else None
            elif p in ('le', 'gt'): d = 1 if xh <= yl else 0 if xl > yh else None
            else: d = 0 if xh < yl or yh < xl else None
            groups.setdefault(('d', d) if d is not None else ('v', v), set()).add(t[0])
        if len(groups) > 1:
            raise Fork([(lambda z, m=mask_of(g): z.refine(s, m)) for g in groups.values()], 'range')

    def _split_any(self, st, a, b):
        fs = list(a.bf) + list(b.bf)
        f = max(fs, key=lambda f: max(f.tab.values()) - min(f.tab.values()))
        s = f.sup[0] if len(f.sup) == 1 else max(f.sup, key=lambda s: bin(st.dom[s]).count('1'))
        i = f.sup.index(s)
        groups = {}
        for t, v in f.tab.items(): groups.setdefault(v if len(f.sup) == 1 else t[i], set()).add(t[i])
        if len(groups) == 1: raise AnalysisError('cannot split byte value')
        raise Fork([(lambda z, m=mask_of(g): z.refine(s, m)) for g in groups.values()], 'bytes')

    def cmp_lin(self, st, pred, a, b, w, ins):
        if pred not in ('eq', 'ne') and pred[0] == 'u':
            # unsigned comparison: operands must be known non-negative, otherwise wrapped values are huge
            for i, x in enumerate((a, b)):
                if x.const is not None and x.const < 0:
                    if i == 0: a = N(x.const % (1 << w))
                    else: b = N(x.const % (1 << w))
                elif x.co and not st.entails(x):
                    h = self.model.unsigned_hook(st, x, ins)
                    if not h:
                        raise Fork([lambda s: s.assume(x), lambda s: s.assume(x.scale(-1) - 1) and self.neg_zext(s, x, ins)], 'unsigned')
        d = a - b
        if pred in ('eq', 'ne'):
            c = st.isconst(d)
            if c is None:
                if st.entails(d - 1) or st.entails(d.scale(-1) - 1): c = 1
                elif st.entails(d) and st.entails(d.scale(-1)): c = 0
            if c is None:
                raise Fork([lambda s: s.assume_eq(d), lambda s: s.assume(d - 1), lambda s: s.assume(d.scale(-1) - 1)], 'eq')
            return ONE if (c == 0) == (pred == 'eq') else ZERO
        p = pred[1:]
        if p in ('gt', 'le'):
            t = d - 1   # a > b
        else:
            t = d       # a >= b
        if st.entails(t): r = True
        elif st.entails(t.scale(-1) - 1): r = False
        else: raise Fork([lambda s: s.assume(t), lambda s: s.assume(t.scale(-1) - 1)], 'cmp')
        if p in ('lt', 'le'): r = not r
        return ONE if r else ZERO

    # --- execution
    def step(self, st, ins):
        """execute one non-terminator; may raise Fork (state untouched) or Kill"""
        op = ins.op
        if op == 'getelementptr':
            base = self.val(st, ins.args[0]); idx = [self.val(st, a) for a in ins.args[1:]]
            for i in idx:
                if not isinstance(i, Num):
                    if isinstance(i, tuple) and i[0] == 'undef': self.report('uninit', st, ins, 'indexes with an uninitialised value')
                    raise AnalysisError('gep index %r at %s' % (i, ins.raw))
            off = self.gepoff(ins.ty, [norm(i, st.dom) for i in idx])
            if isinstance(base, tuple) and base[0] == 'pf' and off.const is not None:
                st.env[ins.res] = ('pf', base[1], FrozenTab({v: ptr(q[1], q[2] + off) for v, q in base[2].items()})); return
            if isinstance(base, tuple) and base[0] == 'undef': st.env[ins.res] = base; return
            if isinstance(base, tuple) and base[0] == 'init': base = self.resolve(st, base, None, ins)
            if not isptr(base):
                r = self.model.gep_hook(st, base, off, ins)
                if r is None: raise AnalysisError('gep on %r at %s' % (base, ins.raw))
                st.env[ins.res] = r; return
            st.env[ins.res] = ptr(base[1], base[2] + off); return
        if op == 'load':
            p = self.val(st, ins.args[0]); st.env[ins.res] = self.load(st, p, ins.ty, ins); return
        if op == 'store':
            v = self.val(st, ins.args[0]); p = self.val(st, ins.args[1]); self.store(st, p, v, ins.ty, ins); return
        if op == 'icmp':
            a = self.val(st, ins.args[0]); b = self.val(st, ins.args[1])
            w = ins.ty.n if ins.ty.k == 'i' else 64
            st.env[ins.res] = self.icmp(st, ins.x, a, b, w, ins); return
        if op in ('zext', 'sext', 'trunc'):
            st.env[ins.res] = self.cast(st, op, self.val(st, ins.args[0]), ins.x.n, ins.ty.n, ins); return
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
            st.env[ins.res] = self.binop(st, op, self.val(st, ins.args[0]), self.val(st, ins.args[1]), ins.ty.n, ins); return
        if op == 'select':
            c = self.truth(st, self.val(st, ins.args[0]), ins)
            st.env[ins.res] = self.val(st, ins.args[1 if c else 2]); return
        if op == 'alloca':
            sz = self.mod.size(ins.ty)
            if ins.x is not None:
                c = self.val(st, ins.x); size = c.scale(sz)
            else: size = N(sz)
            st.env[ins.res] = ptr(st.new(Obj('blk', size, 'a local variable', {'a': 'stack'}))); return
        if op in ('freeze', 'bitcast'):
            st.env[ins.res] = self.val(st, ins.args[0]); return
        if op == 'ptrtoint':
            st.env[ins.res] = ('pi', self.val(st, ins.args[0])); return
        if op == 'inttoptr':
            v = self.val(st, ins.args[0])
            if isinstance(v, tuple) and v[0] == 'pi': st.env[ins.res] = v[1]; return
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fneg', 'fadd', 'fsub', 'fmul', 'fdiv'):
            st.env[ins.res] = ('calc', op); return
        if op == 'call': self.call(st, ins); return
        r = self.model.inst_hook(st, ins)
        if r: return
        raise AnalysisError('instruction %s' % ins.raw)

    def truth(self, st, v, ins):
        if isinstance(v, Num):
            v = norm(v, st.dom)
            if v.const is not None: return v.const & 1
            if not v.co:
                r = self.cmp_pure(st, 'ne', v, ZERO, 1, ins); return r.const
        if isinstance(v, tuple) and v[0] == 'undef': self.report('uninit', st, ins, 'branches on an uninitialised value')
        raise AnalysisError('condition %r at %s' % (v, ins.raw))

    def call(self, st, ins):
        callee = ins.x[0]
        if callee[0] != 'glob':
            raise AnalysisError('indirect call at %s' % ins.raw)
        sym = callee[1]
        name = self.fnnames.get(sym, sym)
        args = [self.val(st, a) for a in ins.args]
        r = self.model.call(st, name, args, ins)
        if r is NotImplemented: r = self.libcall(st, name, args, ins)
        if r is NotImplemented: raise AnalysisError('call of %s is not modelled (%s)' % (name, ins.raw))
        if ins.res: st.env[ins.res] = r

    def libcall(self, st, name, a, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            self.copyobj(st, a[0], a[1], a[2], ins); return a[0]
        if name.startswith('llvm.memset') or name == 'memset':
            ln = norm(a[2], st.dom); p = self.deref(st, a[0], ins, 'writes')
            if ln.const == 0: return a[0]
            ob = st.obj(p[1])
            if ob.kind == 'glob': self.report('global-write', st, ins, 'writes the global %s' % ob.name)
            if ob.kind == 'text': self.report('write-input', st, ins, 'writes into %s' % self.oname(ob))
            if not st.entails(ln): self.report('oob-write', st, ins, 'fills a negative (wrapped) number of bytes')
            self.check_bounds(st, p[1], p[2], ln, ins, True)
            v = norm(a[1], st.dom)
            c = ln.const; off = p[2].const
            ob = st.mut(p[1])
            lay = self.model.layout(ob) if (ob.init is not None) else None
            if lay and c is not None and off is not None:
                for fo, s in lay:
                    if off <= fo and fo + s <= off + c:
                        if v.const is None: raise AnalysisError('memset of a struct')
                        ob.fields[fo] = (s, self.fillval(st, ob, fo, s, v.const & 255))
                return a[0]
            self.tolog(ob); ob.log.append(('fill', p[2], ln, v))
            return a[0]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or name == 'llvm.donothing': return None
        if name.startswith('llvm.expect'): return a[0]
        if name == 'malloc':
            n = norm(a[0], st.dom)
            if not st.entails(n): self.report('wrap', st, ins, 'an allocation size may wrap below zero')
            return ptr(st.new(Obj('blk', n, 'the malloc block', {'a': 'malloc'})))
        if name == 'free':
            if isnull(a[0]): return None
            p = self.deref(st, a[0], ins, 'frees')
            ob = st.obj(p[1])
            if ob.kind != 'blk' or ob.meta.get('a') != 'malloc' or p[2].const != 0:
                self.report('bad-free', st, ins, 'frees memory that is not the start of a malloc block')
            if ob.meta.get('freed'): self.report('bad-free', st, ins, 'frees memory twice')
            st.mut(p[1]).meta['freed'] = 1
            return None
        if name == 'strlen':
            p = self.deref(st, a[0], ins, 'reads')
            return self.strlen(st, p, ins)
        if name in ('abort', 'exit', '__assert_fail', 'llvm.trap'): raise Kill()
        return NotImplemented

    def fillval(self, st, ob, fo, s, c):
        if c == 0 and self.model.is_ptr_field(ob, fo): return NULL
        return N(int.from_bytes(bytes([c]) * s, 'little'))

    def strlen(self, st, p, ins):
        ob = st.obj(p[1])
        if ob.kind == 'text': return self.model.text_strlen(st, p[1], p[2], ins)
        if ob.kind == 'glob':
            c = norm(p[2], st.dom).const; i = 0
            if c is not None:
                while True:
                    v = self.load(st, ptr(p[1], N(c + i)), self.i8, ins)
                    if v.const == 0: return N(i)
                    i += 1
        if ob.log is not None:
            # whole-object copy of a text followed by a terminator
            lg = ob.log
            if len(lg) == 2 and lg[0][0] == 'copy' and lg[1][0] == 'v' and norm(p[2], st.dom).const == 0 and lg[0][1].const == 0 \
                    and isinstance(lg[1][3], Num) and lg[1][3].const == 0 and st.eqzero(lg[1][1] - lg[0][4]):
                so = lg[0][2]
                if st.obj(so).kind == 'text' and self.model.text_nonzero(st, so): return lg[0][4]
        r = self.model.strlen_hook(st, p, ins)
        if r is not None: return r
        if ob.kind == 'blk' and ob.meta.get('a') not in (None, 'out') and not ob.fields:
            ends = [e for e in ob.log or () if not (e[0] == 'copy' and st.obj(e[2]).kind == 'text' and not st.obj(e[2]).meta['nul'])]
            if not ends: self.report('oob-read', st, ins, 'looks for the end of a text that has no terminator in %s' % self.oname(ob))
        raise AnalysisError('strlen of %r at %s' % (ob, ins.raw))

    # --- driver
    def run(self, fn, init, entry):
        self.entry = entry; self.fn = fn
        self.mod.prepare(fn)
        from .ir import ity
        self.i8 = ity(8); self.i32 = ity(32)
        self.heads = {}; self.headcount = {}; self.ways = {}
        self.pend = {}; self.queue = []
        for st in init:
            st.blk = fn.entry; st.idx = 0
            self.push(st)
        try:
            while self.queue:
                rpo, name = heapq.heappop(self.queue)
                sts = self.pend.pop(name, None)
                if not sts: continue
                blk = fn.blocks[name]
                self.process(blk, sts)
        except Enough:
            pass
        return self

    def push(self, st):
        b = st.blk
        l = self.pend.get(b.name)
        if l is None:
            self.pend[b.name] = [st]; heapq.heappush(self.queue, (b.rpo, b.name))
        else: l.append(st)

    def discrete_ctx(self, ctx):
        if ctx is None: return False
        if isinstance(ctx, str): return ctx not in self.fn.arith
        if isinstance(ctx, tuple) and ctx[0] == 'f': return self.model.discrete_field(ctx[1], ctx[2])
        return False

    def process(self, blk, sts):
        self.stats['blocks'].add((self.fn.name, blk.name))
        if len(blk.preds) > 1 or blk.loophead:
            out = []
            for s in sts: out.extend(self.synced(s))
            sts = self.merge(blk, out) if len(out) > 1 or blk.loophead else out
            if blk.loophead:
                sts = [x for x in (self.head(blk, s) for s in sts) if x is not None]
        for s in sts: self.exec(s)

    def synced(self, st):
        """run the model's ghost synchronisation, handling forks"""
        work = [st]; out = []
        while work:
            s = work.pop()
            try:
                c = s.copy()
                self.model.sync(c)
                out.append(c)
            except Fork as f:
                work.extend(self.alts(c, f))
            except TooLarge as x:
                work.extend(self.alts(c, self.halve(c, x)))
            except Kill:
                pass
            except AnalysisError as x:
                self.drop(x)
        return out

    def halve(self, st, x):
        b = max(x.sup, key=lambda s: bin(st.dom[s]).count('1'))
        vs = mbits(st.dom[b])
        if len(vs) < 2: raise AnalysisError('byte function too large')
        h = len(vs) // 2
        return Fork([(lambda s, m=mask_of(g): s.refine(b, m)) for g in (vs[:h], vs[h:])], 'large')

    def alts(self, st, f):
        out = []
        self.stats['forks'] += 1
        for alt in f.alts:
            s = st.copy()
            try:
                if alt(s): out.append(s)
            except Kill:
                pass
        return out

    def exec(self, st):
        work = [st]
        while work:
            st = work.pop()
            self.stats['states'] += 1
            mx = self.model.ent.get('states', self.MAX_STATES)
            if self.stats['states'] > mx:
                self.drain = self.drain or 'state budget exceeded'
                if self.stats['states'] > 2 * mx: raise Budget('state budget exceeded in %s' % self.entry)
            blk = st.blk
            try:
                n = len(blk.insts)
                while st.idx < n:
                    ins = blk.insts[st.idx]
                    if ins.op == 'phi': st.idx += 1; continue
                    self.stats['insts'] += 1
                    try:
                        if ins.op in ('br', 'condbr', 'switch', 'ret', 'unreachable'):
                            self.term(st, ins)
                            break
                        pre = None
                        self.step(st, ins)
                        st.idx += 1
                    except Fork as f:
                        work.extend(self.alts(st, f))
                        break
                    except TooLarge as x:
                        work.extend(self.alts(st, self.halve(st, x)))
                        break
            except Kill:
                continue
            except AnalysisError as x:
                self.drop(x)

    def drop(self, x):
        """the analysis cannot follow one path: the operation stays undecided, but violations elsewhere are still reported"""
        if getattr(x, 'fatal', False): raise x
        if self.partial is None: self.partial = str(x)
        self.stats['dropped'] = self.stats.get('dropped', 0) + 1
        if self.stats['dropped'] > 300: raise x

    def line(self, ins):
        return self.mod.loc(ins.dbg) if ins.dbg else (0, '?')

    def term(self, st, ins):
        if ins.op == 'br': self.goto(st, ins.x[0]); return
        if ins.op == 'condbr':
            c = self.truth(st, self.val(st, ins.args[0]), ins)
            l, f = self.line(ins)
            st.note('%s:%d %s' % (f, l, 'taken' if c else 'not taken'))
            self.goto(st, ins.x[0 if c else 1]); return
        if ins.op == 'switch':
            v = self.val(st, ins.args[0])
            d, cases = ins.x
            if isinstance(v, tuple) and v[0] == 'undef': self.report('uninit', st, ins, 'switches on an uninitialised value')
            if not isinstance(v, Num): raise AnalysisError('switch on %r' % (v,))
            v = norm(v, st.dom)
            if not v.co and len(v.bf) == 1 and len(v.bf[0].sup) == 1:
                # a byte: one alternative per target
                M = 1 << ins.ty.n; tgt = {cv % M: lab for cv, lab in reversed(cases)}; s = v.bf[0].sup[0]; g = {}
                for (t,), x in v.bf[0].tab.items():
                    lab = tgt.get((x + v.k) % M)
                    g[lab] = g.get(lab, 0) | 1 << t
                if len(g) > 1: raise Fork([(lambda z, m=m: z.refine(s, m)) for m in g.values()], 'byte')
                lab = next(iter(g))
                l, f = self.line(ins)
                st.note('%s:%d %s' % (f, l, 'default' if lab is None else 'case'))
                self.goto(st, d if lab is None else lab); return
            for cv, lab in cases:
                r = self.icmp(st, 'eq', v, N(cv), ins.ty.n, ins)
                if r.const:
                    l, f = self.line(ins)
                    st.note('%s:%d case %d' % (f, l, cv))
                    self.goto(st, lab); return
            l, f = self.line(ins)
            st.note('%s:%d default' % (f, l))
            self.goto(st, d); return
        if ins.op == 'ret':
            v = self.val(st, ins.args[0]) if ins.args else None
            work = [st]
            while work:
                s = work.pop()
                try:
                    c = s.copy()
                    self.model.on_return(c, self.val(s, ins.args[0]) if ins.args else None, ins)
                except Fork as f:
                    work.extend(self.alts(c, f))
                except Kill:
                    pass
            return
        if ins.op == 'unreachable': raise Kill()

    def goto(self, st, lab):
        b = self.fn.blocks[lab]; prev = st.blk.name
        vals = []
        for ins in b.insts:
            if ins.op != 'phi': break
            for v, l in ins.x:
                if l == prev:
                    vals.append((ins.res, self.val(st, v) if v[0] != 'reg' or v[1] in st.env else UNDEF)); break
            else: raise AnalysisError('phi')
        live = b.livein
        env = {r: v for r, v in st.env.items() if r in live}
        for r, v in vals:
            if r in live: env[r] = v
        st.env = env
        st.blk = b; st.idx = 0
        self.push(st)

    # --- merging
    def merge(self, blk, sts):
        cs = []
        for s in sts:
            c = Canon(s, blk.livein, None, True)
            # rename numeric symbols canonically
            m = {}
            for lf in c.leaves:
                for sy, _ in lf.co:
                    if sy not in m: m[sy] = S('y%d' % len(m))
            proj = self.project(s, set(m))
            leaves = []

            def leaf(i, n):
                n = n.subst(m); leaves.append(n)
                return n
            r = c.rename(blk.livein, leaf)
            nc = []
            for e in proj:
                e = e.subst(m)
                if not e.co:
                    if e.k < 0: nc.append(e)
                elif e not in nc: nc.append(e)
            r.cons = nc
            cs.append([r, c.shape, leaves, frozenset(r.cons), c.direct])
        groups = {}
        for x in cs: groups.setdefault((x[1], x[3]), []).append(x)
        out = []
        for g in groups.values():
            if len(g) > 1: g = self.merge_group(blk, g)
            out.extend(x[0] for x in g)
        return out

    def project(self, s, used):
        """constraints over the used symbols only: eliminate the others (Fourier-Motzkin, bounded)"""
        cons = [c for c in s.cons]
        bad = {sy for c in cons for sy, _ in c.co if sy not in used}
        for v in list(bad):
            pos = []; neg = []; rest = []
            for c in cons:
                k = dict(c.co).get(v, 0)
                (pos if k > 0 else neg if k < 0 else rest).append((c, k))
            new = [c for c, _ in rest]
            if len(pos) * len(neg) <= 16:
                for p, kp in pos:
                    for q, kq in neg:
                        e = p.scale(-kq) + q.scale(kp)
                        if e.co and e not in new: new.append(e)
            cons = new
        return cons

    def merge_group(self, blk, g):
        ch = True
        while ch and len(g) > 1:
            ch = False
            n = len(g)
            for i in range(n):
                for j in range(i + 1, n):
                    r = self.merge2(blk, g[i], g[j])
                    if r is not None:
                        g = [x for k, x in enumerate(g) if k not in (i, j)] + [r]
                        ch = True; break
                if ch: break
        return g

    def merge2(self, blk, x, y):
        s, t = x[0], y[0]
        if s.dom.keys() != t.dom.keys(): return None
        diff = [b for b in s.dom if s.dom[b] != t.dom[b]]
        le = [i for i in range(len(x[2])) if x[2][i] != y[2][i]]
        if not diff:
            if not le: return x
            # tables may differ only in representation
            if all(same_rep(x[2][i], y[2][i], s.dom) for i in le): return x
            return None
        if len(diff) > 1:
            if not le:
                if all(s.dom[b] | t.dom[b] == s.dom[b] for b in diff): return x
                if all(s.dom[b] | t.dom[b] == t.dom[b] for b in diff): return y
            return None
        b = diff[0]
        m1, m2 = s.dom[b], t.dom[b]
        if le and m1 & m2: return None
        nl = {}
        dom = dict(s.dom); dom[b] = m1 | m2
        for i in range(len(x[2])):
            p, q = x[2][i], y[2][i]
            dep = any(b in f.sup for f in p.bf + q.bf)
            if p == q and not dep: continue
            if p != q and i not in x[4]: return None
            if p.co != q.co: return None
            try: nl[i] = piecewise(b, m1, p, m2, q, dom)
            except AnalysisError: return None
        c = Canon(s, blk.livein, None, True)
        # ids are already canonical; rebuild with replaced leaves
        r = c.rename(blk.livein, lambda i, n: nl.get(i, n))
        r.cons = list(s.cons); r.dom = {k: v for k, v in dom.items()}
        if not self.model.merge_ok(s, t, r): return None
        leaves = Canon(r, blk.livein, None, True).leaves
        return [r, x[1], leaves, x[3], x[4]]

    # --- loop heads
    def partition(self, st):
        """states that reach their first loop on different ways are not joined with each other"""
        way = []; t = st.tr
        while t is not None:
            way.append(t[1]); t = t[0]
        way = hash(tuple(way))
        k = self.ways.setdefault(way, len(self.ways))
        return k if k < self.model.max_ways else -1

    def head(self, blk, st):
        if st.pid is None and not self.model.strict: st.pid = self.partition(st)
        c = Canon(st, blk.livein, self.discrete_ctx)
        key = (blk.name, st.pid, c.shape, tuple(st.dom[b] for b in c.border), self.model.relation(st, blk))
        hk = (blk.name, hash(key))
        L2 = [Num(l.k, l.co) for l in c.leaves]
        old = self.heads.get(key)
        self.stats['joins'] += 1
        if self.deadline is not None and not self.drain and time.time() > self.deadline:
            self.drain = 'no fixpoint in the time allowed'
        if self.drain and (self.headcount.get(blk.name, 0) * 10 > max(self.headcount.values(), default=0) or
                           self.deadline is not None and time.time() > self.deadline + self.grace or self.deadline is None):
            # the operation stays undecided; what is under way is still followed to the end, through small loops only
            if self.partial is None: self.partial = '%s: %s' % (self.entry, self.drain)
            return None
        if old is None:
            n = self.headcount[blk.name] = self.headcount.get(blk.name, 0) + 1
            if n > self.model.max_shapes:
                self.drain = 'too many loop shapes at %s' % blk.name
                self.partial = self.partial or '%s: %s' % (self.entry, self.drain)
                return None
            self.stats['shapes'] += 1
            L1 = L2; cons1 = st.allcons(); w = 0; sts = [(L2, st)]
        else:
            if self.included(old, L2, st): return None
            L1 = old['L']; w = old['w'] + 1; sts = [(L2, st)]
        pn = lambda p: 'p%d' % p
        piv, exprs = affine_hull(L1, L2, pn)
        # candidate inequalities
        cands = []

        def add(e):
            if e.co and e not in cands: cands.append(e)

        def from_state(L, cons):
            inv = {}
            for j, l in enumerate(L):
                if len(l.co) == 1 and l.co[0][1] in (1, -1):
                    sy, k = l.co[0]
                    # l = k*sy + l.k -> sy = (expr_j - l.k) * k
                    inv.setdefault(sy, (exprs[j] - l.k).scale(k))
            for e in cons:
                if all(sy in inv for sy, _ in e.co):
                    add(e.subst(inv))
        if old is None:
            from_state(L2, st.cons)
            oldc = None
        else:
            from_state(L1, old['cons'])
            if w <= 2: from_state(L2, st.cons)
        fresh = set(piv if w <= self.WBOUND else [p for p in piv if p not in old['piv']])
        if fresh:
            # bounds of and between the dimensions; later only of those this join has freed (there are finitely many)
            for p in piv:
                for q in piv:
                    if p == q or p not in fresh and q not in fresh: continue
                    e = S(pn(p)) - S(pn(q))
                    b = self.bound(e, exprs, piv, pn, old, L1, L2, st)
                    if b is not None: add(e - b)
                if p not in fresh: continue
                b = self.bound(S(pn(p)), exprs, piv, pn, old, L1, L2, st)
                if b is not None: add(S(pn(p)) - b)
            if self.model.derived_bounds and w <= self.WBOUND:
                for x in {e for e in exprs if len(e.co) > 1}:
                    for d in [x, x.scale(-1)] + [y for q in piv for y in (x - S(pn(q)), S(pn(q)) - x)]:
                        if len(d.co) < 2: continue
                        b = self.bound(d, exprs, piv, pn, old, L1, L2, st)
                        if b is not None: add(d - b)
        keep = []
        for e in cands:
            if self.holds(e, piv, pn, L2, st.allcons()) and (old is None or self.holds(e, piv, pn, L1, old['all'])):
                keep.append(e)
        new = c.rename(blk.livein, lambda i, n: Num(exprs[i].k, exprs[i].co, n.bf))
        new.cons = list(keep)
        new.lossy = st.lossy or old is not None
        rec = dict(L=[e for e in exprs], cons=keep, piv=piv, w=w)
        rec['all'] = new.allcons()
        self.heads[key] = rec
        if os.environ.get('ZZDBG'):
            print('HEAD', blk.name, 'new' if old is None else 'join%d' % w, new.gh, {r: v for r, v in new.env.items()}, keep)
        return new

    def bound(self, e, exprs, piv, pn, old, L1, L2, st):
        def val(L): return e.subst({pn(p): L[p] for p in piv})
        b = lower_bound(st.allcons(), val(L2), (0, 1, 2))
        if b is None: return None
        if old is not None:
            b2 = lower_bound(old['all'], val(L1), (0, 1, 2))
            if b2 is None: return None
            b = min(b, b2)
        return b

    def holds(self, e, piv, pn, L, cons):
        x = e.subst({pn(p): L[p] for p in piv})
        if not x.co: return x.k >= 0
        return entails(cons, x)

    def included(self, old, L2, st):
        m = {'p%d' % p: L2[p] for p in old['piv']}
        for j, e in enumerate(old['L']):
            if e.subst(m) != L2[j]: return False
        cons = st.allcons()
        for e in old['cons']:
            x = e.subst(m)
            if not x.co:
                if x.k < 0: return False
            elif not entails(cons, x): return False
        return True


class FrozenTab(dict):
    def __hash__(self):
        return hash(tuple(sorted(self.items(), key=lambda x: x[0])))


def same_rep(a, b, dom):
    if a.co != b.co: return False
    return same_fn(Num(a.k, (), a.bf), Num(b.k, (), b.bf), dom)


def piecewise(b, m1, p, m2, q, dom):
    """Num equal to p when byte b in m1 and to q when in m2 (co equal)"""
    sup = tuple(sorted({s for f in p.bf + q.bf for s in f.sup} | {b}))
    # split off terms independent of b that are identical in p and q
    common = [f for f in p.bf if b not in f.sup and f in q.bf]
    pf = [f for f in p.bf if f not in common]; qf = [f for f in q.bf if f not in common]
    sup = tuple(sorted({s for f in pf + qf for s in f.sup} | {b}))
    if len(sup) > max([1] + [len(f.sup) for f in pf + qf]): raise AnalysisError('piecewise')
    doms = [mbits(dom[s]) for s in sup]
    n = 1
    for d in doms: n *= len(d)
    if n > 20000: raise AnalysisError('piecewise')
    tab = {}
    bi = sup.index(b)
    import itertools
    for t in itertools.product(*doms):
        env = dict(zip(sup, t))
        k, fs = (p.k, pf) if (m1 >> t[bi]) & 1 else (q.k, qf)
        v = k
        for f in fs: v += f.tab[tuple(env[s] for s in f.sup)]
        tab[t] = v
    r = Num(0, p.co, ()) + sumbf(common) + simp(Num(0, (), (reduce_sup(BFn(sup, tab)),)))
    return r


OPS = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}


def sgn(v, w):
    return v - (1 << w) if v >= (1 << (w - 1)) and w > 1 else v
