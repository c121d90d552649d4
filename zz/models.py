"""Abstract memory of the library's data structures, shared by the per-function analyses."""
from .ir import AnalysisError
from .dom import *
from .engine import *
from . import spec

for _w in ('true', 'false', 'null'): spec.DFAS['lit:' + _w] = spec.fixed(_w.encode())

T_BOOL, T_ARR, T_OBJ, T_STR, T_NULL, T_NUM = 1, 2, 3, 4, 5, 6
TNAME = {1: 'Bool', 2: 'Array', 3: 'Object', 4: 'String', 5: 'Null', 6: 'Number'}
INIT = 'init'


class Layout:
    def __init__(self, mod):
        self.mod = mod
        self.node = {}; self.nsz = {}; self.nptr = set()
        ms = mod.members('zj_node')
        if ms is None: raise AnalysisError('struct zj_node not found')
        for n, off, sz, bt in ms:
            n = n.split('.')[-1] if n.startswith('Value.') else n
            self.node[n] = off; self.nsz[off] = sz
        for f in ('Type', 'Key', 'KeyLen', 'Node', 'Str', 'Len', 'Next', 'Prev', 'Father', 'End'):
            if f not in self.node: raise AnalysisError('node field %s not found' % f)
        self.nname = {}
        for n, o in self.node.items(): self.nname.setdefault(o, n)
        for f in ('Key', 'Node', 'Str', 'Next', 'Prev', 'Father', 'End'): self.nptr.add(self.node[f])
        self.nodesize = mod.size(mod.struct_ty('zj_node'))
        vm = {n: off for n, off, sz, bt in mod.members('zj_Value')}
        self.vN = vm['N']; self.vA = vm['A']
        self.valsize = mod.size(mod.struct_ty('zj_Value'))
        am = mod.members('zj_Allocator')
        self.alloc = {n: off for n, off, sz, bt in am}
        self.strf = {off: n for n, off, sz, bt in (mod.members('zj_string') or [])}
        # type constants from the enumeration
        self.types = mod.enum('zj_JSONType')


class Model:
    max_shapes = 4000
    derived_bounds = True
    strict = False
    max_ways = 40
    HIST = 1

    ent = {}

    def __init__(self, mod):
        self.mod = mod; self.L = Layout(mod); self.eng = None
        t = self.L.types
        try:
            self.T = {v: k for k, v in ((1, t['zj_JSONTypeBool']), (2, t['zj_JSONTypeArray']), (3, t['zj_JSONTypeObject']), (4, t['zj_JSONTypeString']),
                                        (5, t['zj_JSONTypeNull']), (6, t['zj_JSONTypeNumber']))}
            self.TV = {k: v for v, k in self.T.items()}
        except KeyError: raise AnalysisError('type constants not found')

    # ------------------------------------------------------------------ construction of pre-states
    def text(self, st, name, nul, lang=None, n=None, valid=False, owner='caller'):
        """a caller text: nul=1: terminated by a zero byte, else exactly n readable bytes"""
        if n is None:
            n = S(st.sym('n')); st.cons.append(n)
        o = st.new(Obj('text', None, name, dict(n=n, nul=nul, pos=ZERO, win=[], lang=lang, q=spec.DFAS[lang].start if lang else None,
                                                valid=valid, owner=owner, nz=0)))
        return o

    def allocator(self, st):
        return st.new(Obj('alloc', None, 'the allocator'))

    def value(self, st, a, node, name='the value'):
        o = st.new(Obj('val', N(self.L.valsize), name))
        ob = st.objs[o]
        ob.init = {self.L.vN: (8, node), self.L.vA: (8, ptr(a))}
        return o

    def node(self, st, name='the node', **kw):
        o = st.new(Obj('node', N(self.L.nodesize), name, dict(kw)))
        st.objs[o].init = {}
        return o

    # ------------------------------------------------------------------ hooks with defaults
    def auto_cons(self, st):
        out = []
        for o, ob in st.objs.items():
            if ob.kind == 'text':
                m = ob.meta
                out.append(m['pos'])
                k = 0
                for b in m['win']:
                    if m['nul'] and (st.dom[b] & 1): break
                    k += 1
                need = k
                if m['valid'] and m['lang']:
                    d = spec.DFAS[m['lang']]; qs = {m['q']}
                    for b in m['win']: qs = {r for q in qs for _, r in d.groups(q, st.dom[b])} - {spec.X}
                    if qs and len(m['win']) == k: need = k + min(d.need[q] for q in qs)
                out.append(m['n'] - m['pos'] - need)
                if m.get('max') is not None: out.append(N(m['max']) - m['n'])
            elif ob.kind == 'seg': out.append(ob.meta['cnt'] - 1)
        return out

    def on_refine(self, st, b):
        for o, ob in st.objs.items():
            if ob.kind == 'text' and b in ob.meta['win']:
                i = ob.meta['win'].index(b)
                if ob.meta['valid'] and ob.meta['lang']:
                    d = spec.DFAS[ob.meta['lang']]; qs = {ob.meta['q']}
                    for x in ob.meta['win']:
                        if ob.meta['nul'] and st.dom[x] & 1:
                            if st.dom[x] == 1 and not any(q in d.accept for q in qs): return False
                            break
                        qs = {r for q in qs for _, r in d.groups(q, st.dom[x])} - {spec.X}
                        if not qs: return False
                if ob.meta['nul'] and st.dom[b] == 1:
                    if not st.assume_eq(ob.meta['n'] - ob.meta['pos'] - i): return False
                elif ob.meta['nul'] and not (st.dom[b] & 1):
                    if not st.entails(ob.meta['n'] - ob.meta['pos'] - i - 1):
                        if st.entails(ob.meta['pos'] + i - ob.meta['n']): return False
        return True

    def sym_rank(self, s):
        return (s[0] != 'y' and s[0] != 'n', s)

    # --- texts
    def text_load(self, st, o, off, ty, size, ins):
        if size != 1: return self.wide_load(st, o, off, ty, size, ins)
        m = st.obj(o).meta
        d = off - m['pos']
        c = st.isconst(d)
        if c is None:
            # maybe equal by the constraints
            for k in range(0, 3):
                if st.eqzero(d - k): c = k; break
        if c is None: return self.text_far(st, o, off, d, ins)
        if c < 0:
            return self.text_behind(st, o, off, c, ins)
        self.text_check(st, o, c, 1, ins)
        win = m['win']
        if len(win) <= c:
            m = st.mut(o).meta
            win = list(m['win'])
            while len(win) <= c:
                mask = FULL
                i = len(win)
                e = m['n'] - m['pos'] - i
                if m['nul']:
                    if st.entails(e - 1): mask &= ~1
                    elif st.entails(e.scale(-1)): mask = 1
                win.append(st.byte(mask))
            m['win'] = win
            if m['valid'] and m['lang']:
                self.restrict_valid(st, o)
        b = st.obj(o).meta['win'][c]
        self.text_read(st, o, c, b, ins)
        return norm(bident(b), st.dom)

    def text_read(self, st, o, c, b, ins): pass

    def wide_load(self, st, o, off, ty, size, ins):
        raise AnalysisError('multi-byte read of %s at %s' % (self.eng.oname(st.obj(o)), ins.raw))

    def text_far(self, st, o, off, d, ins):
        n = st.obj(o).meta['n'] + (1 if st.obj(o).meta['nul'] else 0)
        if not st.lossy and not self.strict and satisfiable(st.allcons([off - n])):
            self.eng.report('over-read', st, ins, 'may read %s beyond its end' % self.eng.oname(st.obj(o)))
        raise AnalysisError('read of %s at an offset unrelated to the scan position (%r) at %s' % (self.eng.oname(st.obj(o)), d, ins.raw))

    def text_behind(self, st, o, off, c, ins):
        h = st.obj(o).meta.get('hist') or []
        if -c <= len(h):
            return norm(bident(h[c]), st.dom)
        raise NeedHistory('read of %s behind the scan position at %s' % (self.eng.oname(st.obj(o)), ins.raw))

    def restrict_valid(self, st, o):
        """a stored string or number is known to be valid: restrict the byte sets accordingly"""
        m = st.obj(o).meta; d = spec.DFAS[m['lang']]; qs = {m['q']}
        for b in m['win']:
            lv = 0
            for q in qs:
                lv |= d.live(q)
                if m['nul'] and q in d.accept: lv |= 1
            if not st.refine(b, lv): raise Kill()
            if m['nul'] and st.dom[b] & 1: return
            qs = {r for q in qs for _, r in d.groups(q, st.dom[b])} - {spec.X}

    def text_check(self, st, o, c, size, ins):
        """bytes pos+c .. pos+c+size-1 must be readable"""
        m = st.obj(o).meta
        self.eng.stats['accesses'] += 1
        if m['nul']:
            for i in range(c + size - 1):
                if st.entails(m['n'] - m['pos'] - i - 1): continue
                w = m['win']
                if i < len(w):
                    if st.dom[w[i]] & 1:
                        raise Fork([lambda s, b=w[i]: s.refine(b, 1) and self.over(s, o, ins), lambda s, b=w[i]: s.refine(b, FULL & ~1)], 'nul')
                    continue
                self.over(st, o, ins)
        else:
            if not st.entails(m['n'] - m['pos'] - c - size):
                if st.entails(m['pos'] + c + size - 1 - m['n']): self.over(st, o, ins)
                raise Fork([lambda s: s.assume(m['n'] - m['pos'] - c - size), lambda s: s.assume(m['pos'] + c + size - 1 - m['n']) and self.over(s, o, ins)], 'len')

    def over(self, st, o, ins):
        self.eng.report('over-read', st, ins, 'may read %s beyond its end' % self.eng.oname(st.obj(o)))

    def text_bounds(self, st, o, off, ln, ins):
        m = st.obj(o).meta
        if not st.entails(off): self.eng.report('over-read', st, ins, 'may read before the start of %s' % self.eng.oname(st.obj(o)))
        lim = m['n'] + (1 if m['nul'] else 0)
        if not st.entails(lim - off - ln): self.over(st, o, ins)

    def text_strlen(self, st, o, off, ins):
        m = st.obj(o).meta
        if not m['nul']: self.over(st, o, ins)
        if not st.entails(m['n'] - off): self.over(st, o, ins)
        return m['n'] - off

    def text_nonzero(self, st, o):
        return st.obj(o).meta['nul'] == 1

    # --- generic memory hooks
    def load_hook(self, st, o, off, ty, size, ins):
        if st.obj(o).kind == 'str': return self.sb_load(st, o, off, ins)
        return None

    def store_hook(self, st, o, off, v, ty, size, ins):
        ob = st.obj(o)
        if ob.kind == 'str': raise AnalysisError('writes a string buffer header at %s' % ins.raw)
        if ob.kind == 'alloc': self.eng.report('allocator-write', st, ins, 'writes the allocator header')
        if ob.kind == 'blk' and size == 1 and isinstance(v, Num):
            return self.byte_store(st, o, off, v, ins)
        return False

    def byte_store(self, st, o, off, v, ins):
        """a byte stored from an unmodified text byte is a one-byte copy; adjacent ones are coalesced"""
        v = norm(v, st.dom)
        if len(v.bf) != 1 or v.k or v.co or len(v.bf[0].sup) != 1: return False
        f = v.bf[0]; b = f.sup[0]
        if any(t[0] != x for t, x in f.tab.items()): return False
        for t, ob in st.objs.items():
            if ob.kind == 'text' and b in ob.meta['win']:
                self.add_copy(st, o, off, t, ob.meta['pos'] + ob.meta['win'].index(b), ONE)
                return True
        return False

    def add_copy(self, st, o, off, so, soff, ln):
        ob = st.mut(o); self.eng.tolog(ob)
        for j in range(len(ob.log) - 1, -1, -1):
            e = ob.log[j]
            if e[0] == 'copy' and e[2] == so and st.eqzero(e[1] + e[4] - off) and st.eqzero(e[3] + e[4] - soff):
                ob.log[j] = ('copy', e[1], so, e[3], e[4] + ln)
                return
        ob.log.append(('copy', off, so, soff, ln))

    def copy_hook(self, st, do, doff, so, soff, ln, ins):
        if st.obj(do).kind == 'alloc': self.eng.report('allocator-write', st, ins, 'writes the allocator header')
        return False

    def log_load(self, st, o, ob, e, off, ty, size, ins): return None

    def layout(self, ob):
        if ob.kind == 'node': return sorted(self.L.nsz.items())
        if ob.kind == 'val': return [(self.L.vN, 8), (self.L.vA, 8)]
        return []

    def is_ptr_field(self, ob, fo):
        if ob.kind == 'val': return True
        if ob.kind == 'node': return fo in self.L.nptr
        return False

    def discrete_field(self, ob, off):
        return (ob.kind == 'node' or ob.meta.get('isnode')) and off == self.L.node['Type']

    def binop_hook(self, st, op, a, b, w, ins): return None
    def mul_hook(self, st, a, b, ins): return None
    def cast_hook(self, st, op, v, wf, wt, ins): return None
    def trunc_hook(self, st, v, wt, ins): return None
    def neg_hook(self, st, v, ins): return None
    def unsigned_hook(self, st, x, ins): return False
    def ptrcmp(self, st, pred, a, b, ins): return None
    def byte_eq(self, st, pred, a, b, ins): return None
    def icmp_hook(self, st, pred, a, b, w, ins): return None
    def gep_hook(self, st, base, off, ins): return None
    def inst_hook(self, st, ins): return False
    def strlen_hook(self, st, p, ins): return None
    def merge_ok(self, s, t, r): return True

    # --- lazily revealed pre-state
    def lazy(self, st, o, c, size, ty, ins):
        ob = st.obj(o)
        if ob.init is None: return UNDEF
        if c not in ob.init:
            if ob.kind == 'node':
                if c not in self.L.nsz: raise AnalysisError('access to unnamed bytes of a node at %s' % ins.raw)
                self.reveal(st, o, self.L.nname[c])
                ob = st.obj(o)
                if c not in ob.init: return UNDEF
            else: raise AnalysisError('access to unknown bytes of %s at %s' % (self.eng.oname(ob), ins.raw))
        s, v = ob.init[c]
        if isptr(v) and v[1] > 0 and st.obj(v[1]).kind == 'seg':
            return ptr(self.unfold(st, v[1], c == self.L.node['Next']))
        if s != size: raise AnalysisError('partial read of a field of %s at %s' % (self.eng.oname(ob), ins.raw))
        return v

    def lazy_init(self, st, o, fo, s, ty, ins):
        return self.lazy(st, o, fo, s, ty, ins)

    def pre(self, st, o, f):
        """value of node field f before the call (revealing it if needed)"""
        off = self.L.node[f]
        ob = st.obj(o)
        if off not in ob.init: self.reveal(st, o, self.L.nname[off]); ob = st.obj(o)
        return ob.init[off][1] if off in ob.init else UNDEF

    def has_pre(self, st, o, f):
        return self.L.node[f] in st.obj(o).init

    def setpre(self, st, o, f, v):
        off = self.L.node[f]
        st.mut(o).init[off] = (self.L.nsz[off], v)

    def cur(self, st, o, f):
        """current value of a node field (pre-existing or newly allocated node)"""
        off = self.L.node[f]; ob = st.obj(o)
        if off in ob.fields:
            v = ob.fields[off][1]
            if isinstance(v, tuple) and v and v[0] == 'init':
                if v[1] == o and v[2] == off: return self.pre(st, o, f)
                return self.pre(st, v[1], self.L.nname[v[2]])
            return v
        if ob.init is not None: return self.pre(st, o, f)
        return UNDEF

    def valN(self, st, o):
        ob = st.obj(o)
        return ob.fields.get(self.L.vN, ob.init[self.L.vN] if ob.init else (8, UNDEF))[1]

    def kids(self, st, f):
        """explicit pre-existing children of node f"""
        off = self.L.node['Father']; out = []
        for o, ob in st.objs.items():
            if ob.kind == 'node' and off in ob.init and isptr(ob.init[off][1]) and ob.init[off][1][1] == f: out.append(o)
        return out

    def keylang(self): return self.ent.get('keylang', 'str')

    def types_of(self, st, o):
        m = st.obj(o).meta
        ts = set(m.get('types', (1, 2, 3, 4, 5, 6)))
        return ts

    def reveal(self, st, o, f):
        """fork over the possible pre-state values of field f of node o, consistent with the tree invariant"""
        L = self.L; ob = st.obj(o)
        if f in ('Node', 'Str'):
            t = self.pre(st, o, 'Type')
            tv = self.T[t.const]
            if tv in (T_ARR, T_OBJ):
                if ob.meta.get('nonempty') or self.kids(st, o): return self.reveal_first(st, o, tv)
                if ob.meta.get('empty'): return self.do_empty(st, o)
                raise Fork([lambda s: self.do_empty(s, o), lambda s: self.mark(s, o, 'nonempty')], 'children')
            self.do_scalar(st, o, tv); return
        if f == 'Type':
            ts = sorted(self.types_of(st, o))
            if len(ts) == 1:
                self.setpre(st, o, 'Type', N(self.TV[ts[0]])); return
            raise Fork([lambda s, t=t: self.set_types(s, o, (t,)) for t in ts], 'type')
        if f in ('Key', 'KeyLen'):
            if ob.meta.get('haskey') is None:
                fa = self.pre(st, o, 'Father')
                if isnull(fa): raise Fork([lambda s: self.setmeta(s, o, 'haskey', 0), lambda s: self.setmeta(s, o, 'haskey', 1)], 'key')
                t = self.T[self.pre(st, fa[1], 'Type').const]
                self.setmeta(st, o, 'haskey', 1 if t == T_OBJ else 0); ob = st.obj(o)
            if ob.meta['haskey']:
                n = S(st.sym('n')); st.cons.append(n)
                t = self.text(st, 'the key of %s' % self.eng.oname(ob), 0, self.keylang(), n, True, 'node')
                self.setpre(st, o, 'Key', ptr(t)); self.setpre(st, o, 'KeyLen', n)
            else:
                self.setpre(st, o, 'Key', NULL)
            return
        if f == 'Len':
            self.pre(st, o, 'Node')
            if L.node['Len'] not in st.obj(o).init:
                n = S(st.sym('l')); st.cons.append(n - 1); self.setpre(st, o, 'Len', n)
                self.settle(st, o)
            return
        if f == 'Father':
            if ob.meta.get('root') is None:
                raise Fork([lambda s: self.setmeta(s, o, 'root', 1), lambda s: self.setmeta(s, o, 'root', 0)], 'root?')
            if ob.meta['root']:
                for g in ('Father', 'Prev', 'Next'): self.setpre(st, o, g, NULL)
            else:
                fa = self.father_choices(st, o)
                if fa is not None: self.setpre(st, o, 'Father', ptr(fa))
            return
        if f == 'Prev': return self.reveal_prev(st, o)
        if f == 'Next': return self.reveal_next(st, o)
        if f == 'End': return self.reveal_end(st, o)
        raise AnalysisError('field ' + f)

    def father_choices(self, st, o):
        """which node is the parent of non-root node o: an explicit container (if it may be) or a new one"""
        ob = st.obj(o)
        if 'fa' not in ob.meta:
            alts = [lambda s: self.setmeta(s, o, 'fa', 'new')]
            for q, qb in st.objs.items():
                if q != o and qb.kind == 'node' and self.may_be_father(st, q, o):
                    alts.append(lambda s, q=q: self.setmeta(s, o, 'fa', q))
            if len(alts) > 1: raise Fork(alts, 'father')
            self.setmeta(st, o, 'fa', 'new'); ob = st.obj(o)
        fa = st.obj(o).meta['fa']
        if fa == 'new':
            fa = self.node(st, 'the parent of %s' % self.eng.oname(ob), types=(T_ARR, T_OBJ), nonempty=1)
        else:
            if not self.set_types(st, fa, tuple(self.types_of(st, fa) & {T_ARR, T_OBJ})): raise Kill()
            self.setmeta(st, fa, 'nonempty', 1)
        self.setmeta(st, o, 'fa', 0)
        return fa

    def may_be_father(self, st, q, o):
        ob = st.obj(q)
        if ob.meta.get('empty') or ob.meta.get('copyof') is not None: return False
        if not self.types_of(st, q) & {T_ARR, T_OBJ}: return False
        if o in self.ancestors(st, q): return False
        if self.chain(st, q)[1]: return False
        return self.anc_ok(st, o, q)

    def anc_ok(self, st, o, q):
        """may o hang below q?  (operations that must not be given an ancestor of their target)"""
        na = st.gh.get('noanc')
        if not na: return True
        v, w = st.gh['v.n'], st.gh['w.n']
        if not v or not w: return True
        up = {q} | self.ancestors(st, q)
        if w in up and (o == v or o in self.ancestors(st, v)): return False
        return True

    def ancestors(self, st, q):
        off = self.L.node['Father']; out = set()
        while True:
            ob = st.obj(q)
            if ob.init is None or off not in ob.init: return out
            f = ob.init[off][1]
            if isnull(f) or f[1] in out: return out
            q = f[1]; out.add(q)

    def adoptable(self, st, f):
        """explicit nodes whose place in the tree is still open and that may be children of f"""
        off = self.L.node['Father']; out = []
        up = {f} | self.ancestors(st, f)
        for q, qb in st.objs.items():
            if qb.kind != 'node' or qb.init is None or off in qb.init or q in up: continue
            if qb.meta.get('root') or qb.meta.get('copyof') is not None or st.obj(f).meta.get('copyof') is not None: continue
            if qb.meta.get('fa') not in (None, 'new', 0): continue
            if not self.anc_ok(st, q, f): continue
            out.append(q)
        return out

    def adopt(self, st, q, f):
        """make q a child of f if it is not one yet"""
        if self.L.node['Father'] not in st.obj(q).init:
            self.setmeta(st, q, 'root', 0); self.setmeta(st, q, 'fa', 0)
            self.setpre(st, q, 'Father', ptr(f))

    # --- sibling lists: nodes and segments (a run of one or more nodes nothing else refers to)
    def segs(self, st, f):
        return [o for o, ob in st.objs.items() if ob.kind == 'seg' and ob.meta['fa'] == f]

    def nxt(self, st, e):
        """next list element (O), O(0) for the end, None if not known yet"""
        ob = st.obj(e)
        if ob.kind == 'seg': return ob.meta['nx']
        off = self.L.node['Next']
        if off not in ob.init: return None
        v = ob.init[off][1]
        return v[1] if isptr(v) else None

    def prv(self, st, e):
        ob = st.obj(e)
        if ob.kind == 'seg': return ob.meta['pv']
        off = self.L.node['Prev']
        if off not in ob.init: return None
        v = ob.init[off][1]
        return v[1] if isptr(v) else None

    def setnxt(self, st, e, x):
        if st.obj(e).kind == 'seg': st.mut(e).meta['nx'] = x
        else: self.setpre(st, e, 'Next', ptr(x) if x else NULL)

    def setprv(self, st, e, x):
        if st.obj(e).kind == 'seg': st.mut(e).meta['pv'] = x
        else: self.setpre(st, e, 'Prev', ptr(x) if x else NULL)

    def cnt(self, st, e):
        ob = st.obj(e)
        return ob.meta['cnt'] if ob.kind == 'seg' else ONE

    def chain(self, st, f):
        """elements from the first one on as far as known; True if the whole list is known"""
        off = self.L.node['Node']; ob = st.obj(f)
        if off not in ob.init: return [], False
        v = ob.init[off][1]
        if not isptr(v) or (not isnull(v) and st.obj(v[1]).kind != 'node'): return [], False
        e = v[1]; out = []
        while e:
            out.append(e)
            e = self.nxt(st, e)
            if e is None: return out, False
        return out, True

    def settle(self, st, f):
        """consistency of everything known about the children of f"""
        L = self.L
        els = self.kids(st, f) + self.segs(st, f)
        tot = ZERO
        for e in els: tot = tot + self.cnt(st, e)
        ch, closed = self.chain(st, f)
        ob = st.obj(f)
        lo = L.node['Len']
        if closed:
            if set(ch) != set(els): raise Kill()
            if lo in ob.init and not st.assume_eq(ob.init[lo][1] - tot): raise Kill()
            eo = L.node['End']
            ob = st.obj(f)
            if ch:
                if eo in ob.init:
                    if ob.init[eo][1] != ptr(ch[-1]): raise Kill()
                else: self.setpre(st, f, 'End', ptr(ch[-1]))
        elif lo in ob.init:
            if not st.assume(ob.init[lo][1] - tot): raise Kill()
        return tot, closed

    def fold(self, st):
        """fold list nodes that nothing refers to (other than their neighbours) into segments"""
        cand = [o for o, ob in st.objs.items() if ob.kind == 'node' and ob.init is not None and self.foldable(st, o)]
        if not cand: return
        refs = {}

        def scan(x):
            t = type(x)
            if t is O: refs[x] = refs.get(x, 0) + 1
            elif t is tuple or t is list:
                for e in x: scan(e)
            elif t is dict:
                for e in x.values(): scan(e)
        scan(st.gh)
        for v in st.env.values(): scan(v)
        for ob in st.objs.values(): scan(ob.fields); scan(ob.init); scan(ob.meta); scan(ob.log)
        for x in cand:
            if refs.get(x, 0) != 2: continue
            P, Y = self.prv(st, x), self.nxt(st, x)
            if not P or not Y or self.nxt(st, P) != x or self.prv(st, Y) != x: continue
            ob = st.obj(x)
            mods = {f: v[1] for f, v in ob.fields.items()}
            facts = tuple(sorted(self.facts(st, x)))
            f = ob.init[self.L.node['Father']][1][1]
            pk, yk = st.obj(P), st.obj(Y)
            if pk.kind == 'seg' and pk.meta['mods'] == mods:
                m = st.mut(P).meta; m['cnt'] = m['cnt'] + 1; m['facts'] = tuple(z for z in m['facts'] if z in facts)
                m['nx'] = Y; self.setprv(st, Y, P)
            elif yk.kind == 'seg' and yk.meta['mods'] == mods:
                m = st.mut(Y).meta; m['cnt'] = m['cnt'] + 1; m['facts'] = tuple(z for z in m['facts'] if z in facts)
                m['pv'] = P; self.setnxt(st, P, Y)
            else:
                g = st.new(Obj('seg', None, 'other elements of %s' % self.eng.oname(st.obj(f)), dict(fa=f, cnt=ONE, mods=mods, facts=facts, pv=P, nx=Y)))
                self.setnxt(st, P, g); self.setprv(st, Y, g)
            del st.objs[x]

    def foldable(self, st, o):
        ob = st.obj(o); L = self.L
        for f in ('Father', 'Prev', 'Next'):
            if L.node[f] not in ob.init or isnull(ob.init[L.node[f]][1]): return False
        for off, (s, v) in ob.fields.items():
            if off != L.node['Father'] or not isptr(v) or isnull(v): return False
        return True

    def facts(self, st, o): return st.obj(o).meta.get('facts', ())

    def unfold(self, st, g, left):
        """make the first (left) or last element of segment g explicit"""
        m = st.obj(g).meta
        c = m['cnt']
        one = st.eqzero(c - 1)
        if not one and not st.entails(c - 2):
            raise Fork([lambda s: s.assume_eq(c - 1), lambda s: s.assume(c - 2)], 'segment')
        x = self.node(st, self.elname(st, m['fa']), root=0, fa=0, facts=m['facts'])
        self.setpre(st, x, 'Father', ptr(m['fa']))
        for off, v in m['mods'].items(): st.objs[x].fields[off] = (self.L.nsz[off], v)
        P, Y = m['pv'], m['nx']
        if one:
            self.setprv(st, x, P); self.setnxt(st, x, Y); self.setnxt(st, P, x); self.setprv(st, Y, x)
            del st.objs[g]
        elif left:
            self.setprv(st, x, P); self.setnxt(st, P, x); self.setnxt(st, x, g); mm = st.mut(g).meta; mm['pv'] = x; mm['cnt'] = c - 1
        else:
            self.setnxt(st, x, Y); self.setprv(st, Y, x); self.setprv(st, x, g); mm = st.mut(g).meta; mm['nx'] = x; mm['cnt'] = c - 1
        return x

    def set_types(self, st, o, ts, probe=False):
        ob = st.obj(o)
        off = self.L.node['Type']
        if off in ob.init: return self.T[ob.init[off][1].const] in ts
        st.mut(o).meta['types'] = tuple(sorted(ts))
        return True

    def setmeta(self, st, o, k, v):
        st.mut(o).meta[k] = v
        return True

    def mark(self, st, o, k):
        st.mut(o).meta[k] = 1
        return True

    def do_empty(self, st, o):
        self.setpre(st, o, 'Node', NULL); self.setpre(st, o, 'Len', ZERO); st.mut(o).meta['empty'] = 1
        st.mut(o).meta.pop('nonempty', None)
        return True

    def do_scalar(self, st, o, tv):
        nm = self.eng.oname(st.obj(o))
        if tv == T_STR:
            n = S(st.sym('n')); st.cons.append(n)
            t = self.text(st, 'the string of %s' % nm, 0, 'str', n, True, 'node')
        elif tv == T_NUM:
            n = S(st.sym('n')); st.cons.append(n - 1)
            t = self.text(st, 'the number of %s' % nm, 0, 'num', n, True, 'node')
        else:
            w = st.obj(o).meta.get('word')
            if w is None:
                ws = ('null',) if tv == T_NULL else ('true', 'false')
                if len(ws) > 1: raise Fork([lambda s, w=w: self.setmeta(s, o, 'word', w) for w in ws], 'bool')
                w = ws[0]; self.setmeta(st, o, 'word', w)
            n = N(len(w))
            t = self.text(st, 'the literal of %s' % nm, 0, 'lit:' + w, n, True, 'node')
        self.setpre(st, o, 'Str', ptr(t)); self.setpre(st, o, 'Len', n)

    # children: reveal the first child / last child / neighbours
    def elname(self, st, f): return 'an element of %s' % self.eng.oname(st.obj(f))

    def child(self, st, f, name):
        o = self.node(st, name, root=0, fa=0)
        self.setpre(st, o, 'Father', ptr(f))
        return o

    def undecided(self, st, f, end):
        """list elements of f whose Prev (Next) is not decided yet, and the one already known to be the end"""
        und = []
        for k in self.kids(st, f):
            n = self.prv(st, k) if end == 'first' else self.nxt(st, k)
            if n == 0: return k, []
            if n is None: und.append(k)
        return None, und

    def choose(self, st, o, key, cands, extra=()):
        ch = st.obj(o).meta.get(key)
        if ch is None:
            alts = [lambda s, u=u: self.setmeta(s, o, key, u) for u in list(cands) + list(extra)]
            if len(alts) == 1: ch = (list(cands) + list(extra))[0]
            elif not alts: raise Kill()
            else: raise Fork(alts, key)
        st.mut(o).meta.pop(key, None)
        return ch

    def reveal_first(self, st, o, tv):
        k, und = self.undecided(st, o, 'first')
        if k is not None: self.setpre(st, o, 'Node', ptr(k)); self.settle(st, o); return
        ch = self.choose(st, o, 'first', und + self.adoptable(st, o), ('new',))
        if ch == 'new': ch = self.child(st, o, self.elname(st, o))
        self.adopt(st, ch, o)
        self.setpre(st, ch, 'Prev', NULL)
        self.setpre(st, o, 'Node', ptr(ch))
        self.settle(st, o)

    def reveal_end(self, st, o):
        n = self.pre(st, o, 'Node')
        t = self.T[self.pre(st, o, 'Type').const]
        if t not in (T_ARR, T_OBJ) or isnull(n): return   # meaningless: stays uninitialised
        k, und = self.undecided(st, o, 'last')
        if k is not None: self.setpre(st, o, 'End', ptr(k)); self.settle(st, o); return
        ch = self.choose(st, o, 'last', und + self.adoptable(st, o), ('new',))
        if ch == 'new': ch = self.child(st, o, self.elname(st, o))
        self.adopt(st, ch, o)
        self.setpre(st, ch, 'Next', NULL)
        self.setpre(st, o, 'End', ptr(ch))
        self.settle(st, o)

    def reveal_prev(self, st, o):
        fa = self.pre(st, o, 'Father')
        if isnull(fa): self.setpre(st, o, 'Prev', NULL); return
        f = fa[1]
        k, und = self.undecided(st, f, 'first')
        ex = ['new']
        if k is None and self.L.node['Node'] not in st.obj(f).init: ex.append('null')
        c = []
        for q in self.kids(st, f):
            if q != o and self.nxt(st, q) is None and not self.before(st, o, q): c.append(q)
        ch = self.choose(st, o, 'prev', c + self.adoptable(st, f), ex)
        if ch == 'null':
            self.setpre(st, o, 'Prev', NULL); self.setpre(st, f, 'Node', ptr(o)); self.settle(st, f); return
        if ch == 'new': ch = self.child(st, f, self.elname(st, f))
        self.adopt(st, ch, f)
        self.setpre(st, o, 'Prev', ptr(ch)); self.setpre(st, ch, 'Next', ptr(o))
        self.settle(st, f)

    def before(self, st, a, b):
        """is a known to come before b (or a == b)"""
        while a:
            if a == b: return True
            a = self.nxt(st, a)
        return False

    def reveal_next(self, st, o):
        fa = self.pre(st, o, 'Father')
        if isnull(fa): self.setpre(st, o, 'Next', NULL); return
        f = fa[1]
        k, _ = self.undecided(st, f, 'last')
        ex = ['new']
        if k is None and self.L.node['End'] not in st.obj(f).init: ex.append('null')
        c = []
        for q in self.kids(st, f):
            if q != o and self.prv(st, q) is None and not self.before(st, q, o): c.append(q)
        ch = self.choose(st, o, 'next', c + self.adoptable(st, f), ex)
        if ch == 'null':
            self.setpre(st, o, 'Next', NULL); self.setpre(st, f, 'End', ptr(o)); self.settle(st, f); return
        if ch == 'new': ch = self.child(st, f, self.elname(st, f))
        self.adopt(st, ch, f)
        self.setpre(st, o, 'Next', ptr(ch)); self.setpre(st, ch, 'Prev', ptr(o))
        self.settle(st, f)

    # ------------------------------------------------------------------ calls
    def call(self, st, name, args, ins):
        h = getattr(self, 'call_' + name, None)
        if h is not None: return h(st, args, ins)
        return NotImplemented

    def call_zj_allocatorAlloc(self, st, a, ins):
        al = self.eng.deref(st, a[0], ins, 'allocates from')
        if st.obj(al[1]).kind != 'alloc': raise AnalysisError('allocation from %r' % st.obj(al[1]))
        n = norm(a[1], st.dom)
        if not st.entails(n):
            self.eng.report('wrap', st, ins, 'the requested size may wrap below zero')
        o = st.new(Obj('blk', n, 'an allocated block', {'a': 'arena', 'al': al[1]}))
        return ptr(o)

    # string builder summaries (their bodies are verified against these by the builder analysis)
    def call_zj_newString(self, st, a, ins):
        al = self.eng.deref(st, a[0], ins, 'allocates from')
        if st.obj(al[1]).kind != 'alloc': raise AnalysisError('allocation from %r' % st.obj(al[1]))
        if not st.entails(a[1] - 1): self.eng.report('wrap', st, ins, 'creates a string buffer that can never grow (size may be 0)')
        o = st.new(Obj('str', None, 'the string buffer', {'len': ZERO, 'al': al[1], 'cap': norm(a[1], st.dom)}))
        d = st.new(Obj('blk', None, 'the text of the string buffer', {'a': 'arena', 'sb': 1, 'al': al[1]}))
        st.objs[d].log = []
        st.objs[o].meta['data'] = d
        return ptr(o)

    def sb(self, st, p, ins):
        p = self.eng.deref(st, p, ins, 'appends to')
        ob = st.obj(p[1])
        if ob.kind != 'str' or norm(p[2], st.dom).const != 0: raise AnalysisError('append to %r' % ob)
        return p[1]

    def sb_load(self, st, o, off, ins):
        """fields of the string buffer header"""
        f = self.L.strf.get(off.const)
        m = st.obj(o).meta
        if f == 'Data': return ptr(m['data'])
        if f == 'Pos': return m['len']
        if f == 'A': return ptr(m['al'])
        raise AnalysisError('reads %s of a string buffer at %s' % (f, ins.raw))

    def grow(self, st, o, ln):
        """the buffer moves when its capacity may be exceeded: older pointers to it keep the old content only"""
        m = st.obj(o).meta
        if m['cap'] is not None and st.entails(m['cap'] - m['len'] - ln): return
        d = st.obj(m['data']).clone()
        nd = st.new(d)
        mm = st.mut(o).meta
        mm['data'] = nd; mm['cap'] = None

    def call_zj_appendStr(self, st, a, ins):
        o = self.sb(st, a[0], ins)
        ln = norm(a[2], st.dom)
        if not st.entails(ln): self.eng.report('wrap', st, ins, 'appends a negative (wrapped) number of bytes')
        if ln.const == 0: return None
        self.append_bytes(st, o, a[1], ln, ins)
        return None

    def append_bytes(self, st, o, src, ln, ins):
        self.grow(st, o, ln)
        ob = st.obj(o); d = ob.meta['data']; pos = ob.meta['len']
        self.eng.copyobj(st, ptr(d, pos), src, ln, ins)
        st.mut(o).meta['len'] = pos + ln

    def call_zj_appendChar(self, st, a, ins):
        o = self.sb(st, a[0], ins)
        self.append_char(st, o, norm(a[1], st.dom), ins)
        return None

    def append_char(self, st, o, v, ins):
        self.grow(st, o, ONE)
        ob = st.obj(o); d = ob.meta['data']; pos = ob.meta['len']
        self.eng.store(st, ptr(d, pos), v, self.eng.i8, ins)
        st.mut(o).meta['len'] = pos + 1

    # ------------------------------------------------------------------ ghost synchronisation
    def sync(self, st):
        self.fold(st)
        for o in list(st.objs):
            ob = st.objs.get(o)
            if ob is None: continue
            if ob.kind == 'text': self.advance(st, o)

    def advance(self, st, o):
        m = st.obj(o).meta
        while m['win']:
            b = m['win'][0]
            if m['nul'] and st.dom[b] & 1: break
            if m['lang']:
                g = spec.DFAS[m['lang']].groups(m['q'], st.dom[b])
                if len(g) != 1: break
                q = g[0][1]
            else: q = None
            m = st.mut(o).meta
            m['win'] = m['win'][1:]; m['pos'] = m['pos'] + 1; m['q'] = q
            if self.HIST: m['hist'] = ((m.get('hist') or []) + [b])[-self.HIST:]

    def finish(self, st, o, ins):
        """drive the specification automaton over everything the code has looked at; -> 'yes' | 'no' | 'open' """
        m = st.obj(o).meta
        d = spec.DFAS[m['lang']]
        q = m['q']; i = 0
        for i, b in enumerate(m['win']):
            if q == spec.X: return 'no'
            if m['nul'] and st.dom[b] & 1:
                if st.dom[b] != 1: raise Fork([lambda s: s.refine(b, 1), lambda s: s.refine(b, FULL & ~1)], 'end')
                return 'yes' if q in d.accept else 'no'
            g = d.groups(q, st.dom[b])
            if len(g) > 1: raise Fork([(lambda s, mm=mm: s.refine(b, mm)) for mm, _ in g], 'spec')
            q = g[0][1]
        if q == spec.X: return 'no'
        rest = m['n'] - m['pos'] - len(m['win'])
        if st.entails(rest.scale(-1)): return 'yes' if q in d.accept else 'no'
        if st.entails(rest - 1): return 'open'
        raise Fork([lambda s: s.assume_eq(rest), lambda s: s.assume(rest - 1)], 'rest')

    def on_return(self, st, v, ins): pass

    # ------------------------------------------------------------------ comparisons for post-conditions
    def same(self, st, a, b):
        if isinstance(a, Num) and isinstance(b, Num): return st.eqzero(a - b)
        if isptr(a) and isptr(b): return a[1] == b[1] and st.eqzero(a[2] - b[2])
        return a == b

    def relation(self, st, blk):
        """further part of the key under which loop states are joined"""
        return None

    def decided(self, st, e):
        """is e == 0?  Undecided (not a violation) if only the widening of a loop may have lost the relation"""
        if st.eqzero(e): return True
        if st.lossy and not self.strict:
            e = st.now(e)
            if satisfiable(st.allcons([e, e.scale(-1)])): raise AnalysisError('a relation between counters was lost')
        return False

    def agree(self, st, a, b):
        if isinstance(a, Num) and isinstance(b, Num): return self.decided(st, a - b)
        return self.same(st, a, b)

    def content_is(self, st, p, ln, t, toff):
        """do the ln bytes at p equal text t from toff?  (None = undecidable shape)"""
        if st.entails(ln.scale(-1)): return True
        if not isptr(p) or isnull(p): return False
        if p[1] == t: return st.eqzero(p[2] - toff)
        ob = st.obj(p[1])
        if ob.log is None: return False
        off = p[2]
        for e in reversed(ob.log):
            if e[0] == 'copy':
                if st.entails(off - e[1]) and st.entails(e[1] + e[4] - off - ln):
                    return self.content_is(st, ptr(e[2], e[3] + off - e[1]), ln, t, toff)
                if st.entails(e[1] - off - ln) or st.entails(off - e[1] - e[4]): continue
                return False
            elif e[0] == 'v':
                if st.entails(e[1] - off - ln) or st.entails(off - e[1] - e[2]): continue
                return False
            elif e[0] == 'fill':
                if st.entails(e[1] - off - ln) or st.entails(off - e[1] - e[2]): continue
                return False
            else: return False
        return False

    def byte_at(self, st, p, ins):
        return self.eng.load(st, p, self.eng.i8, ins)

    def diff(self, st, ins, kind, expect, dontcare=(), segok=()):
        """every pre-existing node and value must have its old contents except for `expect` {(o, field): value};
        expect entries are compared with the final contents. Field is a node field name or 'N'/'A' of a value."""
        L = self.L
        for (o, f), want in expect.items():
            got = self.valN(st, o) if f == 'N' else self.cur(st, o, f)
            if callable(want): ok = want(got)
            else: ok = self.agree(st, got, want)
            if not ok:
                self.eng.report(kind, st, ins, '%s of %s is not updated correctly' % (FNAME.get(f, f), self.eng.oname(st.obj(o))))
        exp = {(o, L.vN if f == 'N' else L.node[f]) for o, f in expect} | {(o, L.vN if f == 'N' else L.node[f]) for o, f in dontcare}
        for o in list(st.objs):
            ob = st.objs[o]
            if ob.kind == 'seg' and ob.meta['mods'] and o not in segok:
                self.eng.report(kind, st, ins, 'changes elements of %s' % self.eng.oname(st.obj(ob.meta['fa'])))
            if ob.init is None or ob.meta.get('copyof') is not None: continue
            if ob.kind == 'text': continue
            for off, (s, v) in list(ob.fields.items()):
                if (o, off) in exp: continue
                if isinstance(v, tuple) and v and v[0] == 'init' and v[1] == o and v[2] == off: continue
                if ob.kind == 'node':
                    f = L.nname.get(off)
                    if f is None: self.eng.report(kind, st, ins, 'writes unnamed bytes of %s' % self.eng.oname(ob))
                    old = self.pre(st, o, f)
                elif ob.kind == 'val': f = 'N' if off == L.vN else 'A'; old = ob.init[off][1]
                else: raise AnalysisError('write to %s' % ob.kind)
                if isinstance(old, tuple) and old[0] == 'undef': continue     # meaningless field
                if not self.agree(st, v, old):
                    self.eng.report(kind, st, ins, '%s of %s must not change' % (FNAME.get(f, f), self.eng.oname(ob)))


FNAME = {'N': 'the content handle', 'A': 'the allocator handle', 'Type': 'the type', 'Key': 'the key', 'KeyLen': 'the key length', 'Str': 'the text or first child',
         'Node': 'the first child or text', 'Len': 'the length or element count', 'Next': 'the next link', 'Prev': 'the previous link', 'Father': 'the parent link',
         'End': 'the last-child link'}


class NeedHistory(AnalysisError):
    fatal = True
