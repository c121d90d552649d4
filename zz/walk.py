"""Serialisation: the emitted bytes are compared, event by event, with the canonical text of a lazily revealed tree of any size.
The tree is explored by the interpreted code (and by the specification cursor); enclosing containers nothing refers to any more are
replaced by placeholders that know only their type, and made explicit again (root or not) when the walk returns to them."""
from .ir import AnalysisError
from .dom import *
from .engine import *
from .models import *
from .api import *
from . import spec

LITW = {T_NULL: ('null',), T_BOOL: ('true', 'false')}


class Tree(Api):
    strict = True
    """a source tree of any shape, walked from its root"""

    def build(self, fn, var):
        sts = Api.build(self, fn, var)
        for st in sts:
            r = st.gh[self.SRC + '.n']
            st.gh['root'] = r
            if r:
                st.objs[r].meta['isroot'] = 1
        return sts

    SRC = 'v'

    def fold(self, st): pass

    def facts(self, st, o): return ()

    # ------------------------------------------------------------------ lazily revealed nodes
    def inner(self, st, name, fa, ft):
        o = self.node(st, name, ft=ft)
        self.setpre(st, o, 'Father', ptr(fa))
        return o

    def reveal(self, st, o, f):
        m = st.obj(o).meta
        if m.get('copyof') is not None or m.get('out') and f != 'Type': raise AnalysisError('looks at %s' % self.eng.oname(st.obj(o)))
        if f == 'Type':
            ts = m.get('types', (1, 2, 3, 4, 5, 6))
            if self.ent.get('profile') and m.get('ft'): ts = tuple(t for t in ts if t != m['ft'])     # alternating containers
            if len(ts) == 1: return self.setpre(st, o, 'Type', N(self.TV[ts[0]]))
            raise Fork([lambda s, t=t: self.set_types(s, o, (t,)) for t in ts], 'type')
        if f in ('Node', 'Str'):
            t = self.T[self.pre(st, o, 'Type').const]
            if t not in (T_ARR, T_OBJ): return self.do_scalar(st, o, t)
            if m.get('old'): raise AnalysisError('goes down into a container again')
            if m.get('emp') is None: self.either(st, o, 'emp')
            if m['emp']:
                self.setpre(st, o, 'Node', NULL)
                return
            c = self.inner(st, 'an element', o, t)
            return self.setpre(st, o, 'Node', ptr(c))
        if f == 'Len':
            t = self.T[self.pre(st, o, 'Type').const]
            if t not in (T_ARR, T_OBJ): return self.do_scalar(st, o, t)
            if m.get('emp') is None: self.either(st, o, 'emp')
            if m['emp']: return self.setpre(st, o, 'Len', ZERO)
            n = S(st.sym('l')); st.cons.append(n - 1)
            return self.setpre(st, o, 'Len', n)
        if f in ('Key', 'KeyLen'):
            if m.get('old'): raise AnalysisError('reads the key of a container again')
            k = m.get('haskey')
            if k is None:
                if m.get('isroot'): raise Fork([lambda s: self.setmeta(s, o, 'haskey', 0), lambda s: self.setmeta(s, o, 'haskey', 1)], 'key')
                k = 1 if m['ft'] == T_OBJ else 0
            if k:
                n = S(st.sym('n')); st.cons.append(n)
                t = self.text(st, 'the key of an element', 0, 'str', n, True, 'node')
                self.setpre(st, o, 'Key', ptr(t)); self.setpre(st, o, 'KeyLen', n)
            else: self.setpre(st, o, 'Key', NULL)
            return
        if f == 'Next':
            if m.get('isroot'): return self.outside(st, o, f)
            if m.get('last') is None: self.either(st, o, 'last')
            if m['last']: return self.setpre(st, o, 'Next', NULL)
            fa = st.obj(o).init[self.L.node['Father']][1]
            c = self.inner(st, 'an element', fa[1], m['ft'])
            return self.setpre(st, o, 'Next', ptr(c))
        if f in ('Father', 'Prev') and m.get('isroot'): return self.outside(st, o, f)
        if f == 'Prev':
            fa = st.obj(o).init[self.L.node['Father']][1][1]
            if st.obj(fa).kind == 'node' and st.obj(fa).init.get(self.L.node['Node'], (0, 0))[1] == ptr(o): return self.setpre(st, o, 'Prev', NULL)
            for q, qb in st.objs.items():
                if qb.kind == 'node' and qb.init is not None and qb.init.get(self.L.node['Next'], (0, 0))[1] == ptr(o): return self.setpre(st, o, 'Prev', ptr(q))
        raise AnalysisError('reads %s during a walk' % FNAME[f])

    def either(self, st, o, k):
        """does the list end here; a restricted search only looks at small trees"""
        def more(s):
            if self.ent.get('profile'):
                s.gh['nc'] = s.gh.get('nc', 1) + 1
                if s.gh['nc'] > int(self.ent['profile']): return False
            return self.setmeta(s, o, k, 0)
        raise Fork([lambda s: self.setmeta(s, o, k, 1), more], k)

    def outside(self, st, o, f):
        """the value may be an element of a larger tree"""
        k = 'o' + f
        ch = st.obj(o).meta.get(k)
        if ch is None: raise Fork([lambda s: self.setmeta(s, o, k, 0), lambda s: self.setmeta(s, o, k, 1)], 'outside')
        if not ch: return self.setpre(st, o, f, NULL)
        x = self.node(st, 'a node outside the value', out=1, types=(T_ARR, T_OBJ) if f == 'Father' else (1, 2, 3, 4, 5, 6))
        self.setpre(st, o, f, ptr(x))

    def text(self, st, name, nul, lang=None, n=None, valid=False, owner='caller'):
        # only the extent of stored texts matters here
        return Api.text(self, st, name, nul, lang if lang is None or lang.startswith('lit:') else 'plain', n, valid, owner)

    def auto_cons(self, st):
        out = Api.auto_cons(self, st)
        for ob in st.objs.values():
            if ob.kind == 'node' and ob.meta.get('emp') == 0:
                x = ob.init.get(self.L.node['Len'])
                if x: out.append(x[1] - 1)
        return out

    # ------------------------------------------------------------------ enclosing containers
    def live(self, st):
        refs = set()

        def scan(x):
            t = type(x)
            if t is O: refs.add(x)
            elif t is tuple:
                for e in x: scan(e)
        for v in st.env.values(): scan(v)
        for v in st.gh.get('cur', ()): scan(v)
        return refs

    def sync(self, st):
        Api.sync(self, st)
        if not st.gh.get('root'): return
        live = self.live(st); root = st.gh['root']
        fo = self.L.node['Father']
        for o in list(st.objs):
            ob = st.objs.get(o)
            if ob is None or ob.kind != 'node' or fo not in ob.init or ob.meta.get('isroot') or ob.meta.get('out'): continue
            f = ob.init[fo][1][1]
            fb = st.obj(f)
            if fb.kind != 'node' or (f in live and f != root): continue
            if f == root and st.gh.get('cur', (0, 0))[1] == root: continue
            t = self.T[self.pre(st, f, 'Type').const]
            up = st.new(Obj('up', None, 'an enclosing container', dict(t=t)))
            for q in list(st.objs):
                qb = st.objs[q]
                if qb.kind == 'node' and fo in qb.init and qb.init[fo][1] == ptr(f): self.setpre(st, q, 'Father', ptr(up))
            if f == root:
                ri = st.mut(root)
                for g in ('Node', 'Len', 'End'): ri.init.pop(self.L.node[g], None)
                ri.meta['old'] = 1
            else: del st.objs[f]
            self.drop_dangling(st)

    def drop_dangling(self, st):
        """forget links to nodes that no longer exist"""
        for q in list(st.objs):
            qb = st.objs[q]
            if qb.kind != 'node': continue
            for off, (s, v) in list(qb.init.items()):
                if isptr(v) and v[1] > 0 and v[1] not in st.objs: st.mut(q).init.pop(off)

    def force(self, st, u):
        """the walk needs to know which node the placeholder u is"""
        if 'mat' not in st.gh: raise Fork([lambda s: self.set_gh(s, 'mat', 1), lambda s: self.set_gh(s, 'mat', 0)], 'enclosing container')
        root = st.gh.pop('mat'); t = st.obj(u).meta['t']; r = st.gh['root']
        if root:
            if self.T[self.pre(st, r, 'Type').const] != t or st.obj(r).meta.get('emp'): raise Kill()
            y = r
        else:
            y = self.node(st, 'an enclosing container', types=(t,), old=1, emp=0)
            up = None

            def mk(tt):
                def f(s): return self.set_gh(s, 'mt', tt)
                return f
            if 'mt' not in st.gh:
                st.gh['mat'] = root
                raise Fork([mk(T_ARR), mk(T_OBJ)], 'its parent')
            ft = st.gh.pop('mt')
            up = st.new(Obj('up', None, 'an enclosing container', dict(t=ft)))
            st.mut(y).meta['ft'] = ft
            self.setpre(st, y, 'Type', N(self.TV[t])); self.setpre(st, y, 'Father', ptr(up))
        self.replace(st, u, y)
        return y

    def replace(self, st, a, b):
        def re(x):
            k = type(x)
            if k is O: return b if x == a else x
            if k is tuple: return tuple(re(e) for e in x)
            if k is list: return [re(e) for e in x]
            if k is dict: return {q: re(e) for q, e in x.items()}
            return x
        st.env = re(st.env)
        for k in list(st.gh): st.gh[k] = re(st.gh[k])
        for q in list(st.objs):
            ob = st.objs[q]
            nf = re(ob.fields); ni = re(ob.init) if ob.init is not None else None
            if nf != ob.fields or ni != ob.init:
                m = st.mut(q); m.fields = nf; m.init = ni
        if a in st.objs: del st.objs[a]

    def again(self, st, u):
        self.force(st, u)
        raise Fork([lambda s: True], 'again')

    def load_hook(self, st, o, off, ty, size, ins):
        ob = st.obj(o)
        if ob.kind == 'up':
            if off.const == self.L.node['Type'] and size == self.L.nsz[off.const]: return N(self.TV[ob.meta['t']])
            self.again(st, o)
        return Api.load_hook(self, st, o, off, ty, size, ins)

    def store_hook(self, st, o, off, v, ty, size, ins):
        ob = st.obj(o)
        if ob.kind in ('node', 'val', 'up') and self.readonly(st, o): self.eng.report('C18+C03', st, ins, 'changes %s' % self.eng.oname(ob))
        return Api.store_hook(self, st, o, off, v, ty, size, ins)

    def readonly(self, st, o): return True

    def ptrcmp(self, st, pred, a, b, ins):
        for x, y in ((a, b), (b, a)):
            if x[1] > 0 and st.obj(x[1]).kind == 'up' and y[1] != 0 and y[1] != x[1]: self.again(st, x[1])
        return None


class Stringify(Tree):
    def build(self, fn, var):
        sts = Tree.build(self, fn, var)
        for st in sts:
            if st.gh['root']: st.gh['cur'] = ('B', st.gh['root'])
            st.gh['pr'] = ZERO
        return sts

    # ------------------------------------------------------------------ what has to come next
    def want(self, st):
        """('c', byte) or ('t', text, length); settles the cursor on it first"""
        while True:
            ph, x = st.gh['cur']
            if x and st.obj(x).kind == 'up':
                self.force(st, x); continue
            if ph == 'D': return ('none',)
            if ph == 'K':
                if st.obj(x).meta['ft'] == T_OBJ: return ('c', 0x22)
                st.gh['cur'] = ('B', x); continue
            if ph == 'k':
                k = self.pre(st, x, 'Key'); n = self.pre(st, x, 'KeyLen')
                if self.done(st, n): st.gh['cur'] = ('q', x); continue
                return ('t', k[1], n)
            if ph == 'q': return ('c', 0x22)
            if ph == ':': return ('c', 0x3a)
            if ph == 'B':
                t = self.T[self.pre(st, x, 'Type').const]
                if t == T_ARR: return ('c', 0x5b)
                if t == T_OBJ: return ('c', 0x7b)
                if t == T_STR: return ('c', 0x22)
                st.gh['cur'] = ('p', x); continue
            if ph in ('s', 'p'):
                s = self.pre(st, x, 'Str'); n = self.pre(st, x, 'Len')
                if self.done(st, n): st.gh['cur'] = ('Q' if ph == 's' else 'A', x); continue
                return ('t', s[1], n)
            if ph == 'Q': return ('c', 0x22)
            if ph == 'C':
                c = self.pre(st, x, 'Node')
                if isnull(c): return ('c', self.closer(st, self.T[self.pre(st, x, 'Type').const]))
                st.gh['cur'] = ('K', c[1]); continue
            if ph == 'A':
                if x == st.gh['root']: return ('c', 0)
                n = self.pre(st, x, 'Next')
                return ('c', 0x2c) if not isnull(n) else ('c', self.closer(st, st.obj(x).meta['ft']))
            raise AnalysisError('phase')

    def closer(self, st, t): return 0x5d if t == T_ARR else 0x7d

    def done(self, st, n):
        """is the text of length n written completely"""
        if st.eqzero(n - st.gh['pr']): st.gh['pr'] = ZERO; return True
        if st.entails(n - st.gh['pr'] - 1): return False
        raise Fork([lambda s: s.assume_eq(n - s.gh['pr']), lambda s: s.assume(n - s.gh['pr'] - 1)], 'written')

    def step(self, st):
        """the expected byte has been written"""
        ph, x = st.gh['cur']; st.gh['pr'] = ZERO
        if ph == 'B': st.gh['cur'] = ('s' if self.T[self.pre(st, x, 'Type').const] == T_STR else 'C', x)
        elif ph == 'C': st.gh['cur'] = ('A', x)
        elif ph == 'A':
            if x == st.gh['root']: st.gh['cur'] = ('D', O(0)); return
            n = self.pre(st, x, 'Next')
            if isnull(n): st.gh['cur'] = ('A', st.obj(x).init[self.L.node['Father']][1][1])
            else: st.gh['cur'] = ('K', n[1])
        else: st.gh['cur'] = ({'K': 'k', 'q': ':', ':': 'B', 'Q': 'A'}[ph], x)

    WHAT = {'K': 'the quote before a key', 'k': 'the stored key', 'q': 'the quote after a key', ':': 'the colon', 's': 'the stored string', 'p': 'the stored text of a scalar',
            'Q': 'the quote after a string'}

    def expected(self, st, w):
        ph = st.gh['cur'][0]
        if w[0] == 'c': return 'the end of the text' if w[1] == 0 else repr(chr(w[1]))
        return self.WHAT.get(ph, 'the stored text')

    def emit(self, st, v, ins):
        """one byte"""
        w = self.want(st)
        v = norm(v, st.dom)
        c = st.isconst(v)
        if w[0] == 'none': self.eng.report('C03', st, ins, 'writes more after the end of the text')
        if c is None:
            p = self.where(st, v)
            if p is None:
                for b in {b for f in v.bf for b in f.sup}:
                    ms = list(mbits(st.dom[b]))
                    if 1 < len(ms) <= 8: raise Fork([lambda s, m=m: s.refine(b, 1 << m) for m in ms], 'written byte')
                raise AnalysisError('writes an unknown byte at %s' % ins.raw)
            if w[0] != 't' or p[0] != w[1] or not st.eqzero(p[1] - st.gh['pr']): self.eng.report('C03', st, ins, 'writes a stored byte where %s belongs' % self.expected(st, w))
            st.gh['pr'] = st.gh['pr'] + 1
            return
        c &= 255
        if w[0] == 'c':
            if c != w[1]: self.eng.report('C03', st, ins, 'writes %s where %s belongs' % ('the end' if c == 0 else repr(chr(c)), self.expected(st, w)))
            return self.step(st)
        lang = st.obj(w[1]).meta['lang'] or ''
        i = st.isconst(st.gh['pr'])
        if lang.startswith('lit:') and i is not None and i < len(lang) - 4 and ord(lang[4 + i]) == c:
            st.gh['pr'] = st.gh['pr'] + 1
            return
        self.eng.report('C03', st, ins, 'writes %s where %s belongs' % ('the end' if c == 0 else repr(chr(c)), self.expected(st, w)))

    def bytes_left(self, st, src, ln, ins):
        """the ln bytes at src"""
        p = self.eng.deref(st, src, ins, 'reads')
        ob = st.obj(p[1])
        if ob.kind == 'text':
            self.text_bounds(st, p[1], p[2], ln, ins)
            w = self.want(st)
            if st.entails(ln.scale(-1)): return
            if not st.entails(ln - 1): raise Fork([lambda s: s.assume_eq(ln), lambda s: s.assume(ln - 1)], 'length')
            if w[0] == 'none': self.eng.report('C03', st, ins, 'writes more after the end of the text')
            if w[0] != 't' or w[1] != p[1]: self.eng.report('C03', st, ins, 'writes a stored text where %s belongs' % self.expected(st, w))
            if not st.eqzero(p[2] - st.gh['pr']): self.eng.report('C03', st, ins, 'writes %s from the wrong place' % self.expected(st, w))
            st.gh['pr'] = st.gh['pr'] + ln
            return
        n = st.isconst(ln)
        if n is None: raise AnalysisError('appends an unknown number of bytes at %s' % ins.raw)
        self.eng.check_bounds(st, p[1], p[2], ln, ins, False)
        i = st.gh.get('part', 0)
        while i < n:
            st.gh['part'] = i
            self.emit(st, self.eng.load(st, ptr(p[1], p[2] + i), self.eng.i8, ins), ins)
            i += 1
        st.gh.pop('part', None)

    # ------------------------------------------------------------------ the builder
    def call_zj_newString(self, st, a, ins):
        if 'sb' in st.gh: raise AnalysisError('a second string buffer')
        r = Api.call_zj_newString(self, st, a, ins)
        m = st.mut(r[1]).meta; m['len'] = UNDEF; m['cap'] = None
        st.gh['sb'] = r[1]
        return r

    def sb_load(self, st, o, off, ins):
        f = self.L.strf.get(off.const)
        if f not in ('Data', 'A'): raise AnalysisError('reads %s of a string buffer at %s' % (f, ins.raw))
        return Api.sb_load(self, st, o, off, ins)

    def moved(self, st, o):
        d = st.new(Obj('blk', None, 'the text of the string buffer', {'a': 'arena', 'sb': 1, 'al': st.obj(o).meta['al']}))
        st.objs[d].log = []
        st.mut(o).meta['data'] = d

    def call_zj_appendStr(self, st, a, ins):
        o = self.sb(st, a[0], ins); ln = norm(a[2], st.dom)
        if not st.entails(ln): self.eng.report('wrap', st, ins, 'appends a negative (wrapped) number of bytes')
        if ln.const == 0: return None
        self.bytes_left(st, a[1], ln, ins)
        self.moved(st, o)
        return None

    def call_zj_appendChar(self, st, a, ins):
        o = self.sb(st, a[0], ins)
        self.emit(st, norm(a[1], st.dom), ins)
        self.moved(st, o)
        return None


def s_stringify(m, st, v, ins):
    K = 'C03'
    if not isptr(v) or isnull(v): m.fail(st, ins, K, 'returns no text')
    if not st.gh['root']:
        if not m.bytes_are(st, v, b'\0', ins): m.fail(st, ins, K, 'does not give an empty text for a value without content')
        return
    if 'sb' not in st.gh: raise AnalysisError('the text is not made with a string buffer')
    w = m.want(st)
    if w[0] != 'none': m.fail(st, ins, K, 'returns before %s is written' % m.expected(st, w))
    sb = st.obj(st.gh['sb']).meta
    if v[1] != sb['data'] or st.isconst(v[2]) != 0: m.fail(st, ins, K, 'does not return the text that was written')
    if sb['al'] != st.gh['a']: m.fail(st, ins, 'C06', 'the returned text is not owned by the value\'s allocator')


ent('zj_Stringify', ['v'], s_stringify, ('C03', 'C18', 'C10'), model=Stringify, keep=['zj_allocatorAlloc', 'zj_newString', 'zj_appendStr', 'zj_appendChar'], cost=3)
