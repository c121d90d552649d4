"""Deep copy: the interpreted copy routine walks a lazily revealed source tree of any size and builds nodes; finished parts of the copy
are compared with the source (type, content, key, links, owner) and both are forgotten, enclosing containers that agree so far are
replaced by a pair of placeholders and made explicit again when the walk returns to them."""
from .ir import AnalysisError
from .dom import *
from .engine import *
from .models import *
from .api import *
from .parse import LZ, BODY, Parse
from .walk import Tree

HEAD = ('Type', 'Str', 'Len', 'End', 'Key', 'KeyLen')


class Copy(Tree):
    SRC = 'w'
    GROW = 6
    max_shapes = 3000

    fld = Parse.fld
    setfld = Parse.setfld
    discrete_field = Parse.discrete_field

    def build(self, fn, var):
        sts = Tree.build(self, fn, var)
        for st in sts: st.gh['hid'] = 0; st.gh['base'] = O(0); st.gh['dbase'] = O(0)
        return sts

    def isnode(self, st, p):
        if not isptr(p) or p[1] <= 0 or p[2].const != 0: return False
        ob = st.obj(p[1])
        return ob.kind == 'blk' and ob.meta.get('a') == 'arena' and ob.size is not None and ob.size.const is not None and ob.size.const >= self.L.nodesize

    def readonly(self, st, o):
        if o == st.gh['v']: return False
        return True

    def store_hook(self, st, o, off, v, ty, size, ins):
        ob = st.obj(o)
        if ob.kind == 'tok': raise AnalysisError('write to an earlier element at %s' % ins.raw)
        if ob.kind == 'up' and ob.meta.get('d'): self.again(st, o)
        if ob.kind in ('node', 'val', 'up') and o != st.gh['v']: self.eng.report('C14+C18', st, ins, 'changes %s' % self.eng.oname(ob))
        return Api.store_hook(self, st, o, off, v, ty, size, ins)

    def load_hook(self, st, o, off, ty, size, ins):
        ob = st.obj(o); c = off.const
        if ob.kind == 'tok': raise AnalysisError('reads an earlier element at %s' % ins.raw)
        if ob.kind == 'up' and ob.meta.get('d'): self.again(st, o)
        if c is not None and c in ob.fields and ob.fields[c][1] == LZ:
            if self.L.nname[c] == 'Prev' and st.gh['hid']: self.again(st, 0)
            raise AnalysisError('reads a finished element again at %s' % ins.raw)
        return Tree.load_hook(self, st, o, off, ty, size, ins)

    # ------------------------------------------------------------------ source and destination structure
    def dstroot(self, st):
        p = self.valN(st, st.gh['v'])
        return p[1] if self.isnode(st, p) else None

    def els(self, st, F):
        """explicit children of source container F that are not yet summarised; is the list known to its end"""
        m = st.obj(F).meta; lv = m.get('lv')
        if lv: x = lv['cs']
        else:
            off = self.L.node['Node']
            if off not in st.obj(F).init: return [], False
            v = st.obj(F).init[off][1]
            if not isptr(v) or v[1] > 0 and st.obj(v[1]).kind != 'node': return [], False
            x = v[1]
        out = []
        no = self.L.node['Next']
        while x:
            out.append(x)
            i = st.obj(x).init
            if no not in i: return out, False
            x = i[no][1][1]
        return out, True

    def dst(self, st, F, D, j):
        lv = st.obj(F).meta.get('lv')
        p = ptr(lv['nx']) if lv and lv['dF'] else self.fld(st, D, 'Node')
        for _ in range(j):
            if not self.isnode(st, p): return None
            p = self.fld(st, p[1], 'Next')
        return p[1] if self.isnode(st, p) else None

    def known(self, st, x, f): return self.L.node[f] in st.obj(x).init

    def iscont(self, st, x):
        return self.known(st, x, 'Type') and self.T[self.pre(st, x, 'Type').const] in (T_ARR, T_OBJ)

    def key_bad(self, st, x, d):
        p = self.fld(st, d, 'Key'); n = self.fld(st, d, 'KeyLen')
        if p == LZ: return None if n == LZ else 'the key of a copied element is overwritten'
        k = self.pre(st, x, 'Key')
        if isnull(k): return None if isptr(p) and isnull(p) else 'a copied element gets a key its source does not have'
        kl = self.pre(st, x, 'KeyLen')
        if not isinstance(n, Num) or not st.eqzero(n - kl): return 'the key length of a copied element is wrong'
        return self.text_bad(st, p, kl, k, 'key')

    def text_bad(self, st, p, ln, s, what):
        if not isptr(p) or isnull(p): return 'a copied element has no %s' % what
        if p[1] == s[1]: return 'a copied element shares its %s with the source' % what
        ob = st.obj(p[1])
        if ob.kind != 'blk' or ob.meta.get('a') != 'arena' or ob.meta.get('al') != st.gh['a']: return 'the %s of a copied element is not owned by its allocator' % what
        if not self.content_is(st, p, ln, s[1], s[2]): return 'the %s of a copied element is not that of its source' % what
        return None

    def head_bad(self, st, x, d, ins=None):
        """type, key and length"""
        if st.obj(d).meta.get('al') != st.gh['a']: return 'a copied element is not owned by the value\'s allocator'
        T = self.fld(st, d, 'Type')
        if T == LZ:
            if any(self.fld(st, d, f) != LZ for f in ('Len', 'Key', 'KeyLen')): return 'a copied element is overwritten'
            return None
        t = self.pre(st, x, 'Type')
        if not isinstance(T, Num) or not st.eqzero(T - t): return 'a copied element gets another type'
        n = self.fld(st, d, 'Len'); ln = self.pre(st, x, 'Len')
        if not isinstance(n, Num) or not st.eqzero(n - ln): return 'the length or element count of a copied element is wrong'
        return self.key_bad(st, x, d)

    def body_bad(self, st, x, d, ins=None):
        """x has no explicit children left"""
        h = self.head_bad(st, x, d)
        if h: return h
        if self.fld(st, d, 'Type') == LZ and self.fld(st, d, 'Str') == LZ: return None
        t = self.T[self.pre(st, x, 'Type').const]
        p = self.fld(st, d, 'Str')
        if t in (T_ARR, T_OBJ):
            lv = st.obj(x).meta.get('lv')
            if lv:
                if not isptr(p) or p[1] != lv['dF']: return 'the first-child link of a copied container is wrong'
                e = self.fld(st, d, 'End')
                return None if isptr(e) and e[1] == lv['dL'] else 'the last-child link of a copied container is wrong'
            c = self.pre(st, x, 'Node')
            if not isnull(c): return 'the elements of a container are not copied'
            return None if p is not None and isptr(p) and isnull(p) else 'the copy of an empty container is not empty'
        s = self.pre(st, x, 'Str'); ln = self.pre(st, x, 'Len')
        if t in (T_BOOL, T_NULL):
            w = st.obj(x).meta['word'] if t == T_BOOL else 'null'
            if isptr(p) and not isnull(p) and p[1] != s[1] and self.bytes_are(st, p, w.encode(), ins): return None
            return None if self.same(st, p, s) else 'a literal is not copied'
        return self.text_bad(st, p, ln, s, 'text')

    # ------------------------------------------------------------------ summarising
    def verified(self, st, x, d):
        """is d a finished copy of x; then forget its contents"""
        if all(self.fld(st, d, f) == LZ for f in HEAD): return True
        if not all(self.known(st, x, f) for f in ('Type',)): return False
        m = st.obj(x).meta
        if self.iscont(st, x):
            if m.get('emp') is None: return False
            if not m['emp']:
                lv = m.get('lv')
                if not lv or lv['cs']: return False
        if not m.get('hv'):
            if not self.known(st, x, 'Key') or not self.known(st, x, 'Len') and not self.iscont(st, x): return False
            if self.iscont(st, x) and not self.known(st, x, 'Len'): return False
        if self.body_bad(st, x, d): return False
        for f in HEAD: self.setfld(st, d, f, LZ)
        mx = st.mut(x)
        for f in ('Key', 'KeyLen', 'Node', 'Len'): mx.init.pop(self.L.node[f], None)
        mx.meta.pop('lv', None); mx.meta.pop('word', None)
        if self.ent.get('profile'):
            mx.init.pop(self.L.node['Type'], None)
            for k in ('types', 'emp', 'haskey'): mx.meta.pop(k, None)
        else: mx.meta['old'] = 1
        return True

    def headed(self, st, x, d):
        """an open container whose type, key and count are right: forget them"""
        m = st.obj(x).meta
        if m.get('hv') or m.get('emp') != 0 or not all(self.known(st, x, f) for f in ('Type', 'Key', 'Len')) or self.head_bad(st, x, d): return
        for f in ('Type', 'Len', 'Key', 'KeyLen'): self.setfld(st, d, f, LZ)
        mx = st.mut(x); mx.meta['hv'] = 1; mx.meta.pop('haskey', None)
        for f in ('Key', 'KeyLen', 'Len'): mx.init.pop(self.L.node[f], None)

    def work(self, st, F, D, busy):
        while True:
            e, closed = self.els(st, F)
            ds = []
            for j, x in enumerate(e):
                d = self.dst(st, F, D, j)
                if d is None: break
                ds.append(d)
                if self.iscont(st, x) and (st.obj(x).meta.get('lv') or self.els(st, x)[0]): self.work(st, x, d, busy)
                if self.ent.get('profile'): self.headed(st, x, d)
                if d not in busy: self.verified(st, x, d)
            if self.ent.get('profile'): return
            if len(e) >= 2 and len(ds) >= 2 and self.fold_first(st, F, D, e, ds, busy): continue
            if closed and len(e) == 1 and len(ds) == 1: self.fold_last(st, F, D, e[0], ds[0], busy)
            return

    def ready(self, st, F, D, x, d, busy):
        if x in busy or d in busy or any(self.fld(st, d, f) != LZ for f in HEAD): return False
        fa = self.fld(st, d, 'Father'); p = self.fld(st, d, 'Prev')
        lv = st.obj(F).meta.get('lv')
        if not isptr(fa) or fa[1] != D: return False
        return self.prev_ok(st, F, d)

    def prev_ok(self, st, F, d):
        lv = st.obj(F).meta.get('lv'); p = self.fld(st, d, 'Prev')
        if p == LZ: return False
        if lv and lv['dL']: return isptr(p) and p[1] == lv['dL']
        return p is not None and isptr(p) and isnull(p)

    def prefix(self, st, F, D):
        lv = dict(st.obj(F).meta.get('lv') or dict(dF=O(0), dL=O(0), nx=O(0), cs=O(0)))
        if not lv['dF']:
            lv['dF'] = st.new(Obj('tok', None, 'the first element')); lv['dL'] = st.new(Obj('tok', None, 'the last element'))
            self.setfld(st, D, 'Node', ptr(lv['dF']))
        mf = st.mut(F)
        mf.init.pop(self.L.node['Node'], None); mf.meta['lv'] = lv; mf.meta['emp'] = 0
        return lv

    def fold_first(self, st, F, D, e, ds, busy):
        x, d = e[0], ds[0]
        if not self.ready(st, F, D, x, d, busy): return False
        p = self.fld(st, ds[1], 'Prev'); en = self.fld(st, D, 'End')
        if not isptr(p) or p[1] != d or isptr(en) and en[1] == d: return False
        lv = self.prefix(st, F, D)
        self.setfld(st, ds[1], 'Prev', ptr(lv['dL']))
        lv['nx'] = ds[1]; lv['cs'] = e[1]
        st.mut(F).meta['lv'] = lv
        self.forget(st, x)
        return True

    def forget(self, st, x):
        del st.objs[x]
        for q in list(st.objs):
            qb = st.objs[q]
            if qb.kind != 'node' or qb.init is None: continue
            off = self.L.node['Prev']
            if qb.init.get(off, (0, 0))[1] == ptr(x): st.mut(q).init.pop(off)

    def fold_last(self, st, F, D, x, d, busy):
        if not self.ready(st, F, D, x, d, busy): return False
        n = self.fld(st, d, 'Next'); en = self.fld(st, D, 'End')
        if n is None or not isptr(n) or not isnull(n) or not isptr(en) or en[1] != d: return False
        lv = self.prefix(st, F, D)
        self.setfld(st, D, 'End', ptr(lv['dL']))
        lv['nx'] = O(0); lv['cs'] = O(0)
        st.mut(F).meta['lv'] = lv
        self.forget(st, x)
        return True

    def top(self, st):
        if st.gh['hid']: return st.gh['base'], st.gh['dbase']
        return st.gh['root'], self.dstroot(st)

    def sync(self, st):
        Api.sync(self, st)
        if not st.gh.get('root'): return
        self.reduce(st, self.live(st))
        if self.ent.get('profile'): return
        n = sum(1 for ob in st.objs.values() if ob.kind == 'node' and not ob.meta.get('out'))
        if n > self.GROW + 2:
            self.eng.partial = self.eng.partial or 'parts of the copy cannot be matched with the source'
            raise Kill()

    def live(self, st):
        refs = set()

        def scan(x):
            t = type(x)
            if t is O: refs.add(x)
            elif t is tuple:
                for e in x: scan(e)
        for v in st.env.values(): scan(v)
        return refs

    def reduce(self, st, busy):
        S, D = self.top(st)
        if D is None: return
        if self.ent.get('profile'):
            self.headed(st, S, D)
            if self.iscont(st, S) and self.els(st, S)[0]: self.work(st, S, D, busy)
            return
        if self.iscont(st, S) and (st.obj(S).meta.get('lv') or self.els(st, S)[0]): self.work(st, S, D, busy)
        if D not in busy or not st.gh['hid']: self.verified(st, S, D)
        while self.bury(st, busy): pass

    def bury(self, st, busy):
        gh = st.gh
        S, D = self.top(st)
        if not self.iscont(st, S): return False
        e, closed = self.els(st, S)
        if len(e) != 1 or not self.iscont(st, e[0]) or not self.els(st, e[0])[0]: return False
        x = e[0]; d = self.dst(st, S, D, 0)
        if d is None or gh['hid'] and (S in busy or D in busy): return False
        m = st.obj(S).meta
        if not m.get('hv') and not (self.known(st, S, 'Key') and self.known(st, S, 'Len')): return False
        if self.head_bad(st, S, D): return False
        en = self.fld(st, D, 'End'); nd = self.fld(st, D, 'Node'); fa = self.fld(st, d, 'Father')
        lv = m.get('lv')
        if not isptr(en) or en[1] != d or not isptr(fa) or fa[1] != D or not isptr(nd): return False
        if nd[1] != (lv['dF'] if lv and lv['dF'] else d) or not self.prev_ok(st, S, d): return False
        us = st.new(Obj('up', None, 'an enclosing container', dict(t=self.T[self.pre(st, S, 'Type').const])))
        ud = st.new(Obj('up', None, 'the copy of an enclosing container', dict(d=1)))
        for q in list(st.objs):
            qb = st.objs[q]
            if qb.kind == 'node' and qb.init is not None and qb.init.get(self.L.node['Father'], (0, 0))[1] == ptr(S): self.setpre(st, q, 'Father', ptr(us))
        self.setfld(st, d, 'Father', ptr(ud)); self.setfld(st, d, 'Prev', LZ)
        if gh['hid']: del st.objs[S]
        else:
            ms = st.mut(S); ms.meta['hv'] = 1; ms.meta['old'] = 1; ms.meta.pop('lv', None)
            for f in ('Node', 'Len', 'Key', 'KeyLen'): ms.init.pop(self.L.node[f], None)
            for f in HEAD: self.setfld(st, D, f, LZ)
        gh['hid'] = 1; gh['base'] = x; gh['dbase'] = d
        return True

    def again(self, st, u):
        self.force(st, u)
        raise Fork([lambda s: True], 'again')

    def force(self, st, u, only=None):
        """make the parents of the outermost explicit pair explicit"""
        gh = st.gh
        if not gh['hid']: raise AnalysisError('access to an enclosing container')
        x, d = gh['base'], gh['dbase']
        fa = st.obj(x).init[self.L.node['Father']][1]; fd = self.fld(st, d, 'Father')
        if st.obj(fa[1]).kind != 'up': raise AnalysisError('enclosing container')
        if not isptr(fd) or fd[1] <= 0 or st.obj(fd[1]).kind != 'up': raise AnalysisError('the parent link of an open copy changes')
        us, ud = fa[1], fd[1]
        t = st.obj(us).meta['t']
        if 'mat' not in gh:
            raise Fork([(lambda s, c=(r, q, f): self.set_gh(s, 'mat', c)) for r in (1, 0) if only is None or r == only for q in ((0,) if r else (T_ARR, T_OBJ)) for f in (0, 1)], 'enclosing container')
        root, ft, first = gh.pop('mat')
        if root:
            P = gh['root']
            if self.T[self.pre(st, P, 'Type').const] != t or st.obj(P).meta.get('emp') or not st.obj(P).meta.get('hv'): raise Kill()
            Q = self.dstroot(st)
            if Q is None or any(self.fld(st, Q, f) != LZ for f in HEAD): raise AnalysisError('the root of the copy changes while its elements are copied')
            gh['hid'] = 0; gh['base'] = gh['dbase'] = O(0)
        else:
            P = self.node(st, 'an enclosing container', types=(t,), old=1, emp=0, hv=1, ft=ft)
            self.setpre(st, P, 'Type', N(self.TV[t]))
            u1 = st.new(Obj('up', None, 'an enclosing container', dict(t=ft)))
            self.setpre(st, P, 'Father', ptr(u1))
            Q = st.new(Obj('blk', N(self.L.nodesize), 'an allocated block', {'a': 'arena', 'al': gh['a']}))
            u2 = st.new(Obj('up', None, 'the copy of an enclosing container', dict(d=1)))
            self.setfld(st, Q, 'Father', ptr(u2)); self.setfld(st, Q, 'Prev', LZ)
            for f in ('Type', 'Len', 'Key', 'KeyLen'): self.setfld(st, Q, f, LZ)
            gh['base'] = P; gh['dbase'] = Q
        lv = dict(dF=O(0), dL=O(0), nx=O(0), cs=x)
        if first:
            self.setfld(st, Q, 'Node', ptr(d)); self.setfld(st, d, 'Prev', NULL)
        else:
            lv['dF'] = st.new(Obj('tok', None, 'the first element')); lv['dL'] = st.new(Obj('tok', None, 'the last element')); lv['nx'] = d
            self.setfld(st, Q, 'Node', ptr(lv['dF'])); self.setfld(st, d, 'Prev', ptr(lv['dL']))
        self.setfld(st, Q, 'End', ptr(d))
        st.mut(P).meta['lv'] = lv
        self.replace(st, us, P); self.replace(st, ud, Q)

    def ptrcmp(self, st, pred, a, b, ins):
        for x, y in ((a, b), (b, a)):
            if x[1] > 0 and st.obj(x[1]).kind == 'up' and y[1] != 0 and y[1] != x[1]: self.again(st, x[1])
            if x[1] > 0 and st.obj(x[1]).kind == 'tok': raise AnalysisError('comparison of earlier elements')
        return None

    # ------------------------------------------------------------------ the final comparison
    def why(self, st, x, d, ins):
        if all(self.fld(st, d, f) == LZ for f in HEAD): return None
        lv = st.obj(x).meta.get('lv')
        if not (st.obj(x).meta.get('hv')) or self.fld(st, d, 'Type') != LZ:
            h = self.head_bad(st, x, d)
            if h: return h
        t = self.T[self.pre(st, x, 'Type').const]
        if t in (T_ARR, T_OBJ) and (lv or not isnull(self.pre(st, x, 'Node'))):
            j = 0; q = None
            y = lv['cs'] if lv else self.pre(st, x, 'Node')[1]
            if y:
                while y:
                    q = self.dst(st, x, d, j)
                    if q is None: return 'an element has no copy'
                    h = self.why(st, y, q, ins)
                    if h: return h
                    fa = self.fld(st, q, 'Father')
                    if not isptr(fa) or fa[1] != d: return 'the parent link of a copied element is wrong'
                    p = self.fld(st, q, 'Prev')
                    want = self.dst(st, x, d, j - 1) if j else (lv['dL'] if lv else O(0))
                    if not isptr(p) or p[1] != (want or 0): return 'the previous link of a copied element is wrong'
                    n = self.pre(st, y, 'Next'); y = n[1]; j += 1
                n = self.fld(st, q, 'Next')
                if n is None or not isptr(n) or not isnull(n): return 'the next link of the last copied element is not cleared'
                e = self.fld(st, d, 'End')
                if not isptr(e) or e[1] != q: return 'the last-child link of a copied container is wrong'
                return None
        return self.body_bad(st, x, d, ins)


def s_copy(m, st, v, ins):
    K = 'C14'; gh = st.gh
    r = m.truthy(st, v, ins)
    if not gh['root']:
        if r: m.fail(st, ins, K, 'reports success for a source without content')
        return m.ensure_unchanged(st, ins, K)
    if not r: m.fail(st, ins, K, 'fails for a source with content')
    m.reduce(st, set())
    while gh['hid']: m.force(st, 0, 1)
    m.reduce(st, set())
    d = m.dstroot(st)
    if d is None or d == gh['root']: m.fail(st, ins, K, 'the value does not get a copy of its own')
    x = m.why(st, gh['root'], d, ins)
    if x: m.fail(st, ins, K, x)
    for f in ('Father', 'Prev', 'Next'):
        p = m.fld(st, d, f)
        if p is None or not isptr(p) or not isnull(p): m.fail(st, ins, K, '%s of the copy is not cleared' % FNAME[f])
    m.diff(st, ins, K, {(gh['v'], 'N'): ptr(d)})


for _n, _p in (('zj_Copy:inner', None), ('zj_Copy:small', '5'), ('zj_Copy:tiny', '3')):
    ent(_n, ['v', 'w'], s_copy, ('C14', 'C18'), fn='@copy', only='null', model=Copy, keep=['zj_allocatorAlloc'], cost=5, profile=_p)


def s_copyapi(m, st, v, ins):
    K = 'C14'; n = st.gh['v.n']
    if n == 0:
        if not isnull(v): m.fail(st, ins, K, 'gives a copy of a value without content')
        return m.ensure_unchanged(st, ins, 'C18')
    cs = [o for o, ob in st.objs.items() if ob.kind == 'node' and ob.meta.get('copyof') == n]
    if len(cs) != 1: m.fail(st, ins, K, 'does not make a copy of the value')
    c = cs[0]
    if st.obj(c).meta['al'] != st.gh['a']: m.fail(st, ins, K, 'the copy does not live in the value\'s allocator')
    m.newval(st, v, ptr(c), ins, K)
    m.ensure_unchanged(st, ins, 'C18')


ent('zj_Copy', ['v'], s_copyapi, ('C14', 'C18', 'C10'))
