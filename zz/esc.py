"""Escaping setters and unescaping getters: the output is matched, piece by piece, against the encoding (decoding) of the
source text while the operation is interpreted; a ghost keeps how much of the source the output covers."""
from .ir import AnalysisError
from .dom import *
from .engine import *
from .models import *
from .api import *
from . import spec

BSL = 0x5c
ESC = {0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f, 0x62: 8, 0x66: 12, 0x6e: 10, 0x72: 13, 0x74: 9}
HEXV = {}
for _i, _c in enumerate('0123456789'): HEXV[ord(_c)] = _i
for _i, _c in enumerate('abcdef'): HEXV[ord(_c)] = HEXV[ord(_c.upper())] = 10 + _i


def bytefn(b, table, dom):
    return norm(Num(0, (), (BFn((b,), {(v,): table[v] for v in mbits(dom[b])}),)), dom)


class Trans(Api):
    """gh['src'] the source text, gh['P'] how many source bytes the output covers, gh['out'] the output block, gh['D'] its covered length"""
    max_shapes = 400

    def build(self, fn, var):
        sts = Api.build(self, fn, var)
        for st in sts:
            st.gh['P'] = ZERO; st.gh['D'] = ZERO
            self.pick(st)
        return sts

    def pick(self, st): pass

    def on_return(self, st, v, ins):
        if 'src' in st.gh: self.advance(st, st.gh['src'])
        Api.on_return(self, st, v, ins)

    # single bytes stay single bytes here
    def byte_store(self, st, o, off, v, ins): return False

    # ------------------------------------------------------------------ pending output
    def out_block(self, st):
        """the block that holds (or begins to hold) the output"""
        o = st.gh.get('out')
        if o is not None: return o
        c = []
        for q, ob in st.objs.items():
            if ob.kind == 'blk' and ob.meta.get('a') == 'arena' and not ob.meta.get('snap') and not ob.meta.get('sb') and (ob.size is None or ob.size.const is None) and (ob.log or ob.fields): c.append(q)
            if ob.kind == 'blk' and ob.meta.get('sb') and not ob.meta.get('snap') and ob.log: c.append(q)
        return c[-1] if c else None

    def entry_at(self, st, o, off):
        """the value last written at byte off of block o: ('v', value) | ('copy', src, soff, len) | None"""
        ob = st.obj(o)
        if ob.log is None:
            if not ob.fields: return None
            self.eng.tolog(st.mut(o)); ob = st.obj(o)
        for e in reversed(ob.log):
            d = off - e[1]
            if e[0] == 'v':
                if st.eqzero(d): return ('v', e[3]) if e[2] == 1 else None
                if st.entails(d - e[2]) or st.entails(d.scale(-1) - 1): continue
                return None
            if e[0] == 'copy':
                if st.entails(d.scale(-1) - 1) or st.entails(d - e[4]): continue
                if st.entails(d) and st.entails(e[4] - d - 1): return ('copy', e[2], e[3] + d, e[4] - d)
                return None
            return None
        return None

    def pending(self, st, k=0):
        o = self.out_block(st)
        if o is None: return None
        return self.entry_at(st, o, st.gh['D'] + k)

    def took(self, st, src, k, j):
        """k bytes of output cover j further bytes of the source"""
        o = self.out_block(st)
        gh = st.gh
        D = gh['D'] + k
        gh['out'] = o
        ob = st.mut(o)
        ob.log = [e for e in ob.log if not st.entails(D - e[1] - (N(e[2]) if e[0] == 'v' else e[4]))]
        gh['D'] = D; gh['P'] = gh['P'] + j
        m = st.mut(src).meta
        bs = []
        if st.eqzero(m['pos'] + j - gh['P']):
            bs = m['win'][:j]
            m['win'] = m['win'][j:]; m['pos'] = m['pos'] + j; m['run'] = ZERO
        for i, b in enumerate(bs): self.drop(st, src, b)

    def referenced(self, st, b, skip):
        found = []

        def scan(x):
            if found: return
            t = type(x)
            if t is B:
                if x == b: found.append(1)
            elif t is Num:
                for f in x.bf:
                    if b in f.sup and len(norm(Num(0, (), (f,)), st.dom).bf): found.append(1)
            elif t is tuple or t is list:
                for e in x: scan(e)
            elif t is dict:
                for e in x.values(): scan(e)
        for v in st.env.values(): scan(v)
        for o, ob in st.objs.items():
            if o != skip: scan(ob.fields); scan(ob.log); scan(ob.init); scan(ob.meta)
        return bool(found)

    def drop(self, st, src, b): pass

    def advance(self, st, o):
        if o != st.gh.get('src'): return Api.advance(self, st, o)
        while self.absorb(st, o): pass
        for ob in st.objs.values():
            if ob.log and len(ob.log) > 60: raise AnalysisError('the output is not made in order of the text')
        if len(st.obj(o).meta['win']) > 60: raise AnalysisError('the text is not consumed in order')

    def bad(self, st, msg):
        """a mismatch found between instructions is reported at the place the state has reached"""
        ins = st.blk.insts[min(st.idx, len(st.blk.insts) - 1)]
        self.eng.report(self.PROP, st, ins, msg)

    def same8(self, st, a, b):
        if not isinstance(a, Num): return False
        a = norm(a, st.dom); b = norm(b, st.dom)
        if a.co or b.co: return False
        return same_fn(bmap(wrapw(a, 8) if a.bf else N(a.k & 255), lambda v: v & 255, True, 8), bmap(wrapw(b, 8) if b.bf else N(b.k & 255), lambda v: v & 255, True, 8), st.dom)

    def copied(self, st, src):
        """a run of plain bytes copied at once"""
        p = self.pending(st)
        if p is None or p[0] != 'copy' or p[1] != src: return False
        m = st.obj(src).meta; gh = st.gh
        if not st.eqzero(p[2] - gh['P']): self.bad(st, 'copies the wrong part of the text')
        n = p[3]
        k = st.entails(m['pos'] - gh['P'] - n) and st.entails(gh['P'] - m['pos'] + m.get('run', ZERO))
        if k:
            out = self.out_block(st)
            self.took(st, src, n, n)
            return True
        # bytes still in the window
        if n.const is not None and st.eqzero(m['pos'] - gh['P']) and n.const <= len(m['win']) and all(self.plain(st, b) for b in m['win'][:n.const]):
            self.took(st, src, n, n.const); return True
        return False

    def plain_scan(self, st, src):
        """move plain bytes the code has passed over to the run of plain bytes"""
        m = st.obj(src).meta
        ch = False
        while m['win'] and self.plain(st, m['win'][0]) and bin(st.dom[m['win'][0]]).count('1') > 1 and not self.referenced(st, m['win'][0], src) and self.pending(st) is None:
            m = st.mut(src).meta
            m['win'] = m['win'][1:]; m['pos'] = m['pos'] + 1; m['run'] = m.get('run', ZERO) + 1
            ch = True
        return ch

    def complete(self, st):
        src = st.gh.get('src')
        return src is not None and st.eqzero(st.obj(src).meta['n'] - st.gh['P'])


class Unesc(Trans):
    PROP = 'C16'

    def text(self, st, name, nul, lang=None, n=None, valid=False, owner='caller'):
        o = Api.text(self, st, name, nul, lang, n, valid, owner)
        if owner == 'node' and name == self.ent['src']: st.gh['src'] = o
        return o

    def text_behind(self, st, o, off, c, ins):
        gh = st.gh
        if o == gh.get('src') and st.eqzero(off - gh['P']):
            m = st.mut(o).meta
            m['pos'] = gh['P']; m['win'] = []; m['run'] = ZERO; m['q'] = 'S'
            return self.text_load(st, o, off, self.eng.i8, 1, ins)
        return Trans.text_behind(self, st, o, off, c, ins)

    text_far = lambda self, st, o, off, d, ins: self.text_behind(st, o, off, None, ins) if o == st.gh.get('src') and st.eqzero(off - st.gh['P']) else Trans.text_far(self, st, o, off, d, ins)

    def plain(self, st, b): return not (st.dom[b] >> BSL) & 1

    def absorb(self, st, src):
        m = st.obj(src).meta; gh = st.gh; dom = st.dom
        if self.copied(st, src): return True
        if not st.eqzero(m['pos'] - gh['P']):
            return self.plain_scan(st, src)
        w = m['win']
        if not w: return False
        p = self.pending(st)
        if p is None: return self.plain_scan(st, src)
        if p[0] != 'v': return False
        if self.plain(st, w[0]):
            return self.match(st, src, [norm(bident(w[0]), dom)], 1)
        if dom[w[0]] != 1 << BSL or len(w) < 2: return False
        if not (dom[w[1]] >> 0x75) & 1:
            if any(v not in ESC for v in mbits(dom[w[1]])): return False
            return self.match(st, src, [bytefn(w[1], ESC, dom)], 2)
        if dom[w[1]] != 1 << 0x75 or len(w) < 6: return False
        cp = self.hex4(st, w[2:6])
        lo, hi = brange(cp)
        k = 6
        if 0xD800 <= lo and hi <= 0xDBFF:
            if len(w) < 12: return False
            lo2 = self.hex4(st, w[8:12])
            cp = (cp - 0xD800).scale(1024) + (lo2 - 0xDC00) + 0x10000
            lo, hi = brange(cp); k = 12
        elif hi >= 0xD800 and lo <= 0xDFFF and dom[w[2]] & spec.DD:
            if dom[w[2]] & ~spec.DD: raise Fork([lambda s: s.refine(w[2], spec.DD), lambda s: s.refine(w[2], spec.ALL & ~spec.DD)], 'surrogate')
            if dom[w[3]] & spec.S89AB:
                if dom[w[3]] & ~spec.S89AB: raise Fork([lambda s: s.refine(w[3], spec.S89AB), lambda s: s.refine(w[3], spec.ALL & ~spec.S89AB)], 'surrogate')
                return False
        A = lambda n, sh, mask: bmap(bmap(n, lambda v: v >> sh, True, 32), lambda v: v & mask, True, 32) if n.bf else N((n.k >> sh) & mask)
        if hi <= 0x7f: ex = [cp]
        elif lo >= 0x80 and hi <= 0x7ff: ex = [A(cp, 6, 31) + 0xc0, A(cp, 0, 63) + 0x80]
        elif lo >= 0x800 and hi <= 0xffff: ex = [A(cp, 12, 15) + 0xe0, A(cp, 6, 63) + 0x80, A(cp, 0, 63) + 0x80]
        elif lo >= 0x10000: ex = [A(cp, 18, 7) + 0xf0, A(cp, 12, 63) + 0x80, A(cp, 6, 63) + 0x80, A(cp, 0, 63) + 0x80]
        else: return False
        return self.match(st, src, ex, k)

    def hex4(self, st, bs):
        r = ZERO
        for i, b in enumerate(bs):
            if any(v not in HEXV for v in mbits(st.dom[b])): raise AnalysisError('escape digits not restricted')
            r = r + bytefn(b, HEXV, st.dom).scale(16 ** (3 - i))
        return r

    def match(self, st, src, ex, k):
        for i, x in enumerate(ex):
            p = self.pending(st, i)
            if p is None: return False
            if p[0] != 'v' or not self.same8(st, p[1], x): self.bad(st, 'writes something else than the character the text stands for')
        self.took(st, src, len(ex), k)
        return True


def s_unesc(what):
    def f(m, st, v, ins):
        n = st.gh['v.n']
        if what == 'Str':
            ok = m.type_of(st) == T_STR
            if ok: m.pre(st, n, 'Str')
        else: ok = n != 0 and not isnull(m.pre(st, n, 'Key'))
        if not ok:
            if not isnull(v): m.fail(st, ins, 'C16', 'answers for a value without such a text')
            return m.ensure_unchanged(st, ins, 'C18')
        if not m.is_fresh(st, v): m.fail(st, ins, 'C16', 'does not return a text of its own')
        if st.obj(v[1]).meta.get('al') != st.gh['a']: m.fail(st, ins, 'C16', 'the returned text is not owned by the value\'s allocator')
        if not m.complete(st): m.fail(st, ins, 'C16', 'the returned text does not cover the whole stored text')
        if 'out' in st.gh and (v[1] != st.gh['out'] or st.isconst(v[2]) != 0): m.fail(st, ins, 'C16', 'does not return the decoded text')
        p = m.entry_at(st, v[1], st.gh['D'])
        if p is None or p[0] != 'v' or not isinstance(p[1], Num) or st.isconst(p[1]) != 0: m.fail(st, ins, 'C16', 'the returned text is not zero-terminated right after its end')
        m.ensure_unchanged(st, ins, 'C18')
    return f


# ------------------------------------------------------------------------------------------------ escaping

class Escape(Trans):
    """The source may be scanned several times. gh['acc'] maps a byte table f to the sum of f over the bytes before the scan position,
    gh['tot'] to the sum over the whole text (known after a complete scan)."""
    PROP = 'C17'

    def pick(self, st):
        st.gh['src'] = st.gh['t']; st.gh['acc'] = {}; st.gh['tot'] = {}

    def plain(self, st, b):
        return not st.dom[b] & (spec.CTRL | 1 << 0x22 | 1 << BSL)

    def auto_cons(self, st):
        out = Api.auto_cons(self, st)
        gh = st.gh
        if 'src' not in gh or gh['src'] not in st.objs: return out
        m = st.obj(gh['src']).meta
        for key, a in gh['acc'].items():
            vs = [x for x in key if x is not None]
            lo, hi = min(vs), max(vs)
            out.append(a - m['pos'].scale(lo)); out.append(m['pos'].scale(hi) - a)
            t = gh['tot'].get(key)
            if t is not None:
                r = t - a; k = 0
                for b in m['win']:
                    if m['nul'] and st.dom[b] & 1: break
                    if any(key[v] is None for v in mbits(st.dom[b])): break
                    r = r - bytefn(b, key, st.dom); k += 1
                out.append(r - (m['n'] - m['pos'] - k).scale(lo))
        out.append(gh['D']); out.append(gh['P'].scale(6) - gh['D'])
        return out

    def rebase(self, st, o, off, ins):
        gh = st.gh
        if o == gh.get('src'):
            m = st.obj(o).meta
            if gh['acc'] and st.isconst(off) == 0 and st.eqzero(m['pos'] - m['n']):
                gh['tot'] = dict(gh['acc']); gh['acc'] = {k: ZERO for k in gh['acc']}
                gh['acc'] = {k: ZERO for k in gh['tot']}
            else: gh['acc'] = {}; gh['tot'] = {}
            st.mut(o).meta['run'] = ZERO
        return Api.rebase(self, st, o, off, ins)

    def absorb(self, st, src):
        m = st.obj(src).meta; gh = st.gh; dom = st.dom
        if self.copied(st, src): return True
        here = st.eqzero(m['pos'] - gh['P'])
        w = m['win']
        if w and m['nul'] and dom[w[0]] & 1: return False
        p = self.pending(st)
        if here and p is not None and w:
            if p[0] != 'v': return False
            return self.encoded(st, src, w[0])
        if not w: return False
        # the code only looks at the text
        if gh.get('out') is not None and here: return self.plain_scan(st, src)
        if p is not None and here: return False
        b = w[0]
        if not self.only_sums(st, b, src): return False
        mm = st.mut(src).meta
        mm['win'] = w[1:]; mm['pos'] = mm['pos'] + 1
        mm['run'] = (mm.get('run', ZERO) + 1) if self.plain(st, b) else ZERO
        self.drop(st, src, b)
        return True

    def encoded(self, st, src, b):
        """the pending output bytes must be a JSON encoding of source byte b"""
        dom = st.dom
        vals = {}

        def at(i, v):
            if i not in vals:
                p = self.pending(st, i)
                if p is None: return None
                if p[0] != 'v' or not isinstance(p[1], Num): raise AnalysisError('output bytes are not known')
                x = norm(p[1], dom)
                if x.co or any(f.sup != (b,) for f in x.bf): self.bad(st, 'writes something that does not stand for the next byte of the text')
                vals[i] = x
            x = vals[i]
            return (x.k + sum(f.tab[(v,)] for f in x.bf)) & 255
        groups = {}
        for v in mbits(dom[b]):
            o = [at(0, v)]
            n = 1
            if o[0] == BSL:
                o.append(at(1, v))
                if o[1] is None: return False
                n = 2
                if o[1] == 0x75:
                    n = 6
                    o += [at(i, v) for i in range(2, 6)]
                    if None in o: return False
            if n == 1: good = o[0] == v and v >= 0x20 and v not in (0x22, BSL)
            elif n == 2: good = ESC.get(o[1]) == v
            else: good = v < 0x80 and all(x in HEXV for x in o[2:]) and sum(HEXV[x] * 16 ** (3 - i) for i, x in enumerate(o[2:])) == v
            if not good:
                if not st.refine(b, 1 << v): return False
                self.bad(st, 'byte 0x%02x of the text is not encoded as itself or as an equivalent escape' % v)
            groups.setdefault(n, []).append(v)
        if len(groups) > 1: raise Fork([(lambda s, mk=mask_of(g): s.refine(b, mk)) for g in groups.values()], 'encoding')
        self.took(st, src, next(iter(groups)), 1)
        return True

    def only_sums(self, st, b, src):
        """is b used only as a summand f(b)"""
        ok = [True]

        def scan(x):
            t = type(x)
            if t is B:
                if x == b: ok[0] = False
            elif t is Num:
                for f in x.bf:
                    if b in f.sup:
                        g = norm(Num(0, (), (f,)), st.dom)
                        if g.bf and (len(f.sup) > 1 or not x.co and not st.gh['acc'] and self.ident(g)): ok[0] = False
            elif t is tuple or t is list:
                for e in x: scan(e)
            elif t is dict:
                for e in x.values(): scan(e)
        for v in st.env.values(): scan(v)
        for o, ob in st.objs.items():
            if o != src: scan(ob.fields); scan(ob.log); scan(ob.init); scan(ob.meta)
            elif b in ob.meta['win'][1:]: return False
        scan(st.gh['D'])
        return ok[0]

    def ident(self, g):
        f = g.bf[0]
        return all((v - t[0]) % 256 == 0 for t, v in f.tab.items())

    def drop(self, st, src, b):
        """byte b leaves the window: sums over it become sums over the text before the scan position"""
        gh = st.gh; dom = st.dom
        terms = []

        def scan(x):
            t = type(x)
            if t is Num:
                for f in x.bf:
                    if f.sup == (b,):
                        g = norm(Num(0, (), (f,)), dom)
                        if g.bf and g.bf[0] not in terms: terms.append(g.bf[0])
            elif t is tuple or t is list:
                for e in x: scan(e)
            elif t is dict:
                for e in x.values(): scan(e)
        for v in st.env.values(): scan(v)
        for o, ob in st.objs.items(): scan(ob.size); scan(ob.fields); scan(ob.log); scan(ob.meta)
        scan(gh['D']); scan(gh['P'])
        at0 = st.eqzero(st.obj(src).meta['pos'] - 1)
        acc = {}; sub = {}
        for key, a in gh['acc'].items():
            if any(key[v] is None for v in mbits(dom[b])): continue
            f = bytefn(b, key, dom)
            if f.const is not None: acc[key] = a + f.const; continue
            y = S(st.sym('y'))
            acc[key] = y; sub[f.bf[0].key()] = y - a - f.k
            lo, hi = brange(f)
            st.cons += [y - a - lo, a + hi - y]
        for f in terms:
            if f.key() in sub: continue
            if not at0 or self.ident(Num(0, (), (f,))): continue
            key = tuple(f.tab.get((v,)) for v in range(256))
            y = S(st.sym('y')); acc[key] = y; sub[f.key()] = y
            lo, hi = min(f.tab.values()), max(f.tab.values())
            st.cons += [y - lo, N(hi) - y]
        gh['acc'] = acc; gh['tot'] = {k: v for k, v in gh['tot'].items() if k in acc}
        if sub:
            def repl(n):
                if not any(f.sup == (b,) for f in n.bf): return n
                n = norm(n, dom); bf = []; r = Num(n.k, n.co)
                for f in n.bf:
                    s = sub.get(f.key())
                    if s is not None: r = r + s
                    else: bf.append(f)
                return Num(r.k, r.co, tuple(bf))
            st.env = {k: mapv(v, repl) for k, v in st.env.items()}
            for o in list(st.objs):
                nb = mapobj(st.objs[o], repl)
                if nb is not None: st.objs[o] = nb; st.own.add(o)
            gh['D'] = repl(gh['D']); gh['P'] = repl(gh['P'])

    # ---- the finished output is a text like any other
    def finished(self, st, o):
        """turn the complete, terminated output into a valid zero-terminated text"""
        gh = st.gh
        if gh.get('out') != o or gh.get('esc') is not None: return None
        self.advance(st, gh['src'])
        if not self.complete(st): return None
        p = self.entry_at(st, o, gh['D'])
        nul = 1 if p is not None and p[0] == 'v' and isinstance(p[1], Num) and st.isconst(p[1]) == 0 else 0
        t = self.text(st, 'the escaped text', nul, 'str', gh['D'], True, 'lib')
        al = st.obj(o).meta.get('al')

        def re(x):
            k = type(x)
            if k is O: return t if x == o else x
            if k is tuple: return tuple(re(e) for e in x)
            if k is list: return [re(e) for e in x]
            if k is dict: return {a: re(e) for a, e in x.items()}
            return x
        st.env = re(st.env)
        for q in list(st.objs):
            if q == o: continue
            ob = st.mut(q)
            ob.fields = re(ob.fields); ob.log = re(ob.log); ob.init = re(ob.init); ob.meta = re(ob.meta)
        for k in ('acc', 'tot'): gh[k] = {}
        gh['esc'] = t; gh['escal'] = al; gh.pop('out'); gh.pop('src'); gh['P'] = ZERO; gh['D'] = ZERO
        del st.objs[o]
        return t

    def load_hook(self, st, o, off, ty, size, ins):
        if st.gh.get('out') == o or self.empty_out(st, o):
            t = self.finished(st, o)
            if t is not None: return self.eng.load(st, ptr(t, off), ty, ins)
        return Api.load_hook(self, st, o, off, ty, size, ins)

    def empty_out(self, st, o):
        """an empty text gives an empty output"""
        gh = st.gh
        if 'src' not in gh or 'out' in gh or not st.eqzero(st.obj(gh['src']).meta['n']) or self.out_block(st) != o: return False
        gh['out'] = o
        return True

    def copy_hook(self, st, do, doff, so, soff, ln, ins):
        if st.gh.get('out') == so:
            t = self.finished(st, so)
            if t is not None:
                self.eng.copyobj(st, ptr(do, doff), ptr(t, soff), ln, ins)
                return True
        return Api.copy_hook(self, st, do, doff, so, soff, ln, ins)


def s_escset(what):
    def f(m, st, v, ins):
        r = m.truthy(st, v, ins)
        gh = st.gh
        if what == 'Key' and gh['v.n'] != 0:
            fa = m.pre(st, gh['v.n'], 'Father')
            if not isnull(fa) and m.T[m.pre(st, fa[1], 'Type').const] != T_OBJ:
                if r: m.fail(st, ins, 'C17', 'gives an array element a key')
                return m.ensure_unchanged(st, ins, 'C10')
        if not r: m.fail(st, ins, 'C17', 'fails for some text although every text can be escaped')
        n, exp, new = target(m, st, ins, 'C17', key=None if what == 'Key' else 'null')
        p = m.cur(st, n, what); ln = m.cur(st, n, 'Len' if what == 'Str' else 'KeyLen')
        if not isptr(p) or isnull(p): m.fail(st, ins, 'C17', 'stores no text')
        if gh.get('esc') is not None:
            t = gh['esc']
            if not m.content_is(st, p, st.obj(t).meta['n'], t, ZERO): m.fail(st, ins, 'C17', 'does not store the escaped text')
            if not m.same(st, ln, st.obj(t).meta['n']): m.fail(st, ins, 'C17', 'the stored length is not that of the escaped text')
            al = gh['escal'] if p[1] == t else st.obj(p[1]).meta.get('al')
        else:
            if not m.complete(st): m.fail(st, ins, 'C17', 'the stored text does not cover the whole given text')
            if 'out' in gh and (p[1] != gh['out'] or st.isconst(p[2]) != 0): m.fail(st, ins, 'C17', 'does not store the escaped text')
            if not m.same(st, ln, gh['D']): m.fail(st, ins, 'C17', 'the stored length is not that of the escaped text')
            al = st.obj(p[1]).meta.get('al') if p[1] > 0 else gh['a']
        if al != gh['a']: m.fail(st, ins, 'C17', 'the escaped text is not owned by the value\'s allocator')
        if what == 'Str':
            check_content(m, st, ins, 'C17', n, T_STR, lambda q: True, None, 'the escaped text')
            finish_set(m, st, ins, n, exp, ('Type', 'Str', 'Len', 'End'))
        else:
            if new: check_content(m, st, ins, 'C17', n, T_NULL, lambda q: m.bytes_are(st, q, b'null', ins), N(4), 'null')
            finish_set(m, st, ins, n, exp, ('Key', 'KeyLen'))
    return f


ent('zj_GetUnEscapeStr', ['v'], s_unesc('Str'), ('C16',) + RO, model=Unesc, src='the string of the value', cost=9)
ent('zj_GetUnEscapeKey', ['v'], s_unesc('Key'), ('C16',) + RO, model=Unesc, src='the key of the value', cost=9)
ent('zj_SetStrEscape', ['v', 'z'], s_escset('Str'), ('C17', 'C10'), model=Escape, cost=9)
ent('zj_SetStrLenEscape', ['v', 't', 'n'], s_escset('Str'), ('C17', 'C10'), model=Escape, cost=9)
ent('zj_SetKeyEscape', ['v', 'z'], s_escset('Key'), ('C17', 'C10'), model=Escape, cost=9)
ent('zj_SetKeyLenEscape', ['v', 't', 'n'], s_escset('Key'), ('C17', 'C10'), model=Escape, cost=9)
