"""The arena allocator and the string buffer: the invariant holds after construction, every operation keeps it and hands
out a block disjoint from all earlier ones, release frees every chunk exactly once; the string buffer operations satisfy
the summaries the other analyses use for them."""
from .ir import AnalysisError
from .dom import *
from .engine import *
from .models import *
from .api import Api, ent

K = 'C06'
CTOR, DTOR = 'zj_Allocator', '~zj_Allocator'


class Arena(Model):
    HIST = 0

    def __init__(self, mod, ent):
        Model.__init__(self, mod)
        self.ent = ent
        self.A = self.fieldmap('zj_Allocator', ('Root', 'End'))
        self.C = self.fieldmap('zj_aNode', ('Data', 'SizeOf', 'Pos', 'Next'))
        self.asize = mod.size(mod.struct_ty('zj_Allocator')); self.csize = mod.size(mod.struct_ty('zj_aNode'))
        self.final = None

    def fieldmap(self, s, need):
        ms = self.mod.members(s)
        if ms is None: raise AnalysisError('struct %s not found' % s)
        d = {n: (off, sz) for n, off, sz, bt in ms}
        for f in need:
            if f not in d: raise AnalysisError('%s has no field %s' % (s, f))
        return d

    def setup(self):
        from . import ir
        self.eng.i8 = ir.ity(8); self.eng.i32 = ir.ity(32); self.tptr = ir.Ty('ptr')

    def merge_ok(self, s, t, r): return True

    def fold(self, st): pass

    # ------------------------------------------------------------------ the pre-state shape is the constructor's result
    def constructed(self, ctor):
        """-> (state after the constructor, allocator object)"""
        fn = self.mod.fn_by_source(ctor)
        if fn is None: raise AnalysisError('constructor %s not found' % ctor)
        mo = Construct(self.mod, dict(name=ctor)); mo.finals = []
        eng = Engine(self.mod, mo); eng.entry = ctor; mo.setup()
        eng.run(fn, mo.start(fn), ctor)
        if eng.findings or eng.partial or len(mo.finals) != 1: raise AnalysisError('the constructor %s is not understood' % ctor)
        return mo.finals[0]

    def base(self, ctor):
        f, al = self.constructed(ctor)
        st = State(self.eng)
        st.objs = {o: ob.clone() for o, ob in f.objs.items()}; st.own = set(st.objs); st.cnt = f.cnt
        for ob in st.objs.values():
            if ob.log is not None or ob.init is not None: raise AnalysisError('the constructor writes chunk data')
            ob.init = ob.fields; ob.fields = {}
            ob.meta['pre'] = 1
        g = st.gh
        g['a'] = al
        r = st.objs[al].init[self.A['Root'][0]][1]
        g['root'] = (r[1], r[2].const)
        p, _ = self.ci(st, g['root'], 'Pos')
        s, _ = self.ci(st, g['root'], 'SizeOf')
        return st

    def ci(self, st, c, f):
        o, b = c
        off, sz = self.C[f]
        v = st.obj(o).init.get(b + off)
        return (v[1] if v else None), sz

    def setci(self, st, c, f, v):
        off, sz = self.C[f]
        st.mut(c[0]).init[c[1] + off] = (sz, v)

    def seta(self, st, f, v):
        off, sz = self.A[f]
        st.mut(st.gh['a']).init[off] = (sz, v)

    def partly_used(self, st, c):
        s, _ = self.ci(st, c, 'SizeOf')
        p = S(st.sym('p')); st.cons += [p, s - p]
        self.setci(st, c, 'Pos', p)
        st.mut(c[0]).meta['ps'] = (st.objs[c[0]].meta.get('ps') or []) + [(p, s)]

    def chunk(self, st, name):
        """another chunk, as the append operation makes them"""
        s = S(st.sym('s')); st.cons.append(s - 1)
        o = st.new(Obj('blk', s + self.csize, name, {'a': 'malloc', 'pre': 1}))
        st.objs[o].init = {}
        c = (o, 0)
        self.setci(st, c, 'Data', ptr(o, N(self.csize))); self.setci(st, c, 'SizeOf', s)
        st.objs[o].meta['ps'] = [(ZERO, s - 1)]
        self.partly_used(st, c)
        return c

    def auto_cons(self, st):
        out = Model.auto_cons(self, st)
        for o, ob in st.objs.items():
            for p, s in ob.meta.get('ps') or ():
                out += [p, s - p]
        return out

    def lazy(self, st, o, c, size, ty, ins):
        ob = st.obj(o)
        if ob.init is None: return UNDEF
        if c in ob.init:
            s, v = ob.init[c]
            if s != size: raise AnalysisError('partial read of a field of %s at %s' % (self.eng.oname(ob), ins.raw))
            return v
        if c == self.C['Next'][0] + self.cbase(st, o) and ob.meta.get('nextopen'):
            self.reveal_next(st, o)
            return st.obj(o).init[c][1]
        if o == st.gh['a'] and c == self.A['End'][0] and st.gh.get('endopen'):
            self.reveal_end(st)
            return st.obj(o).init[c][1]
        return UNDEF

    def cbase(self, st, o):
        return st.gh['root'][1] if o == st.gh['root'][0] else 0

    def is_ptr_field(self, ob, fo): return False

    def store_hook(self, st, o, off, v, ty, size, ins):
        ob = st.obj(o)
        if ob.meta.get('pre'):
            c = off.const
            if c is None or not self.isfield(st, o, c, size):
                self.eng.report(K, st, ins, 'writes into memory that was handed out before')
        return False

    def isfield(self, st, o, c, size):
        if o == st.gh.get('a') and c + size <= self.asize: return True
        if o == st.gh.get('root', (0,))[0]: return st.gh['root'][1] <= c and c + size <= st.gh['root'][1] + self.csize
        return c + size <= self.csize

    def layout(self, ob): return []

    # ------------------------------------------------------------------ reading the state after the call
    def cf(self, st, c, f, ins):
        o, b = c
        off, sz = self.C[f]
        return self.rd(st, o, b + off, sz)

    def af(self, st, f):
        off, sz = self.A[f]
        return self.rd(st, st.gh['a'], off, sz)

    def rd(self, st, o, off, sz):
        ob = st.obj(o)
        if ob.log is not None:
            for e in reversed(ob.log):
                if e[0] != 'v': raise AnalysisError('bulk write over an allocator structure')
                if e[1].const == off and e[2] == sz: return e[3]
            return ob.init.get(off, (0, UNDEF))[1] if ob.init else UNDEF
        if off in ob.fields and ob.fields[off][0] == sz: return ob.fields[off][1]
        if ob.init and off in ob.init: return ob.init[off][1]
        return UNDEF

    def bad(self, st, ins, msg): self.eng.report(K, st, ins, msg)

    def on_return(self, st, v, ins):
        self.eng.stats['returns'] = self.eng.stats.get('returns', 0) + 1
        self.check(st, v, ins)

    def owned(self, st, v, ins, what):
        if not isptr(v) or isnull(v): self.bad(st, ins, '%s is not a valid pointer' % what)
        return v

    def region(self, st, c, ins, what, extra=()):
        """the data region of chunk c: inside its malloc block, not over any header -> (object, offset, size)"""
        d = self.owned(st, self.cf(st, c, 'Data', ins), ins, 'the data pointer of ' + what)
        s = self.cf(st, c, 'SizeOf', ins)
        if not isinstance(s, Num): self.bad(st, ins, 'the size of %s is not set' % what)
        ob = st.obj(d[1])
        if ob.kind != 'blk' or ob.meta.get('a') != 'malloc' or ob.meta.get('freed'): self.bad(st, ins, 'the data of %s is not in memory the allocator obtained' % what)
        if d[1] != c[0]: raise AnalysisError('chunk data outside the block of its header')
        if not st.entails(s - 1): self.bad(st, ins, 'the size of %s may be zero: the arena could never grow from it' % what)
        if not (st.entails(d[2]) and st.entails(ob.size - d[2] - s)): self.bad(st, ins, 'the data of %s may extend past the end of its memory block' % what)
        hdr = [(c[1], self.csize)] + ([(0, self.asize)] if c[0] == st.gh['a'] else [])
        for a, n in hdr:
            if not (st.entails(d[2] - a - n) or st.entails(N(a) - d[2] - s)): self.bad(st, ins, 'the data of %s overlaps the header stored in the same block' % what)
        return d[1], d[2], s

    def is_root(self, c, st): return c == st.gh['root']

    def chunk_of(self, st, v, ins, what):
        v = self.owned(st, v, ins, what)
        if v[2].const is None: raise AnalysisError('chunk at a symbolic offset')
        return (v[1], v[2].const)


class Construct(Arena):
    """zj_NewAllocator and the C++ constructor"""

    def start(self, fn):
        st = State(self.eng)
        st.gh['a'] = O(0); st.gh['root'] = (O(0), 0)
        if len(fn.params) == 1:
            o = st.new(Obj('blk', N(self.asize), 'the allocator', {'a': 'caller'}))
            st.gh['a'] = o; st.gh['this'] = 1
            st.env[fn.params[0][1]] = ptr(o)
        elif fn.params: raise AnalysisError('constructor with parameters')
        return [st]

    def store_hook(self, st, o, off, v, ty, size, ins): return False

    def check(self, st, v, ins):
        if not st.gh.get('this'):
            if not isptr(v) or isnull(v): self.bad(st, ins, 'returns no allocator')
            ob = st.obj(v[1])
            if ob.kind != 'blk' or ob.meta.get('a') != 'malloc' or v[2].const != 0: self.bad(st, ins, 'the allocator is not the start of a malloc block: it cannot be released')
            st.gh['a'] = v[1]
        if not st.entails(st.obj(st.gh['a']).size - self.asize): self.bad(st, ins, 'the block is too small for the allocator')
        r = self.chunk_of(st, self.af(st, 'Root'), ins, 'the root chunk')
        st.gh['root'] = r
        e = self.af(st, 'End')
        if not (isptr(e) and self.same(st, e, self.af(st, 'Root'))): self.bad(st, ins, 'the last chunk of a new allocator is not its root chunk')
        ob = st.obj(r[0])
        if not (st.entails(N(r[1])) and st.entails(ob.size - r[1] - self.csize)): self.bad(st, ins, 'the root chunk header does not fit its block')
        if r[0] == st.gh['a'] and r[1] < self.asize: self.bad(st, ins, 'the root chunk header overlaps the allocator')
        if r[0] != st.gh['a'] and r[1] != 0: self.bad(st, ins, 'the root chunk cannot be freed: it is not at the start of its block')
        if not isnull(self.cf(st, r, 'Next', ins)): self.bad(st, ins, 'the chunk list of a new allocator is not terminated')
        d = self.cf(st, r, 'Data', ins); s = self.cf(st, r, 'SizeOf', ins); p = self.cf(st, r, 'Pos', ins)
        self.region(st, r, ins, 'the root chunk')
        if not (isinstance(p, Num) and st.entails(p) and st.entails(s - p)): self.bad(st, ins, 'the fill position of the root chunk is outside it')
        for o, b in st.objs.items():
            if b.meta.get('a') == 'malloc' and o not in (st.gh['a'], r[0]) and not b.meta.get('freed'): self.bad(st, ins, 'a block it obtained can never be released')
        if not hasattr(self, 'finals'): self.finals = []
        if not any(isinstance(x, Num) and x.const is None for x in (s, p)): self.finals.append((st, st.gh['a']))
        else: raise AnalysisError('symbolic initial size')


class Alloc(Arena):
    """zj_allocatorAlloc with any fill level and any number of chunks"""

    def start(self, fn):
        out = []
        for shape in ('root', 'chunk'):
            st = self.base(self.ent['ctor'])
            g = st.gh; g['shape'] = shape
            root = g['root']
            self.partly_used(st, root)
            if shape == 'root':
                e = root
                self.setci(st, root, 'Next', NULL)
                g['between'] = 0
            else:
                e = self.chunk(st, 'the last chunk')
                self.setci(st, e, 'Next', NULL)
                st.objs[root[0]].init.pop(root[1] + self.C['Next'][0], None)
                st.objs[root[0]].meta['nextopen'] = 1
            self.seta(st, 'End', ptr(e[0], N(e[1])))
            g['e'] = e
            r = S(st.sym('r')); st.cons.append(r); g['r'] = r
            if len(fn.params) != 2: raise AnalysisError('the allocation function has %d parameters' % len(fn.params))
            st.env[fn.params[0][1]] = ptr(g['a']); st.env[fn.params[1][1]] = r
            out.append(st)
        return out

    def reveal_next(self, st, o):
        e = st.gh['e']; c = (o, self.cbase(st, o))
        ch = st.obj(o).meta.get('nx')
        if ch is None: raise Fork([lambda s, k=k: s.mut(o).meta.__setitem__('nx', k) or True for k in ('end', 'more')], 'next')
        if ch == 'end': self.setci(st, c, 'Next', ptr(e[0], N(e[1])))
        else:
            if st.gh.get('between', 0) > 2: raise AnalysisError('walks the whole chunk list')
            m = self.chunk(st, 'an earlier chunk')
            st.gh['between'] = st.gh.get('between', 0) + 1
            st.objs[m[0]].meta['nextopen'] = 1
            self.setci(st, c, 'Next', ptr(m[0]))

    def check(self, st, v, ins):
        g = st.gh; e = g['e']; r = g['r']
        if not isptr(v) or isnull(v): self.bad(st, ins, 'returns no memory')
        root = self.af(st, 'Root')
        if not self.same(st, root, st.obj(g['a']).init[self.A['Root'][0]][1]): self.bad(st, ins, 'loses the first chunk')
        # the list from the old last chunk on
        chain = [e]; c = e
        while True:
            n = self.cf(st, c, 'Next', ins)
            if not isptr(n): self.bad(st, ins, 'the chunk list is not terminated')
            if isnull(n): break
            c = self.chunk_of(st, n, ins, 'the next chunk')
            if c in chain: self.bad(st, ins, 'the chunk list becomes cyclic')
            ob = st.obj(c[0])
            if ob.meta.get('a') != 'malloc' or ob.meta.get('freed') or c[1] != 0 or ob.meta.get('pre'): self.bad(st, ins, 'appends something to the chunk list that is not a fresh memory block')
            chain.append(c)
            if len(chain) > 4: raise AnalysisError('many new chunks')
        end = self.af(st, 'End')
        if not isptr(end) or (end[1], end[2].const) != chain[-1]: self.bad(st, ins, 'the end of the chunk list is not recorded: chunks appended later would be lost')
        for o, ob in st.objs.items():
            if ob.meta.get('a') == 'malloc' and not ob.meta.get('pre') and not ob.meta.get('freed') and (o, 0) not in chain:
                self.bad(st, ins, 'a memory block it obtained is not in the chunk list: it is never released')
            if ob.meta.get('pre') and ob.meta.get('freed'): self.bad(st, ins, 'frees a chunk')
        # old chunks other than e unchanged, e keeps its region
        for o, ob in st.objs.items():
            if not ob.meta.get('pre'): continue
            base = self.cbase(st, o); c = (o, base)
            if o == g['a'] and c != g['root']: continue
            for f in ('Data', 'SizeOf', 'Next'):
                if f == 'Next' and c == e: continue
                w = ob.init.get(base + self.C[f][0])
                if w is None: continue
                if not self.same(st, self.cf(st, c, f, ins), w[1]): self.bad(st, ins, 'changes %s of an existing chunk' % {'Data': 'the data pointer', 'SizeOf': 'the size', 'Next': 'the next link'}[f])
            if c != e and not self.same(st, self.cf(st, c, 'Pos', ins), ob.init[base + self.C['Pos'][0]][1]): raise AnalysisError('the fill level of an earlier chunk changes')
        # where the block lies
        found = False
        for c in chain:
            what = 'the last chunk' if c == e else 'the new chunk'
            o, off, s = self.region(st, c, ins, what)
            p = self.cf(st, c, 'Pos', ins)
            if not isinstance(p, Num): self.bad(st, ins, 'the fill position of %s is not set' % what)
            old = st.obj(e[0]).init[e[1] + self.C['Pos'][0]][1] if c == e else ZERO
            if not st.entails(p - old): self.bad(st, ins, 'the fill position moves back: memory handed out before would be handed out again')
            if not st.entails(s - p): self.bad(st, ins, 'the block reaches past the end of %s' % what)
            if v[1] == o:
                at = v[2] - off
                if not st.entails(at - old): self.bad(st, ins, 'the returned block overlaps memory handed out before')
                if not st.entails(p - at - r): self.bad(st, ins, 'the returned block is not reserved completely: the next one would overlap it')
                found = True
            if c != e and c[0] != o: self.bad(st, ins, 'the new chunk has its data elsewhere')
            if c != e and off.const != self.csize: raise AnalysisError('chunk layout differs from the assumed one')
        if not found: self.bad(st, ins, 'the returned memory is not in a chunk of the allocator')


class Release(Arena):
    """zj_ReleaseAllocator and the C++ destructor: a chunk list of any length, revealed as it is walked"""

    def start(self, fn):
        st = self.base(self.ent['ctor'])
        g = st.gh; root = g['root']
        self.partly_used(st, root)
        st.objs[root[0]].init.pop(root[1] + self.C['Next'][0], None)
        st.objs[root[0]].meta['nextopen'] = 1
        st.objs[g['a']].init.pop(self.A['End'][0], None)
        g['endopen'] = 1; g['last'] = O(0)
        g['chain'] = [root[0]]      # chunks met and not yet (freed with their next link read), in list order
        if len(fn.params) != 1: raise AnalysisError('the release function has %d parameters' % len(fn.params))
        st.env[fn.params[0][1]] = ptr(g['a'])
        return [st]

    def known(self, st, o): return (self.cbase(st, o) + self.C['Next'][0]) in st.obj(o).init

    def frontier(self, st):
        for o in st.gh['chain']:
            if o in st.objs and not self.known(st, o): return o
        return None

    def reveal_next(self, st, o):
        c = (o, self.cbase(st, o)); g = st.gh
        ch = st.obj(o).meta.get('nx')
        last = g['last']
        if ch is None:
            if last == o: ch = 'null'
            else:
                alts = ['more', 'last' if last else 'null']
                if sum(1 for x in g['chain'] if not st.obj(x).meta.get('freed')) > 4:
                    # chunks pile up unfreed: a bounded search only
                    self.eng.partial = self.eng.partial or 'chunks are walked without being freed'
                    alts = alts[1:]
                raise Fork([lambda s, k=k: s.mut(o).meta.__setitem__('nx', k) or True for k in alts], 'next')
        if ch == 'null': n = NULL; g['last'] = o
        elif ch == 'last': n = ptr(last)
        else:
            m = self.chunk(st, 'a chunk')
            st.objs[m[0]].meta['nextopen'] = 1
            n = ptr(m[0]); g['chain'] = g['chain'] + [m[0]]
        if ch == 'last': g['chain'] = g['chain'] + [last]
        self.setci(st, c, 'Next', n)

    def reveal_end(self, st):
        g = st.gh; f = self.frontier(st)
        if f is None:
            if not g['last']: raise AnalysisError('reads the last chunk after the list was walked')
            self.seta(st, 'End', ptr(g['last'], N(self.cbase(st, g['last']))))
            return
        ch = g.get('endis')
        if ch is None: raise Fork([lambda s, k=k: s.gh.__setitem__('endis', k) or True for k in ('here', 'later')], 'end')
        if ch == 'here': o = f
        else:
            o = self.chunk(st, 'the last chunk')[0]
            st.objs[o].meta['nextopen'] = 1
        g['last'] = o
        self.seta(st, 'End', ptr(o, N(self.cbase(st, o))))

    def sync(self, st):
        ch = st.gh['chain']
        n = [o for o in ch if not (st.obj(o).meta.get('freed') and self.known(st, o))]
        if len(n) != len(ch):
            st.gh['chain'] = n
            # a link to a chunk that is done leads to freed memory; which one does not matter
            tomb = st.gh.get('tomb')
            if not tomb: tomb = st.gh['tomb'] = st.new(Obj('blk', N(self.csize), 'a freed chunk', {'a': 'malloc', 'freed': 1}))
            done = {o for o in ch if o not in n and o != st.gh['a']}
            nx = self.C['Next'][0]
            for o in list(st.objs):
                ob = st.objs[o]
                if not ob.meta.get('pre'): continue
                k = self.cbase(st, o) + nx
                w = ob.init.get(k)
                if w and isptr(w[1]) and w[1][1] in done: st.mut(o).init[k] = (8, ptr(tomb))

    def check(self, st, v, ins):
        g = st.gh
        self.sync(st)
        for o in g['chain']:
            ob = st.obj(o)
            if not ob.meta.get('freed'): self.bad(st, ins, '%s is not freed' % ('the first chunk' if o == g['root'][0] else 'a chunk'))
        if g['chain'] and g['chain'] != [g['last']]: self.bad(st, ins, 'the chunks after %s are not freed' % ('the first chunk' if g['chain'][0] == g['root'][0] else 'a chunk'))
        a = st.obj(g['a'])
        if a.meta.get('a') == 'malloc' and not a.meta.get('freed'): self.bad(st, ins, 'the allocator itself is not freed')


# ---------------------------------------------------------------------------------------------- string buffer

class Builder(Model):
    """the string buffer operations, against the summaries used elsewhere"""
    HIST = 0

    def __init__(self, mod, ent):
        Model.__init__(self, mod)
        self.ent = ent
        ms = mod.members('zj_string')
        if ms is None: raise AnalysisError('struct zj_string not found')
        self.F = {n: (off, sz) for n, off, sz, bt in ms}
        for f in ('Data', 'Pos', 'SizeOf', 'A'):
            if f not in self.F: raise AnalysisError('zj_string has no field ' + f)
        self.hsize = mod.size(mod.struct_ty('zj_string'))

    def setup(self):
        from . import ir
        self.eng.i8 = ir.ity(8); self.eng.i32 = ir.ity(32)

    def fold(self, st): pass

    def advance(self, st, o): pass

    def start(self, fn):
        out = []
        op = self.ent['op']
        for shape in (('new',) if op == 'new' else ('apart', 'inside')):
            st = State(self.eng); g = st.gh
            g['a'] = self.allocator(st); g['shape'] = shape
            ps = [r for _, r in fn.params]
            if len(ps) != {'new': 2, 'str': 3, 'char': 2}[op]: raise AnalysisError('%s has %d parameters' % (fn.name, len(ps)))
            if op == 'new':
                c = S(st.sym('c')); st.cons.append(c - 1); g['c'] = c
                st.env[ps[0]] = ptr(g['a']); st.env[ps[1]] = c
                out.append(st); continue
            c = S(st.sym('c')); p = S(st.sym('p')); st.cons += [c - 1, p, c - p]; g['c'] = c; g['p'] = p
            t = self.text(st, 'the text appended before', 0, None, p); g['t'] = t
            h = st.new(Obj('blk', N(self.hsize) if shape == 'apart' else c + self.hsize, 'the string buffer', {'a': 'arena', 'al': g['a'], 'own': 1})); g['h'] = h
            if shape == 'apart':
                d = st.new(Obj('blk', c, 'the text of the string buffer', {'a': 'arena', 'al': g['a'], 'own': 1})); do = ZERO
            else: d = h; do = N(self.hsize)
            g['d'] = d; g['do'] = do
            f = {'Data': ptr(d, do), 'Pos': p, 'SizeOf': c, 'A': ptr(g['a'])}
            st.objs[h].fields = {self.F[k][0]: (self.F[k][1], v) for k, v in f.items()}
            self.eng.tolog(st.objs[d])
            st.objs[d].log.append(('copy', do, t, ZERO, p))
            st.env[ps[0]] = ptr(h)
            if op == 'str':
                n = S(st.sym('n')); st.cons.append(n)
                s = self.text(st, 'the appended bytes', 0, None, n); g['s'] = s; g['n'] = n
                st.env[ps[1]] = ptr(s); st.env[ps[2]] = n
            else:
                b = st.byte(); g['b'] = b; g['n'] = ONE
                st.env[ps[1]] = norm(bident(b), st.dom)
            out.append(st)
        return out

    def hf(self, st, o, f, ins, base=0):
        from . import ir
        off, sz = self.F[f]
        ty = ir.Ty('ptr') if f in ('Data', 'A') else ir.ity(8 * sz)
        return self.eng.load(st, ptr(o, N(base + off)), ty, ins)

    def bad(self, st, ins, msg): self.eng.report(K, st, ins, msg)

    def on_return(self, st, v, ins):
        self.eng.stats['returns'] = self.eng.stats.get('returns', 0) + 1
        g = st.gh; op = self.ent['op']
        if op == 'new':
            if not isptr(v) or isnull(v): self.bad(st, ins, 'returns no buffer')
            h = v[1]
            if v[2].const != 0: raise AnalysisError('the buffer header is not at the start of its block')
        else: h = g['h']
        d = self.hf(st, h, 'Data', ins); p = self.hf(st, h, 'Pos', ins); s = self.hf(st, h, 'SizeOf', ins); a = self.hf(st, h, 'A', ins)
        if not (isptr(a) and a[1] == g['a']): self.bad(st, ins, 'the buffer does not grow in the allocator it was made for')
        if not isptr(d) or isnull(d): self.bad(st, ins, 'the buffer has no data')
        for x in (p, s):
            if not isinstance(x, Num): self.bad(st, ins, 'the fill level or capacity of the buffer is not set')
        ob = st.obj(d[1])
        if ob.kind != 'blk' or ob.meta.get('a') != 'arena' or ob.meta.get('freed'): self.bad(st, ins, 'the text is not kept in the allocator')
        if not st.entails(d[2]) or not st.entails(ob.size - d[2] - s): self.bad(st, ins, 'the capacity of the buffer exceeds its memory')
        if d[1] == h and not st.entails(d[2] - self.hsize): self.bad(st, ins, 'the text overlaps the header of the buffer')
        if not st.entails(s - 1): self.bad(st, ins, 'the buffer can never grow (capacity 0)')
        if op == 'new':
            if not st.eqzero(p): self.bad(st, ins, 'a new buffer is not empty')
            if not st.entails(s - g['c']): self.bad(st, ins, 'a new buffer is smaller than asked for')
            return
        P = g['p']; n = g['n']
        if not st.eqzero(p - P - n): self.bad(st, ins, 'the length of the text is not updated correctly')
        if not st.entails(s - p): self.bad(st, ins, 'the text exceeds the capacity of the buffer')
        if not st.entails(s - g['c']): self.bad(st, ins, 'the capacity shrinks')
        if not self.content_is(st, d, P, g['t'], ZERO): self.bad(st, ins, 'the text appended before is not kept')
        if not self.content_is(st, ptr(g['d'], g['do']), P, g['t'], ZERO): self.bad(st, ins, 'overwrites text appended before')
        if op == 'str':
            if not self.content_is(st, ptr(d[1], d[2] + P), n, g['s'], ZERO): self.bad(st, ins, 'the bytes are not appended')
        else:
            x = self.eng.load(st, ptr(d[1], d[2] + P), self.eng.i8, ins)
            if not isinstance(x, Num) or not st.eqzero(x - norm(bident(g['b']), st.dom)): self.bad(st, ins, 'the byte is not appended')
        if not (d[1] == g['d'] and st.eqzero(d[2] - g['do'])) and not st.entails(P + n - g['c'] - 1):
            raise AnalysisError('the buffer moves although it has room')


CC = ['c', 'c++']
ent('arena:new', [], None, (K,), fn='zj_NewAllocator', model=Construct, keep=[], cfgs=CC)
ent('arena:alloc', [], None, (K,), fn='zj_allocatorAlloc', model=Alloc, ctor='zj_NewAllocator', keep=[], cfgs=CC)
ent('arena:release', [], None, (K,), fn='zj_ReleaseAllocator', model=Release, ctor='zj_NewAllocator', keep=[], cfgs=CC)
ent('arena:constructor', [], None, (K,), fn=CTOR, model=Construct, keep=[CTOR, DTOR], cfgs=['c++'])
ent('arena:alloc-object', [], None, (K,), fn='zj_allocatorAlloc', model=Alloc, ctor=CTOR, keep=[CTOR, DTOR], cfgs=['c++'])
ent('arena:destructor', [], None, (K,), fn=DTOR, model=Release, ctor=CTOR, keep=[CTOR, DTOR], cfgs=['c++'])
KB = ['zj_allocatorAlloc']
ent('buffer:new', [], None, (K,), fn='zj_newString', model=Builder, op='new', keep=KB, cfgs=CC)
ent('buffer:append', [], None, (K,), fn='zj_appendStr', model=Builder, op='str', keep=KB, cfgs=CC)
ent('buffer:append-byte', [], None, (K,), fn='zj_appendChar', model=Builder, op='char', keep=KB, cfgs=CC)
