"""Parsing: the text is run through a specification automaton of JSON (RFC 8259, with a stack of containers) in step with the
interpreted parser.  The ghost keeps the tree the text stands for; finished elements are compared with the nodes the parser built
and then forgotten, enclosing containers are summarised and revealed again when they are closed."""
from .ir import AnalysisError
from .dom import *
from .engine import *
from .models import *
from .api import *
from . import spec
from .spec import ALL

WS = spec._m(b' \t\n\r')
LZ = ('lz',)
OPEN = ('open',)
OK = ('ok',)
OKS = ('oks',)        # a scalar at the root
BODY = ('Type', 'Str', 'Len', 'End')
WORDS = {ord('t'): b'true', ord('f'): b'false', ord('n'): b'null'}


def level(t, els=()):
    return dict(t=t, cnt=ZERO, dF=O(0), dL=O(0), nx=O(0), els=list(els))


def rec(): return dict(k=None, b=None)


class Parse(Api):
    strict = True
    max_shapes = 3000
    derived_bounds = False
    PROP = 'C01'
    GROW = 3
    DEAD = 4

    # ------------------------------------------------------------------ pre-state
    def build(self, fn, var):
        sts = Api.build(self, fn, var)
        for st in sts:
            st.gh['ps'] = ('V',); st.gh['lv'] = [level(0, [rec()])]; st.gh['hid'] = 0; st.gh['base'] = O(0); st.gh['tok'] = ZERO
        return sts

    def discrete_field(self, ob, off):
        if ob.kind == 'blk' and off == self.L.node['Type'] and ob.size is not None and ob.size.const == self.L.nodesize: return True
        return Api.discrete_field(self, ob, off)

    def auto_cons(self, st):
        out = Api.auto_cons(self, st)
        for lv in st.gh['lv']: self.lvcons(lv, out)
        return out

    def lvcons(self, lv, out):
        if lv['dF']: out.append(lv['cnt'] - 1)
        for e in lv['els']:
            if isinstance(e['b'], dict): self.lvcons(e['b'], out)

    # ------------------------------------------------------------------ restricted texts (a search for violations, not a proof)
    def relation(self, st, blk):
        """distances of the live numbers to the scan position, as far as they are small and known"""
        t = st.gh.get('t')
        if t is None or t not in st.objs or st.gh['ps'][0] != 'n': return None
        pos = st.obj(t).meta['pos']; r = []
        for x in sorted(blk.livein):
            v = st.env.get(x)
            if type(v) is Num and not v.bf:
                d = (pos - v).const
                if d is not None and 0 <= d <= 3: r.append((x, d))
        return tuple(r)

    def give_up(self, why):
        if not self.ent.get('profile'): self.eng.partial = why
        raise Kill()

    def allowed(self, st):
        """bytes of a restricted text in the current state"""
        gh = st.gh; k = gh['ps'][0]; pr = self.ent['profile']
        m = ALL
        if k == 'X': return spec._m(b'0"]}:')
        deep = len(gh['lv']) > 2 or gh['hid']
        if pr == 'tree':
            m &= ~WS
            if k in ('V', 'V]'): m &= ~spec._m(b'-0ftn"' + b'23456789')
            if k in ('k', 's'): m = spec._m(b'a') if st.entails(gh['tok'] - st.obj(gh['t']).meta['pos']) else spec._m(b'"')
            if k == 'n': m &= ~spec._m(b'0123456789.eE')
        elif pr == 'fail':
            m &= ~WS
            deep = len(gh['lv']) > 1 or gh['hid']
            if k in ('V', 'V]'): m &= spec._m(b'[{"n0]\0')
            elif k in ('k', 's'): m &= spec._m(b'a\0') if st.entails(gh['tok'] - st.obj(gh['t']).meta['pos']) else spec._m(b'"\0')
            elif k == 'n': m &= spec._m(b']}x\0')
            elif k in ('A', 'P', 'Z'): m &= spec._m(b']}x\0')
        else:
            deep = len(gh['lv']) > 1 or gh['hid']
            if k in ('k', 's') and gh['ps'][1] == 'S' and not st.entails(gh['tok'] + 1 - st.obj(gh['t']).meta['pos']): m &= spec._m(b'"') | spec.CTRL
            if k == 'n' and not st.entails(gh['tok'] + 5 - st.obj(gh['t']).meta['pos']): m &= ~spec.DIG
        if deep and k in ('V', 'V]'): m &= ~spec._m(b'[{')
        if k in ('A', 'n', 'P') and gh.get('ne', 0) >= (2 if pr == 'tree' else 1): m &= ~spec._m(b',')
        return m

    # ------------------------------------------------------------------ the automaton
    def after(self, st, mask):
        """groups of bytes after a finished value"""
        lv = st.gh['lv']
        out = []
        w = mask & WS
        if w: out.append((w, ('after',)))
        rest = mask & ~WS
        if len(lv) > 1:
            t = lv[-1]['t']
            cl = 1 << (0x5d if t == T_ARR else 0x7d)
            if rest & (1 << 0x2c): out.append((1 << 0x2c, ('comma',)))
            if rest & cl: out.append((cl, ('close',)))
            rest &= ~(cl | 1 << 0x2c)
        if rest: out.append((rest, ('dead',)))
        return out

    def vstart(self, mask, close=0):
        out = []

        def add(m, a):
            nonlocal mask
            x = mask & m
            if x: out.append((x, a)); mask &= ~m
        add(WS, ('ws',))
        if close: add(1 << close, ('close',))
        add(1 << 0x5b, ('open', T_ARR)); add(1 << 0x7b, ('open', T_OBJ)); add(1 << 0x22, ('str',))
        for c, w in WORDS.items(): add(1 << c, ('lit', w.decode(), 1))
        add(spec._m(b'-'), ('num', 'm')); add(spec._m(b'0'), ('num', 'z')); add(spec.D19, ('num', 'i'))
        if mask: out.append((mask, ('dead',)))
        return out

    def groups(self, st, mask):
        ps = st.gh['ps']; k = ps[0]
        if k == 'V': return self.vstart(mask)
        if k == 'V]': return self.vstart(mask, 0x5d)
        if k in ('K', 'K}', 'C'):
            out = []
            for m, a in ((WS, ('ws',)),) + (((1 << 0x3a, ('colon',)),) if k == 'C' else ((1 << 0x22, ('key',)),)) + (((1 << 0x7d, ('close',)),) if k == 'K}' else ()):
                if mask & m: out.append((mask & m, a)); mask &= ~m
            if mask: out.append((mask, ('dead',)))
            return out
        if k in ('k', 's'):
            out = []
            if ps[1] == 'S' and mask & (1 << 0x22): out.append((1 << 0x22, ('endkey' if k == 'k' else 'endstr',))); mask &= ~(1 << 0x22)
            if mask: out += [(m, ('dead',) if q == spec.X else ('in', k, q)) for m, q in spec.STR.groups(ps[1], mask)]
            return out
        if k == 'n':
            out = []
            for m, q in spec.NUM.groups(ps[1], mask):
                if q != spec.X: out.append((m, ('in', 'n', q)))
                elif ps[1] in spec.NUM.accept: out += [(mm, ('numend',) + a if a[0] != 'dead' else a) for mm, a in self.after(st, m)]
                else: out.append((m, ('dead',)))
            return out
        if k == 'l':
            w = ps[1]; c = 1 << ord(w[ps[2]])
            out = []
            if mask & c: out.append((c, ('endlit', w) if ps[2] == len(w) - 1 else ('lit', w, ps[2] + 1)))
            if mask & ~c: out.append((mask & ~c, ('dead',)))
            return out
        if k in ('A', 'Z'): return self.after(st, mask)
        if k == 'P':
            return [(m, a) for m, a in ((mask & WS, ('ws',)), (mask & ~WS, ('mat',))) if m]
        return [(mask, ('dead',))]

    def accepts(self, st):
        """is the text complete if it ends here"""
        ps = st.gh['ps']
        return ps[0] == 'Z' or (ps[0] == 'n' and ps[1] in spec.NUM.accept and len(st.gh['lv']) == 1 and not st.gh['hid'])

    def act(self, st, a, pos):
        """process one byte at text offset pos"""
        gh = st.gh; k = a[0]
        if k == 'dead':
            gh['ps'] = ('X',); gh['tok'] = ZERO; gh['dn'] = gh.get('dn', 0) + 1
            if gh['dn'] > (6 if self.ent.get('profile') else self.DEAD): self.give_up('the parser goes on in an invalid text')
            return
        if k == 'numend':
            self.setbody(st, ('num', gh['tok'], pos))
            a = a[1:]; k = a[0]
        if k == 'ws': return
        if k == 'after': gh['ps'] = ('Z',) if len(gh['lv']) == 1 and not gh['hid'] else ('A',); gh['tok'] = ZERO; return
        if k == 'in': gh['ps'] = (a[1], a[2]); return
        if k == 'colon': gh['ps'] = ('V',); return
        if k == 'comma':
            lv = gh['lv'][-1]; lv['els'].append(rec())
            if self.ent.get('profile'): gh['ne'] = gh.get('ne', 0) + 1
            gh['ps'] = ('V',) if lv['t'] == T_ARR else ('K',); gh['tok'] = ZERO
            return
        if k in ('key', 'str', 'num', 'lit', 'open') and gh['ps'][0] in ('V]', 'K}'): gh['lv'][-1]['els'].append(rec())
        if k == 'key': gh['ps'] = ('k', 'S'); gh['tok'] = pos + 1; return
        if k == 'str': gh['ps'] = ('s', 'S'); gh['tok'] = pos + 1; return
        if k == 'num': gh['ps'] = ('n', a[1]); gh['tok'] = pos; return
        if k == 'lit': gh['ps'] = ('l', a[1], a[2]); return
        if k == 'endkey': gh['lv'][-1]['els'][-1]['k'] = (gh['tok'], pos); gh['ps'] = ('C',); gh['tok'] = ZERO; return
        if k == 'endstr': self.setbody(st, ('str', gh['tok'], pos))
        elif k == 'endlit': self.setbody(st, ('lit', a[1]))
        elif k == 'open':
            gh['lv'][-1]['els'][-1]['b'] = OPEN
            gh['lv'].append(level(a[1])); gh['ps'] = ('V]',) if a[1] == T_ARR else ('K}',); gh['tok'] = ZERO
            return
        elif k == 'close':
            lv = gh['lv'].pop()
            if len(gh['lv']) == 1 and gh['hid']:
                gh['cl'] = lv; gh['ps'] = ('P',); gh['tok'] = ZERO
                return
            gh['lv'][-1]['els'][-1]['b'] = lv
        else: raise AnalysisError('action %r' % (a,))
        gh['ps'] = ('Z',) if len(gh['lv']) == 1 and not gh['hid'] else ('A',); gh['tok'] = ZERO

    def setbody(self, st, b): st.gh['lv'][-1]['els'][-1]['b'] = b

    def advance(self, st, o):
        if o != st.gh['t']: return Api.advance(self, st, o)
        m = st.obj(o).meta
        while m['win']:
            b = m['win'][0]
            if self.ent.get('profile') and not st.refine(b, self.allowed(st) | 1): raise Kill()
            if st.dom[b] & 1: break
            g = self.groups(st, st.dom[b])
            if len(g) != 1: break
            if g[0][1][0] == 'mat': self.materialise(st); continue
            if g[0][1][0] == 'dead' and len(m['win']) < 2: break        # the parser may look at it again
            self.act(st, g[0][1], m['pos'])
            m = st.mut(o).meta
            m['win'] = m['win'][1:]; m['pos'] = m['pos'] + 1
            if self.HIST: m['hist'] = ((m.get('hist') or []) + [b])[-self.HIST:]

    def rebase(self, st, o, off, ins):
        # only a text already known to be invalid may be looked at again
        if o == st.gh['t'] and st.gh['ps'][0] != 'X': return None
        return Api.rebase(self, st, o, off, ins)

    def invalid(self, st):
        """no continuation of what has been read is a JSON text"""
        if st.gh['ps'][0] == 'X': return True
        w = st.obj(st.gh['t']).meta['win']
        if not w or st.dom[w[0]] & 1: return False
        g = self.groups(st, st.dom[w[0]])
        return len(g) == 1 and g[0][1][0] == 'dead'

    def follow(self, st):
        """in an invalid text, let the scan position follow the parser's"""
        if not self.invalid(st): return
        t = st.gh['t']; m = st.obj(t).meta; best = None
        for v in st.env.values():
            if isptr(v) and v[1] == t: v = v[2]
            if isinstance(v, Num) and v.co == m['pos'].co and not v.bf:
                d = v.k - m['pos'].k
                if type(d) is not int: continue
                if 0 <= d <= len(m['win']) and (best is None or d > best[0]): best = (d, v)
        if best is None or best[0] == 0: return
        if best[0] > 0:
            for _ in range(best[0]):
                m = st.mut(t).meta
                if st.dom[m['win'][0]] & 1: return
                self.act(st, ('dead',), m['pos'])
                m['hist'] = [m['win'][0]][:self.HIST]; m['win'] = m['win'][1:]; m['pos'] = m['pos'] + 1

    def sync(self, st):
        Api.sync(self, st)
        t = st.gh['t']; w = st.obj(t).meta['win']
        if len(w) > 1 and not (st.dom[w[0]] & 1 and st.dom[w[0]] != 1):
            # the parser has passed a byte without telling a valid from an invalid one
            g = self.groups(st, st.dom[w[0]])
            if len(g) > 1: raise Fork([(lambda s, mm=mm: s.refine(w[0], mm)) for mm, _ in g], 'spec')
        self.follow(st)
        if self.HIST == 1 and st.gh['ps'][0] not in ('n', 'l'):
            # the byte just consumed matters only at the start of a number or a literal (a read of it elsewhere asks for more history)
            t = st.gh['t']
            if st.obj(t).meta.get('hist'): st.mut(t).meta['hist'] = []
        if st.gh['lv'] and self.ent.get('profile') != 'tree': self.reduce(st, self.envrefs(st))

    # ------------------------------------------------------------------ the tree so far
    def envrefs(self, st):
        refs = set()

        def scan(x):
            t = type(x)
            if t is O: refs.add(x)
            elif t is tuple:
                for e in x: scan(e)
        for v in st.env.values(): scan(v)
        return refs

    def isnode(self, st, p):
        if not isptr(p) or p[1] <= 0: return False
        ob = st.obj(p[1])
        if ob.kind == 'node': return p[2].const == 0
        return ob.kind == 'blk' and ob.meta.get('a') == 'arena' and ob.size is not None and ob.size.const == self.L.nodesize and p[2].const == 0

    def rootnode(self, st):
        p = self.valN(st, st.gh['v'])
        return p[1] if self.isnode(st, p) else None

    def fld(self, st, o, f):
        """current value of a field of a node; None if it still has its value from before the call"""
        off = self.L.node[f]; ob = st.obj(o)
        if off in ob.fields: return ob.fields[off][1]
        return UNDEF if ob.init is None else None

    def setfld(self, st, o, f, v):
        off = self.L.node[f]
        st.mut(o).fields[off] = (self.L.nsz[off], v)

    def lvnode(self, st, i):
        """node of explicit level i (the container whose elements it lists)"""
        gh = st.gh
        if i == 1: return gh['base'] if gh['hid'] else self.rootnode(st)
        f = self.lvnode(st, i - 1)
        return None if f is None else self.elnode(st, gh['lv'][i - 1], f, len(gh['lv'][i - 1]['els']) - 1)

    def elnode(self, st, lv, F, j):
        p = ptr(lv['nx']) if lv['dL'] else self.fld(st, F, 'Node')
        for _ in range(j):
            if not self.isnode(st, p) or st.obj(p[1]).kind == 'node': return None
            p = self.fld(st, p[1], 'Next')
        return p[1] if self.isnode(st, p) and st.obj(p[1]).kind == 'blk' else None

    def body_bad(self, st, o, b, ins=None):
        """None if node o has exactly the type and content b, else what is wrong"""
        T = self.fld(st, o, 'Type'); ln = self.fld(st, o, 'Len'); p = self.fld(st, o, 'Str')
        t = st.gh['t']
        if b == OK: return None if all(self.fld(st, o, f) == LZ for f in BODY) else 'the content of an element is overwritten'
        if b == OKS: return None if all(self.fld(st, o, f) == LZ for f in BODY[:3]) else 'the content of the value is overwritten'
        if isinstance(b, dict): want = b['t']
        else: want = {'str': T_STR, 'num': T_NUM, 'lit': T_NULL if b[1] == 'null' else T_BOOL}[b[0]]
        if not isinstance(T, Num) or st.isconst(T) != self.TV[want]: return 'the type of a %s is not set' % TNAME[want].lower()
        if isinstance(b, dict):
            if b['els']: return 'elements'
            if not isinstance(ln, Num) or not st.eqzero(ln - b['cnt']): return 'the element count of a container is wrong'
            if not b['dF']: return None if p is not None and isnull(p) else 'the first-child link of an empty container is not cleared'
            if not isptr(p) or p[1] != b['dF']: return 'the first-child link of a container is wrong'
            e = self.fld(st, o, 'End')
            if not isptr(e) or e[1] != b['dL']: return 'the last-child link of a container is wrong'
            return None
        if not isptr(p) or isnull(p): return 'the text of a %s is not set' % TNAME[want].lower()
        if b[0] == 'lit':
            w = b[1].encode()
            if not isinstance(ln, Num) or st.isconst(ln) != len(w): return 'the length of a literal is wrong'
            ok = p[1] < 0 and self.bytes_are(st, p, w, ins)
            return None if ok else 'a literal does not refer to its characters'
        if p[1] != t or not st.eqzero(p[2] - b[1]):
            if not (st.eqzero(b[2] - b[1])): return 'a %s does not start at its first character' % TNAME[want].lower()
        if not isinstance(ln, Num) or not st.eqzero(ln - (b[2] - b[1])): return 'the length of a %s is wrong' % TNAME[want].lower()
        return None

    def key_bad(self, st, o, k, t):
        p = self.fld(st, o, 'Key')
        if k == LZ: return None if p == LZ else 'a key is overwritten'
        if t == T_ARR: return None if p is not None and isptr(p) and isnull(p) else 'an array element has a key'
        if k is None: return 'key'
        if not isptr(p) or p[1] != st.gh['t'] or not st.eqzero(p[2] - k[0]): return 'a key does not start at its first character'
        ln = self.fld(st, o, 'KeyLen')
        if not isinstance(ln, Num) or not st.eqzero(ln - (k[1] - k[0])): return 'the length of a key is wrong'
        return None

    def el_bad(self, st, F, lv, o, r):
        """element o of container F against its record (without its sibling links)"""
        if r['b'] is None or r['b'] == OPEN: return 'unfinished'
        if st.obj(o).meta.get('al') != st.gh['a']: return 'a node is not owned by the value\'s allocator'
        fa = self.fld(st, o, 'Father')
        if not isptr(fa) or fa[1] != F: return 'the parent link of an element is wrong'
        x = self.key_bad(st, o, r['k'], lv['t'])
        if x: return x
        return self.body_bad(st, o, r['b'])

    def prev_bad(self, st, lv, F, o):
        p = self.fld(st, o, 'Prev')
        if lv['dL']: ok = isptr(p) and p[1] == lv['dL']
        else: ok = p is not None and isptr(p) and isnull(p)
        return None if ok else 'the previous link of an element is wrong'

    def tokens(self, st, lv):
        if not lv['dF']:
            lv['dF'] = st.new(Obj('tok', None, 'the first element')); lv['dL'] = st.new(Obj('tok', None, 'the last element'))

    def fold_first(self, st, lv, F, busy):
        """forget the first explicit element of a container if it is finished, right, and followed by another one"""
        o = self.elnode(st, lv, F, 0)
        if o is None or o in busy: return False
        if self.el_bad(st, F, lv, o, lv['els'][0]) or self.prev_bad(st, lv, F, o): return False
        n = self.fld(st, o, 'Next')
        if not self.isnode(st, n) or st.obj(n[1]).kind != 'blk': return False
        p = self.fld(st, n[1], 'Prev'); e = self.fld(st, F, 'End')
        if not isptr(p) or p[1] != o or isptr(e) and e[1] == o: return False
        first = not lv['dF']
        self.tokens(st, lv)
        if first: self.setfld(st, F, 'Node', ptr(lv['dF']))
        self.setfld(st, n[1], 'Prev', ptr(lv['dL']))
        lv['nx'] = n[1]; lv['cnt'] = lv['cnt'] + 1; lv['els'].pop(0)
        return True

    def last_bad(self, st, lv, F):
        """the remaining single element of a closed container"""
        o = self.elnode(st, lv, F, 0)
        if o is None: return 'an element of the text has no node'
        x = self.el_bad(st, F, lv, o, lv['els'][0]) or self.prev_bad(st, lv, F, o)
        if x: return x
        n = self.fld(st, o, 'Next')
        if n is None or not isptr(n) or not isnull(n): return 'the next link of a last element is not cleared'
        e = self.fld(st, F, 'End')
        if not isptr(e) or e[1] != o: return 'the last-child link of a container is wrong'
        return None

    def fold_closed(self, st, lv, F, busy):
        ch = False
        while len(lv['els']) > 1 and self.inner(st, lv, F, 0, busy) | self.fold_first(st, lv, F, busy): ch = True
        if len(lv['els']) == 1:
            self.inner(st, lv, F, 0, busy)
            o = self.elnode(st, lv, F, 0)
            if o is not None and o not in busy and self.last_bad(st, lv, F) is None:
                first = not lv['dF']
                self.tokens(st, lv)
                if first: self.setfld(st, F, 'Node', ptr(lv['dF']))
                self.setfld(st, F, 'End', ptr(lv['dL']))
                lv['cnt'] = lv['cnt'] + 1; lv['els'] = []; lv['nx'] = O(0); ch = True
        return ch

    def inner(self, st, lv, F, j, busy):
        b = lv['els'][j]['b']
        if isinstance(b, dict) and b['els']:
            o = self.elnode(st, lv, F, j)
            if o is not None: return self.fold_closed(st, b, o, busy)
        return False

    def reduce(self, st, busy):
        gh = st.gh; lvs = gh['lv']
        for i in range(1, len(lvs)):
            F = self.lvnode(st, i)
            if F is None: break
            lv = lvs[i]
            while lv['els']:
                for j in range(len(lv['els'])): self.inner(st, lv, F, j, busy)
                if len(lv['els']) < 2 or not self.fold_first(st, lv, F, busy): break
            # the latest element, once finished and right
            if lv['els'] and lv['els'][-1]['b'] not in (None, OPEN, OK):
                o = self.elnode(st, lv, F, len(lv['els']) - 1)
                r = lv['els'][-1]
                if o is not None and self.el_bad(st, F, lv, o, r) is None: self.verified(st, o, r)
        if 'cl' in gh and gh['cl'] != OK:
            if gh['cl']['els']: self.fold_closed(st, gh['cl'], gh['base'], busy)
            if self.body_bad(st, gh['base'], gh['cl']) is None:
                for f in BODY: self.setfld(st, gh['base'], f, LZ)
                gh['cl'] = OK
        r = lvs[0]['els'][0]['b'] if lvs else None
        if isinstance(r, dict) and r['els']:
            o = self.rootnode(st)
            if o is not None: self.fold_closed(st, r, o, busy)
        elif isinstance(r, tuple) and r[0] in ('str', 'num', 'lit'):
            o = self.rootnode(st)
            if o is not None and self.body_bad(st, o, r) is None:
                for f in BODY[:3]: self.setfld(st, o, f, LZ)
                lvs[0]['els'][0]['b'] = OKS
        while len(lvs) > 2 and self.bury(st, busy): pass
        n = len(lvs)

        def size(lv):
            k = len(lv['els'])
            for e in lv['els']:
                if isinstance(e['b'], dict): k += size(e['b'])
            return k
        if n > self.GROW or sum(size(x) for x in lvs) > self.GROW + 2:
            self.unmatched(st)
            self.give_up('elements of the tree cannot be matched with the text')

    def unmatched(self, st):
        """the key or content of an element that was passed long ago differs from the text"""
        if self.ent.get('profile'): return
        for i in range(1, len(st.gh['lv'])):
            F = self.lvnode(st, i); lv = st.gh['lv'][i]
            if F is None: return
            for j, r in enumerate(lv['els'][:-2]):
                o = self.elnode(st, lv, F, j)
                if o is None or st.obj(o).kind != 'blk': return
                if not isinstance(r['b'], tuple) or r['b'] in (OPEN, OK, OKS): continue
                x = self.key_bad(st, o, r['k'], lv['t']) or self.body_bad(st, o, r['b'])
                if x: self.fail(st, next((q for q in st.blk.insts if self.eng.line(q)[0]), st.blk.insts[0]), 'C02', x)
            if lv['els'] and lv['els'][-1]['b'] == OPEN and i < len(st.gh['lv']) - 1:
                o = self.elnode(st, lv, F, len(lv['els']) - 1)
                x = o is not None and st.obj(o).kind == 'blk' and self.key_bad(st, o, lv['els'][-1]['k'], lv['t'])
                if x: self.fail(st, next((q for q in st.blk.insts if self.eng.line(q)[0]), st.blk.insts[0]), 'C02', x)

    def verified(self, st, o, r):
        for f in BODY + ('Key', 'KeyLen'): self.setfld(st, o, f, LZ)
        r['b'] = OK; r['k'] = LZ

    def bury(self, st, busy):
        gh = st.gh; lvs = gh['lv']
        G = self.lvnode(st, 1); lv = lvs[1]
        if G is None or len(lv['els']) != 1 or lv['els'][0]['b'] != OPEN: return False
        F = self.elnode(st, lv, G, 0)
        root = not gh['hid']
        if F is None or F in (G,): return False
        if G in busy and not root: return False
        if root and G in busy and any(isptr(v) and v[1] == G and not self.isnode(st, v) for v in st.env.values()): return False
        T = self.fld(st, G, 'Type'); ln = self.fld(st, G, 'Len'); e = self.fld(st, G, 'End'); fa = self.fld(st, F, 'Father')
        if not isinstance(T, Num) or st.isconst(T) != self.TV[lv['t']]: return False
        if not isinstance(ln, Num) or not st.eqzero(ln - lv['cnt'] - 1): return False
        if not isptr(e) or e[1] != F or not isptr(fa) or fa[1] != G: return False
        if st.obj(F).meta.get('al') != gh['a']: return False
        if self.prev_bad(st, lv, G, F) or self.key_bad(st, F, lv['els'][0]['k'], lv['t']): return False
        nd = self.fld(st, G, 'Node')
        if not isptr(nd) or nd[1] != (lv['dF'] or F): return False
        up = st.new(Obj('up', None, 'an enclosing container'))
        self.setfld(st, F, 'Father', ptr(up))
        for f in ('Prev', 'Key', 'KeyLen'): self.setfld(st, F, f, LZ)
        if root:
            for f in ('Type', 'Node', 'Len', 'End'): self.setfld(st, G, f, LZ)
        gh['hid'] = 1; gh['base'] = F
        del lvs[1]
        return True

    def materialise(self, st):
        """make the parent of the outermost explicit container explicit"""
        gh = st.gh
        if not gh['hid']:
            if gh['ps'][0] == 'X': self.give_up('the parser goes on in an invalid text')
            raise AnalysisError('access to an enclosing container')
        F = gh['base']
        if 'mat' not in gh:
            raise Fork([(lambda s, c=(r, t, f): self.set_gh(s, 'mat', c)) for r in ((1,) if self.ent.get('profile') else (0, 1)) for t in (T_ARR, T_OBJ) for f in (0, 1)], 'enclosing container')
        root, t, first = gh.pop('mat')
        if gh.get('ghost'):
            # the parser has given up: only the text matters
            gh['lv'].insert(1, level(t, [dict(k=LZ, b=gh.pop('cl', OPEN))]))
            if gh['ps'][0] == 'P': gh['ps'] = ('A',)
            if root: gh['hid'] = 0
            return
        fa = self.fld(st, F, 'Father')
        up = fa[1] if isptr(fa) and fa[1] > 0 and st.obj(fa[1]).kind == 'up' else None
        if up is None: raise AnalysisError('the parent link of an open container changes')
        lv = level(t, [dict(k=LZ, b=OPEN)])
        if 'cl' in gh: lv['els'][0]['b'] = gh.pop('cl'); gh['ps'] = ('A',)
        if not first:
            self.tokens(st, lv); c = S(st.sym('c')); st.cons.append(c - 1); lv['cnt'] = c
        if root:
            G = self.rootnode(st)
            if G is None or any(self.fld(st, G, f) != LZ for f in ('Type', 'Node', 'Len', 'End')): raise AnalysisError('the root changes while its elements are parsed')
            gh['hid'] = 0; gh['base'] = O(0)
        else:
            G = st.new(Obj('blk', N(self.L.nodesize), 'an allocated block', {'a': 'arena', 'al': gh['a']}))
            u2 = st.new(Obj('up', None, 'an enclosing container'))
            self.setfld(st, G, 'Father', ptr(u2))
            for f in ('Prev', 'Key', 'KeyLen'): self.setfld(st, G, f, LZ)
            gh['base'] = G
        lv['nx'] = F if not first else O(0)
        self.setfld(st, G, 'Type', N(self.TV[t])); self.setfld(st, G, 'Len', lv['cnt'] + 1)
        self.setfld(st, G, 'Node', ptr(F) if first else ptr(lv['dF'])); self.setfld(st, G, 'End', ptr(F))
        if self.fld(st, F, 'Prev') == LZ: self.setfld(st, F, 'Prev', NULL if first else ptr(lv['dL']))
        gh['lv'].insert(1, lv)
        self.replace(st, up, G)

    def replace(self, st, a, b):
        def re(x):
            k = type(x)
            if k is O: return b if x == a else x
            if k is tuple: return tuple(re(e) for e in x)
            if k is list: return [re(e) for e in x]
            if k is dict: return {q: re(e) for q, e in x.items()}
            return x
        st.env = re(st.env)
        for q in list(st.objs):
            ob = st.objs[q]
            nf = re(ob.fields)
            if nf != ob.fields: st.mut(q).fields = nf
        if a in st.objs: del st.objs[a]

    # ------------------------------------------------------------------ accesses
    def load_hook(self, st, o, off, ty, size, ins):
        ob = st.obj(o)
        if ob.kind == 'up':
            self.force(st)
        if ob.kind == 'tok': raise AnalysisError('access to an earlier element at %s' % ins.raw)
        c = off.const
        if c is not None and c in ob.fields and ob.fields[c][1] == LZ:
            if self.L.nname[c] not in ('Prev', 'Type', 'Node', 'Str', 'Len', 'End') or st.obj(o).kind == 'blk' and c != self.L.node['Prev']:
                fa = self.L.node['Father']
                if any(fa in x.fields and x.fields[fa][1] == ptr(o) for x in st.objs.values() if x.kind == ob.kind):
                    self.eng.report('C02', st, ins, 'an element that is complete is the parent of a later element')
                raise AnalysisError('reads a finished element again at %s' % ins.raw)
            self.force(st)
        return Api.load_hook(self, st, o, off, ty, size, ins)

    def text_load(self, st, o, off, ty, size, ins):
        v = Api.text_load(self, st, o, off, ty, size, ins)
        if o == st.gh['t'] and self.ent.get('profile') and isinstance(v, Num) and v.bf:
            w = st.obj(o).meta['win']
            if w and not st.refine(w[0], self.allowed(st) | 1): raise Kill()
            v = norm(v, st.dom)
        return v

    def force(self, st):
        """materialise and re-execute the instruction"""
        self.materialise(st)
        raise Fork([lambda s: True], 'again')

    def store_hook(self, st, o, off, v, ty, size, ins):
        k = st.obj(o).kind
        if k == 'tok': raise AnalysisError('write to an earlier element at %s' % ins.raw)
        if k == 'up': self.force(st)
        return Api.store_hook(self, st, o, off, v, ty, size, ins)

    def ptrcmp(self, st, pred, a, b, ins):
        for x, y in ((a, b), (b, a)):
            if x[1] > 0 and st.obj(x[1]).kind == 'up' and y[1] != 0 and y[1] != x[1]: self.force(st)
            if x[1] > 0 and st.obj(x[1]).kind == 'tok' and y[1] > 0 and st.obj(y[1]).kind == 'tok' and y[1] != x[1]: raise AnalysisError('comparison of earlier elements')
        return None

    # ------------------------------------------------------------------ results
    def finish_text(self, st):
        """-> 'dead' | 'yes' (complete JSON text, at its end) | 'no' (ends too early) | 'open'"""
        gh = st.gh; o = gh['t']
        self.advance(st, o)
        m = st.obj(o).meta
        if self.invalid(st): return 'dead'
        if m['win']:
            b = m['win'][0]
            if st.dom[b] & 1:
                if st.dom[b] != 1: raise Fork([lambda s: s.refine(b, 1), lambda s: s.refine(b, FULL & ~1)], 'end')
                return 'yes' if self.accepts(st) else 'no'
            g = self.groups(st, st.dom[b])
            raise Fork([(lambda s, mm=mm: s.refine(b, mm)) for mm, _ in g], 'spec')
        rest = m['n'] - m['pos']
        if st.entails(rest.scale(-1)): return 'yes' if self.accepts(st) else 'no'
        if st.entails(rest - 1): return 'open'
        raise Fork([lambda s: s.assume_eq(rest), lambda s: s.assume(rest - 1)], 'rest')


def s_parse(m, st, v, ins):
    gh = st.gh
    r = m.truthy(st, v, ins)
    if not r: gh['ghost'] = 1
    k = m.finish_text(st)
    if not r:
        if k == 'yes': m.fail(st, ins, 'C01', 'rejects a valid JSON text')
        if k == 'open': m.fail(st, ins, 'C01', 'gives up before the text is known to be invalid')
        m.ensure_unchanged(st, ins, 'C10')
        return
    if k == 'dead': m.fail(st, ins, 'C01', 'accepts a text that is not JSON')
    if k == 'no': m.fail(st, ins, 'C01', 'accepts a JSON text that is cut off')
    if k == 'open': m.fail(st, ins, 'C01', 'accepts a text without looking at all of it')
    if gh['ps'][0] == 'n': m.setbody(st, ('num', gh['tok'], st.obj(gh['t']).meta['pos'])); gh['ps'] = ('Z',)
    if m.ent.get('profile') != 'tree': m.reduce(st, set())
    n, exp, new = target(m, st, ins, 'C02')
    b = gh['lv'][0]['els'][0]['b']
    x = m.why(st, n, b, ins)
    if x: m.fail(st, ins, 'C02', x)
    fs = {m.L.node[f] for f in ('Type', 'Str', 'Len', 'End')}
    for f in ('Type', 'Str', 'Len', 'End'): exp[(n, f)] = lambda got: True
    if new: exp = {k: w for k, w in exp.items() if k[1] == 'N'}
    m.diff(st, ins, 'C02', exp)


def why(m, st, o, b, ins):
    """first mismatch of node o with the (closed) content b"""
    if isinstance(b, dict) and b['els']:
        for j, e in enumerate(b['els']):
            q = m.elnode(st, b, o, j)
            if q is None: return 'an element of the text has no node in its place'
            x = m.key_bad(st, q, e['k'], b['t']) or why(m, st, q, e['b'], ins)
            if x: return x
            fa = m.fld(st, q, 'Father')
            if not isptr(fa) or fa[1] != o: return 'the parent link of an element is wrong'
            if st.obj(q).meta.get('al') != st.gh['a']: return 'a node is not owned by the value\'s allocator'
            p = m.fld(st, q, 'Prev')
            want = m.elnode(st, b, o, j - 1) if j else b['dL']
            if not isptr(p) or p[1] != (want or 0): return 'the previous link of an element is wrong'
        n = m.fld(st, q, 'Next')
        if n is None or not isptr(n) or not isnull(n): return 'the next link of a last element is not cleared'
        e = m.fld(st, o, 'End')
        if not isptr(e) or e[1] != q: return 'the last-child link of a container is wrong'
        ln = m.fld(st, o, 'Len')
        if not isinstance(ln, Num) or not st.eqzero(ln - b['cnt'] - len(b['els'])): return 'the element count of a container is wrong'
        T = m.fld(st, o, 'Type')
        if not isinstance(T, Num) or st.isconst(T) != m.TV[b['t']]: return 'the type of a %s is not set' % TNAME[b['t']].lower()
        return None
    return m.body_bad(st, o, b, ins)


Parse.why = why

for _n, _k, _p in (('zj_ParseFast', 'null', None), ('zj_ParseFast:node', 'node', None), ('zj_ParseFast:tree', 'null', 'tree'), ('zj_ParseFast:lex', 'node', 'lex'), ('zj_ParseFast:fail', 'node', 'fail')):
    ent(_n, ['v', 'z'], s_parse, ('C01', 'C02', 'C10'), fn='zj_ParseFast', only=_k, profile=_p, model=Parse, cost=20, limit=400, states=400000, keep=['zj_allocatorAlloc'])


class ParseCopy(Api):
    """zj_Parse / zj_ParseLen: zj_ParseFast (analysed above) on a terminated copy the allocator owns"""
    def call_zj_ParseFast(self, st, a, ins):
        gh = st.gh; t = gh['t']
        if 'done' in gh: self.fail(st, ins, 'C01', 'parses twice')
        if not isptr(a[0]) or a[0][1] != gh['v'] or st.isconst(a[0][2]) != 0: self.fail(st, ins, 'C02', 'parses into another value')
        p = a[1]
        if isptr(p) and p[1] == t: self.fail(st, ins, 'C15', 'the parsed tree refers to the caller\'s text')
        x = self.cstr(st, p, st.obj(t).meta['n'], t, ZERO, ins)
        if x != 'ok': self.fail(st, ins, 'C01', 'the parsed text ' + x)
        retained(self, st, ins, p, st.obj(t).meta['n'], t, True)
        self.ensure_unchanged(st, ins, 'C10')
        b = st.byte(3)
        gh['done'] = norm(bident(b), st.dom)
        return gh['done']


def s_parsecopy(m, st, v, ins):
    if 'done' not in st.gh: m.fail(st, ins, 'C01', 'returns without parsing the text')
    if not isinstance(v, Num) or not same_fn(v, st.gh['done'], st.dom): m.fail(st, ins, 'C01', 'does not return the result of parsing')
    m.ensure_unchanged(st, ins, 'C10')


ent('zj_Parse', ['v', 'z'], s_parsecopy, ('C01', 'C15', 'C02', 'C10'), model=ParseCopy)
ent('zj_ParseLen', ['v', 't', 'n'], s_parsecopy, ('C01', 'C15', 'C02', 'C10'), model=ParseCopy)
