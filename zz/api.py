"""Per-operation analyses: pre-state, abstract execution of the operation, post-condition."""
import re
from .ir import AnalysisError
from .dom import *
from .engine import *
from .models import *
from . import spec

MEM = {'over-read', 'oob-read', 'oob-write', 'null', 'uninit', 'uaf', 'bad-free', 'wrap', 'write-input', 'global-write', 'allocator-write'}


class Api(Model):
    """roles of the parameters: v/cv value handle, w/cw second value handle, z zero-terminated text, t+n text and its length,
    len out-parameter, i index, b bool, num integer or double"""

    def __init__(self, mod, ent):
        Model.__init__(self, mod)
        self.ent = ent

    def setup(self):
        from . import ir
        sz = 4
        for n, off, size, bt in self.mod.members('zj_node'):
            if n == 'KeyLen': sz = size
        self.eng.sizety = ir.ity(8 * sz); self.eng.i8 = ir.ity(8); self.eng.i32 = ir.ity(32)

    # ------------------------------------------------------------------ pre-states
    def start(self, fn):
        """-> initial states"""
        out = []
        for var in self.ent.get('variants', [{}]):
            out.extend(self.build(fn, var))
        return out

    def build(self, fn, var):
        roles = self.ent['roles']
        if len(roles) != len(fn.params): raise AnalysisError('%s has %d parameters, expected %d' % (fn.name, len(fn.params), len(roles)))
        sts = []
        vs = [None]
        nn = [('v', 'null'), ('v', 'node')]
        wn = [('w', 'null'), ('w', 'node')] if any(r in ('w',) for r in roles) else [('w', None)]
        if self.ent.get('only'): nn = [x for x in nn if x[1] == self.ent['only']]
        for _, kv in (nn if 'v' in roles else [('v', None)]):
            for _, kw in wn:
                st = State(self.eng)
                gh = st.gh
                gh['a'] = self.allocator(st)
                self.args = {}
                regs = {}
                if kv: self.mkval(st, 'v', kv)
                if kw:
                    if kw == 'node' and var.get('w') == 'same':
                        if kv != 'node': continue
                        st.gh['w.n'] = st.gh['v.n']
                        st.gh['w'] = self.value(st, gh['a'], ptr(st.gh['v.n']), 'the second value')
                    else:
                        if var.get('w') == 'same': continue
                        gh['a2'] = self.allocator(st)
                        self.mkval(st, 'w', kw, gh['a2'])
                lenp = None
                for (ty, r), role in zip(fn.params, roles):
                    st.env[r] = self.arg(st, role, ty)
                if self.ent.get('fast'): st.gh['noanc'] = 1
                st.gh['var'] = repr(sorted(var.items()))
                sts.append(st)
        return sts

    def mkval(self, st, k, kind, a=None):
        nm = 'the value' if k == 'v' else 'the second value'
        if kind == 'null': n = NULL; st.gh[k + '.n'] = O(0)
        else:
            o = self.node(st, nm); n = ptr(o); st.gh[k + '.n'] = o
        st.gh[k] = self.value(st, a if a is not None else st.gh['a'], n, nm)

    def arg(self, st, role, ty):
        if role in ('v', 'w'): return ptr(st.gh[role])
        if role == 'a': return ptr(st.gh['a'])
        if role.startswith('z'):
            st.gh['t'] = self.text(st, 'the given text', 1, role[2:] or None); return ptr(st.gh['t'])
        if role.startswith('t'):
            st.gh['t'] = self.text(st, 'the given text', 0, role[2:] or None); return ptr(st.gh['t'])
        if role == 'n': return st.obj(st.gh['t']).meta['n']
        if role == 'len':
            st.gh['len'] = st.new(Obj('blk', N(self.mod.size(self.eng.sizety)), 'the length result', {'a': 'out'})); return ptr(st.gh['len'])
        if role == 'i':
            s = S(st.sym('i')); st.cons.append(s); st.gh['i'] = s; return s
        if role == 'b':
            b = st.byte(3); st.gh['b'] = norm(bident(b), st.dom); return st.gh['b']
        if role == 'num': return ('arg', 'n')
        raise AnalysisError('role ' + role)

    # ------------------------------------------------------------------ opaque numbers, conversions
    def cast_hook(self, st, op, v, wf, wt, ins):
        if isinstance(v, tuple) and v[0] == 'arg' and op == 'sext': return v
        if isinstance(v, tuple) and v[0] == 'conv' and v[1] == 'int':
            if op == 'sext': return v
            if op == 'trunc' and wt >= 32: return ('conv', 'int', min(v[2], wt))
        return None

    CONV = {'atoi': ('int', 32), 'atol': ('int', 64), 'atoll': ('int', 64), 'atof': ('double', 64), 'strtol': ('int', 64), 'strtoll': ('int', 64), 'strtod': ('double', 64)}

    def call(self, st, name, args, ins):
        if name == self.mod.copy_helper: return self.copy_summary(st, args, ins)
        if name in ('memcmp', 'bcmp', 'strncmp'): return self.compare(st, name, args, ins)
        if name in self.CONV: return self.convert(st, name, args, ins)
        if name in ('snprintf', 'sprintf'): return self.format(st, name, args, ins)
        return Model.call(self, st, name, args, ins)

    def convert(self, st, name, a, ins):
        kind, w = self.CONV[name]
        if name.startswith('strto'):
            if not isnull(a[1]): raise AnalysisError('conversion with an end pointer')
            if name != 'strtod' and a[2].const != 10: self.eng.report('C07', st, ins, 'converts in base %r' % (a[2],))
        if 'v.n' in st.gh and st.gh['v.n'] != 0:
            n = st.gh['v.n']
            t = self.pre(st, n, 'Str'); ln = self.pre(st, n, 'Len')
            if self.T[self.pre(st, n, 'Type').const] == T_NUM:
                r = self.cstr(st, a[0], ln, t[1], ZERO, ins)
                if r != 'ok': self.eng.report('C07', st, ins, 'the text handed to %s %s' % (name, r))
                return ('conv', kind, w)
        raise AnalysisError('number conversion outside a number value')

    FMT = {'%d': 12, '%i': 12, '%ld': 21, '%li': 21, '%lld': 21, '%lli': 21}

    def format(self, st, name, a, ins):
        if name == 'snprintf': buf, size, fmt, rest = a[0], norm(a[1], st.dom), a[2], a[3:]
        else: buf, size, fmt, rest = a[0], None, a[1], a[2:]
        f = self.cconst(st, fmt, ins)
        m = re.fullmatch(r'%\.(\d+)[gG]', f)
        if len(rest) != 1 or rest[0] != ('arg', 'n'): self.eng.report('C20', st, ins, 'formats something else than the given number')
        p = self.eng.deref(st, buf, ins, 'writes')
        if f in self.FMT:
            need = self.FMT[f] - 1
            if f in ('%d', '%i') and self.ent.get('bits', 32) > 32: self.eng.report('C20', st, ins, 'formats only the low 32 bits of the number')
            bad = 0
        elif m:
            if int(m.group(1)) < 17: self.eng.report('C20', st, ins, 'formats a double with %s digits: not enough to tell doubles apart' % m.group(1))
            need = int(m.group(1)) + 7
            k = st.gh.get('nan')
            if k is None: raise Fork([lambda s: s.gh.__setitem__('nan', 0) or True, lambda s: s.gh.__setitem__('nan', 1) or True], 'nan')
            bad = k
        else: raise AnalysisError('format %r' % f)
        if bad:
            t = self.text(st, 'the text of a number that is not finite', 0, 'nan', None, True, 'lib')
            n = st.obj(t).meta['n']; st.cons += [n - 3]; st.objs[t].meta['max'] = 4
        else:
            t = self.text(st, 'the decimal text of the number', 0, 'num', None, True, 'lib')
            n = st.obj(t).meta['n']; st.cons += [n - 1]; st.objs[t].meta['max'] = need
        if size is not None and not st.entails(size - n - 1): self.eng.report('C20', st, ins, 'the decimal text of some numbers does not fit and is cut off')
        ob = st.obj(p[1])
        self.eng.check_bounds(st, p[1], p[2], n + 1, ins, True)
        st.gh['t'] = t
        d = st.mut(p[1]); self.eng.tolog(d)
        d.log.append(('copy', p[2], t, ZERO, n)); d.log.append(('v', p[2] + n, 1, ZERO))
        return n

    def cconst(self, st, p, ins):
        out = b''
        p = self.eng.deref(st, p, ins, 'reads')
        while len(out) < 200:
            v = self.eng.load(st, ptr(p[1], p[2] + len(out)), self.eng.i8, ins)
            if not isinstance(v, Num) or v.const is None: raise AnalysisError('format string is not constant')
            if v.const == 0: return out.decode('latin1')
            out += bytes([v.const & 255])

    # ------------------------------------------------------------------ deep copy (summary; verified by the analysis of the copy helper itself)
    def copy_summary(self, st, a, ins):
        d = self.eng.deref(st, a[0], ins, 'writes'); w = self.eng.deref(st, a[1], ins, 'reads')
        dob, sob = st.obj(d[1]), st.obj(w[1])
        if sob.kind != 'val': raise AnalysisError('copies from %r' % sob)
        src = self.valN(st, w[1])
        if isnull(src): return ZERO
        sn = src[1]
        if st.obj(sn).kind != 'node' or st.obj(sn).meta.get('copyof') is not None or st.obj(sn).fields: raise AnalysisError('copies a value that was changed before')
        al = dob.fields.get(self.L.vA, (0, UNDEF))[1] if dob.kind != 'val' else dob.init[self.L.vA][1]
        if not isptr(al): raise AnalysisError('copies to a value without an allocator')
        t = self.T[self.pre(st, sn, 'Type').const]
        k = self.pre(st, sn, 'Key'); body = self.pre(st, sn, 'Node'); ln = self.pre(st, sn, 'Len')
        c = self.node(st, 'the copy', copyof=sn, al=al[1], root=1, types=(t,), haskey=0 if isnull(k) else 1)
        for g in ('Father', 'Prev', 'Next'): self.setpre(st, c, g, NULL)
        self.setpre(st, c, 'Type', N(self.TV[t])); self.setpre(st, c, 'Len', ln)
        if isnull(k): self.setpre(st, c, 'Key', NULL)
        else:
            kl = self.pre(st, sn, 'KeyLen')
            self.setpre(st, c, 'Key', ptr(self.text(st, 'the key of the copy', 0, 'str', kl, True, 'node'))); self.setpre(st, c, 'KeyLen', kl)
        if t in (T_ARR, T_OBJ):
            if isnull(body): self.do_empty(st, c)
            else: st.mut(c).meta['nonempty'] = 1
        else:
            lang = st.obj(body[1]).meta['lang']
            self.setpre(st, c, 'Str', ptr(self.text(st, 'the text of the copy', 0, lang, ln, True, 'node')))
        st.mut(d[1]).fields[self.L.vN] = (8, ptr(c))
        return ONE

    # ------------------------------------------------------------------ equality of two texts
    def pair(self, st, x, y):
        """(given text, stored text) if x and y are texts of that kind"""
        t = st.gh.get('t')
        if t is None or x == y: return None
        if x == t and st.obj(y).kind == 'text': return x, y
        if y == t and st.obj(x).kind == 'text': return y, x
        return None

    def where(self, st, n):
        """the text position a plain byte value comes from"""
        if len(n.bf) != 1 or n.co or len(n.bf[0].sup) != 1: return None
        f = n.bf[0]; b = f.sup[0]
        kind = None
        for t, v in f.tab.items():
            if (v + n.k) % 256 != t[0]: return None
        for o, ob in st.objs.items():
            if ob.kind == 'text' and b in ob.meta['win']: return o, ob.meta['pos'] + ob.meta['win'].index(b), b
        return None

    def byte_eq(self, st, pred, a, b, ins):
        if not a.bf or not b.bf: return None
        p, q = self.where(st, a), self.where(st, b)
        if not p or not q: return None
        pr = self.pair(st, p[0], q[0])
        if pr is None: return None
        t, k = pr
        tp, kp = (p, q) if p[0] == t else (q, p)
        # widths: the values must be extended alike
        for v in mbits(st.dom[p[2]] & st.dom[q[2]]):
            if a.k + a.bf[0].tab[(v,)] != b.k + b.bf[0].tab[(v,)]: return None
        m = st.dom[tp[2]] & st.dom[kp[2]]
        e = st.obj(k).meta.get('eq', ZERO)
        same = st.eqzero(tp[1] - kp[1])
        ch = st.gh.get('beq')
        if ch is None:
            alts = []
            if m: alts.append(lambda s: s.refine(tp[2], m) and s.refine(kp[2], m) and self.set_gh(s, 'beq', 1))
            alts.append(lambda s: self.set_gh(s, 'beq', 0))
            raise Fork(alts, 'equal bytes')
        st.gh.pop('beq')
        if same:
            if ch == 0: st.mut(k).meta['neq'] = 1
            elif st.eqzero(tp[1] - e): st.mut(k).meta['eq'] = e + 1
            else:
                # equal from here to the end, when scanned backwards
                lo = st.obj(k).meta.get('eqb', st.obj(k).meta['n'])
                if st.eqzero(tp[1] + 1 - lo): st.mut(k).meta['eqb'] = tp[1]
        return ONE if (ch == 1) == (pred == 'eq') else ZERO

    def set_gh(self, s, k, v):
        s.gh[k] = v
        return True

    def compare(self, st, name, a, ins):
        n = norm(a[2], st.dom)
        if not st.entails(n): self.eng.report('oob-read', st, ins, 'compares a negative (wrapped) number of bytes')
        x, y = self.eng.deref(st, a[0], ins, 'reads'), self.eng.deref(st, a[1], ins, 'reads')
        for p in (x, y):
            ob = st.obj(p[1])
            if ob.kind == 'text':
                if name == 'strncmp' and ob.meta['nul']: continue
                self.text_bounds(st, p[1], p[2], n, ins)
            else: self.eng.check_bounds(st, p[1], p[2], n, ins, False)
        pr = self.pair(st, x[1], y[1])
        if pr is None: raise AnalysisError('%s of other memory at %s' % (name, ins.raw))
        t, k = pr
        ch = st.gh.get('beq')
        if ch is None:
            raise Fork([lambda s: self.set_gh(s, 'beq', 1), lambda s: s.assume(n - 1) and self.set_gh(s, 'beq', 2), lambda s: s.assume(n - 1) and self.set_gh(s, 'beq', 0)], 'compare')
        st.gh.pop('beq')
        if st.eqzero(x[2] - y[2]):
            if ch != 1: st.mut(k).meta['neq'] = 1
            else:
                if name == 'strncmp' and not st.assume(st.obj(t).meta['n'] - x[2] - n): raise Kill()
                if st.eqzero(x[2] - st.obj(k).meta.get('eq', ZERO)): st.mut(k).meta['eq'] = x[2] + n
        return N(0 if ch == 1 else 1 if ch == 2 else -1)

    def text_far(self, st, o, off, d, ins): return self.rebase(st, o, off, ins) or Model.text_far(self, st, o, off, d, ins)

    def text_behind(self, st, o, off, c, ins): return self.rebase(st, o, off, ins) or Model.text_behind(self, st, o, off, c, ins)

    def rebase(self, st, o, off, ins):
        """a text without a language automaton may be scanned again from another position"""
        m = st.obj(o).meta
        if m['lang'] not in (None, 'plain'): return None
        if not st.entails(off) or not st.entails(m['n'] - off - (0 if m['nul'] else 1)): return None
        m = st.mut(o).meta
        m['pos'] = off; m['win'] = []; m.pop('hist', None)
        return self.text_load(st, o, off, self.eng.i8, 1, ins)

    def facts(self, st, o):
        fs = set(Model.facts(self, st, o))
        if 'key' in self.ent.get('uses', ()) and self.differs(st, o): fs.add('nm')
        return fs

    def differs(self, st, o):
        """is the key of node o known to differ from the given key"""
        if 'nm' in st.obj(o).meta.get('facts', ()): return True
        off = self.L.node['Key']
        if off not in st.obj(o).init: return False
        k = st.obj(o).init[off][1]
        if isnull(k): return False
        km = st.obj(k[1]).meta; tm = st.obj(st.gh['t']).meta
        if km.get('neq'): return True
        d = tm['n'] - km['n']
        return st.entails(d - 1) or st.entails(d.scale(-1) - 1)

    def matches(self, st, o):
        k = self.pre(st, o, 'Key')
        if isnull(k): return False
        km = st.obj(k[1]).meta; tm = st.obj(st.gh['t']).meta
        if not st.eqzero(tm['n'] - km['n']): return False
        if st.eqzero(km.get('eq', ZERO) - km['n']) or st.entails(km['n'].scale(-1)): return True
        return 'eqb' in km and st.entails(km.get('eq', ZERO) - km['eqb'])

    def sync(self, st):
        if 'key' in self.ent.get('uses', ()):
            live = set()

            def scan(x):
                t = type(x)
                if t is O: live.add(x)
                elif t is tuple:
                    for e in x: scan(e)
            for v in st.env.values(): scan(v)
            for o in list(st.objs):
                ob = st.objs[o]
                if ob.kind != 'node' or o in live or ob.meta.get('copyof') is not None or not ob.init: continue
                off = self.L.node['Key']
                if off in ob.init and isptr(ob.init[off][1]) and not isnull(ob.init[off][1]) and ob.init[off][1][1] not in live and not ob.fields and self.differs(st, o):
                    mo = st.mut(o)
                    mo.meta['facts'] = ('nm',)
                    del mo.init[off]; mo.init.pop(self.L.node['KeyLen'], None)
        Model.sync(self, st)

    # ------------------------------------------------------------------ queries on results
    def cstr(self, st, p, ln, t, toff, ins):
        """p is a zero-terminated text equal to ln bytes of t"""
        if not isptr(p) or isnull(p): return 'is missing'
        if st.obj(p[1]).kind == 'text':
            m = st.obj(p[1]).meta
            return 'is not a zero-terminated copy of the whole text'
        if not self.content_is(st, p, ln, t, toff): return 'is not exactly the stored text'
        z = self.eng.load(st, ptr(p[1], p[2] + ln), self.eng.i8, ins)
        if not (isinstance(z, Num) and st.isconst(z) == 0): return 'is not zero-terminated right after the stored text'
        return 'ok'

    def bytes_are(self, st, p, bs, ins):
        if not isptr(p) or isnull(p): return False
        for i, b in enumerate(bs):
            v = self.eng.load(st, ptr(p[1], p[2] + i), self.eng.i8, ins)
            if not isinstance(v, Num) or st.isconst(v) is None or st.isconst(v) & 255 != b: return False
        return True

    def type_of(self, st, k='v'):
        """the pre-state type of a value (0: no content)"""
        n = st.gh[k + '.n']
        if n == 0: return 0
        return self.T[self.pre(st, n, 'Type').const]

    def out_len(self, st):
        o = st.gh['len']
        f = st.obj(o).fields.get(0)
        return f[1] if f else UNDEF

    def is_fresh(self, st, p):
        """points into memory this call allocated from an arena"""
        return isptr(p) and p[1] > 0 and st.obj(p[1]).kind == 'blk' and st.obj(p[1]).meta.get('a') == 'arena'

    def newval(self, st, p, want, ins, kind, a=None):
        """p is a new value handle for node pointer `want`, tied to allocator a (default: that of v)"""
        if not isptr(p) or isnull(p): self.eng.report(kind, st, ins, 'returns nothing although there is a result')
        ob = st.obj(p[1])
        if ob.kind != 'blk' or ob.meta.get('a') != 'arena' or st.isconst(p[2]) != 0: self.eng.report(kind, st, ins, 'does not return a new value handle')
        n = ob.fields.get(self.L.vN, (0, UNDEF))[1]; al = ob.fields.get(self.L.vA, (0, UNDEF))[1]
        if not self.agree(st, n, want): self.eng.report(kind, st, ins, 'returns a handle of the wrong element')
        if not self.agree(st, al, ptr(a if a is not None else st.gh['a'])): self.eng.report(kind, st, ins, 'returns a handle tied to the wrong allocator')

    def truthy(self, st, v, ins):
        """boolean result as 0/1"""
        if not isinstance(v, Num): raise AnalysisError('result %r' % (v,))
        return self.eng.truth(st, v, ins)

    def on_return(self, st, v, ins):
        self.ent['spec'](self, st, v, ins)
        self.eng.stats['returns'] = self.eng.stats.get('returns', 0) + 1

    def fail(self, st, ins, kind, msg):
        self.eng.report(kind, st, ins, msg)

    def ensure_unchanged(self, st, ins, kind='C10'):
        self.diff(st, ins, kind, {})


spec.DFAS['plain'] = spec.DFA('text without control bytes', 'S', ['S'], {'S': [(spec.CTRL, spec.X), (spec.ALL, 'S')]})
spec.DFAS['nan'] = spec.DFA('nan or inf', 'a', ['c'], {
    'a': [(spec._m(b'-'), 's'), (spec._m(b'ni'), 'b')], 's': [(spec._m(b'ni'), 'b')], 'b': [(spec._m(b'an'), 'd')], 'd': [(spec._m(b'nf'), 'c')], 'c': []})


# ------------------------------------------------------------------------------------------------ getters

def s_textget(typ, kind):
    def f(m, st, v, ins):
        t = m.type_of(st)
        if t != typ:
            if not isnull(v): m.fail(st, ins, 'C11', 'answers for a value of another type')
            return m.ensure_unchanged(st, ins, 'C18')
        n = st.gh['v.n']; s = m.pre(st, n, 'Str'); ln = m.pre(st, n, 'Len')
        text_result(m, st, v, ins, s, ln, kind)
        m.ensure_unchanged(st, ins, 'C18')
    return f


def text_result(m, st, v, ins, s, ln, kind):
    if kind == 'fast':
        if not m.agree(st, v, s): m.fail(st, ins, 'C11', 'does not return the stored text')
        if not m.agree(st, m.out_len(st), ln): m.fail(st, ins, 'C11', 'does not give the length of the stored text')
    else:
        if not m.is_fresh(st, v): m.fail(st, ins, 'C11', 'does not return a copy of its own')
        r = m.cstr(st, v, ln, s[1], s[2], ins)
        if r != 'ok': m.fail(st, ins, 'C11', 'the returned text ' + r)


def s_keyget(kind):
    def f(m, st, v, ins):
        n = st.gh['v.n']
        k = NULL if n == 0 else m.pre(st, n, 'Key')
        if isnull(k):
            if not isnull(v): m.fail(st, ins, 'C11', 'gives a key for a value without one')
            return m.ensure_unchanged(st, ins, 'C18')
        text_result(m, st, v, ins, k, m.pre(st, n, 'KeyLen'), kind)
        m.ensure_unchanged(st, ins, 'C18')
    return f


def s_numget(kind, w):
    def f(m, st, v, ins):
        if m.type_of(st) != T_NUM:
            if not isnull(v): m.fail(st, ins, 'C07', 'answers for a value that is not a number')
            return m.ensure_unchanged(st, ins, 'C18')
        if not m.is_fresh(st, v): m.fail(st, ins, 'C07', 'does not return a result of its own')
        ob = st.obj(v[1]); off = st.isconst(v[2])
        r = ob.fields.get(off, (0, UNDEF))
        if r[1] is UNDEF or r[1] == UNDEF: m.fail(st, ins, 'C07', 'returns an unset result')
        if not (isinstance(r[1], tuple) and r[1][0] == 'conv' and r[1][1] == kind and r[1][2] >= w and r[0] * 8 == w):
            m.fail(st, ins, 'C07', 'the result is not the conversion of the number to the requested type')
        m.ensure_unchanged(st, ins, 'C18')
        leaks(m, st, ins, 'C07')
    return f


def leaks(m, st, ins, kind):
    for o, ob in st.objs.items():
        if ob.kind == 'blk' and ob.meta.get('a') == 'malloc' and not ob.meta.get('freed'):
            m.fail(st, ins, kind, 'leaks a temporary buffer')


def s_getbool(m, st, v, ins):
    if m.type_of(st) != T_BOOL:
        if not isnull(v): m.fail(st, ins, 'C11', 'answers for a value that is not a boolean')
        return m.ensure_unchanged(st, ins, 'C18')
    m.pre(st, st.gh['v.n'], 'Str')
    w = st.obj(st.gh['v.n']).meta['word']
    if not isptr(v) or isnull(v): m.fail(st, ins, 'C11', 'gives nothing for a boolean')
    r = m.eng.load(st, v, m.eng.i8, ins)
    if not isinstance(r, Num) or st.isconst(r) != (1 if w == 'true' else 0): m.fail(st, ins, 'C11', 'gives the wrong truth value for %s' % w)
    m.ensure_unchanged(st, ins, 'C18')


def s_isnull(m, st, v, ins):
    t = m.type_of(st)
    if m.truthy(st, v, ins) != (1 if t == T_NULL else 0): m.fail(st, ins, 'C11', 'wrong answer for %s' % TNAME.get(t, 'a value without content'))
    m.ensure_unchanged(st, ins, 'C18')


def s_type(m, st, v, ins):
    t = m.type_of(st)
    if t == 0:
        if not isnull(v): m.fail(st, ins, 'C11', 'gives a type for a value without content')
    else:
        if not isptr(v) or isnull(v): m.fail(st, ins, 'C11', 'gives no type for a value with content')
        r = m.eng.load(st, v, m.eng.i32, ins)
        if not isinstance(r, Num) or st.isconst(r) != m.TV[t]: m.fail(st, ins, 'C11', 'gives the wrong type for %s' % TNAME[t])
    m.ensure_unchanged(st, ins, 'C18')


def s_size(m, st, v, ins):
    t = m.type_of(st)
    want = m.pre(st, st.gh['v.n'], 'Len') if t in (T_ARR, T_OBJ) else ZERO
    if not m.agree(st, v, want): m.fail(st, ins, 'C19', 'wrong size of %s' % TNAME.get(t, 'a value without content'))
    m.ensure_unchanged(st, ins, 'C18')


def s_begin(m, st, v, ins):
    t = m.type_of(st)
    first = m.pre(st, st.gh['v.n'], 'Node') if t in (T_ARR, T_OBJ) else NULL
    if isnull(first):
        if not isnull(v): m.fail(st, ins, 'C19', 'gives a first element although there is none')
    else: m.newval(st, v, first, ins, 'C19')
    m.ensure_unchanged(st, ins, 'C18')


def s_next(m, st, v, ins):
    n = st.gh['v.n']
    nx = m.pre(st, n, 'Next') if n != 0 else NULL
    if isnull(nx):
        if not isnull(v): m.fail(st, ins, 'C19', 'gives a next element although there is none')
    else: m.newval(st, v, nx, ins, 'C19')
    m.ensure_unchanged(st, ins, 'C18')


def s_newvalue(m, st, v, ins):
    m.newval(st, v, NULL, ins, 'C20')


# ------------------------------------------------------------------------------------------------ setters

def target(m, st, ins, kind, key='null'):
    """node of v after the call, plus the expected changes common to all content setters"""
    n = m.valN(st, st.gh['v'])
    exp = {}
    if st.gh['v.n'] == 0:
        if not (isptr(n) and not isnull(n) and m.is_fresh(st, n) and st.isconst(n[2]) == 0): m.fail(st, ins, kind, 'the value did not get a node of its own')
        if st.obj(n[1]).meta.get('al') != st.gh['a']: m.fail(st, ins, kind, 'the new node comes from another allocator')
        exp[(st.gh['v'], 'N')] = n
        for f in ('Father', 'Prev', 'Next') + (('Key',) if key == 'null' else ()):
            if not m.agree(st, m.cur(st, n[1], f), NULL): m.fail(st, ins, kind, 'a value that had no content does not become a detached one (%s not reset)' % FNAME[f])
        return n[1], exp, True
    if not m.agree(st, n, ptr(st.gh['v.n'])): m.fail(st, ins, kind, 'the value now refers to another node')
    return st.gh['v.n'], exp, False


def check_content(m, st, ins, kind, n, typ, strok, ln, what):
    t = m.cur(st, n, 'Type')
    if not (isinstance(t, Num) and st.isconst(t) == m.TV[typ]): m.fail(st, ins, kind, 'the value does not become a %s' % TNAME[typ])
    if not strok(m.cur(st, n, 'Str')): m.fail(st, ins, kind, 'the value does not hold exactly %s' % what)
    if ln is not None and not m.agree(st, m.cur(st, n, 'Len'), ln): m.fail(st, ins, kind, 'the stored length is not that of %s' % what)


def finish_set(m, st, ins, n, exp, fields):
    dc = [(n, f) for f in fields]
    m.diff(st, ins, 'C20', exp, dc if st.gh['v.n'] else ())


def s_lit(word, typ):
    def f(m, st, v, ins):
        w = word
        if w is None: w = b'true' if m.eng.cmp_pure(st, 'ne', st.gh['b'], ZERO, 8, ins).const else b'false'
        n, exp, new = target(m, st, ins, 'C20')
        check_content(m, st, ins, 'C20', n, typ, lambda p: m.bytes_are(st, p, w, ins), N(len(w)), 'the literal %s' % w.decode())
        finish_set(m, st, ins, n, exp, ('Type', 'Str', 'Len', 'End'))
    return f


def s_container(typ):
    def f(m, st, v, ins):
        n, exp, new = target(m, st, ins, 'C20')
        check_content(m, st, ins, 'C20', n, typ, isnull, ZERO, 'no elements')
        finish_set(m, st, ins, n, exp, ('Type', 'Str', 'Len', 'End'))
    return f


def lang_result(m, st, v, ins, t):
    r = m.truthy(st, v, ins)
    fin = m.finish(st, t, ins)
    d = spec.DFAS[st.obj(t).meta['lang']].name
    if r and fin != 'yes': m.fail(st, ins, 'C09', 'accepts a text that is not a %s' % d if fin == 'no' else 'accepts a text without having checked all of it')
    if not r and fin != 'no': m.fail(st, ins, 'C09', 'rejects a text that is (or may still be) a valid %s' % d)
    return r


def s_text(typ, copy):
    def f(m, st, v, ins):
        t = st.gh['t']
        if not lang_result(m, st, v, ins, t): return m.ensure_unchanged(st, ins, 'C10')
        n, exp, new = target(m, st, ins, 'C20')
        ln = st.obj(t).meta['n']
        retained(m, st, ins, m.cur(st, n, 'Str'), ln, t, copy)
        check_content(m, st, ins, 'C20', n, typ, lambda p: m.content_is(st, p, ln, t, ZERO), ln, 'the given text')
        finish_set(m, st, ins, n, exp, ('Type', 'Str', 'Len', 'End'))
    return f


def retained(m, st, ins, p, ln, t, copy):
    if copy and isptr(p) and p[1] == t: m.fail(st, ins, 'C15', 'keeps a reference to the caller\'s text')
    if not copy and not (isptr(p) and p[1] == t): m.fail(st, ins, 'C15', 'does not refer to the caller\'s text (it must not copy)')
    if copy and isptr(p) and not isnull(p):
        ob = st.obj(p[1])
        if ob.kind == 'blk' and ob.meta.get('al') != st.gh['a']: m.fail(st, ins, 'C15', 'the copy lives in another allocator')
        if ob.kind == 'blk' and ob.meta.get('a') != 'arena': m.fail(st, ins, 'C15', 'the stored text is not owned by the allocator')


def s_key(copy):
    def f(m, st, v, ins):
        t = st.gh['t']
        r = m.truthy(st, v, ins)
        refuse = False
        if st.gh['v.n'] != 0:
            fa = m.pre(st, st.gh['v.n'], 'Father')
            if not isnull(fa) and m.T[m.pre(st, fa[1], 'Type').const] != T_OBJ: refuse = True
        if refuse:
            if r: m.fail(st, ins, 'C09', 'gives an array element a key')
            return m.ensure_unchanged(st, ins, 'C10')
        if not lang_result(m, st, v, ins, t): return m.ensure_unchanged(st, ins, 'C10')
        n, exp, new = target(m, st, ins, 'C20', key=None)
        ln = st.obj(t).meta['n']
        k = m.cur(st, n, 'Key')
        retained(m, st, ins, k, ln, t, copy)
        if not isptr(k) or isnull(k) or not m.content_is(st, k, ln, t, ZERO): m.fail(st, ins, 'C20', 'the value does not hold exactly the given key')
        if not m.agree(st, m.cur(st, n, 'KeyLen'), ln): m.fail(st, ins, 'C20', 'the stored key length is not that of the given key')
        if new:
            check_content(m, st, ins, 'C20', n, T_NULL, lambda p: m.bytes_are(st, p, b'null', ins), N(4), 'null')
        finish_set(m, st, ins, n, exp, ('Key', 'KeyLen'))
    return f


def s_setnum(m, st, v, ins):
    r = m.truthy(st, v, ins)
    if st.gh.get('nan'):
        if r: m.fail(st, ins, 'C09', 'stores a text that is not a JSON number (NaN or infinity)')
        return m.ensure_unchanged(st, ins, 'C10')
    if 't' not in st.gh: raise AnalysisError('no decimal text was made')
    if not r: m.fail(st, ins, 'C09', 'refuses a finite number')
    n, exp, new = target(m, st, ins, 'C20')
    t = st.gh['t']; ln = st.obj(t).meta['n']
    check_content(m, st, ins, 'C20', n, T_NUM, lambda p: m.content_is(st, p, ln, t, ZERO), ln, 'the decimal text of the number')
    p = m.cur(st, n, 'Str')
    if st.obj(p[1]).meta.get('al') != st.gh['a']: m.fail(st, ins, 'C20', 'the stored text is not owned by the value\'s allocator')
    finish_set(m, st, ins, n, exp, ('Type', 'Str', 'Len', 'End'))


# ------------------------------------------------------------------------------------------------ unlink

def removed(m, st, n, e):
    """expected changes when pre-existing node n leaves its container; e: {(o, field): value}"""
    fa = m.pre(st, n, 'Father')
    if isnull(fa): return
    f = fa[1]
    pv = m.pre(st, n, 'Prev'); nx = m.pre(st, n, 'Next')
    m.pre(st, f, 'Node'); ln = m.pre(st, f, 'Len')
    if isnull(pv): e[(f, 'Node')] = nx
    else: e[(pv[1], 'Next')] = nx
    if isnull(nx):
        if not isnull(pv): e[(f, 'End')] = pv
    else: e[(nx[1], 'Prev')] = pv
    e[(f, 'Len')] = ln - 1
    for g in ('Father', 'Prev', 'Next'): e[(n, g)] = NULL


def s_move(m, st, v, ins):
    n = st.gh['v.n']; r = m.truthy(st, v, ins)
    if n == 0:
        if r: m.fail(st, ins, 'C13', 'reports success for a value without content')
        return m.ensure_unchanged(st, ins, 'C10')
    if not r: m.fail(st, ins, 'C13', 'fails for a value with content')
    e = {}
    removed(m, st, n, e)
    dc = []
    sole_end(m, st, n, dc)
    m.diff(st, ins, 'C13', e, dc)


# ------------------------------------------------------------------------------------------------ set, add

def walk(m, st, f, ins, kind, want, e, segok):
    """every child of f (in the list it had, or the list of the copy) must now have parent `want`"""
    x = m.pre(st, f, 'Node')
    x = x[1]
    while x:
        ob = st.obj(x)
        if ob.kind == 'seg':
            if ob.meta['mods'] != ({m.L.node['Father']: want} if want is not None else {}): m.fail(st, ins, kind, 'an element does not get the right parent')
            segok.add(x); x = ob.meta['nx']; continue
        if want is not None:
            if not m.agree(st, m.cur(st, x, 'Father'), want): m.fail(st, ins, kind, 'an element does not get the right parent')
            e[(x, 'Father')] = want
        elif ob.fields: m.fail(st, ins, kind, 'an element of the copy is changed')
        nx = m.pre(st, x, 'Next')
        x = nx[1]


def the_copy(m, st, ins, kind):
    wn = st.gh['w.n']
    cs = [o for o, ob in st.objs.items() if ob.kind == 'node' and ob.meta.get('copyof') == wn]
    if len(cs) != 1: m.fail(st, ins, kind, 'does not use a copy of the given value')
    c = cs[0]
    if st.obj(c).meta['al'] != st.gh['a']: m.fail(st, ins, 'C14' if kind == 'C14' else kind + '+C14', 'the copy does not live in the allocator of the changed value')
    return c


def s_setval(fast):
    def f(m, st, v, ins):
        K = 'C14'
        r = m.truthy(st, v, ins); wn = st.gh['w.n']; vn = st.gh['v.n']
        if wn == 0:
            if r: m.fail(st, ins, K, 'reports success for a source without content')
            return m.ensure_unchanged(st, ins, 'C10')
        if not r: m.fail(st, ins, K, 'fails for a source with content')
        e = {}; dc = []; segok = set()
        m.pre(st, wn, 'Type'); m.pre(st, wn, 'Node'); m.pre(st, wn, 'Len')
        if fast:
            removed(m, st, wn, e)
            e[(st.gh['w'], 'N')] = NULL
            src = wn
        else: src = the_copy(m, st, ins, K)
        n = m.valN(st, st.gh['v'])
        if vn == 0:
            e[(st.gh['v'], 'N')] = ptr(src)
            if fast: sole_end(m, st, wn, dc)
            else:
                for g in ('Father', 'Prev', 'Next'):
                    if not m.agree(st, m.cur(st, src, g), NULL): m.fail(st, ins, K, 'the new content is not detached')
                for g in ('Type', 'Str', 'Len'):
                    if not m.agree(st, m.cur(st, src, g), m.pre(st, src, g)): m.fail(st, ins, K, 'the copied content is changed')
                walkif(m, st, src, ins, K, None, e, segok)
            return m.diff(st, ins, K, e, dc, segok)
        for g in ('Node', 'Len', 'End'): e.pop((vn, g), None)
        if not m.agree(st, m.cur(st, vn, 'Type'), m.pre(st, src, 'Type')): m.fail(st, ins, K, 'the value does not get the type of the source')
        if not m.agree(st, m.cur(st, vn, 'Str'), m.pre(st, src, 'Str')): m.fail(st, ins, K, 'the value does not get the content of the source')
        if not m.agree(st, m.cur(st, vn, 'Len'), m.pre(st, src, 'Len')): m.fail(st, ins, K, 'the value does not get the length or element count of the source')
        t = m.T[m.pre(st, src, 'Type').const]
        if t in (T_ARR, T_OBJ) and not isnull(m.pre(st, src, 'Node')):
            if not m.agree(st, m.cur(st, vn, 'End'), m.pre(st, src, 'End')): m.fail(st, ins, K, 'the value does not get the last element of the source')
            walk(m, st, src, ins, K, ptr(vn), e, segok)
        dc += [(vn, g) for g in ('Type', 'Str', 'Len', 'End')]
        if fast:
            for g in ('Father', 'Prev', 'Next'): e.pop((wn, g), None)
            dc += [(wn, g) for g in ('Type', 'Str', 'Len', 'End', 'Father', 'Prev', 'Next', 'Key', 'KeyLen')]
            sole_end(m, st, wn, dc)
        m.diff(st, ins, K, e, dc, segok)
    return f


def walkif(m, st, src, ins, K, want, e, segok):
    t = m.T[m.pre(st, src, 'Type').const]
    if t in (T_ARR, T_OBJ) and not isnull(m.pre(st, src, 'Node')):
        for x, ob in list(st.objs.items()):
            if ob.kind == 'node' and ob.init and ob.fields and ob.init.get(m.L.node['Father'], (0, NULL))[1] == ptr(src): m.fail(st, ins, K, 'an element of the copy is changed')
            if ob.kind == 'seg' and ob.meta['fa'] == src and ob.meta['mods']: m.fail(st, ins, K, 'elements of the copy are changed')


def sole_end(m, st, n, dc):
    """the last-child link of a container that becomes empty is meaningless"""
    fa = m.pre(st, n, 'Father')
    if not isnull(fa) and isnull(m.pre(st, n, 'Prev')) and isnull(m.pre(st, n, 'Next')): dc.append((fa[1], 'End'))


def s_add(typ, fast):
    def f(m, st, v, ins):
        K = 'C12'
        r = m.truthy(st, v, ins); wn = st.gh['w.n']; vn = st.gh['v.n']
        ok = m.type_of(st) == typ and wn != 0
        if ok and typ == T_OBJ: ok = not isnull(m.pre(st, wn, 'Key'))
        if not ok:
            if r: m.fail(st, ins, K, 'reports success although the target is no such container or the element has no content or key')
            return m.ensure_unchanged(st, ins, 'C10')
        if not r: m.fail(st, ins, K, 'refuses an element that can be added')
        e = {}; dc = []; segok = set()
        if fast:
            removed(m, st, wn, e); x = wn
            e[(st.gh['w'], 'N')] = NULL
            sole_end(m, st, wn, dc)
        else: x = the_copy(m, st, ins, K)
        first = e.get((vn, 'Node'), m.pre(st, vn, 'Node'))
        ln = e.get((vn, 'Len'), m.pre(st, vn, 'Len'))
        xe = {'Father': ptr(vn), 'Next': NULL}
        if isnull(first):
            e[(vn, 'Node')] = ptr(x); xe['Prev'] = NULL
        else:
            last = e.get((vn, 'End'), None)
            if last is None: last = m.pre(st, vn, 'End')
            e[(last[1], 'Next')] = ptr(x); xe['Prev'] = last
        e[(vn, 'End')] = ptr(x); e[(vn, 'Len')] = ln + 1
        dc = [d for d in dc if d != (vn, 'End')]
        if typ == T_ARR: xe['Key'] = NULL
        for g, w in xe.items():
            if fast: e[(x, g)] = w
            elif not m.agree(st, m.cur(st, x, g), w): m.fail(st, ins, K, '%s of the added element is wrong' % FNAME[g])
        if fast and typ == T_ARR: dc.append((x, 'KeyLen'))
        if not fast:
            same = ['Type', 'Str', 'Len'] + (['Key', 'KeyLen'] if typ == T_OBJ else [])
            for g in same:
                if not m.agree(st, m.cur(st, x, g), m.pre(st, x, g)): m.fail(st, ins, K, '%s of the added copy is changed' % FNAME[g])
            if m.T[m.pre(st, x, 'Type').const] in (T_ARR, T_OBJ) and not isnull(m.pre(st, x, 'Node')) and not m.agree(st, m.cur(st, x, 'End'), m.pre(st, x, 'End')):
                m.fail(st, ins, K, 'the last-child link of the added copy is changed')
            walkif(m, st, x, ins, K, None, e, segok)
        m.diff(st, ins, K, e, dc, segok)
    return f


# ------------------------------------------------------------------------------------------------ lookups

def before_it(m, st, f, x):
    """the elements of f before x, or None if not all are known"""
    ch, closed = m.chain(st, f)
    if x in ch: return ch[:ch.index(x)]
    return None


def check_element(m, st, ins, K, x, how, what):
    """x is the element the index or key selects"""
    f = st.gh['v.n']
    if st.obj(x).kind != 'node' or m.pre(st, x, 'Father') != ptr(f): m.fail(st, ins, K, '%s something that is not an element of the container' % what)
    bs = before_it(m, st, f, x)
    if how == 'index':
        if bs is not None:
            c = ZERO
            for b in bs: c = c + m.cnt(st, b)
        else:
            c = m.pre(st, f, 'Len') - 1; y = x
            while True:
                y = m.nxt(st, y)
                if y is None: raise AnalysisError('position of the result is not known')
                if y == 0: break
                c = c - m.cnt(st, y)
        if not m.decided(st, c - st.gh['i']): m.fail(st, ins, K, '%s an element at another index' % what)
        return
    if not m.matches(st, x): m.fail(st, ins, K, '%s an element whose key is not known to equal the given key' % what)
    if bs is None: raise AnalysisError('position of the result is not known')
    for b in bs:
        if not nomatch(m, st, b): m.fail(st, ins, K, '%s an element although an earlier one may have the given key' % what)


def nomatch(m, st, b):
    if st.obj(b).kind == 'seg': return 'nm' in st.obj(b).meta['facts']
    return m.differs(st, b)


def check_none(m, st, ins, K, how, typ):
    """there is no element the index or key selects"""
    f = st.gh['v.n']
    if m.type_of(st) != typ: return
    first = m.pre(st, f, 'Node')
    if isnull(first): return
    if how == 'index':
        ln = m.pre(st, f, 'Len')
        if not st.entails(st.gh['i'] - ln):
            if st.lossy and satisfiable(st.allcons([st.gh['i'] - ln])): raise AnalysisError('a relation between counters was lost')
            m.fail(st, ins, K, 'finds nothing although the index may be below the element count')
        return
    x = first[1]
    while x:
        if not nomatch(m, st, x): m.fail(st, ins, K, 'finds nothing although an element may have the given key')
        x = m.nxt(st, x) if st.obj(x).kind == 'seg' else m.pre(st, x, 'Next')[1]


def s_lookup(typ, how):
    def f(m, st, v, ins):
        K = 'C19'
        if isnull(v):
            check_none(m, st, ins, K, how, typ)
            return m.ensure_unchanged(st, ins, 'C18')
        if m.type_of(st) != typ: m.fail(st, ins, K, 'gives an element of a value that is no such container')
        if not isptr(v): raise AnalysisError('result %r' % (v,))
        ob = st.obj(v[1])
        n = ob.fields.get(m.L.vN, (0, UNDEF))[1]
        m.newval(st, v, n, ins, K)
        if not isptr(n) or isnull(n): m.fail(st, ins, K, 'returns a handle without content')
        check_element(m, st, ins, K, n[1], how, 'returns')
        m.ensure_unchanged(st, ins, 'C18')
    return f


def s_del(typ, how):
    def f(m, st, v, ins):
        K = 'C13'
        r = m.truthy(st, v, ins)
        if not r:
            check_none(m, st, ins, K, how, typ)
            return m.ensure_unchanged(st, ins, 'C10')
        if m.type_of(st) != typ: m.fail(st, ins, K, 'reports success for a value that is no such container')
        vn = st.gh['v.n']
        fo = m.L.node['Father']
        xs = [o for o, ob in st.objs.items() if ob.kind == 'node' and ob.init is not None and fo in ob.fields]
        if len(xs) != 1: m.fail(st, ins, K, 'reports success but does not detach exactly one element')
        x = xs[0]
        check_element(m, st, ins, K, x, how, 'removes')
        e = {}; dc = []
        removed(m, st, x, e); sole_end(m, st, x, dc)
        m.diff(st, ins, K, e, dc)
    return f


ENTRIES = {}


def ent(name, roles, spec, props, **kw):
    ENTRIES[name] = dict(name=name, roles=roles, spec=spec, props=props, **kw)


RO = ('C18', 'C10')
ent('zj_GetStrFast', ['v', 'len'], s_textget(T_STR, 'fast'), ('C11',) + RO)
ent('zj_GetStr', ['v'], s_textget(T_STR, 'copy'), ('C11',) + RO)
ent('zj_GetNumFast', ['v', 'len'], s_textget(T_NUM, 'fast'), ('C11',) + RO)
ent('zj_GetNumStr', ['v'], s_textget(T_NUM, 'copy'), ('C11',) + RO)
ent('zj_GetKey', ['v'], s_keyget('copy'), ('C11',) + RO)
ent('zj_GetKeyFast', ['v', 'len'], s_keyget('fast'), ('C11',) + RO)
ent('zj_GetBool', ['v'], s_getbool, ('C11',) + RO)
ent('zj_IsNull', ['v'], s_isnull, ('C11',) + RO)
ent('zj_Type', ['v'], s_type, ('C11',) + RO)
for nm, k, w in (('zj_GetNum', 'double', 64), ('zj_GetDouble', 'double', 64), ('zj_GetInt', 'int', 32), ('zj_GetLong', 'int', 64), ('zj_GetLongLong', 'int', 64)):
    ent(nm, ['v'], s_numget(k, w), ('C07',) + RO)
ent('zj_SizeOf', ['v'], s_size, ('C19',) + RO)
ent('zj_Begin', ['v'], s_begin, ('C19',) + RO)
ent('zj_Next', ['v'], s_next, ('C19',) + RO)
ent('zj_NewValue', ['a'], s_newvalue, ('C20',))
ent('zj_SetNull', ['v'], s_lit(b'null', T_NULL), ('C20',))
ent('zj_SetBool', ['v', 'b'], s_lit(None, T_BOOL), ('C20',))
ent('zj_SetArray', ['v'], s_container(T_ARR), ('C20',))
ent('zj_SetObj', ['v'], s_container(T_OBJ), ('C20',))
TX = ('C09', 'C10', 'C15', 'C20')
for nm, typ, lang in (('Str', T_STR, 'str'), ('NumStr', T_NUM, 'num')):
    ent('zj_Set%sFast' % nm, ['v', 'z:' + lang], s_text(typ, 0), TX)
    ent('zj_Set%sLenFast' % nm, ['v', 't:' + lang, 'n'], s_text(typ, 0), TX)
    ent('zj_Set%s' % nm, ['v', 'z:' + lang], s_text(typ, 1), TX)
    ent('zj_Set%sLen' % nm, ['v', 't:' + lang, 'n'], s_text(typ, 1), TX)
ent('zj_SetKeyFast', ['v', 'z:str'], s_key(0), TX)
ent('zj_SetKeyLenFast', ['v', 't:str', 'n'], s_key(0), TX)
ent('zj_SetKey', ['v', 'z:str'], s_key(1), TX)
ent('zj_SetKeyLen', ['v', 't:str', 'n'], s_key(1), TX)
for nm, b in (('zj_SetNum', 0), ('zj_SetDouble', 0), ('zj_SetInt', 32), ('zj_SetLong', 64), ('zj_SetLongLong', 64)):
    ent(nm, ['v', 'num'], s_setnum, ('C09', 'C10', 'C20'), bits=b)
ent('zj_Move', ['v'], s_move, ('C13', 'C10'))

ent('zj_SetFast', ['v', 'w'], s_setval(1), ('C14', 'C10'), fast=1)
ent('zj_Set', ['v', 'w'], s_setval(0), ('C14', 'C10'), variants=[{}, {'w': 'same'}])
ent('zj_ObjAddFast', ['v', 'w'], s_add(T_OBJ, 1), ('C12', 'C10'), fast=1)
ent('zj_ObjAdd', ['v', 'w'], s_add(T_OBJ, 0), ('C12', 'C10', 'C14'), variants=[{}, {'w': 'same'}])
ent('zj_ArrayAddFast', ['v', 'w'], s_add(T_ARR, 1), ('C12', 'C10'), fast=1)
ent('zj_ArrayAdd', ['v', 'w'], s_add(T_ARR, 0), ('C12', 'C10', 'C14'), variants=[{}, {'w': 'same'}])
ent('zj_ArrayGet', ['v', 'i'], s_lookup(T_ARR, 'index'), ('C19',) + RO)
ent('zj_ObjGet', ['v', 'z'], s_lookup(T_OBJ, 'key'), ('C19',) + RO, uses=('key',), keylang='plain')
ent('zj_ObjGetLen', ['v', 't', 'n'], s_lookup(T_OBJ, 'key'), ('C19',) + RO, uses=('key',), keylang='plain')
ent('zj_ArrayDel', ['v', 'i'], s_del(T_ARR, 'index'), ('C13', 'C10'))
ent('zj_ObjDel', ['v', 'z'], s_del(T_OBJ, 'key'), ('C13', 'C10'), uses=('key',), keylang='plain')
