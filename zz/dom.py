"""Abstract values: linear expressions over symbols plus finite functions of input bytes, and exact
linear reasoning (affine hull join = Karr's domain; entailment by an exact rational simplex)."""
from fractions import Fraction
from math import gcd
from .ir import AnalysisError


class O(int):
    """identity of an abstract memory object"""
    __slots__ = ()


class B(int):
    """identity of an abstract input byte"""
    __slots__ = ()


FULL = (1 << 256) - 1


def mask_of(vals):
    m = 0
    for v in vals: m |= 1 << v
    return m


def bits(m):
    out = []
    while m:
        b = m & -m
        out.append(b.bit_length() - 1); m ^= b
    return out


_bitcache = {}


def mbits(m):
    r = _bitcache.get(m)
    if r is None:
        r = tuple(bits(m)); _bitcache[m] = r
        if len(_bitcache) > 20000: _bitcache.clear()
    return r


class BFn:
    """finite function of a tuple of bytes: tab maps tuple of byte values -> int"""
    __slots__ = ('sup', 'tab', 'h')

    def __init__(self, sup, tab):
        self.sup = sup; self.tab = tab; self.h = None

    def key(self):
        if self.h is None: self.h = (self.sup, tuple(sorted(self.tab.items())))
        return self.h

    def __eq__(self, o):
        return isinstance(o, BFn) and (self is o or (self.sup == o.sup and self.tab == o.tab))

    def __hash__(self):
        return hash((self.sup, len(self.tab)))

    def __repr__(self):
        vs = sorted(set(self.tab.values()))
        return 'fn(%s)%s' % (','.join('b%d' % s for s in self.sup), vs if len(vs) < 6 else '[%d..%d]' % (vs[0], vs[-1]))


class Num:
    __slots__ = ('k', 'co', 'bf')

    def __init__(self, k, co=(), bf=()):
        self.k = k; self.co = co; self.bf = bf

    def __eq__(self, o):
        return isinstance(o, Num) and self.k == o.k and self.co == o.co and self.bf == o.bf

    def __hash__(self):
        return hash((self.k, self.co, len(self.bf)))

    def __repr__(self):
        s = []
        for n, c in self.co: s.append(('' if c == 1 else '-' if c == -1 else '%s*' % c) + str(n))
        for f in self.bf: s.append(repr(f))
        if self.k or not s: s.append(str(self.k))
        return '+'.join(s).replace('+-', '-')

    @property
    def const(self):
        return self.k if not self.co and not self.bf else None

    def __add__(self, o):
        if isinstance(o, int): return Num(self.k + o, self.co, self.bf)
        if not o.co and not o.bf: return Num(self.k + o.k, self.co, self.bf)
        if not self.co and not self.bf: return Num(self.k + o.k, o.co, o.bf)
        return Num(self.k + o.k, addco(self.co, o.co, 1), addbf(self.bf, o.bf))

    def __sub__(self, o):
        if isinstance(o, int): return Num(self.k - o, self.co, self.bf)
        if not o.co and not o.bf: return Num(self.k - o.k, self.co, self.bf)
        bf = self.bf
        for f in o.bf:
            if f in bf:
                l = list(bf); l.remove(f); bf = tuple(l)
            else:
                bf = addbf(bf, (BFn(f.sup, {t: -v for t, v in f.tab.items()}),))
        return Num(self.k - o.k, addco(self.co, o.co, -1), bf)

    def scale(self, c):
        if c == 0: return ZERO
        return Num(self.k * c, tuple((s, v * c) for s, v in self.co),
                   tuple(BFn(f.sup, {t: v * c for t, v in f.tab.items()}) for f in self.bf))

    def subst(self, m):
        """m: sym -> Num"""
        if not any(s in m for s, _ in self.co): return self
        r = Num(self.k, (), self.bf)
        for s, c in self.co:
            if s in m: r = r + m[s].scale(c)
            else: r = r + Num(0, ((s, c),))
        return r

    def syms(self):
        return [s for s, _ in self.co]


def addco(a, b, sg):
    d = dict(a)
    for s, c in b:
        v = d.get(s, 0) + sg * c
        if v: d[s] = v
        else: d.pop(s, None)
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def addbf(a, b):
    """terms with the same support are merged into one"""
    if not b: return a
    if not a: return b
    d = {}
    for f in a + b:
        if f.sup in d:
            g = d[f.sup]
            dom = g.tab.keys() & f.tab.keys()
            d[f.sup] = BFn(f.sup, {t: g.tab[t] + f.tab[t] for t in dom})
        else: d[f.sup] = f
    out = [f for f in d.values() if any(f.tab.values())]
    return tuple(sorted(out, key=lambda f: f.sup))


ZERO = Num(0)
ONE = Num(1)


def N(k): return Num(k)


def S(name): return Num(0, ((name, 1),))


# ----------------------------------------------------------------------------- byte functions

MAXTAB = 40000


class TooLarge(AnalysisError):
    """a joint table over these bytes is too large: the engine splits one of them"""

    def __init__(self, sup):
        AnalysisError.__init__(self, 'byte function too large'); self.sup = sup


def bident(b, w=8):
    return Num(0, (), (BFn((b,), {(v,): v for v in range(256)}),))


def restrict(f, dom):
    """restrict a BFn to the current byte sets"""
    sets = [dom[s] for s in f.sup]
    full = 1
    for m in sets: full *= bin(m).count('1')
    if full == len(f.tab):
        ok = True
        if len(f.sup) == 1:
            return f if all((m >> t[0]) & 1 for m in sets for t in f.tab) else BFn(f.sup, {t: v for t, v in f.tab.items() if (sets[0] >> t[0]) & 1})
    if len(f.sup) == 1:
        m = sets[0]
        return BFn(f.sup, {t: v for t, v in f.tab.items() if (m >> t[0]) & 1})
    return BFn(f.sup, {t: v for t, v in f.tab.items() if all((sets[i] >> t[i]) & 1 for i in range(len(t)))})


def norm(n, dom):
    """restrict tables; fold constant tables into k; drop unused support bytes"""
    if not n.bf: return n
    k = n.k; bf = []
    for f in n.bf:
        g = restrict(f, dom)
        vs = set(g.tab.values())
        if len(vs) == 1: k += next(iter(vs)); continue
        if not vs: continue
        bf.append(g)
    return Num(k, n.co, tuple(bf))


def joint(fs, k=0):
    """sum of several BFns (+k) as one joint BFn"""
    sup = tuple(sorted({s for f in fs for s in f.sup}))
    tabs = [((), k, {})]
    cur = {(): k}
    names = ()
    for f in fs:
        new = {}
        add = tuple(s for s in f.sup if s not in names)
        nn = names + add
        pos = [names.index(s) if s in names else None for s in f.sup]
        if len(cur) * len(f.tab) > MAXTAB and all(p is None for p in pos): raise TooLarge(sup)
        for t, v in cur.items():
            for ft, fv in f.tab.items():
                ok = True
                for i, p in enumerate(pos):
                    if p is not None and t[p] != ft[i]: ok = False; break
                if not ok: continue
                ext = tuple(ft[i] for i, p in enumerate(pos) if p is None)
                new[t + ext] = v + fv
        if len(new) > 4 * MAXTAB: raise TooLarge(sup)
        cur = new; names = nn
    perm = [names.index(s) for s in sup]
    return BFn(sup, {tuple(t[i] for i in perm): v for t, v in cur.items()})


def brange(n):
    lo = hi = n.k
    for f in n.bf:
        vs = f.tab.values()
        lo += min(vs); hi += max(vs)
    return lo, hi


def wrapw(n, w):
    """canonical unsigned value in [0, 2^w) for a pure byte value"""
    M = 1 << w
    lo, hi = brange(n)
    if 0 <= lo and hi < M: return n
    if lo // M == hi // M: return Num(n.k - (lo // M) * M, (), n.bf)
    g = joint(n.bf, n.k)
    return Num(0, (), (BFn(g.sup, {t: v % M for t, v in g.tab.items()}),))


def separate(n):
    """group terms (and k) so that groups have disjoint bit ranges; returns list of BFn/int items"""
    items = []
    for f in n.bf:
        lo = min(f.tab.values())
        items.append([f])
    k = n.k

    def fold(group, kk):
        return joint(group, kk) if len(group) > 1 or kk else group[0]
    groups = [joint(g) if len(g) > 1 else g[0] for g in items]
    # make every group nonnegative by folding k into a negative one
    if k < 0:
        # fold k into the largest group, then keep merging until nonnegative
        groups.sort(key=lambda f: max(f.tab.values()))
        while True:
            if not groups: return [k]
            g = groups.pop()
            g = joint([g], k)
            if min(g.tab.values()) >= 0 or not groups:
                groups.append(g); k = 0; break
            h = groups.pop(); groups.append(joint([g, h])); k = 0
            if min(groups[-1].tab.values()) >= 0: break
    for g in groups:
        if min(g.tab.values()) < 0:
            g2 = joint(groups, k)
            return [g2]

    def mask(f):
        m = 0
        for v in f.tab.values(): m |= v
        return m
    ch = True
    while ch:
        ch = False
        for i in range(len(groups)):
            if k and mask(groups[i]) & k:
                groups[i] = joint([groups[i]], k); k = 0; ch = True; break
            for j in range(i + 1, len(groups)):
                if mask(groups[i]) & mask(groups[j]):
                    g = joint([groups[i], groups[j]])
                    groups = [x for q, x in enumerate(groups) if q not in (i, j)] + [g]; ch = True; break
            if ch: break
    return groups + ([k] if k else [])


def bmap(n, fn, dist, w):
    """apply integer function fn to a pure byte value; if dist, fn distributes over disjoint-bit sums"""
    if not n.bf: return Num(fn(n.k) % (1 << w))
    if len(n.bf) == 1:
        f = n.bf[0]; k = n.k
        return simp(Num(0, (), (BFn(f.sup, {t: fn(v + k) % (1 << w) for t, v in f.tab.items()}),)))
    if dist:
        its = separate(n); k = 0; bf = []
        for it in its:
            if isinstance(it, int): k += fn(it)
            else:
                g = BFn(it.sup, {t: fn(v) for t, v in it.tab.items()})
                bf.append(reduce_sup(g))
        r = simp(Num(k, (), ()) + sumbf(bf))
        return wrapw(r, w)
    g = joint(n.bf, n.k)
    return simp(Num(0, (), (reduce_sup(BFn(g.sup, {t: fn(v) % (1 << w) for t, v in g.tab.items()})),)))


def bitwise(fn, a, b, w):
    """and / or / xor of two nonnegative pure byte values, bit group by bit group"""
    def mask(it):
        if isinstance(it, int): return it
        m = 0
        for v in it.tab.values(): m |= v
        return m
    its = [[mask(x), [x], []] for x in separate(a)] + [[mask(x), [], [x]] for x in separate(b)]
    ch = True
    while ch:
        ch = False
        for i in range(len(its)):
            for j in range(i + 1, len(its)):
                if its[i][0] & its[j][0]:
                    x = its[i]; y = its[j]
                    its = [z for k, z in enumerate(its) if k not in (i, j)] + [[x[0] | y[0], x[1] + y[1], x[2] + y[2]]]
                    ch = True; break
            if ch: break
    r = ZERO
    BIG = 1 << 70
    for _, xs, ys in its:
        kx = sum(x for x in xs if isinstance(x, int)); ky = sum(y for y in ys if isinstance(y, int))
        fs = [x for x in xs if not isinstance(x, int)] + [BFn(y.sup, {t: v * BIG for t, v in y.tab.items()}) for y in ys if not isinstance(y, int)]
        if not fs: r = r + fn(kx, ky); continue
        g = joint(fs, kx + ky * BIG)
        r = r + simp(Num(0, (), (reduce_sup(BFn(g.sup, {t: fn(v % BIG, v // BIG) for t, v in g.tab.items()})),)))
    return wrapw(simp(r), w)


def sumbf(fs):
    r = ZERO
    for f in fs: r = r + Num(0, (), (f,))
    return r


def simp(n):
    k = n.k; bf = []
    for f in n.bf:
        vs = set(f.tab.values())
        if len(vs) == 1: k += next(iter(vs))
        elif vs: bf.append(f)
    return Num(k, n.co, tuple(bf))


def reduce_sup(f):
    """drop support bytes the function does not depend on"""
    i = 0
    while len(f.sup) > 1 and i < len(f.sup):
        seen = {}; dep = False
        for t, v in f.tab.items():
            r = t[:i] + t[i + 1:]
            if seen.setdefault(r, v) != v: dep = True; break
        if not dep:
            f = BFn(f.sup[:i] + f.sup[i + 1:], seen)
        else: i += 1
    return f


def same_fn(a, b, dom):
    """a == b for all values of the bytes (both pure byte values)?"""
    d = norm(a - b, dom)
    if d.const is not None: return d.const == 0
    if d.co: return False
    g = joint(d.bf, d.k)
    return all(v == 0 for v in g.tab.values())


# ----------------------------------------------------------------------------- linear reasoning

def feasible(cons):
    """is {c >= 0 for c in cons} satisfiable over the rationals? exact simplex (phase 1), free variables"""
    rows = []
    for c in cons:
        if not c.co:
            if c.k < 0: return False
            continue
        rows.append(c)
    if not rows: return True
    syms = sorted({s for c in rows for s, _ in c.co}, key=lambda x: str(x))
    # eliminate variables by Fourier-Motzkin while cheap, fall back to simplex
    return _simplex_feasible(rows, syms)


def _simplex_feasible(rows, syms):
    # variables x = u - v (u,v>=0); constraint a.x + k >= 0  ->  a.u - a.v - s + art = -k  (s>=0)
    # every tableau row is kept as integers up to a positive factor of its own
    m = len(rows); n = len(syms); idx = {s: i for i, s in enumerate(syms)}
    width = 2 * n + m
    T = []; basis = []; art = []
    for r, c in enumerate(rows):
        row = [0] * (width + 1)
        d = 1
        for _, co in c.co:
            if type(co) is not int: d = d * co.denominator // gcd(d, co.denominator)
        if type(c.k) is not int: d = d * c.k.denominator // gcd(d, c.k.denominator)
        for s, co in c.co:
            x = int(co * d)
            row[idx[s]] = x; row[n + idx[s]] = -x
        row[2 * n + r] = -d
        rhs = int(-c.k * d)
        row[width] = rhs
        if rhs <= 0:
            row = [-x for x in row]
            basis.append(2 * n + r)
        else:
            basis.append(width + r); art.append(r)
        T.append(row)
    if not art: return True
    # objective: minimise the sum of the artificial variables (each equals its row; the rows are scaled, which only
    # reweights the sum); artificial columns are never entered again, so they are not stored
    z = [0] * (width + 1)
    for r in art:
        for j, x in enumerate(T[r]):
            if x: z[j] -= x
    it = 0
    while True:
        it += 1
        if it > 5000: raise AnalysisError('simplex did not converge')
        col = next((j for j in range(width) if z[j] < 0), None)
        if col is None: break
        br = None
        for r in range(m):
            x = T[r][col]
            if x > 0:
                if br is None: br = r; continue
                q = T[r][width] * T[br][col] - T[br][width] * x
                if q < 0 or (q == 0 and basis[r] < basis[br]): br = r
        if br is None: break
        tr = T[br]; pv = tr[col]
        for r in range(m):
            f = T[r][col]
            if r != br and f: T[r] = _comb(T[r], pv, f, tr)
        z = _comb(z, pv, z[col], tr)
        basis[br] = col
    return z[width] == 0


def _comb(a, pv, f, b):
    c = [x * pv - f * y if y else x * pv for x, y in zip(a, b)]
    g = gcd(*c)
    if g > 1: c = [x // g for x in c]
    return c


_fcache = {}


def entails(cons, e):
    """do the constraints (each >= 0) entail e >= 0 (over the integers, decided over the rationals)?"""
    if not e.co: return e.k >= 0
    # relevant constraints only (connected symbols)
    need = set(e.syms()); rel = []; rest = list(cons); ch = True
    while ch:
        ch = False; r2 = []
        for c in rest:
            if any(s in need for s, _ in c.co):
                rel.append(c); need.update(c.syms()); ch = True
            else: r2.append(c)
        rest = r2
    for c in rel:
        if c.co == e.co and c.k <= e.k: return True
    key = (frozenset(rel), e)
    r = _fcache.get(key)
    if r is None:
        neg = Num(-e.k - 1, tuple((s, -c) for s, c in e.co))
        r = not feasible(rel + [neg])
        if len(_fcache) > 200000: _fcache.clear()
        _fcache[key] = r
    return r


def satisfiable(cons):
    key = frozenset(cons)
    r = _fcache.get(key)
    if r is None:
        r = feasible(list(key)); _fcache[key] = r
    return r


def lower_bound(cons, e, cands=(0, 1, 2, 3, 4, 6, 8, 16)):
    """largest c among candidates with e >= c entailed, else None"""
    if not e.co: return e.k
    best = None
    for c in sorted(cands, reverse=True):
        if entails(cons, e - c): return c
    for c in (-1, -2, -4, -8):
        if entails(cons, e - c): return c
    return None


def affine_hull(vecs1, vecs2, pname):
    """two affine images: lists of Num (same length, no bf). Returns (pivots, exprs) where exprs[i] is a Num over
    symbols pname(p) for pivot dimensions p, describing the affine hull of the union."""
    m = len(vecs1)
    assert m == len(vecs2)
    gens = []

    def dirs(vs):
        syms = []
        seen = set()
        for v in vs:
            for s, _ in v.co:
                if s not in seen: seen.add(s); syms.append(s)
        out = []
        for s in syms:
            out.append([dict(v.co).get(s, 0) for v in vs])
        return out
    gens += dirs(vecs1) + dirs(vecs2)
    gens.append([b.k - a.k for a, b in zip(vecs1, vecs2)])
    base = [a.k for a in vecs1]
    # row-reduce generators; pivot on the earliest dimension
    rows = []
    for g in gens:
        g = [Fraction(x) for x in g]
        for p, r in rows:
            if g[p]:
                f = g[p]; g = [x - f * y for x, y in zip(g, r)]
        p = next((i for i, x in enumerate(g) if x), None)
        if p is None: continue
        f = g[p]; g = [x / f for x in g]
        nr = []
        for q, r in rows:
            if r[p]:
                ff = r[p]; r = [x - ff * y for x, y in zip(r, g)]
            nr.append((q, r))
        rows = nr + [(p, g)]
    rows.sort(key=lambda x: x[0])
    piv = [p for p, _ in rows]
    exprs = []
    for j in range(m):
        # x_j = base_j + sum_p (x_p - base_p) * row_p[j]
        k = Fraction(base[j]); co = []
        for p, r in rows:
            if r[j]:
                co.append((pname(p), r[j])); k -= base[p] * r[j]
        k = int(k) if k.denominator == 1 else k
        co = tuple((s, int(c) if Fraction(c).denominator == 1 else c) for s, c in co)
        exprs.append(Num(k, tuple(sorted(co))))
    return piv, exprs
