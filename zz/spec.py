"""Specification automata (written from RFC 8259 and the library's documentation, not from the code)."""

HEX = b'0123456789abcdefABCDEF'
X = 'X'   # dead


def _m(bs):
    m = 0
    for b in bs: m |= 1 << b
    return m


DIG = _m(b'0123456789'); D19 = _m(b'123456789')
HEXM = _m(HEX)
ALL = (1 << 256) - 1
CTRL = _m(range(0x20))
DD = _m(b'dD'); HNOD = HEXM & ~DD
LO7 = _m(b'01234567'); S89AB = _m(b'89abAB'); SCF = _m(b'cdefCDEF')


class DFA:
    """trans: state -> list of (mask, next); missing bytes go to X"""

    def __init__(self, name, start, accept, trans):
        self.name = name; self.start = start; self.accept = set(accept)
        self.trans = trans
        # least number of further bytes before acceptance
        inf = 10 ** 9
        self.need = {q: (0 if q in self.accept else inf) for q in trans}
        ch = True
        while ch:
            ch = False
            for q, l in trans.items():
                for m, r in l:
                    if r != X and self.need[r] + 1 < self.need[q]: self.need[q] = self.need[r] + 1; ch = True

    def groups(self, q, mask):
        """[(submask, next state)] partition of mask"""
        if q == X: return [(mask, X)] if mask else []
        out = {}
        rest = mask
        for m, r in self.trans[q]:
            s = rest & m
            if s: out[r] = out.get(r, 0) | s; rest &= ~m
        if rest: out[X] = out.get(X, 0) | rest
        return [(m, r) for r, m in out.items()]

    def live(self, q):
        """bytes that keep the text valid"""
        m = 0
        for mm, r in self.groups(q, ALL):
            if r != X: m |= mm
        return m


STRT = {
    'S': [(_m(b'"') | CTRL, X), (_m(b'\\'), 'E'), (ALL, 'S')],
    'E': [(_m(b'"\\/bfnrt'), 'S'), (_m(b'u'), 'U')],
    'U': [(DD, 'd'), (HNOD, 'h3')],
    'd': [(LO7, 'h2'), (S89AB, 's2')],
    'h3': [(HEXM, 'h2')], 'h2': [(HEXM, 'h1')], 'h1': [(HEXM, 'S')],
    's2': [(HEXM, 's1')], 's1': [(HEXM, 'L')],
    'L': [(_m(b'\\'), 'Lu')], 'Lu': [(_m(b'u'), 'Ld')], 'Ld': [(DD, 'Lc')], 'Lc': [(SCF, 'l2')],
    'l2': [(HEXM, 'l1')], 'l1': [(HEXM, 'S')],
}
STR = DFA('JSON string content', 'S', ['S'], STRT)

NUMT = {
    'n': [(_m(b'-'), 'm'), (_m(b'0'), 'z'), (D19, 'i')],
    'm': [(_m(b'0'), 'z'), (D19, 'i')],
    'z': [(_m(b'.'), 'p'), (_m(b'eE'), 'e')],
    'i': [(DIG, 'i'), (_m(b'.'), 'p'), (_m(b'eE'), 'e')],
    'p': [(DIG, 'f')],
    'f': [(DIG, 'f'), (_m(b'eE'), 'e')],
    'e': [(_m(b'+-'), 'g'), (DIG, 'x')],
    'g': [(DIG, 'x')],
    'x': [(DIG, 'x')],
}
NUM = DFA('JSON number', 'n', ['z', 'i', 'f', 'x'], NUMT)
DFAS = {'str': STR, 'num': NUM}


def fixed(bs):
    t = {'k%d' % i: [(1 << b, 'k%d' % (i + 1))] for i, b in enumerate(bs)}
    t['k%d' % len(bs)] = []
    return DFA(repr(bs), 'k0', ['k%d' % len(bs)], t)
