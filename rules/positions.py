"""Is a sequence the position-by-position sum of two others, a missing position counting zero?

The positions fall into zones which are uniform: below both lengths, between them, behind both. With the order of the two lengths
fixed, a term over them has one value per zone; it is worked out by structure (concatenation, padding, element-wise updates, loops
which touch the current position only).
"""
from engine.models import vlen
from .common import *

OUT = 'out'
LO, LN = mk('len', mk('sym', 'OLD', None)), mk('len', mk('sym', 'HIT', None))     # lengths of the old and the new hits


class Pos:
    def __init__(self, I_, rb, order, zone):
        self.I, self.rb, self.order, self.zone = I_, rb, order, zone
        self.OLD, self.HIT = LO.a[0], LN.a[0]
        self.o, self.n = mk('sym', 'o', ('prim', 'u32')), mk('sym', 'n', ('prim', 'u32'))

    # -- lengths
    def resolve(self, L):
        """L in terms of one of the lengths, given their order."""
        big, small = (LN, LO) if self.order == 'lt' else (LO, LN)
        m = {}
        for t in subterms(L):
            if t.k in ('max', 'min') and all(x in (LO, LN) or x.k == 'int' and x.a[0] == 0 for x in t.a):
                xs = [x for x in t.a if x.k != 'int']
                if t.k == 'min' and len(xs) < len(t.a):
                    m[t] = I(0)
                elif xs:
                    m[t] = xs[0] if len(set(xs)) == 1 else big if t.k == 'max' else small
        if m:
            L = self.rb(self.I, m, L)
        if self.order == 'eq':
            L = self.rb(self.I, {LO: LN}, L)
        return L

    def below(self, L):
        """Are the positions of the zone below L? None: unknown."""
        L = self.resolve(L)
        if L.k == 'int':
            return False if L.a[0] == 0 else None
        if L is LO or L is LN:
            big = self.order == 'eq' or (L is LN) == (self.order == 'lt')
            return {'low': True, 'mid': big, 'high': False}[self.zone]
        if L.k in ('max', 'min'):
            xs = [self.below(x) for x in L.a]
            hit = L.k == 'max'
            return hit if hit in xs else None if None in xs else not hit
        return None

    # -- elements
    def at(self, v):
        """('in', element) | OUT | None when it cannot be told."""
        if v is self.OLD:
            return ('in', self.o) if self.below(LO) else OUT
        if v is self.HIT:
            return ('in', self.n) if self.below(LN) else OUT
        if v.k == 'resize':
            base, ln, x = v.a
            b = self.below(ln)
            if b is None:
                return None
            if not b:
                return OUT
            y = self.at(base)
            return ('in', x) if y is OUT else y
        if v.k == 'zupd':
            base, src, e = v.a
            w = self.within(src)
            if w is None:
                return None
            return self.at(base) if not w else self.inn(self.ev(e, src, {}))
        if v.k == 'fold':
            return self.loop(v)
        if v.k == 'app' and v.a[0] in ('slice', 'skip', 'to_vec'):
            f = self.suffix(v)
            return self.at(f[0]) if f is not None and f[1] is I(0) else None
        if v.k != 'vec':
            return None
        segs = v.a[0]
        if len(segs) == 1 and segs[0].k == 'rep':
            return self.rep(*segs[0].a)
        off = I(0)
        for s in segs:
            if s.k not in ('sp', 'rep'):
                return None
            x = s.a[0] if s.k == 'sp' else mk('vec', (s,))
            if off is I(0):
                r = self.at(x)
                if r is None or r is not OUT:
                    return r
                off = self.resolve(vlen(self.I, x))
                continue
            f = self.suffix(x)
            if f is not None:
                # x is f[0] from position f[1] on
                if f[1] is off:
                    r = self.at(f[0])
                    if r is not OUT:
                        return r
                    off = self.resolve(vlen(self.I, f[0]))
                    continue
                if self.nothing(f[0], f[1]):
                    continue
            if x.k == 'resize' and x.a[0].k == 'vec' and not x.a[0].a[0]:
                off = self.resolve(self.I.lin(0, ((off, 1), (x.a[1], 1))))
                b = self.below(off)
                if b is None:
                    return None
                if b:
                    return ('in', x.a[2])
                continue
            return None
        return OUT

    def nothing(self, v, k):
        """Is nothing left of v from position k on?"""
        L = self.resolve(vlen(self.I, v))
        return L is k or (self.order == 'lt' and L is LO and k is LN) or (self.order == 'gt' and L is LN and k is LO)

    def suffix(self, v):
        """(sequence, first position) when v is the rest of a sequence."""
        if v.k == 'app' and v.a[0] == 'skip':
            return v.a[1][0], self.resolve(v.a[1][1])
        if v.k == 'app' and v.a[0] == 'slice':
            b, r = v.a[1]
            if r.k == 'adt' and last(r.a[0]) == 'RangeFrom':
                return b, self.resolve(r.a[3][0])
        if v.k == 'app' and v.a[0] == 'from':
            return v.a[1][0], self.resolve(v.a[1][1])
        return None

    @staticmethod
    def inn(e):
        return None if e is None else ('in', e)

    def within(self, src):
        """Does a pass over src get to the positions of the zone?"""
        if src.k == 'zip':
            w = [self.within(x) for x in src.a]
            return False if False in w else None if None in w else True
        if src.k == 'range':
            a, b = (self.below(x) if x is not I(0) else False for x in src.a)
            return None if a is None or b is None else b and not a
        r = self.at(src)
        return None if r is None else r is not OUT

    def truth(self, atom, src, mu, base):
        t, neg, vals = atom
        got = None
        if t.k == 'lt' and t.a[0] is mk('idx', src):
            if mu is not None and t.a[1] is mk('len', mu):
                r = self.at(base)
                got = None if r is None else r is not OUT
            elif t.a[1].k == 'len' and t.a[1] not in (LO, LN):
                r = self.at(t.a[1].a[0])
                got = None if r is None else r is not OUT
            else:
                got = self.below(t.a[1])
        elif t.k == 'lt' and t.a[0] in (LO, LN) and t.a[1] in (LO, LN):
            got = t.a[0] is not t.a[1] and self.order == ('lt' if t.a[0] is LO else 'gt')
        if got is None:
            return None
        return (int(got) in vals) != neg

    def chosen(self, alts, src, mu=None, base=None):
        """Values of the alternatives that may be taken in the zone."""
        return [w for pc, w in alts for c in pc if not any(self.truth(f, src, mu, base) is False for f in c)]

    def rep(self, src, alts):
        w = self.within(src)
        if not w:
            return None if w is None else OUT
        got = set()
        for sg in self.chosen(alts, src):
            if len(sg) != 1 or sg[0].k != 'e':
                return None
            got.add(self.ev(sg[0].a[0], src, {}))
        return self.inn(got.pop()) if len(got) == 1 else None

    def loop(self, v):
        src, mu, base, alts = v.a
        idx = mk('idx', src)
        for _, x in alts:
            if not (x is mu or x.k == 'iset' and x.a[0] is mu and x.a[1] is idx or
                    x.k == 'vec' and len(x.a[0]) == 2 and x.a[0][0].k == 'sp' and x.a[0][0].a[0] is mu and x.a[0][1].k == 'e'):
                return None
        w = self.within(src)
        b = self.at(base)
        if w is None or b is None:
            return None
        if not w:
            return b
        got = set()
        for x in self.chosen(alts, src, mu, base):
            if x is mu:
                got.add(b)
            elif x.k == 'iset':
                if b is OUT:
                    return None
                got.add(self.inn(self.ev(x.a[2], src, {mk('at', mu, idx): b[1]})))
            else:
                # appended: only where nothing is yet, and then at every position
                if b is not OUT:
                    return None
                got.add(self.inn(self.ev(x.a[0][1].a[0], src, {})))
        return got.pop() if len(got) == 1 else None

    def ev(self, e, src, m):
        """The element e a pass over src computes, at the positions of the zone."""
        m = dict(m)
        idx = mk('idx', src)
        for x in subterms(e):
            if x in m:
                continue
            y = None
            if x.k == 'elem' and x.a[0] is src:
                y = self.at(src)
            elif x.k == 'at' and x.a[1] is idx and not (x.a[0].k == 'mu'):
                y = self.at(x.a[0])
            else:
                continue
            if y is None or y is OUT:
                return None
            m[x] = y[1]
        e = self.rb(self.I, m, e)
        return None if mentions(e, lambda y: y is idx or y.k in ('elem', 'at', 'mu')) else e


def is_sum(I_, rb, v, old, hit, orders):
    """v = old + hit position by position (old None: nothing there yet)."""
    m = {hit: LN.a[0]}
    if old is not None:
        m[old] = LO.a[0]
    v = rb(I_, m, v)
    if old is None:
        v = rb(I_, {LO: I(0)}, v)
        orders = ('lt',)
    for order in orders:
        for zone in ('low', 'mid', 'high'):
            if zone == 'low' and old is None or zone == 'mid' and order == 'eq':
                continue
            P = Pos(I_, rb, order, zone)
            want = {'low': ('in', I_.lin(0, ((P.o, 1), (P.n, 1)))), 'mid': ('in', P.n if order == 'lt' else P.o), 'high': OUT}[zone]
            if P.at(v) != want:
                return False
    return True
