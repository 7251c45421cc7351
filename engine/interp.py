"""Path-merging abstract interpreter over MIR (value-flow / effect summaries; nothing is executed, no solver).

Values are hash-consed terms; a state is (heap, path condition in DNF over variant/flag facts, effect trace,
live RefCell guards).  Local functions and closures are summarised in their calling context, loops over sequences of unknown length
are summarised with a generic element.  Functions of other crates come from the table in models.py; anything
not in it becomes an opaque pure result and every place it may write is forgotten.
"""
from .terms import *
from .mir import Body

MAXCONJ = 48


def last_seg(p):
    return p.split('::')[-1]


class Limit(Exception):
    pass


# ------------------------------------------------------------------------------------------------ facts
# conj: frozenset of (term, neg, frozenset(values)); pc: frozenset of conj (a disjunction)

TRUE_PC = frozenset([frozenset()])


def conj_assume(c, term, neg, vals, domain):
    if domain is not None and neg:
        vals = domain - vals
        neg = False
    old = None
    for f in c:
        if f[0] is term:
            old = f
            break
    if old is not None:
        n0, v0 = old[1], old[2]
        if not n0 and not neg:
            v = v0 & vals
            n = False
        elif not n0 and neg:
            v = v0 - vals
            n = False
        elif n0 and not neg:
            v = vals - v0
            n = False
        else:
            v = v0 | vals
            n = True
        if not n and not v:
            return None
        if n == n0 and v == v0:
            return c
        c = c - {old}
    else:
        v, n = vals, neg
        if not n and not v:
            return None
    if domain is not None and not n and v >= domain:
        return c
    if n and not v:
        return c
    return c | {(term, n, v)}


def pc_simplify(pc, domain_of):
    pc = set(pc)
    if len(pc) <= 1:
        return frozenset(pc)
    changed = True
    while changed:
        changed = False
        # absorption
        lst = sorted(pc, key=len)
        keep = []
        for c in lst:
            if not any(k <= c for k in keep):
                keep.append(c)
        pc = set(keep)
        lst = keep
        done = False
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                a, b = lst[i], lst[j]
                m = conj_merge(a, b, domain_of)
                if m is not None:
                    pc.discard(a)
                    pc.discard(b)
                    pc.add(m)
                    changed = done = True
                    break
            if done:
                break
    if len(pc) > MAXCONJ:
        # over-approximate: give up facts about one term after the other, details of lists first
        terms = {t for c in pc for t, _, _ in c}
        common = {t for t in terms if all(any(x is t for x, _, _ in c) for c in pc)}
        for t in sorted(terms - common, key=lambda t: (not mentions(t, lambda y: y.k in ('at', 'len') or y.k == 'app' and y.a[0] == 'len'), str(t))):
            pc = {frozenset(f for f in c if f[0] is not t) for c in pc}
            if len(pc) <= 4 * MAXCONJ:
                r = pc_simplify(pc, domain_of)
                if len(r) <= MAXCONJ:
                    return r
                pc = set(r)
            if not mentions(t, lambda y: y.k in ('at', 'len') or y.k == 'app' and y.a[0] == 'len'):
                break
        cm = None
        for c in pc:
            cm = c if cm is None else cm & c
        return frozenset([cm])
    return frozenset(pc)


def conj_merge(a, b, domain_of):
    d1 = a - b
    d2 = b - a
    if len(d1) != 1 or len(d2) != 1:
        # a fact of one side may be weaker than the other's on the same term (absorption by implication)
        return None
    (t1, n1, v1), = d1
    (t2, n2, v2), = d2
    if t1 is not t2:
        return None
    rest = a & b
    if not n1 and not n2:
        v = v1 | v2
        dom = domain_of(t1)
        if dom is not None and v >= dom:
            return rest
        return rest | {(t1, False, v)}
    if n1 and n2:
        v = v1 & v2
        return rest | {(t1, True, v)} if v else rest
    if n1:
        v = v1 - v2
    else:
        v = v2 - v1
    return rest | {(t1, True, v)} if v else rest


class State:
    __slots__ = ('heap', 'pc', 'ev', 'guards', 'marks')

    def __init__(self, heap=None, pc=TRUE_PC, ev=(), guards=(), marks=()):
        self.heap = {} if heap is None else heap
        self.pc = pc
        self.ev = ev
        self.guards = guards
        self.marks = marks

    def copy(self):
        return State(dict(self.heap), self.pc, self.ev, self.guards, self.marks)

    def key(self):
        return (frozenset(self.heap.items()), self.ev, self.guards, self.marks)


NARROW = {'u8': 256, 'u16': 65536, 'i8': 128, 'i16': 32768}


class Panic:
    __slots__ = ('msg', 'where', 'pc', 'stack', 'sp')

    def __init__(self, msg, where, pc, stack, sp=None):
        self.msg, self.where, self.pc, self.stack, self.sp = msg, where, pc, stack, sp


class Frame:
    __slots__ = ('b', 'd', 'tm', 'stack')

    def __init__(self, b, d, tm, stack):
        self.b, self.d, self.tm, self.stack = b, d, tm, stack


class Interp:
    def __init__(self, prog, anchors=None, noise=(), vis_ok=None):
        from . import models
        self.P = prog
        self.models = models.MODELS
        self.anchors = anchors or {}
        self.panics = []
        self.keeps_len = set()
        self.unmodelled = {}
        self.inlined = set()
        self.steps = 0
        self.maxsteps = 400000
        self.maxdepth = 40
        self.logging = False    # follow log levels
        self.unroll = False     # run loops step by step (only for states in which every loop ends)
        self.static_cache = {}
        self.overrides = {}     # visitor adt path -> set of node type names with an override
        self.read_log = None
        self.const_cache = {}
        self.rebuild_memo = {}
        self.cur_bb = {}
        self.rty = None
        self.margs = ()
        self.dropfns = {prog.strip(b.impl_self)[1]: b for (t, _), bs in prog.impls.items() if t and t.endswith('::ops::drop::Drop') for b in bs}

    # -- types of terms --------------------------------------------------------------------------
    def ty(self, t):
        if t.m is not None:
            return t.m if t.m != () else None
        r = self._ty(t)
        t.m = r if r is not None else ()
        return r

    def _ty(self, t):
        k = t.k
        P = self.P
        if k == 'sym':
            return t.a[1]
        if k == 'proj':
            return P.fieldty(self.ty(t.a[0]), t.a[1], t.a[2])
        if k in ('elem', 'found'):
            return P.elemty(self.ty(t.a[0]))
        if k == 'at':
            return P.elemty(self.ty(t.a[0]))
        if k == 'ekey':
            e = P.elemty(self.ty(t.a[0]))
            return e[1][0] if e and e[0] == 'tuple' else None
        if k == 'eval':
            e = P.elemty(self.ty(t.a[0]))
            return e[1][1] if e and e[0] == 'tuple' else None
        if k == 'mval':
            s = P.strip(self.ty(t.a[0]))
            return s[2][1] if s and s[0] == 'adt' and len(s[2]) > 1 else None
        if k in ('V', 'Vc', 'pre'):
            return self.ty(t.a[0])
        if k == 'mopt':
            e = P.elemty(self.ty(t.a[0]))
            return ('adt', 'core::option::Option', (e[1][1],)) if e and e[0] == 'tuple' else ('adt', 'core::option::Option', ())
        if k == 'mretain' or k == 'mapv' or k == 'gupd' or k == 'iset' or k == 'upd':
            return self.ty(t.a[0])
        if k == 'mu':
            return self.ty(t.a[1])
        if k == 'fold':
            return self.ty(t.a[2])
        if k == 'vec':
            for x in t.a[0]:
                if x.k == 'sp':
                    return self.ty(x.a[0])
                if x.k == 'e' and self.ty(x.a[0]) is not None:
                    return ('adt', 'alloc::vec::Vec', (self.ty(x.a[0]),))
            return None
        if k in ('str', 'fmt', 'joined'):
            return ('prim', 'str')
        if k == 'minsert' or k == 'mremove':
            return self.ty(t.a[0])
        if k == 'dum' or k == 'mempty':
            return t.a[0]
        if k == 'adt':
            return ('adt', t.a[0], ())
        if k == 'app' and len(t.a) > 2:
            return t.a[2]
        if k == 'ret':
            return t.a[-1]
        return None

    def domain(self, t):
        """Finite set of values of a fact term, or None."""
        k = t.k
        if k == 'discr':
            if t.a[0].k in ('mopt',):
                return frozenset((0, 1))
            x = self.P.strip(self.ty(t.a[0]))
            if x and x[0] == 'adt':
                if x[1] in ('core::option::Option', 'core::result::Result'):
                    return frozenset((0, 1))
                a = self.P.adts.get(x[1])
                if a and a[0]:
                    return frozenset(self.discr_of(x[1], i) for i in range(len(a[2])))
            return None
        if k in ('eq', 'lt', 'le', 'any', 'contains', 'finds', 'bapp'):
            return frozenset((0, 1))
        x = self.ty(t)
        if x == ('prim', 'bool'):
            return frozenset((0, 1))
        return None

    def discr_of(self, path, vi):
        d = self.P.adts[path][2][vi][1]
        return vi if d is None else int(d)

    # -- facts -------------------------------------------------------------------------------------
    def assume(self, pc, term, neg, vals):
        """pc /\\ term (not) in vals; vals are python ints/strs."""
        k = term.k
        vals = frozenset(vals)
        if k == 'int' or k == 'str':
            ok = (term.a[0] in vals) != neg
            return pc if ok else frozenset()
        if k == 'not':
            return self.assume(pc, term.a[0], neg, frozenset(1 - v for v in vals))
        if k == 'eq' and term.a[1].k in ('int', 'str'):
            if not neg:
                if vals == {1}:
                    return self.assume(pc, term.a[0], False, [term.a[1].a[0]])
                if vals == {0}:
                    return self.assume(pc, term.a[0], True, [term.a[1].a[0]])
            else:
                return self.assume(pc, term, False, frozenset((0, 1)) - vals)
            return pc if vals else frozenset()
        if k in ('and', 'or'):
            dom = frozenset((0, 1))
            v = dom - vals if neg else vals
            if v >= dom:
                return pc
            if not v:
                return frozenset()
            want = 1 in v
            a, b = term.a
            if (k == 'and') == want:
                return self.assume(self.assume(pc, a, False, [int(want)]), b, False, [int(want)])
            p1 = self.assume(pc, a, False, [int(want)])
            p2 = self.assume(self.assume(pc, a, False, [1 - int(want)]), b, False, [int(want)])
            return pc_simplify(p1 | p2, self.domain)
        dom = self.domain(term)
        out = set()
        inb = None
        if k == 'lt' and term.a[0].k == 'idx':
            # a position of S is below every bound that is not below the length of S
            ln = mk('len', term.a[0].a[0])
            inb = (mk('lt', term.a[1], ln), mk('lt', ln, term.a[1]))
        for c in pc:
            if inb and any(f[0] is inb[0] and not f[1] and f[2] == {0} or f[0] is inb[1] and not f[1] and f[2] == {1} for f in c):
                if (1 in vals) != neg:
                    out.add(c)
                continue
            r = conj_assume(c, term, neg, vals, dom)
            if r is not None:
                out.add(r)
        return pc_simplify(out, self.domain) if len(out) > 1 else frozenset(out)

    def known(self, pc, term):
        """The single value term has under pc, or None."""
        if term.k in ('int', 'str'):
            return term.a[0]
        if term.k == 'not':
            v = self.known(pc, term.a[0])
            return None if v is None else 1 - v
        val = None
        for c in pc:
            f = [x for x in c if x[0] is term]
            if not f or f[0][1] or len(f[0][2]) != 1:
                return None
            v = next(iter(f[0][2]))
            if val is None:
                val = v
            elif val != v:
                return None
        return val

    def branch(self, st, term):
        """[(bool, state)] for a boolean term."""
        if term.k == 'int':
            return [(bool(term.a[0]), st)]
        if term.k == 'noise':
            return [(True, st.copy()), (False, st)]
        out = []
        p1 = self.assume(st.pc, term, False, [1])
        p0 = self.assume(st.pc, term, False, [0])
        if p1:
            s = st.copy()
            s.pc = p1
            out.append((True, s))
        if p0:
            s = st.copy()
            s.pc = p0
            out.append((False, s))
        return out

    # -- smart constructors ------------------------------------------------------------------------
    def adt(self, path, vi, vname, fields):
        fields = tuple(fields)
        if fields:
            f0 = fields[0]
            a = self.P.adts.get(path)
            en = a[0] if a else False
            if f0.k == 'proj' and f0.a[2] == 0 and (f0.a[1] == (vname if en else None)):
                base = f0.a[0]
                if all(f.k == 'proj' and f.a[0] is base and f.a[2] == i and f.a[1] == f0.a[1] for i, f in enumerate(fields)):
                    bt = self.P.strip(self.ty(base))
                    if bt and bt[0] == 'adt' and bt[1] == path:
                        return base
            if f0.k == 'V' and f0.a[0].k == 'proj':
                pass
        return mk('adt', path, vi, vname, fields)

    def rebuild(self, k, a):
        if k == 'adt':
            return self.adt(*a)
        if k == 'vec':
            out = []
            for s in a[0]:
                if s.k == 'sp' and s.a[0].k == 'vec':
                    out.extend(s.a[0].a[0])
                else:
                    out.append(s)
            return vec(out)
        if k == 'not':
            return self.neg(a[0])
        if k == 'proj':
            return self.getp(a[0], ('f', a[1], a[2], a[3]))
        if k == 'eq':
            return self.eq(a[0], a[1])
        if k == 'lin':
            return self.lin(a[0], a[1])
        if k == 'discr':
            return self.discr(a[0])
        if k == 'max' and len(a) == 2:
            if a[0] is a[1]:
                return a[0]
            if a[0].k == 'int' and a[1].k == 'int':
                return I(max(a[0].a[0], a[1].a[0]))
            for x, y in (a, a[::-1]):
                if x is I(0) and (y.k in ('len', 'max') or self.P.strip(self.ty(y)) in (('prim', 'u32'), ('prim', 'usize'), ('prim', 'u64'))):
                    return y
        return mk(k, *a)

    def subst(self, st, m):
        sb = Subst(m, self.rebuild)
        heap = {}
        for c, v in st.heap.items():
            heap[(c if c[0] != 'P' else ('P', sb.t(c[1])))] = sb.t(v)
        s = State(heap, None, tuple(sb.any(e) for e in st.ev), tuple(sb.any(g) for g in st.guards), st.marks)
        s.pc = self.subst_pc(st.pc, sb)
        return s

    def subst_pc(self, pc, sb):
        out = set()
        for c in pc:
            cc = frozenset([frozenset()])
            for (t, n, v) in c:
                t2 = sb.t(t)
                cc = self.assume(cc, t2, n, v) if t2 is not t else frozenset(
                    x for x in (conj_assume(y, t, n, v, self.domain(t)) for y in cc) if x is not None)
            out |= cc
        return pc_simplify(out, self.domain)

    def neg(self, t):
        if t.k == 'int':
            return I(1 - t.a[0])
        if t.k == 'not':
            return t.a[0]
        if t.k == 'noise':
            return t
        return mk('not', t)

    def eq(self, a, b):
        if a is b:
            return TRUE
        if a.k == 'noise' or b.k == 'noise':
            return NOISE
        ca, cb = a.k in ('int', 'str'), b.k in ('int', 'str')
        if ca and cb:
            return I(int(a.a[0] == b.a[0]))
        if ca or (not cb and a.n > b.n):
            a, b = b, a
        if b.k == 'int' and self.ty(a) == ('prim', 'bool') or a.k in ('eq', 'lt', 'le', 'not', 'any', 'contains') and b.k == 'int':
            return a if b.a[0] == 1 else self.neg(a)
        d = self.difference(a, b)
        if d is not None:
            lo, hi = d
            if lo == hi == 0:
                return TRUE
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return FALSE
        return mk('eq', a, b)

    def difference(self, a, b):
        """Bounds (lo, hi) of a - b for integers whose unknown parts cancel or are lengths (no wrapping: checked arithmetic aborts)."""
        if 'lin' not in (a.k, b.k) and 'len' not in (a.k, b.k):
            return None
        if a.k not in ('lin', 'len', 'int') or b.k not in ('lin', 'len', 'int'):
            return None
        d = self.lin(0, ((a, 1), (b, -1)))
        if d.k == 'int':
            return d.a[0], d.a[0]
        c, ts = (d.a[0], d.a[1]) if d.k == 'lin' else (0, ((d, 1),))
        lo = c if all(t.k == 'len' and k > 0 for t, k in ts) else None
        hi = c if all(t.k == 'len' and k < 0 for t, k in ts) else None
        return None if lo is None and hi is None else (lo, hi)

    def discr(self, v):
        if v.k == 'adt':
            a = self.P.adts.get(v.a[0])
            return I(self.discr_of(v.a[0], v.a[1]) if a else v.a[1])
        if v.k == 'noise':
            return NOISE
        if v.k == 'entry':
            # Occupied = 0, Vacant = 1
            from .models import mget_opt
            return self.neg(self.eq(self.discr(mget_opt(self, v.a[3], v.a[2])), I(1)))
        return mk('discr', v)

    def lin(self, c, terms):
        d = {}
        for t, k in terms:
            if t.k == 'int':
                c += t.a[0] * k
            elif t.k == 'lin':
                c += t.a[0] * k
                for t2, k2 in t.a[1]:
                    d[t2] = d.get(t2, 0) + k * k2
            else:
                d[t] = d.get(t, 0) + k
        ts = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].n))
        if not ts:
            return I(c)
        if c == 0 and len(ts) == 1 and ts[0][1] == 1:
            return ts[0][0]
        return mk('lin', c, ts)

    def less(self, a, b, strict, unsigned=True):
        """a < b or a <= b as a boolean term (integers)."""
        if a.k == 'noise' or b.k == 'noise':
            return NOISE
        if a.k == 'int' and b.k == 'int':
            return I(int(a.a[0] < b.a[0] if strict else a.a[0] <= b.a[0]))
        if a is b:
            return I(0 if strict else 1)
        if strict and a.k == 'idx' and self.idx_below(a, b):
            return TRUE
        if not strict:
            # a <= b  ==  not (b < a)
            return self.neg(self.less(b, a, True, unsigned))
        d = self.difference(a, b)
        if d is not None:
            lo, hi = d
            if hi is not None and hi < 0:
                return TRUE
            if lo is not None and lo >= 0:
                return FALSE
        if unsigned:
            if b.k == 'int' and b.a[0] <= 0:
                return FALSE
            if b.k == 'int' and b.a[0] == 1:
                return self.eq(a, I(0))
            if a.k == 'int' and a.a[0] == 0:
                return self.neg(self.eq(b, I(0)))
        return mk('lt', a, b)

    def idx_below(self, i, b):
        """Is the position of a pass below b, by what the pass goes over?"""
        src = i.a[0]
        if b.k == 'len' and b.a[0] is src:
            return True
        if b.k == 'max':
            return any(self.idx_below(i, x) for x in b.a)
        if b.k == 'min':
            return all(self.idx_below(i, x) for x in b.a)
        if src.k == 'range':
            top = src.a[1]
            return b is top or top.k == 'min' and b in top.a
        if src.k == 'zip':
            return any(self.idx_below(mk('idx', x), b) for x in src.a)
        return False

    # -- places ------------------------------------------------------------------------------------
    def load(self, st, cell):
        v = st.heap.get(cell)
        if v is not None:
            return v
        c = cell[0]
        if c == 'P':
            return cell[1]
        if c == 'S':
            return self.static_value(cell[1])
        if c == 'C':
            return cell[1]
        return UNDEF

    def read(self, st, cell, path):
        v = self.load(st, cell)
        for i, el in enumerate(path):
            if v.k == 'ref':
                # implicit deref (Box of ref cannot happen; transparent smart pointers can)
                v = self.read(st, v.a[0], v.a[1])
            v = self.getp(v, el)
        return v

    def write(self, st, cell, path, new):
        if not path:
            if new is NOISE or (new is UNIT and cell[0] == 'L'):
                if cell[0] == 'L':
                    st.heap.pop(cell, None)
                    if new is NOISE:
                        st.heap[cell] = NOISE
                    return
            st.heap[cell] = new
            return
        v = self.load(st, cell)
        st.heap[cell] = self.setp(v, path, new)

    def expand(self, v, vname):
        """Symbolic struct/tuple value -> explicit constructor of its projections."""
        if v.k in ('adt', 'tup', 'clo'):
            return v
        t = self.P.strip(self.ty(v))
        if t is None:
            return None
        if t[0] == 'tuple':
            return mk('tup', tuple(self.getp(v, ('f', None, i, str(i))) for i in range(len(t[1]))))
        if t[0] != 'adt':
            return None
        a = self.P.adts.get(t[1])
        if not a:
            return None
        x = self.P.variant(t[1], vname)
        if x is None or (a[0] and vname is None):
            return None
        vi, var = x
        return mk('adt', t[1], vi, var[0], tuple(
            self.getp(v, ('f', vname if a[0] else None, i, f[0])) for i, f in enumerate(var[2])))

    def setp(self, v, path, new):
        if not path:
            return new
        el = path[0]
        k = el[0]
        if k == 'f':
            x = v
            if x.k not in ('adt', 'tup', 'clo') or (x.k == 'adt' and el[1] is not None and x.a[2] != el[1]):
                x = self.expand(v, el[1])
            if x is None:
                return mk('upd', v, el, self.setp(self.getp(v, el), path[1:], new))
            i = el[2]
            if x.k == 'adt':
                fs = list(x.a[3])
                if i >= len(fs):
                    return mk('upd', v, el, new)
                fs[i] = self.setp(fs[i], path[1:], new)
                return self.adt(x.a[0], x.a[1], x.a[2], fs)
            if x.k == 'tup':
                fs = list(x.a[0])
                fs[i] = self.setp(fs[i], path[1:], new)
                return mk('tup', tuple(fs))
            fs = list(x.a[1])
            fs[i] = self.setp(fs[i], path[1:], new)
            return mk('clo', x.a[0], tuple(fs))
        if k == 'i':
            idx = el[1]
            if v.k == 'vec' and idx.k == 'int' and self.concrete_at(v, idx.a[0]) is not None:
                fs = list(v.a[0])
                fs[idx.a[0]] = E(self.setp(fs[idx.a[0]].a[0], path[1:], new))
                return vec(fs)
            if idx.k == 'idx' and self.belongs(v, idx.a[0]):
                return self.setp(v, (('g', idx.a[0]),) + path[1:], new)
            nv = self.setp(self.getp(v, el), path[1:], new)
            return mk('iset', v.a[0] if v.k == 'iset' and v.a[1] is idx else v, idx, nv)
        if k == 'g':
            old = self.getp(v, el)
            nv = self.setp(old, path[1:], new)
            base = v
            while base.k == 'gupd' and base.a[1] is el[1]:
                base = base.a[0]
            if nv is mk('elem', el[1]):
                return base
            return mk('gupd', base, el[1], nv)
        if k == 'mk':      # value slot of a map key
            old = self.getp(v, el)
            return self.minsert(v, el[1], self.setp(old, path[1:], new))
        if k == 'gv':      # value of a generic map entry
            old = self.getp(v, el)
            nv = self.setp(old, path[1:], new)
            base = v
            while base.k == 'gupd' and base.a[1] is el[1]:
                base = base.a[0]
            if nv is mk('eval', el[1]):
                return base
            return mk('gupd', base, el[1], nv)
        if k == 'last':
            if v.k == 'vec' and v.a[0] and v.a[0][-1].k == 'e':
                fs = list(v.a[0])
                fs[-1] = E(self.setp(fs[-1].a[0], path[1:], new))
                return vec(fs)
            return mk('iset', v, mk('lastidx'), self.setp(self.getp(v, el), path[1:], new))
        return mk('upd', v, el, new)

    def belongs(self, v, src):
        """Positions of the sequence src are positions of v."""
        while v.k == 'gupd':
            if v.a[1] is not src:
                return False
            v = v.a[0]
        return v is src or v.k == 'mu' and v.a[1] is src

    def concrete_at(self, v, i):
        segs = v.a[0]
        if i < len(segs) and all(s.k == 'e' for s in segs[:i + 1]):
            return segs[i].a[0]
        return None

    def getp(self, v, el):
        k = el[0]
        vk = v.k
        if vk in ('noise', 'undef'):
            return v
        if k == 'f':
            if vk == 'adt':
                if el[1] is not None and v.a[2] != el[1]:
                    return UNDEF
                return v.a[3][el[2]] if el[2] < len(v.a[3]) else UNDEF
            if vk == 'tup':
                return v.a[0][el[2]] if el[2] < len(v.a[0]) else UNDEF
            if vk == 'clo':
                return v.a[1][el[2]]
            if vk == 'Vc' or (vk == 'V' and self.no_override(v)):
                sub = self.getp(v.a[0], el)
                return self.visited(sub, v.a[1])
            if vk == 'upd':
                if v.a[1] == el:
                    return v.a[2]
                return self.getp(v.a[0], el)
            if vk == 'mopt' and el[1] == 'Some':
                return self.mget(v.a[0], v.a[1])
            if vk == 'entry':
                return v
            if vk == 'dum':
                from .models import dummy_of
                t = self.P.fieldty(self.ty(v), el[1], el[2])
                if t is not None:
                    return dummy_of(self, t)
            return mk('proj', v, el[1], el[2], el[3])
        if k == 'i':
            idx = el[1]
            if vk == 'vec' and idx.k == 'int':
                c = self.concrete_at(v, idx.a[0])
                if c is not None:
                    return c
            if idx.k == 'idx' and idx.a[0] is v:
                return mk('elem', v)
            if vk == 'gupd' and idx.k == 'idx' and idx.a[0] is v.a[1]:
                return v.a[2]
            if vk == 'mu' and idx.k == 'idx' and v.a[1] is idx.a[0]:
                return mk('elem', idx.a[0])
            if vk == 'iset' and v.a[1] is idx:
                return v.a[2]
            return mk('at', v, idx)
        if k == 'g':
            if vk == 'gupd' and v.a[1] is el[1]:
                return v.a[2]
            return mk('elem', el[1])
        if k == 'gv':
            if vk == 'gupd' and v.a[1] is el[1]:
                return v.a[2]
            return mk('eval', el[1])
        if k == 'mk':
            return self.mget(v, el[1])
        if k == 'last':
            if vk == 'vec' and v.a[0] and v.a[0][-1].k == 'e':
                return v.a[0][-1].a[0]
            return mk('at', v, mk('lastidx'))
        return mk('at', v, mk('el', str(el)))

    # maps: mempty(ty) | symbolic | minsert(m, k, v)
    def mget(self, m, key):
        while m.k == 'minsert':
            if m.a[1] is key:
                return m.a[2]
            if m.a[1].k in ('int', 'str') and key.k in ('int', 'str'):
                m = m.a[0]
                continue
            return mk('mval', m, key)
        if key.k == 'ekey' and key.a[0] is m:
            return mk('eval', m)
        return mk('mval', m, key)

    def minsert(self, m, key, val):
        if m.k == 'minsert' and m.a[1] is key:
            return mk('minsert', m.a[0], key, val)
        if val.k == 'mval' and val.a[0] is m and val.a[1] is key:
            return m
        return mk('minsert', m, key, val)

    def no_override(self, v):
        """V(x, vis): True if the visitor has no method of its own for x's type (so visiting = visiting children)."""
        t = self.P.strip(self.ty(v.a[0]))
        name = self.type_name(t)
        vt = v.a[1].a[0] if v.a[1].k == 'vis' else None
        ov = self.overrides.get(vt)
        return ov is not None and name is not None and name not in ov

    def type_name(self, t):
        if t is None:
            return None
        if t[0] == 'adt':
            n = t[1].split('::')[-1]
            if n == 'Vec' and t[2]:
                e = self.P.strip(t[2][0])
                en = self.type_name(e)
                return 'Vec<%s>' % en if en else None
            if n == 'Option' and t[2]:
                return self.type_name(self.P.strip(t[2][0]))
            return n
        return None

    def visited(self, x, vis):
        """The value of x after a visitor walked over it."""
        k = x.k
        if k in ('int', 'str', 'flt', 'const', 'noise', 'undef', 'fn'):
            return x
        t = self.P.strip(self.ty(x))
        if t is not None and not self.visitable(t):
            return x
        return mk('V', x, vis)

    LEAF = ('Span', 'SyntaxContext', 'Atom', 'JsWord', 'String', 'Ident', 'IdentName', 'PrivateName', 'Str', 'Number', 'Bool', 'Null',
            'BigInt', 'Regex', 'BinaryOp', 'AssignOp', 'UnaryOp', 'UpdateOp', 'VarDeclKind', 'MethodKind', 'MetaPropKind',
            'Accessibility', 'BindingIdent')

    def visitable(self, t, seen=None):
        """Can a value of this type contain an executable part (statement, expression, pattern default, function)?"""
        memo = self.P._vis
        if t in memo:
            return memo[t]
        t0 = t
        t = self.P.strip(t)
        r = False
        if t is None:
            r = True
        elif t[0] in ('prim', 'closure', 'fndef'):
            r = False
        elif t[0] == 'tuple':
            r = any(self.visitable(x) for x in t[1])
        elif t[0] in ('slice', 'array'):
            r = self.visitable(t[1])
        elif t[0] == 'adt':
            n = t[1].split('::')[-1]
            if n in self.LEAF:
                r = False
            elif t[1].startswith('swc_ecma_ast::'):
                if n.startswith('Ts') or n in ('TsTypeAnn',):
                    r = False
                else:
                    r = n in self.EXEC or self._reach(t, set())
            else:
                r = any(self.visitable(x) for x in t[2])
        memo[t0] = r
        return r

    EXEC = frozenset(('Expr', 'Stmt', 'BlockStmt', 'Function', 'Class', 'Pat', 'ModuleItem', 'Decl', 'ModuleDecl', 'VarDecl', 'PropName',
                      'Callee', 'Prop', 'PropOrSpread', 'ClassMember', 'Param', 'VarDeclarator', 'SwitchCase', 'CatchClause',
                      'JSXElement', 'BlockStmtOrExpr', 'VarDeclOrExpr', 'ForHead', 'AssignTarget', 'Key', 'MemberProp',
                      'SimpleAssignTarget', 'AssignTargetPat', 'OptChainBase', 'ObjectPatProp', 'ParamOrTsParamProp', 'ExprOrSpread',
                      'Decorator', 'SuperProp', 'ComputedPropName', 'DefaultDecl', 'Program', 'Module', 'Script'))

    def _reach(self, t, seen):
        t = self.P.strip(t)
        if t is None or t in seen:
            return False
        seen.add(t)
        if t[0] == 'adt':
            n = t[1].split('::')[-1]
            if n in self.EXEC:
                return True
            if n in self.LEAF or n.startswith('Ts'):
                return False
            a = self.P.adts.get(t[1])
            if a and t[1].startswith('swc_ecma_ast::'):
                m = dict(zip(a[1], t[2]))
                return any(self._reach(self.P.subst(f[1], m), seen) for v in a[2] for f in v[2])
            return any(self._reach(x, seen) for x in t[2])
        if t[0] == 'tuple':
            return any(self._reach(x, seen) for x in t[1])
        if t[0] in ('slice', 'array'):
            return self._reach(t[1], seen)
        return False

    # -- statics / consts --------------------------------------------------------------------------
    def static_value(self, path):
        if path in self.static_cache:
            return self.static_cache[path]
        self.static_cache[path] = mk('static', path)
        b = self.P.bodies.get(path)
        v = mk('static', path)
        if b is not None and '__CALLSITE' not in path:
            try:
                outs = self.run_body(b, [], State(), 1, {}, ())
                if len(outs) == 1:
                    r = outs[0][0]
                    if r.k == 'lazy':
                        r = self.force_lazy(r, path)
                    if r.k != 'oncecell' and not mentions(r, lambda x: x.k == 'ref'):
                        v = r
                    elif r.k == 'ref' or r.k == 'adt' or r.k == 'vec':
                        v = r
            except Limit:
                pass
        self.static_cache[path] = v
        return v

    def force_lazy(self, r, path):
        outs = self.call_value(r.a[0], (), State(), 2, ())
        if len(outs) == 1:
            return outs[0][0]
        return mk('static', path)

    # -- execution ---------------------------------------------------------------------------------
    def run_body(self, b, args, st, d, tm, stack):
        """Returns [(ret term, state)]; panicking paths are recorded in self.panics."""
        if d > self.maxdepth:
            raise Limit('depth in ' + b.path)
        self.P.cfg(b)
        self.inlined.add(b.path)
        st = st.copy()
        for i, a in enumerate(args):
            if a is not NOISE:
                st.heap[('L', d, i + 1)] = a
            else:
                st.heap[('L', d, i + 1)] = NOISE
        fr = Frame(b, d, tm, stack + (b.path,))
        marks = st.marks
        lat, ex = self.region(fr, None, 0, [st])
        outs = {}
        for tgt, s in ex:
            if tgt != 'ret':
                continue
            r = s.heap.get(('L', d, 0), UNIT)
            h = {c: v for c, v in s.heap.items() if not (c[0] in ('L', 'X') and c[1] >= d)}
            s2 = State(h, s.pc, s.ev, s.guards, s.marks)
            key = (r, s2.key())
            if key in outs:
                o = outs[key]
                o[1].pc = pc_simplify(o[1].pc | s2.pc, self.domain)
            else:
                outs[key] = (r, s2)
        return list(outs.values())

    def region(self, fr, blocks, start, states, header=None):
        """Runs a set of blocks from start. Returns (latch states, [(exit target, state)])."""
        b = fr.b
        rpo = b.rpo
        work = {}

        def add(bb, s):
            if not s.pc:
                return
            m = work.setdefault(bb, {})
            k = s.key()
            o = m.get(k)
            if o is None:
                m[k] = s
            else:
                o.pc = pc_simplify(o.pc | s.pc, self.domain)
        for s in states:
            add(start, s)
        latch = []
        exits = []
        first = True
        while work:
            bb = min(work, key=lambda x: rpo[x])
            ss = list(work.pop(bb).values())
            if bb in b.loops and not self.unroll and not (first and bb == header) and bb != header:
                loop = b.loops[bb]
                if blocks is None or loop <= blocks:
                    first = False
                    for s in ss:
                        for tgt, s2 in self.loop(fr, bb, loop, s):
                            if tgt == 'ret' or (blocks is not None and tgt not in blocks):
                                exits.append((tgt, s2))
                            else:
                                add(tgt, s2)
                    continue
            first = False
            if len(ss) > 600:
                raise Limit('too many states at bb%d of %s' % (bb, b.path))
            for s in ss:
                for tgt, s2 in self.block(fr, bb, s):
                    if tgt == 'latch' or (tgt == header and header is not None):
                        latch.append(s2)
                    elif tgt == 'ret' or (blocks is not None and tgt not in blocks):
                        exits.append((tgt, s2))
                    else:
                        add(tgt, s2)
        return self.dedupe(latch), exits

    def dedupe(self, sts):
        m = {}
        for s in sts:
            k = s.key()
            if k in m:
                m[k].pc = pc_simplify(m[k].pc | s.pc, self.domain)
            else:
                m[k] = s
        return list(m.values())

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Limit('step budget')

    # place -> (cell, path)
    def place(self, fr, st, p):
        cell = ('L', fr.d, p['l'])
        path = ()
        vn = None
        for e in p['p']:
            k = e['k']
            if k == 'deref':
                vn = None
                if e.get('box'):
                    continue
                v = self.read(st, cell, path)
                cell, path = self.deref(st, v, cell, path)
            elif k == 'f':
                path = path + (('f', vn, e['i'], e['n']),)
                vn = None
            elif k == 'down':
                vn = e['n']
            elif k == 'idx':
                i = self.load(st, ('L', fr.d, e['l']))
                path = path + (('i', i),)
            elif k == 'cidx':
                path = path + (('i', I(e['o'])),) if not e.get('e') else path + (('last',),)
            # sub / cast: representation is unchanged
        return cell, path

    def deref(self, st, v, cell=None, path=()):
        """Cell a reference-like value points to."""
        n = 0
        if v.k == 'ref':
            return v.a[0], v.a[1]
        if v.k == 'rc':
            return v.a[0], ()
        if v.k == 'guard':
            return v.a[0], v.a[1]
        if v.k == 'undef' and cell is not None:
            return cell, path
        return ('P', v), ()

    def operand(self, fr, st, o):
        k = o['o']
        if k == 'k':
            return self.const(o['v'], o['t'], fr)
        p = o['p']
        cell, path = self.place(fr, st, p)
        v = self.read(st, cell, path)
        if k == 'm' and not p['p'] and v is not UNDEF:
            st.heap.pop(cell, None)
        return v

    def const(self, v, t, fr=None):
        c = v['c']
        if c == 'int':
            x = v['v']
            if isinstance(x, str) and x.startswith('f:'):
                return mk('flt', x[2:])
            return I(int(x))
        if c == 'str':
            return S(v['v'])
        if c == 'bytes':
            return mk('bytes', tuple(v['v']))
        if c == 'fn':
            return mk('fn', _fnkey(v['f']))
        if c == 'zst':
            s = self.P.strip(t)
            if s and s[0] == 'closure':
                return mk('clo', s[1], ())
            if s and s[0] == 'adt':
                a = self.P.adts.get(s[1])
                if a and not a[0]:
                    return mk('adt', s[1], 0, a[2][0][0], ())
            return UNIT
        if c == 'static':
            return mk('ref', ('S', v['p']), ())
        if c == 'named':
            p = v['p']
            if p.endswith('::DUMMY_SP'):
                return DUMMY_SPAN
            b = self.P.bodies.get(p)
            if b is not None:
                if p not in self.const_cache:
                    self.const_cache[p] = mk('const', p)
                    outs = self.run_body(b, [], State(), 1, {}, ())
                    if len(outs) == 1:
                        self.const_cache[p] = self.freeze(outs[0][0], outs[0][1])
                return self.const_cache[p]
            if p.startswith('tracing'):
                n = p.split('::')[-1]
                return mk('const', 'log::' + n) if self.logging and n.isupper() else NOISE
            return mk('const', p)
        if c == 'tyconst':
            x = str(v.get('v'))
            if len(x) > 1 and x[0] == x[-1] == '"' and '\\' not in x:
                return S(x[1:-1])
            return mk('const', str(v.get('v')))
        return mk('const', str(sorted((str(k), str(x)) for k, x in v.items())))

    def freeze(self, v, st):
        """Constant value with references into dying frames resolved to constant cells."""
        m = {}
        for x in subterms(v):
            if x.k == 'ref' and x.a[0][0] in ('L', 'X'):
                m[x] = mk('ref', ('C', self.read(st, x.a[0], x.a[1])), ())
        return Subst(m, self.rebuild).t(v) if m else v

    def block(self, fr, bb, st):
        self.tick()
        st = st.copy()
        B = fr.b.bbs[bb]
        for s in B['s']:
            k = s['s']
            if k == '=':
                v = self.rvalue(fr, st, s['v'], s['p'])
                cell, path = self.place(fr, st, s['p'])
                self.write(st, cell, path, v)
            elif k == 'dead':
                st.heap.pop(('L', fr.d, s['l']), None)
            elif k == 'setd':
                pass
        t = B['t']
        k = t['t']
        if k == 'goto' or k == 'other' or k == 'assert':
            to = t.get('to')
            if to is None:
                return []
            if k == 'assert' and not t['m'].startswith('Overflow'):
                v = self.operand(fr, st, t['o'])
                if v.k in ('int', 'lt', 'eq', 'not', 'and', 'or'):
                    out = []
                    for b, s in self.branch(st, v):
                        if b == t['e']:
                            out.append((to, s))
                        else:
                            self.panic('failed check: ' + t['m'], s, fr)
                    return out
            return [(to, st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'unreach':
            return []
        if k == 'drop':
            cell, path = self.place(fr, st, t['p'])
            v = self.read(st, cell, path)
            out = []
            for st in self.run_drop(st, fr, v, mk('ref', cell, path)):
                self.release(st, v)
                if not t['p']['p']:
                    st.heap.pop(cell, None)
                out.append((t['to'], st))
            return out
        if k == 'switch':
            v = self.operand(fr, st, t['o'])
            if v.k == 'adt':
                v = self.discr(v)
            tgts = [(int(x[0]), x[1]) for x in t['ts']]
            if v.k == 'int':
                for val, to in tgts:
                    if val == v.a[0]:
                        return [(to, st)]
                return [(t['else'], st)] if t['else'] is not None else []
            if v.k in ('noise', 'undef'):
                out = []
                for to in dict.fromkeys([x[1] for x in tgts] + ([t['else']] if t['else'] is not None else [])):
                    out.append((to, st.copy()))
                return out
            out = []
            for val, to in tgts:
                pc = self.assume(st.pc, v, False, [val])
                if pc:
                    s = st.copy()
                    s.pc = pc
                    out.append((to, s))
            if t['else'] is not None:
                pc = self.assume(st.pc, v, True, [x[0] for x in tgts])
                if pc:
                    s = st.copy()
                    s.pc = pc
                    out.append((t['else'], s))
            return out
        if k == 'call':
            f = t['f']
            args = []
            callee = None
            fv = None
            if f['o'] == 'k' and f['v']['c'] == 'fn':
                callee = f['v']['f']
            else:
                fv = self.operand(fr, st, f)
            args = [self.operand(fr, st, a) for a in t['a']]
            sp = t.get('sp') or B.get('sp')
            self.cur_bb[fr.d] = bb
            if callee is not None:
                self.rty = self.tsub(self.opty(fr, {'o': 'c', 'p': t['d']}), fr)
                ma = []
                for i, a in enumerate(t['a']):
                    at = self.opty(fr, a)
                    if at is not None and at[0] == 'ref' and at[1]:
                        ma.append(i)
                self.margs = tuple(ma)
                outs = self.call(callee, args, st, fr, sp, t)
            else:
                outs = self.call_value(fv, args, st, fr.d + 1, fr.stack)
            res = []
            for o in outs:
                if o[0] == 'panic':
                    continue
                r, s = o
                if r == 'latch':
                    res.append(('latch', s))
                    continue
                if t['to'] is None:
                    continue
                s = s.copy() if s is st else s
                cell, path = self.place(fr, s, t['d'])
                self.write(s, cell, path, r)
                res.append((t['to'], s))
            return res
        raise Limit('terminator ' + k)

    def tsub(self, t, fr):
        return self.P.subst(t, fr.tm) if t is not None and fr.tm else t

    def run_drop(self, st, fr, v, ref):
        """States after the program's own drop code of a value, if its type has any."""
        own = self.dropfns
        if not own:
            return [st]
        ty = self.P.strip(self.ty(v)) if v.k not in ('clo', 'noise', 'undef') else None
        b = own.get(ty[1]) if ty is not None and ty[0] == 'adt' else None
        if b is not None:
            return [s for _, s in self.run_body(b, [ref], st, fr.d + 1, {}, fr.stack)]
        if any(x.k == 'adt' and x.a[0] in own for x in subterms(v)):
            raise Limit('a value with its own drop code inside another in ' + fr.b.path)
        return [st]

    def release(self, st, v):
        if not st.guards:
            return
        gs = [x for x in subterms(v) if x.k == 'guard']
        if gs:
            g = list(st.guards)
            for x in gs:
                if x in g:
                    g.remove(x)
            st.guards = tuple(g)

    def panic(self, msg, st, fr, sp=None):
        if st.pc:
            self.panics.append(Panic(msg, fr.b.path if isinstance(fr, Frame) else str(fr), st.pc,
                                     fr.stack if isinstance(fr, Frame) else (), sp))
        return []

    def no_underflow(self, st, fr, a, b):
        """An unsigned difference below zero aborts (or wraps): that is recorded, and what follows assumes it is not."""
        t = self.less(a, b, True)
        if t is FALSE or t.k == 'noise':
            return
        bad = self.assume(st.pc, t, False, [1])
        bad = frozenset(c for c in bad if not self.at_least(c, a, b))
        if bad:
            self.panics.append(Panic('a difference below zero', fr.b.path if isinstance(fr, Frame) else str(fr), bad,
                                     fr.stack if isinstance(fr, Frame) else ()))
            good = self.assume(st.pc, t, False, [0])
            if good:
                st.pc = good

    def bounds_of(self, t):
        """Integers that are at least t: positions found in a list and counts of leading elements of it."""
        from .models import vlen
        if t.k == 'found' and len(t.a) > 1 and t.a[1].a[0] == 'idx':
            return [self.lin(-1, ((vlen(self, t.a[0]), 1),))]
        if t.k == 'idx':
            return [self.lin(-1, ((vlen(self, t.a[0]), 1),))]
        if t.k == 'pre':
            return self.bounds_of(t.a[0])
        if t.k == 'fold' and t.a[2].k == 'int':
            src, mu, init, alts = t.a
            if all(v is mu or v.k == 'lin' and v.a == (1, ((mu, 1),)) for _, v in alts):
                return [self.lin(init.a[0], ((vlen(self, src), 1),))]
        return []

    def in_bounds(self, st, fr, i, L, msg):
        """A position behind the end of the list aborts: that is recorded, and what follows assumes it is not."""
        t = self.less(L, i, True)
        if t is FALSE or t.k == 'noise':
            return
        bad = self.assume(st.pc, t, False, [1])
        bad = frozenset(c for c in bad if not self.within(c, i, L))
        if bad:
            self.panics.append(Panic(msg, fr.b.path if isinstance(fr, Frame) else str(fr), bad, fr.stack if isinstance(fr, Frame) else ()))
            good = self.assume(st.pc, t, False, [0])
            if good:
                st.pc = good

    def within(self, c, i, L):
        """The facts of one way say i <= L."""
        if self.at_least(c, L, i):
            return True
        if i.k == 'max':
            return all(self.within(c, x, L) for x in i.a)
        if i.k == 'min':
            return any(self.within(c, x, L) for x in i.a)
        if i.k == 'lin':
            return len(i.a[1]) == 1 and i.a[1][0][1] == 1 and self.within(c, i.a[1][0][0], self.lin(-i.a[0], ((L, 1),)))
        return any(self.at_least(c, L, b) for b in self.bounds_of(i))

    def at_least(self, c, a, b):
        """The facts of one way say a >= b: lower bounds of the unknown parts of a - b."""
        d = self.lin(0, ((a, 1), (b, -1)))
        if d.k == 'int':
            return d.a[0] >= 0
        lo, ts = (d.a[0], d.a[1]) if d.k == 'lin' else (0, ((d, 1),))
        for t, n, v in c:
            if t.k == 'lt' and not n and len(v) == 1 and all(y.k in ('int', 'lin', 'len') for y in t.a):
                x, y = t.a
                e = self.lin(-1, ((y, 1), (x, -1))) if 1 in v else self.lin(0, ((x, 1), (y, -1)))
                r = self.lin(0, ((d, 1), (e, -1)))
                if r.k == 'int' and r.a[0] >= 0 or r.k == 'lin' and r.a[0] >= 0 and all(y.k == 'len' and k > 0 for y, k in r.a[1]) or r.k == 'len':
                    return True
        for x, k in ts:
            if k < 0:
                return False
            m = 0
            for t, n, v in c:
                if t.k == 'lt' and t.a[0] is x and t.a[1].k == 'int' and not n and v == {0}:
                    m = max(m, t.a[1].a[0])
                elif t.k == 'lt' and t.a[1] is x and t.a[0].k == 'int' and not n and v == {1}:
                    m = max(m, t.a[0].a[0] + 1)
                elif t.k == 'eq' and x in t.a and I(0) in t.a and not n and v == {0}:
                    m = max(m, 1)
                elif t is x and n and 0 in v:
                    m = max(m, 1)
                elif t is x and not n and v and all(isinstance(y, int) for y in v):
                    m = max(m, min(v))
            lo += k * m
        return lo >= 0

    # -- rvalues -----------------------------------------------------------------------------------
    def opty(self, fr, o):
        if o['o'] == 'k':
            return o['t']
        p = o['p']
        t = fr.b.locals[p['l']]
        vn = None
        for e in p['p']:
            if e['k'] == 'deref':
                t = self.P.strip(t) if t and t[0] == 'adt' else (t[2] if t and t[0] == 'ref' else t)
            elif e['k'] == 'f':
                t = self.P.fieldty(t, vn, e['i'])
                vn = None
            elif e['k'] == 'down':
                vn = e['n']
            elif e['k'] in ('idx', 'cidx'):
                t = self.P.elemty(t)
        return t

    def rvalue(self, fr, st, r, dest):
        k = r['r']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k in ('ref', 'rawptr'):
            cell, path = self.place(fr, st, r['p'])
            if not path:
                v = self.load(st, cell)
                if v is NOISE:
                    return NOISE
            else:
                v = self.load(st, cell)
                if v is NOISE:
                    return NOISE
            if cell[0] == 'P' and not path and cell not in st.heap:
                return cell[1]       # reborrow of a symbolic reference
            return mk('ref', cell, path)
        if k == 'discr':
            cell, path = self.place(fr, st, r['p'])
            v = self.read(st, cell, path)
            return self.discr(v)
        if k == 'cast':
            v = self.operand(fr, st, r['o'])
            kind = r['k']
            if 'FloatToInt' in kind:
                return mk('app', 'f2i', (v,), r['t'])
            if 'IntToFloat' in kind:
                if r['t'] == ('prim', 'f32') and v.k != 'noise':
                    return mk('app', 'f32', (v,), r['t'])
                return mk('i2f', v) if v.k != 'noise' else v
            if 'FloatToFloat' in kind and r['t'] == ('prim', 'f32'):
                return mk('app', 'f32', (v,), r['t'])
            if 'IntToInt' in kind and r['t'][0] == 'prim' and r['t'][1] in NARROW:
                t = self.opty(fr, r['o'])
                if v.k == 'int' and v.a[0] < NARROW[r['t'][1]]:
                    return v
                if t is None or t[0] != 'prim' or t[1] not in ('bool', 'u8', 'i8', r['t'][1]):
                    return mk('app', 'trunc', (v,), r['t'])
            return v
        if k == 'bin':
            a = self.operand(fr, st, r['a'])
            b = self.operand(fr, st, r['b'])
            t = self.opty(fr, r['a'])
            if r['op'] == 'Sub' and t and t[0] == 'prim' and t[1][0] == 'u':
                self.no_underflow(st, fr, a, b)
            return self.binop(r['op'], a, b, t)
        if k == 'un':
            v = self.operand(fr, st, r['a'] if 'a' in r else r['o'])
            if r['op'] == 'Not':
                t = self.opty(fr, r['a'] if 'a' in r else r['o'])
                if t == ('prim', 'bool') or v.k in ('not', 'eq', 'lt'):
                    return self.neg(v)
            if r['op'] == 'PtrMetadata':
                return mk('len', self.load_val(st, v))
            return v if v is NOISE else mk('app', 'un' + r['op'], (v,), None)
        if k == 'agg':
            kk = r['k']
            fs = [self.operand(fr, st, x) for x in r['f']]
            a = kk['k']
            if a == 'adt':
                return self.adt(kk['p'], kk.get('vi', 0), kk['v'], fs)
            if a == 'tuple':
                return mk('tup', tuple(fs))
            if a == 'array':
                return vec([E(x) for x in fs])
            if a == 'closure':
                return mk('clo', kk['p'], tuple(fs))
            return mk('app', 'agg' + a, tuple(fs), None)
        if k == 'repeat':
            return mk('app', 'repeat', (self.operand(fr, st, r['o']),), None)
        return mk('app', k, (), None)

    def load_val(self, st, v):
        n = 0
        while v.k in ('ref', 'rc', 'guard') and n < 8:
            c, p = self.deref(st, v)
            v = self.read(st, c, p)
            n += 1
        return v

    def binop(self, op, a, b, t):
        if a is NOISE or b is NOISE:
            return NOISE
        op = op.replace('Unchecked', '')
        fl = t in (('prim', 'f32'), ('prim', 'f64'))
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'Ne':
            return self.neg(self.eq(a, b))
        if not fl:
            if op == 'Lt':
                return self.less(a, b, True)
            if op == 'Le':
                return self.less(a, b, False)
            if op == 'Gt':
                return self.less(b, a, True)
            if op == 'Ge':
                return self.less(b, a, False)
            if op == 'Add':
                return self.lin(0, ((a, 1), (b, 1)))
            if op == 'Sub':
                return self.lin(0, ((a, 1), (b, -1)))
            if op == 'Mul' and (a.k == 'int' or b.k == 'int'):
                if b.k == 'int':
                    a, b = b, a
                return self.lin(0, ((b, a.a[0]),))
        if op == 'BitAnd' and (t == ('prim', 'bool')):
            if a.k == 'int':
                return b if a.a[0] else a
            if b.k == 'int':
                return a if b.a[0] else b
            return mk('and', a, b)
        if op == 'BitOr' and (t == ('prim', 'bool')):
            if a.k == 'int':
                return a if a.a[0] else b
            if b.k == 'int':
                return b if b.a[0] else a
            return mk('or', a, b)
        return mk('bin', op, a, b)

    # -- calls -------------------------------------------------------------------------------------
    def call(self, f, args, st, fr, sp=None, term=None):
        P = self.P
        d = fr.d + 1
        rty, margs = self.rty, self.margs
        self.rty, self.margs = None, ()
        if f.p.startswith('tracing') and not f.p.startswith('tracing_subscriber') or (f.res or '').startswith('tracing_core') and f.n != 'from_str':
            return [(NOISE, st)]
        if any(a is NOISE for a in args):
            return [(NOISE, st)]
        # closures / fn pointers through Fn*
        if f.trait and f.trait.startswith('core::ops::function::Fn') and f.n.startswith('call'):
            tupv = self.load_val(st, args[1]) if len(args) > 1 else UNIT
            cargs = list(tupv.a[0]) if tupv.k == 'tup' else [tupv]
            return self.call_value(args[0], cargs, st, d, fr.stack)
        if f.ctor is not None and f.ctor.get('ctor'):
            pass
        h = self.anchor_of(f, fr)
        if h is not None:
            self.rty, self.margs = rty, margs
            r = h(self, f, args, st, fr)
            if r is not None:
                return r
        b = P.bodies.get(f.res) if f.res else None
        if b is None:
            b = P.bodies.get(f.p) if not f.trait or f.p in P.bodies and not f.res and not f.trait else b
        tm = {}
        if b is None and f.trait and (f.res is None or f.res not in P.bodies):
            self_t = P.subst(f.self, fr.tm) if f.self else None
            targs = tuple(P.subst(x, fr.tm) for x in f.a)
            for c in P.impls.get((f.trait, f.n), ()):
                m = {}
                if self_t is not None and self_t[0] != 'param' and P.unify(c.impl_self, self_t, m) and \
                        all(P.unify(x, y, m) for x, y in zip(c.impl_trait_args, targs)):
                    b = c
                    break
            if b is None and args and self_t is not None and self_t[0] == 'param':
                v = self.load_val(st, args[0])
                vt = self.P.strip(self.ty(v)) if v.k not in ('clo',) else None
                if vt is not None:
                    for c in P.impls.get((f.trait, f.n), ()):
                        if P.unify(P.strip(c.impl_self), vt, {}):
                            b = c
                            break
            if b is None and not f.res and f.p in P.bodies:
                b = P.bodies[f.p]     # provided method
        if b is not None:
            if b.path.endswith('::print_node'):
                return [(NOISE, st)]
            if fr.stack.count(b.path) >= 2:
                self.rty, self.margs = rty, margs
                return self.opaque('rec:' + b.path, f, args, st, fr)
            tm = self.infer_tm(b, f, args, fr, st)
            return self.run_body(b, args, st, d, tm, fr.stack)
        m = self.models.get(f.key) or self.models.get('*::' + f.n)
        self.rty, self.margs = rty, margs
        if m is not None:
            r = m(self, f, args, st, fr)
            if r is not None:
                return r
        if f.ctor is not None:
            r = self.ctor(f, args)
            if r is not None:
                return [(r, st)]
        if m is None:
            from . import models
            r = models.variant_accessor(self, f, args, st, fr)
            if r is not None:
                return r
        if term is not None and term.get('to') is None:
            msg = ''
            for a in args:
                v = self.load_val(st, a)
                for x in subterms(v):
                    if x.k == 'str':
                        msg = x.a[0]
                    elif x.k == 'bytes':
                        msg = bytes(y & 255 for y in x.a[0]).decode('latin1')
            self.panic(f.key + (': ' + msg if msg else ''), st, fr, sp)
            return []
        self.rty, self.margs = rty, margs
        return self.opaque(f.key, f, args, st, fr)

    def ctor(self, f, args):
        return self.ctor_value(f, args)

    def infer_tm(self, b, f, args, fr, st=None):
        m = {}
        if b.impl_self is not None and f.self is not None:
            self.P.unify(b.impl_self, self.P.subst(f.self, fr.tm), m)
        # positional generics of the callee are not named in the dump: bind through argument types
        for pt, a in zip(b.argty, args):
            pt = self.P.strip(pt)
            if pt is not None and pt[0] == 'param':
                v = self.load_val(st, a) if st is not None and a.k == 'ref' else a
                if v.k in ('ref', 'clo'):
                    continue
                t = self.ty(v)
                if t is not None:
                    m.setdefault(pt[1], t)
        for k, v in fr.tm.items():
            m.setdefault(k, v)
        return m

    def anchor_of(self, f, fr):
        return self.anchors.get(f.res) or self.anchors.get(f.p)

    def call_value(self, fv, args, st, d, stack):
        """Call a closure / function value with already evaluated arguments."""
        n = 0
        envref = None
        while fv.k in ('ref', 'rc') and n < 6:
            c, p = self.deref(st, fv)
            envref = fv
            fv = self.read(st, c, p)
            n += 1
        if fv.k == 'clo':
            b = self.P.bodies.get(fv.a[0])
            if b is None:
                return self.opaque('closure', None, [fv] + list(args), st, None)
            t0 = b.locals[1] if b.args >= 1 else None
            st2 = st
            if t0 is not None and t0[0] == 'ref':
                if envref is None:
                    st2 = st.copy()
                    cell = ('X', d, 'env')
                    st2.heap[cell] = fv
                    # keep the cell alive inside the callee only
                    envref = mk('ref', cell, ())
                a0 = envref
            else:
                a0 = fv
            if b.args == 2 and len(args) != 1:
                pass
            fargs = [a0] + list(args)
            if len(fargs) != b.args:
                fargs = [a0] + [mk('tup', tuple(args))] if b.args == 2 else fargs
            return self.run_body(b, fargs, st2, d + 1, {}, stack)
        if fv.k == 'fn':
            f = _fnof(fv)
            if f.ctor is not None or (f.p not in self.P.bodies and f.res is None and f.n[:1].isupper()):
                r = self.ctor_value(f, args)
                if r is not None:
                    return [(r, st)]
            fr = Frame(_DummyBody, d, {}, stack)
            return self.call(f, list(args), st, fr)
        if fv is NOISE:
            return [(NOISE, st)]
        return self.opaque('callv', None, [fv] + list(args), st, None)

    def ctor_value(self, f, args):
        # path::Variant or path::Struct used as a function
        c = f.ctor or {}
        a = self.P.adts.get(c.get('ctor_adt'))
        if a:
            i = c['ctor_var']
            return self.adt(c['ctor_adt'], i, a[2][i][0], tuple(args))
        p = f.p.rsplit('::', 1)
        for path, vn in ((p[0], p[1]), (f.p, p[1])):
            a = self.P.adts.get(path)
            if a:
                for i, v in enumerate(a[2]):
                    if v[0] == vn:
                        return self.adt(path, i, vn, tuple(args))
        return None

    def deepval(self, st, v, depth=0):
        """Value with references replaced by what they point to."""
        if depth > 6:
            return v
        if v.k in ('ref', 'rc', 'guard'):
            c, p = self.deref(st, v)
            return self.deepval(st, self.read(st, c, p), depth + 1)
        if v.k in ('adt', 'tup', 'vec', 'e', 'clo'):
            refs = [x for x in subterms(v) if x.k in ('ref', 'rc')]
            if refs:
                return Subst({x: self.deepval(st, x, depth + 1) for x in refs}, self.rebuild).t(v)
        return v

    def opaque(self, name, f, args, st, fr):
        """Unknown function: pure in its arguments' values, anything reachable through &mut is forgotten."""
        vals = tuple(self.deepval(st, a) for a in args)
        rty, margs = self.rty, self.margs
        self.rty, self.margs = None, ()
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        st = st.copy()
        muts = [(i, (args[i].a[0], args[i].a[1])) for i in margs if i < len(args) and args[i].k == 'ref']
        r = mk('app', name, vals, rty)
        for i, (c, p) in muts:
            old = self.read(st, c, p)
            self.write(st, c, p, mk('hav', name, vals, i, old))
        return [(r, st)]

    # -- loops -------------------------------------------------------------------------------------
    def loop(self, fr, h, blocks, st):
        def run(s):
            return self.region(fr, blocks, h, [s], header=h)
        return self.iterate_region(run, st)

    def iterate_region(self, run, st, limit=40):
        exits = []
        cur = [st]
        n = 0
        seen = set()
        while cur:
            n += 1
            nxt = []
            for s in cur:
                k = s.key()
                if (k, s.pc) in seen:
                    continue
                seen.add((k, s.pc))
                m0 = s.marks
                lat, ex = run(s.copy())
                gen = None
                for x in lat + [e for _, e in ex]:
                    if len(x.marks) > len(m0):
                        gen = x.marks[len(m0)][1]
                        break
                if gen is not None:
                    for tgt, x in self.generic_loop(run, s, gen):
                        if tgt == 'again':
                            nxt.append(x)
                        else:
                            exits.append((tgt, x))
                    continue
                if n == 1 and lat and not self.progress(s, lat):
                    r = self.generic_loop(run, s, None, True)
                    if r is not None:
                        for tgt, x in r:
                            if tgt == 'again':
                                nxt.append(x)
                            else:
                                exits.append((tgt, x))
                        continue
                if n > 3 and any(len(x.pc) and x.key() != s.key() for x in lat) and not self.progress(s, lat):
                    exits += self.generic_loop(run, s, None)
                    continue
                for tgt, x in ex:
                    if tgt == 'again':
                        nxt.append(x)
                    else:
                        exits.append((tgt, x))
                nxt += lat
            cur = self.dedupe(nxt)
            if n > limit:
                raise Limit('loop does not converge')
        return exits

    def progress(self, s, lat):
        """Concrete unrolling goes on as long as no new fact was needed to go round."""
        return all(x.pc == s.pc for x in lat) and len(lat) <= 2 or bool(lat) and all(self.consumed(s, x) for x in lat)

    def consumed(self, s, x):
        """Going round took one of finitely many known elements."""
        for c, v in x.heap.items():
            if v.k.startswith('it'):
                o = s.heap.get(c)
                if o is not None and o is not v:
                    n, m = self.known_items(v), self.known_items(o)
                    if n is not None and m is not None and n < m:
                        return True
        return False

    def known_items(self, it):
        """Elements left in an iterator over fully known sequences."""
        if it.k == 'itseq':
            return len(it.a[0]) if all(g.k == 'e' for g in it.a[0]) else None
        if it.k == 'itopt':
            return 1
        if it.k in ('itmap', 'itfilter', 'itfm', 'itinsp', 'itcl', 'itflat', 'itenum', 'ittw', 'itskip', 'ittake') and len(it.a) <= 2:
            return self.known_items(it.a[0])
        if it.k == 'itchain' and len(it.a) == 2:
            n, m = self.known_items(it.a[0]), self.known_items(it.a[1])
            return n + m if n is not None and m is not None else None
        return None

    def split_done(self, m0, lat, ex):
        """Going round again after the generic part of a sequence is exhausted is an exit of the generic loop."""
        l2 = []
        e2 = list(ex)
        for x in lat:
            if len(x.marks) > len(m0) and x.marks[len(m0)][0] == 'done':
                e2.append(('again', x))
            else:
                l2.append(x)
        return l2, e2

    def generic_loop(self, run, st, src, counted=False):
        """Summary of the loop for a generic element; counted: only if it counts up to a length (else None)."""
        out = []
        for c in st.pc:
            s = st.copy()
            s.pc = frozenset([c])
            np = len(self.panics)
            try:
                r = self._generic(run, s, src, c, counted)
            except Limit:
                if not counted:
                    raise
                del self.panics[np:]
                r = None
            if r is None:
                return None
            out += r
        # merge equal exits
        m = {}
        for tgt, s in out:
            k = (tgt, s.key())
            if k in m:
                m[k][1].pc = pc_simplify(m[k][1].pc | s.pc, self.domain)
            else:
                m[k] = (tgt, s)
        return list(m.values())

    def diff_leaves(self, a, b, path, out, conj=(), src=None):
        if a is b:
            return
        if b.k == 'minsert':
            # only the entry of one fixed key, present before, differs
            m, k = b.a[0], b.a[1]
            base = a.a[0] if a.k == 'minsert' and a.a[1] is k else a
            there = base is not a or any(f[0].k == 'discr' and f[0].a[0].k == 'mopt' and f[0].a[0].a[0] is a and f[0].a[0].a[1] is k and
                                         not f[1] and f[2] == {1} for f in conj)
            rnd = src if src is not None else mk('loop')
            if m is base and there and not mentions(k, lambda y: y.k in ('elem', 'ekey', 'eval', 'idx', 'mu') and y.a[0] is rnd):
                return self.diff_leaves(self.mget(a, k), b.a[2], path + (('mk', k),), out, conj, src)
        if b.k == 'gupd' and src is not None and b.a[1] is not src:
            # only the current entry of an enclosing loop differs
            base, S = b.a[0], b.a[1]
            if a is base or a.k == 'gupd' and a.a[0] is base and a.a[1] is S:
                t = self.P.strip(self.ty(base))
                el = ('gv', S) if t is not None and t[0] == 'adt' and last_seg(t[1]) in ('IndexMap', 'HashMap', 'BTreeMap') else ('g', S)
                return self.diff_leaves(self.getp(a, el), b.a[2], path + (el,), out, conj, src)
        if a.k == 'adt' and b.k == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[3]) == len(b.a[3]):
            en = self.P.adts.get(a.a[0], (False,))[0]
            names = self.P.variant(a.a[0], a.a[2])
            for i, (x, y) in enumerate(zip(a.a[3], b.a[3])):
                fn = names[1][2][i][0] if names and i < len(names[1][2]) else str(i)
                self.diff_leaves(x, y, path + (('f', a.a[2] if en else None, i, fn),), out, conj, src)
            return
        if a.k == 'tup' and b.k == 'tup' and len(a.a[0]) == len(b.a[0]):
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                self.diff_leaves(x, y, path + (('f', None, i, str(i)),), out, conj, src)
            return
        if a.k != 'tup' and b.k == 'tup':
            x = self.expand(a, None)
            if x is not None and x.k == 'tup' and len(x.a[0]) == len(b.a[0]):
                return self.diff_leaves(x, b, path, out, conj, src)
        if a.k != 'adt' and b.k == 'adt':
            en = self.P.adts.get(b.a[0], (True,))[0]
            if en and b.a[3] and any(f[0].k == 'discr' and f[0].a[0] is a and not f[1] and f[2] == {self.discr_of(b.a[0], b.a[1])} for f in conj):
                en = False
            x = self.expand(a, b.a[2]) if not en else None
            if x is not None and x.k == 'adt' and x.a[0] == b.a[0]:
                return self.diff_leaves(x, b, path, out, conj, src)
        out.add(path)

    def same_len(self, v, mu):
        while v.k in ('gupd', 'iset', 'zupd'):
            v = v.a[0]
        return v is mu

    def _generic(self, run, s0, src, conj0, counted=False):
        m0 = s0.marks
        leaves = {}     # (cell, path) -> (mu, init)
        s = s0
        np = len(self.panics)
        for rnd in range(8):
            del self.panics[np:]        # earlier rounds knew less than the last one, which covers them
            lat, ex = self.split_done(m0, *run(s.copy()))
            new = set()
            for x in lat:
                for c in set(s.heap) | set(x.heap):
                    if c[0] == 'X' and c[2] == 'env' and c not in s.heap:
                        continue
                    a = s.heap.get(c)
                    b = x.heap.get(c)
                    if a is b:
                        continue
                    if a is None:
                        if c[0] == 'P':
                            a = c[1]
                        elif c[0] in ('S', 'C'):
                            a = self.load(s, c)
                        else:
                            a = UNDEF
                    if b is None:
                        if c[0] in ('L', 'X'):
                            continue
                        b = self.load(x, c)
                    o = set()
                    self.diff_leaves(a, b, (), o, conj0, src)
                    for p in o:
                        # already generalised leaf?
                        if (c, p) in leaves:
                            continue
                        anc = [q for (cc, q) in leaves if cc == c and p[:len(q)] == q]
                        if anc:
                            continue
                        new.add((c, p))
            if not new:
                kept = [mu for key, (mu, init) in leaves.items() if mu not in self.keeps_len and lat and
                        all(self.same_len(self.read(x, key[0], key[1]), mu) for x in lat)]
                if kept:
                    self.keeps_len.update(kept)
                    continue
                break
            for c, p in sorted(new, key=str):
                init = self.read(s0, c, p)
                # drop generalised descendants
                for key in [k for k in leaves if k[0] == c and k[1][:len(p)] == p]:
                    del leaves[key]
                leaves[(c, p)] = [None, init]
            cnt = {}
            s = s0.copy()
            for key in sorted(leaves, key=str):
                init = leaves[key][1]
                n = cnt.get(init, 0)
                cnt[init] = n + 1
                mu = mk('mu', src if src is not None else mk('loop'), init, n)
                leaves[key][0] = mu
                self.write(s, key[0], key[1], mu)
        else:
            if counted:
                return None
            raise Limit('loop summary does not stabilise')
        # induction variable i = 0,1,.. < len(X)  =>  generic index of X
        if src is None:
            r = self.induction(run, s0, s, leaves, lat, ex, conj0)
            if r is None:
                r = self.growth(s0, s, leaves, lat, ex, conj0)
            if r is not None:
                return r
            if counted:
                return None
        srct = src if src is not None else mk('loop')
        if src is not None:
            lat, ex = self.counters(m0, src, leaves, lat, ex)
        # summaries
        sub = {}
        mus = {v[0] for v in leaves.values()}
        for key, (mu, init) in leaves.items():
            alts = {}
            for x in lat:
                v = self.read(x, key[0], key[1])
                dl = self.delta(x.pc, conj0, lat_marks=None)
                alts.setdefault(v, set()).update(dl)
            sub[mu] = self.summarise(srct, mu, init, alts)
        early = []
        out = []
        # events
        evs = {}
        for x in lat:
            dv = x.ev[len(s.ev):]
            evs.setdefault(dv, set()).update(self.delta(x.pc, conj0, None))
        rep_ev = ()
        if any(evs):
            alts = tuple(sorted(((pc_simplify(frozenset(v), self.domain), k) for k, v in evs.items() if k), key=lambda z: str(z[1])))
            rep_ev = (mk('evrep', srct, alts),)
        sb_map = dict(sub)
        pend = []
        cond = set()
        for tgt, x in ex:
            rest = x.marks[len(m0):]
            is_early = src is not None and any(mm[0] == 'in' and mm[1] is src for mm in rest)
            if is_early:
                cond |= self.delta(x.pc, conj0, None)
            pend.append((tgt, x, is_early, rest))
        anyt = None
        if cond:
            anyt = mk('any', srct, pc_simplify(frozenset(cond), self.domain))
        for tgt, x, is_early, rest in pend:
            y = x.copy()
            y.marks = m0
            if is_early:
                m = {mu: mk('pre', v) for mu, v in sub.items()}
                dv = y.ev[len(s.ev):]
                y.ev = s0.ev + tuple(rep_ev) + dv
                ren = {}
                for kind in ('elem', 'ekey', 'eval', 'idx'):
                    ren[mk(kind, src)] = mk('found', srct, mk('kind', kind), anyt)
                m.update(ren)
                z = self.subst(y, m)
                fnd = set(ren.values())

                def mention(t):
                    return any(w.k == 'found' and w in fnd for w in subterms(t))
                live = any(mention(v) for v in z.heap.values()) or any(isinstance(e, T) and mention(e) for e in z.ev)
                if not live:
                    z.pc = pc_simplify(frozenset(frozenset(f for f in cc if not mention(f[0])) for cc in z.pc), self.domain)
                z.pc = self.assume(z.pc, anyt, False, [1])
                if z.pc:
                    out.append((tgt, z))
            else:
                dv = y.ev[len(s.ev):]
                y.ev = s0.ev + tuple(rep_ev) + dv
                z = self.subst(y, sb_map)
                if anyt is not None:
                    z.pc = self.assume(z.pc, anyt, False, [0])
                if z.pc:
                    out.append((tgt, z))
        return out

    def counters(self, m0, src, leaves, lat, ex):
        """Leaves counting the rounds, and lengths of what grows by one each round, are the position in src."""
        m, e = {}, {}
        gone = []
        idx, ln = mk('idx', src), mk('len', src)
        for key, (mu, init) in list(leaves.items()):
            vs = [self.read(x, key[0], key[1]) for x in lat]
            if not vs:
                continue
            if all(v is self.lin(1, ((mu, 1),)) for v in vs):
                m[mu] = self.lin(0, ((init, 1), (idx, 1)))
                e[mu] = self.lin(0, ((init, 1), (ln, 1)))
                gone.append(key)
            elif init.k == 'mempty' and all(v.k == 'minsert' and v.a[0] is mu and uncast(v.a[1]) is mk('len', mu) for v in vs):
                m[mk('len', mu)] = idx
                e[mk('len', mu)] = ln
            elif init.k == 'vec' and not init.a[0] and all(v.k == 'vec' and len(v.a[0]) == 2 and v.a[0][0] is SP(mu) and v.a[0][1].k == 'e' for v in vs):
                m[mk('len', mu)] = idx
                e[mk('len', mu)] = ln
        if not m:
            return lat, ex
        for k in gone:
            del leaves[k]
        lat = [self.subst(x, m) for x in lat]
        ex = [(t, self.subst(x, m if any(q[0] == 'in' and q[1] is src for q in x.marks[len(m0):]) else e)) for t, x in ex]
        return lat, ex

    def induction(self, run, s0, s, leaves, lat, ex, conj0):
        """while i < X.len() { .. i += 1 }  ->  generic iteration over X."""
        for key, (mu, init) in leaves.items():
            if init is not I(0):
                continue
            nxt = self.lin(1, ((mu, 1),))
            if not lat or any(self.read(x, key[0], key[1]) is not nxt for x in lat):
                continue
            X = None
            for x in lat:
                for c in x.pc:
                    for (t, n, v) in c:
                        if t.k == 'lt' and t.a[0] is mu and t.a[1].k == 'len' and not n and v == {1}:
                            X = t.a[1].a[0]
            if X is None:
                continue
            lent = mk('len', X)
            cond = mk('lt', mu, lent)
            idx = mk('idx', X)

            def run2(z):
                # one generic iteration: index is some position of X
                z1 = z.copy()
                self.write(z1, key[0], key[1], idx)
                z1.marks = z1.marks + (('in', X),)
                z1.pc = self.assume(z1.pc, mk('lt', idx, lent), False, [1])
                l1, e1 = run(z1)
                l2 = []
                for y in l1:
                    y = y.copy()
                    self.write(y, key[0], key[1], I(0))
                    y.pc = self.forget(y.pc, mk('lt', idx, lent))
                    y.marks = z.marks
                    l2.append(y)
                e1 = [(t_, self._fg(y, mk('lt', idx, lent))) for t_, y in e1]
                z0 = z.copy()
                self.write(z0, key[0], key[1], lent)
                _, e2 = run(z0)
                return l2, e1 + e2
            base = s0.copy()
            # the index leaf itself is not generalised: it is reset at the latch
            return self._generic(run2, base, X, conj0)
        return None

    def growth(self, s0, s, leaves, lat, ex, conj0):
        """while v.len() < n { v.push(x) }  ->  v is resized to at least n with x."""
        if len(leaves) != 1 or not lat or not ex:
            return None
        (key, (mu, init)), = leaves.items()
        ln = mk('len', mu)

        def own(pc):
            return {f for c in pc for f in c if mentions(f[0], lambda y: y is mu)}
        n = x = None
        for y in lat:
            v = self.read(y, key[0], key[1])
            fs = own(y.pc)
            if y.ev != s0.ev or y.marks != s0.marks or v.k != 'vec' or len(v.a[0]) != 2 or v.a[0][0] is not SP(mu) or v.a[0][1].k != 'e' or len(fs) != 1:
                return None
            (t, neg, vals), = fs
            e = v.a[0][1].a[0]
            if t.k != 'lt' or t.a[0] is not ln or neg or vals != {1} or x not in (None, e) or n not in (None, t.a[1]):
                return None
            x, n = e, t.a[1]
            if any(mentions(w, lambda z: z is mu) for w in (x, n)) or any(t not in [f[0] for f in c] for c in y.pc):
                return None
        cond = mk('lt', ln, n)
        # what holds on one side of the test only must be the test
        if self.delta(self._fg(lat[0], cond).pc, conj0, None) != {frozenset()}:
            return None
        out = []
        from . import models
        end = mk('resize', init, models.tmax(models.vlen(self, init), n), x)
        for tgt, y in ex:
            if y.ev != s0.ev or any(f[0] is not cond or f[1] or f[2] != {0} for f in own(y.pc)):
                return None
            y = self._fg(y, cond)
            y.marks = s0.marks
            out.append((tgt, self.subst(y, {mu: end})))
        return out

    def _fg(self, y, t):
        y = y.copy()
        y.pc = self.forget(y.pc, t)
        return y

    def forget(self, pc, term):
        return pc_simplify(frozenset(frozenset(f for f in c if f[0] is not term) for c in pc), self.domain)

    def delta(self, pc, conj0, lat_marks):
        return {frozenset(f for f in c if f not in conj0) for c in pc}

    def summarise(self, src, mu, init, alts):
        """Value of a loop-carried leaf after the loop. alts: {value at latch: set of conj}."""
        A = []
        for v, cs in alts.items():
            A.append((v, pc_simplify(frozenset(cs), self.domain)))
        # append pattern
        ok = True
        segalts = []
        for v, pc in A:
            if v is mu:
                segalts.append(((), pc))
            elif v.k == 'vec' and v.a[0] and v.a[0][0].k == 'sp' and v.a[0][0].a[0] is mu and \
                    not any(mentions(x, lambda y: y is mu) for x in v.a[0][1:]):
                segalts.append((v.a[0][1:], pc))
            else:
                ok = False
                break
        if ok:
            rep = self.mkrep(src, segalts)
            from . import models
            return models.padded(self, tuple(segs_of(init)) + rep)
        # element-wise update in place
        ok = True
        ga = []
        for v, pc in A:
            if v is mu:
                ga.append((None, pc))
            elif v.k == 'gupd' and v.a[0] is mu and v.a[1] is src:
                ga.append((v.a[2], pc))
            else:
                ok = False
                break
        if ok and init is not src and A and not any(v is None for v, _ in ga):
            ok = self.belongs(init, src)
        if ok:
            t = self.P.strip(self.ty(init))
            ismap = t is not None and t[0] == 'adt' and t[1].split('::')[-1] in ('IndexMap', 'HashMap', 'BTreeMap')
            if ismap:
                return mk('mapv', init, tuple(sorted(((pc, v if v is not None else mk('eval', src)) for v, pc in ga), key=str)))
            segalts = [((E(v if v is not None else mk('elem', src)),), pc) for v, pc in ga]
            return vec(self.mkrep(src, segalts))
        # element-wise update of another sequence at the same positions
        if len(A) == 1 and A[0][0].k == 'iset' and A[0][0].a[0] is mu and A[0][0].a[1] is mk('idx', src):
            new = Subst({mk('at', mu, mk('idx', src)): mk('at', init, mk('idx', src))}, self.rebuild).t(A[0][0].a[2])
            if not mentions(new, lambda y: y is mu) and A[0][1] == TRUE_PC:
                return mk('zupd', init, src, new)
        # a map built again from the entries of another one which are kept
        if init.k == 'mempty' and src.k not in ('vec', 'range') and A:
            kept, dropped = set(), set()
            for v, pc in A:
                if v is mu:
                    dropped |= pc
                elif v.k == 'minsert' and v.a[0] is mu and v.a[1] is mk('ekey', src) and v.a[2] is mk('eval', src):
                    kept |= pc
                else:
                    break
            else:
                if not dropped:
                    return src
                return mk('mretain', src, frozenset(kept), frozenset(dropped))
        return mk('fold', src, mu, init, tuple(sorted(((pc, v) for v, pc in A), key=str)))

    def mkrep(self, src, segalts):
        m = {}
        for segs, pc in segalts:
            m.setdefault(tuple(segs), set()).update(pc)
        alts = [(pc_simplify(frozenset(p), self.domain), s) for s, p in m.items()]
        nonempty = [a for a in alts if a[1]]
        if not nonempty:
            return ()
        if len(alts) == 1 and alts[0][0] == TRUE_PC and len(alts[0][1]) == 1 and alts[0][1][0] is E(mk('elem', src)):
            return (SP(src),)
        if len(alts) == 1 and alts[0][0] == TRUE_PC and len(alts[0][1]) == 1 and alts[0][1][0].k == 'e' and src.k == 'range':
            # the same value a number of times
            x = alts[0][1][0].a[0]
            if not mentions(x, lambda y: y.k in ('idx', 'elem') and y.a[0] is src):
                a, b = src.a
                return (SP(mk('resize', vec(()), b if a is I(0) else mk('satsub', b, a), x)),)
        return (mk('rep', src, tuple(sorted(alts, key=lambda z: str(z[1])))),)

    # virtual loops used by iterator adaptors: body(state, elem) -> [('cont'|'brk', value, state)]
    def iterate(self, st, it, body, fr):
        """Drives an iterator value to the end. Returns [('end'|'brk', value, state)]."""
        from . import models
        by = None
        src = it
        while src.k == 'itby':
            by = src
            src = self.read(st, by.a[0], by.a[1])
        d = models.unflatten(src)
        if d is None:
            return self._iterate(st, it, body, fr)
        np = len(self.panics)
        try:
            return self._iterate(st, it, body, fr)
        except Limit:
            del self.panics[np:]
        res = self.iterate(st, d[0].a[0], models.flat_body(self, d[0], d[1], body, fr), fr)
        if by is None:
            return res
        out = []
        for kind, v, s in res:
            s = s.copy()
            self.write(s, by.a[0], by.a[1], mk('itseq', (), 'own', None, None, 0) if kind == 'end' else mk('app', 'rest', (src,), None))
            out.append((kind, v, s))
        return out

    def _iterate(self, st, it, body, fr):
        cell = ('X', fr.d, 'it%d' % self.fresh(st, fr.d))
        st = st.copy()
        st.heap[cell] = it

        def run(s):
            lat = []
            ex = []
            nx = self.iter_next(s, cell, fr)
            if nx is None:
                raise Limit('iterator ' + s.heap[cell].k)
            for r, s1 in nx:
                if r == 'latch':
                    lat.append(s1)
                elif r is None:
                    ex.append(('end', s1))
                else:
                    for kind, val, s2 in body(s1, r):
                        if kind == 'cont':
                            lat.append(s2)
                        else:
                            s2 = s2.copy()
                            s2.heap[('X', fr.d, 'brk')] = val
                            ex.append(('brk', s2))
            return self.dedupe(lat), ex
        res = []
        for tgt, s in self.iterate_region(run, st):
            s = s.copy()
            s.heap.pop(cell, None)
            v = s.heap.pop(('X', fr.d, 'brk'), None)
            res.append((tgt, v, s))
        return res

    def fresh(self, st, d):
        n = 0
        while ('X', d, 'it%d' % n) in st.heap:
            n += 1
        return n

    def iter_next(self, st, cell_or_ref, fr):
        """[(elem | None | 'latch', state)] for the iterator stored at a cell (or (cell, path))."""
        from . import models
        return models.iter_next(self, st, cell_or_ref, fr)


def uncast(t):
    while t.k == 'app' and t.a[0] in ('u32', 'usize', 'u64') and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


_fntab = {}


def _fnkey(f):
    k = (f.p, f.res, f.a)
    _fntab[k] = f
    return k


def _fnof(t):
    return _fntab[t.a[0]]


class _DB:
    path = '<call>'


_DummyBody = _DB()
