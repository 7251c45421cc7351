"""Abstract summaries of the instrumenting visitors' methods."""
from .terms import *
from .interp import Interp, State, Limit, pc_simplify
from .models import NONE, OPT, some, full, cellof, wr, rd, span_of, canon_span, prim, fork_opt

NODE = 'swc_coverage_instrument'


def last(p):
    return p.split('::')[-1]


# ---------------------------------------------------------------------------------- anchors
# Functions the visitor summaries treat as primitives; each is analysed on its own by other rules.  They are recognised by
# what they take and give back, not by their names.

SPAN = 'swc_common::syntax_pos::Span'
SCOPE = 'IgnoreScope'


def find_span(I_, st, args):
    for a in args:
        v = full(I_, st, a)
        if v.k == 'adt' and v.a[0] == OPT:
            if v is NONE:
                return NONE
            v = full(I_, st, v.a[3][0])
        t = I_.P.strip(I_.ty(v))
        if v is DUMMY_SPAN or t is not None and t[0] == 'adt' and last(t[1]) in ('Span', 'BytePos'):
            return canon_span(I_, v)
    return None


def scope_term(I_, sp):
    s = mk('app', 'scope', (sp,))
    s.m = ('adt', OPT, (('adt', I_.scope_adt, ()),))
    return s


def a_scope(I_, f, args, st, fr):
    sp = find_span(I_, st, args)
    if sp is None:
        return None
    if sp is NONE or sp is DUMMY_SPAN:
        return [(NONE, st)]
    return [(scope_term(I_, sp), st)]


def a_hint(I_, f, args, st, fr):
    sp = find_span(I_, st, args)
    if sp is None:
        return None
    if sp is NONE or sp is DUMMY_SPAN:
        return [(NONE, st)]
    out = []
    for i, p, s in fork_opt(I_, st, scope_term(I_, sp)):
        if i == 0:
            out.append((NONE, s))
            continue
        d = I_.discr(p)
        for vi, (vn, _, _) in enumerate(I_.P.adts[I_.scope_adt][2]):
            pc = I_.assume(s.pc, d, False, [I_.discr_of(I_.scope_adt, vi)])
            if pc:
                s2 = s.copy()
                s2.pc = pc
                out.append((some(S(vn.lower())), s2))
    return out


def a_range(I_, f, args, st, fr):
    sp = find_span(I_, st, args)
    if sp is None:
        return None
    r = mk('app', 'range', (sp,))
    r.m = ('adt', 'istanbul_oxide::range::Range', ())
    return [(r, st)]


def a_file(I_, f, args, st, fr):
    p = None
    for a in args:
        v = full(I_, st, a)
        t = I_.P.strip(I_.ty(v))
        if t is not None and t[0] == 'adt' and last(t[1]) == 'Program':
            p = v
    if p is None:
        return None
    r = mk('app', 'file_ignored', (p,))
    r.m = prim('bool')
    return [(r, st)]


def a_decl(I_, f, args, st, fr):
    r = mk('app', 'covdecl', tuple(I_.deepval(st, a) for a in args))
    r.m = ('adt', 'swc_ecma_ast::stmt::Stmt', ())
    st = st.copy()
    st.ev = st.ev + (mk('decl', r),)
    return [(r, st)]


def a_reg(kind):
    def h(I_, f, args, st, fr):
        vals = tuple(I_.deepval(st, a) for a in args[1:])
        n = sum(1 for e in st.ev if e.k == 'reg' and e.a[0] == kind)
        inloop = tuple(m[1] for m in st.marks if m[0] == 'in')
        i = mk('id', kind, n, vals, inloop)
        i.m = ('prim', 'u32')
        st = st.copy()
        st.ev = st.ev + (mk('reg', kind, i, vals),)
        # the coverage object must be exclusively borrowed for the call only
        return [(i, st)]
    return h


class VisitorModel:
    def __init__(self, P):
        self.P = P
        self.methods = {}      # visitor adt path -> {name: body}
        self.overrides = {}
        for b in P.order:
            if b.impl_trait and last(b.impl_trait) == 'VisitMut' and b.impl_self is not None and b.kind == 'method':
                vp = P.strip(b.impl_self)[1]
                self.methods.setdefault(vp, {})[b.name] = b
                t = b.argty[1] if len(b.argty) > 1 else None
                self.overrides.setdefault(vp, set()).add(self.tn(t))

        self.find_anchors()

    def find_anchors(self):
        P = self.P
        self.anchors = {}
        self.anchor_bodies = {}
        self.scope_adt = None
        for p in P.adts:
            if last(p) == SCOPE:
                self.scope_adt = p

        def isadt(t, n):
            t = P.strip(t)
            return t is not None and t[0] == 'adt' and last(t[1]) == n

        def spanlike(t):
            t = P.strip(t)
            if t is not None and t[0] == 'adt' and t[1] == OPT and t[2]:
                t = P.strip(t[2][0])
            return t is not None and t[0] == 'adt' and last(t[1]) in ('Span', 'BytePos')
        for b in P.order:
            if b.kind not in ('fn', 'method') or b.crate != 'swc_coverage_instrument':
                continue
            r = b.locals[0]
            a = b.argty
            kind = None
            if b.impl_self is None:
                if r is not None and r[0] == 'adt' and r[1] == OPT and isadt(r[2][0], SCOPE) and any(map(spanlike, a)):
                    kind, h = 'scope', a_scope
                elif r is not None and r[0] == 'adt' and r[1] == OPT and P.strip(r[2][0]) in (('adt', 'alloc::string::String', ()), ('prim', 'str')) \
                        and any(map(spanlike, a)):
                    kind, h = 'hint', a_hint
                elif r == ('prim', 'bool') and len(a) <= 3 and any(isadt(x, 'Program') for x in a):
                    kind, h = 'file', a_file
                elif isadt(r, 'Stmt') and any(isadt(x, 'FileCoverage') for x in a):
                    kind, h = 'decl', a_decl
                elif isadt(r, 'Range') and any(map(spanlike, a)):
                    kind, h = 'range', a_range
            elif isadt(b.impl_self, 'SourceCoverage') and b.impl_trait is None and r == ('prim', 'u32') and a and a[0][0] == 'ref' and a[0][1]:
                sig = [last(P.strip(t)[1]) if P.strip(t)[0] == 'adt' else P.strip(t)[1] for t in a[1:]]
                if sig == ['Range']:
                    kind = 's'
                elif sig == ['Option', 'Range', 'Range']:
                    kind = 'f'
                elif sig == ['BranchType', 'Range', 'bool']:
                    kind = 'b'
                elif sig == ['u32', 'Range']:
                    kind = 'p'
                h = a_reg(kind)
            if kind:
                self.anchors[b.path] = h
                self.anchor_bodies.setdefault(kind, []).append(b)

    def tn(self, t):
        return Interp.type_name(_TN(self.P), self.P.strip(t))

    def interp(self):
        i = Interp(self.P, anchors=self.anchors)
        i.scope_adt = self.scope_adt
        i.overrides = self.overrides
        return i

    def start(self, vp, ntype, given=None):
        """Initial state: a visitor with symbolic fields and a symbolic node."""
        P = self.P
        ad = P.adts[vp]
        fs = []
        heap = {}
        for i, (n, t) in enumerate(ad[2][0][2]):
            if n == 'cov':
                heap[('H', 'cov')] = mk('sym', 'cov0', ('adt', 'swc_coverage_instrument::source_coverage::SourceCoverage', ()))
                fs.append(mk('rc', ('H', 'cov')))
            elif given and n in given:
                fs.append(given[n])
            else:
                fs.append(mk('sym', 'self.' + n, t))
        self.start_fields = {f[0]: x for x, f in zip(fs, ad[2][0][2])}
        heap[('H', 'self')] = mk('adt', vp, 0, last(vp), tuple(fs))
        node = mk('sym', 'node', ntype)
        heap[('H', 'node')] = node
        return State(heap), mk('ref', ('H', 'self'), ()), mk('ref', ('H', 'node'), ()), node

    def analyse(self, vp, body, given=None):
        I_ = self.interp()
        nt = self.P.strip(body.argty[1])
        st, s, n, node = self.start(vp, nt, given)
        I_.start_fields = self.start_fields
        I_.start_before = self.start_fields.get('before')
        outs = I_.run_body(body, [s, n], st, 0, {}, ())
        return I_, node, outs

    def plain(self, vp, tname):
        """Does the handler of a node type just traverse the node: nothing registered, no hint looked up, the traversal
        state handed on as it is?  (That it traverses all of the node is checked where the handler itself is.)"""
        memo = self.__dict__.setdefault('plain_memo', {})
        if (vp, tname) not in memo:
            memo[vp, tname] = False
            bs = [b for b in self.methods.get(vp, {}).values() if len(b.argty) > 1 and self.tn(b.argty[1]) == tname]
            memo[vp, tname] = len(bs) == 1 and self.passes_on(vp, bs[0])
        return memo[vp, tname]

    def passes_on(self, vp, body):
        old = self.__dict__.get('start_fields')
        I_, node, outs = self.analyse(vp, body)
        start = self.start_fields
        self.start_fields = old
        names = [f[0] for f in self.P.adts[vp][2][0][2]]

        def kept(v):
            if v.k not in ('adt', 'vis') or v.a[0] != vp:
                return False
            fs = zip(names, v.a[3]) if v.k == 'adt' else v.a[1]
            return all(x is start[n] or n == 'before' for n, x in fs)

        def events(evs):
            for e in evs:
                if e.k == 'visit':
                    yield kept(e.a[2])
                elif e.k == 'evrep':
                    for _, sub in e.a[1]:
                        yield from events(sub)
                else:
                    yield False

        def asks(t, seen):
            if t in seen:
                return False
            seen.add(t)
            if t.k == 'scope':
                return True
            return any(asks(x, seen) for x in t.a if isinstance(x, T))
        if I_.panics or I_.unmodelled or not outs:
            return False
        for _, s in outs:
            fin = s.heap[('H', 'self')]
            cov = s.heap.get(('H', 'cov'))
            if not kept(fin) or cov is None or cov.k != 'sym' or not all(events(s.ev)):
                return False
            if any(asks(f[0], set()) for c in s.pc for f in c):
                return False
        return True


class _TN:
    def __init__(self, P):
        self.P = P

    def type_name(self, t):
        return Interp.type_name(self, t)
