"""Alignment of an instrumented node with the node it was made from.

The abstract interpreter gives, for each way through a visitor method, the final node as a term over the original node.  The
aligner walks both together and classifies every difference: a counter, a wrapper, a hoisted counter list, a traversal of a
part by a visitor, an inserted block or return - or an error, if a user part is missing, duplicated, replaced or moved.
"""
from .common import *
from engine.lift import is_adt, variant_payload


class Env:
    """One conjunct of a path condition: what is known about each scrutinised term."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    @staticmethod
    def of(conj):
        e = Env({})
        for t, n, v in conj:
            e2 = e.add(t, n, v)
            if e2 is None:
                return None
            e = e2
        return e

    def add(self, t, n, v):
        d = dict(self.d)
        o = d.get(t)
        if o is None:
            d[t] = (n, frozenset(v))
        else:
            on, ov = o
            if not on and not n:
                r = (False, ov & v)
            elif not on and n:
                r = (False, ov - v)
            elif on and not n:
                r = (False, frozenset(v) - ov)
            else:
                r = (True, ov | v)
            if not r[0] and not r[1]:
                return None
            d[t] = r
        return Env(d)

    def merge(self, o):
        e = self
        for t, (n, v) in o.d.items():
            e = e.add(t, n, v)
            if e is None:
                return None
        return e

    def may(self, t, v):
        if t.k in ('int', 'str'):
            return t.a[0] == v
        f = self.d.get(t)
        if f is None:
            return True
        return (v in f[1]) != f[0]

    def must(self, t, v):
        if t.k in ('int', 'str'):
            return t.a[0] == v
        f = self.d.get(t)
        return f is not None and not f[0] and f[1] == frozenset([v])

    def text(self):
        return brief_conj([(t, n, v) for t, (n, v) in self.d.items()])


def envs_of(pc):
    return [e for e in (Env.of(c) for c in pc) if e is not None]


def merge_all(es, pc):
    out = []
    cs = envs_of(pc)
    for e in es:
        for c in cs:
            m = e.merge(c)
            if m is not None:
                out.append(m)
    return out


def discr(x):
    return mk('discr', x)


def scope(sp):
    return mk('app', 'scope', (sp,))


def payload(s):
    return mk('proj', s, 'Some', 0, '0')


NEXT, IFS, ELSES = 0, 1, 2


class Why(Exception):
    pass


def is_not_directive(pc):
    """Condition of one element: it does not continue the directive prologue."""
    if len(pc) != 1:
        return False
    c = next(iter(pc))
    if len(c) != 1:
        return False
    (t, n, v), = c
    return t.k == 'bapp' and t.a[0] == 'directive_continue' and not n and v == frozenset([0])


class Place:
    """Where a counter or a traversal result stands."""
    __slots__ = ('kind', 'path', 'orig', 'envs', 'extra')

    def __init__(self, kind, path, orig, envs, extra=None):
        self.kind, self.path, self.orig, self.envs, self.extra = kind, path, orig, envs, extra


class Aligner:
    def __init__(self, ctx, I_, before0=None):
        self.ctx = ctx
        self.P = ctx.P
        self.I = I_
        self.L = ctx.L
        self.before0 = before0
        self.cnts = []      # (cnt term, Place)
        self.truths = []    # (cnt term bT, Place, errors)
        self.visits = []    # (mode, x, vis, Place)
        self.keeps = []     # (orig term, Place)
        self.vbs = []       # (vb term, Place)
        self.flush = []     # Place of pre-existing self.before content
        self.decls = []     # (statement term, Place)
        self.errs = []      # C03 errors: (message, Place path)
        self.ordererrs = []  # C04 errors
        self.front = []     # (rest of the list, stmt, place) of template statements in front of a list
        self.inserts = []   # vins: (list term, idx, stmt, place)

    # -- helpers
    def field(self, o, variant, i, fname):
        if o.k == 'adt':
            return o.a[3][i]
        r = self.I.getp(o, ('f', variant, i, fname)) if hasattr(self.I, 'getp') else None
        return self.L.lift(r) if r is not None else mk('proj', o, variant, i, fname)

    def err(self, msg, path):
        self.errs.append((msg, '.'.join(path)))

    def oerr(self, msg, path):
        self.ordererrs.append((msg, '.'.join(path)))

    def ty(self, o):
        return self.P.strip(self.I.ty(o))

    def tname(self, o):
        if o.k == 'adt':
            return last(o.a[0])
        t = self.ty(o)
        return last(t[1]) if t is not None and t[0] == 'adt' else None

    def fact_variant(self, o, vi, envs):
        d = discr(o)
        p = self.ty(o)
        dv = self.I.discr_of(p[1], vi) if p is not None and p[0] == 'adt' and p[1] in self.P.adts else vi
        return bool(envs) and all(e.must(d, dv) for e in envs)

    def injected(self, t):
        if t.k == 'cstmt':
            return 'cnt'
        if (t.k == 'adt' and last(t.a[0]) in ('Stmt', 'ModuleItem') or t.k == 'app' and t.a[0] == 'covdecl') and self.is_template(t):
            return 'decl'
        return None

    def is_template(self, t):
        x = t
        while x.k == 'adt' and len(x.a[3]) == 1 and last(x.a[0]) in ('ModuleItem', 'Stmt'):
            x = x.a[3][0]
        if x.k == 'app' and x.a[0] == 'covdecl':
            return True
        if is_adt(x, 'ExprStmt'):
            e = self.L.field(x, 'expr')
            return self.L.covcall(e) is not None
        return False

    # -- the walk
    def align(self, t, o, path=(), envs=(), under=None):
        if t is o:
            self.keeps.append((o, Place('keep', path, o, envs, under)))
            return
        k = t.k
        if k in ('V', 'Vc'):
            x = t.a[0]
            self.visits.append((k, x, t.a[1], Place('visit', path, o, envs, under)))
            if under is not None and not self.same_walk(t, under):
                self.err('part is traversed twice', path)
            if x is not o:
                self.align(x, o, path, envs, t)
            return
        if k == 'wrap':
            for c in t.a[0]:
                self.cnt(c, Place('wrap', path, o, envs, under))
            self.align(t.a[1], o, path, envs, under)
            return
        if k == 'adt' and is_adt(t, 'Expr', 'Seq'):
            if self.truth(t, o, path, envs, under):
                return
        if k in ('vec', 'vins'):
            self.align_list(t, o, path, envs, under)
            return
        if k == 'adt':
            self.align_adt(t, o, path, envs, under)
            return
        self.err('%s has been replaced by %s' % (brief(o)[:120], brief(t)[:200]), path)

    def same_walk(self, t, under):
        """Traversing children of an already traversed struct field by field is one traversal, not two."""
        return False

    def cnt(self, c, place):
        if c.a[0] == 'bT':
            self.truths.append((c, place, ['truth counter outside of the truth test']))
            return
        self.cnts.append((c, place))
        if place.extra is not None and place.kind == 'wrap' and self.handled(place.extra.a[1].a[0]):
            self.err('counter is placed inside a part that is traversed afterwards', place.path)

    # what a wrapper consists of
    WRAPPER = ('Expr', 'ParenExpr', 'SeqExpr', 'UpdateExpr', 'MemberExpr', 'CallExpr', 'Callee', 'Ident', 'Lit', 'Number', 'MemberProp', 'IdentName')

    def handled(self, vp):
        """Would this visitor do something about an injected counter it comes across?"""
        VM = self.ctx.VM
        return any(x in VM.overrides.get(vp, self.WRAPPER) and not VM.plain(vp, x) for x in self.WRAPPER)

    def align_adt(self, t, o, path, envs, under):
        tp, vi, vn, fs = t.a
        a = self.P.adts.get(tp)
        oty = self.ty(o)
        optype = oty[1] if oty is not None and oty[0] == 'adt' else None
        if tp == OPT:
            if vn == 'None':
                if self.fact_variant(o, 0, envs):
                    self.keeps.append((o, Place('keep', path, o, envs, under)))
                else:
                    self.err('optional part %s is dropped' % brief(o)[:120], path)
                return
            if self.fact_variant(o, 1, envs):
                self.align(fs[0], mk('proj', o, 'Some', 0, '0') if o.k != 'adt' else o.a[3][0], path, envs, under)
            elif self.fact_variant(o, 0, envs):
                self.pure_injection(fs[0], path, envs, o)
            else:
                self.err('optional part %s is replaced' % brief(o)[:120], path)
            return
        if a is None:
            self.err('%s has been replaced by %s' % (brief(o)[:120], brief(t)[:160]), path)
            return
        if optype != tp:
            self.err('%s has been replaced by %s' % (brief(o)[:120], brief(t)[:160]), path)
            return
        if not a[0]:   # struct
            if o.k == 'adt' and o.a[0] != tp:
                self.err('%s has been replaced' % brief(o)[:120], path)
                return
            for i, (fn, ft) in enumerate(a[2][0][2]):
                self.align(fs[i], self.field(o, None, i, fn), path + (fn,), envs, under)
            return
        # enum
        same = (o.k == 'adt' and o.a[1] == vi) or o.k != 'adt' and self.fact_variant(o, vi, envs)
        if same:
            v = self.P.variant(tp, vn)
            for i, f in enumerate(fs):
                self.align(f, o.a[3][i] if o.k == 'adt' else self.field(o, vn, i, v[1][2][i][0]), path, envs, under)
            return
        if self.reshape(t, o, path, envs, under):
            return
        self.err('%s has been replaced by %s' % (brief(o)[:120], brief(t)[:200]), path)

    def block_stmts(self, t):
        """Statement list of an injected block."""
        b = variant_payload(t, 'Stmt', 'Block') or variant_payload(t, 'BlockStmtOrExpr', 'BlockStmt') or (t if is_adt(t, 'BlockStmt') else None)
        if b is None or not is_adt(b, 'BlockStmt'):
            return None
        return self.L.field(b, 'stmts')

    def reshape(self, t, o, path, envs, under):
        on = self.tname(o)
        st = self.block_stmts(t)
        if st is None:
            return False
        if on == 'Stmt':
            self.align_list(st, ('one', o), path, envs, under)
            return True
        if on == 'BlockStmtOrExpr':
            ei = self.vindex(o, 'Expr')
            if ei is None or not self.fact_variant(o, ei, envs):
                return False
            x = self.field(o, 'Expr', 0, '0')
            self.align_list(st, ('ret', x), path, envs, under)
            return True
        return False

    def vindex(self, o, vname):
        t = self.ty(o)
        a = self.P.adts.get(t[1]) if t is not None and t[0] == 'adt' else None
        if a is None:
            return None
        for i, v in enumerate(a[2]):
            if v[0] == vname:
                return i
        return None

    def pure_injection(self, t, path, envs, o):
        """Something new where there was nothing: only a block of counters."""
        st = self.block_stmts(t)
        if st is None or st.k != 'vec':
            self.err('code that is not a counter is added: %s' % brief(t)[:160], path)
            return
        for s in st.a[0]:
            if s.k == 'e' and s.a[0].k == 'cstmt':
                self.cnt(s.a[0].a[0], Place('list', path, o, envs, None))
            else:
                self.err('code that is not a counter is added: %s' % brief(s)[:160], path)

    # -- lists
    def align_list(self, t, o, path, envs, under):
        """o: an original list term, or ('one', x) for a single statement, or ('ret', e) for a returned expression."""
        if t.k in ('V', 'Vc') or not isinstance(o, tuple) and t is o:
            self.align(t, o, path, envs, under)
            return
        if t.k == 'vins':
            inner, idx, stmt = t.a[0], t.a[1], t.a[2]
            self.align_list(inner, o, path, envs, under)
            k = self.injected(stmt)
            if k == 'cnt':
                pl = Place('vins', path, o, envs, under)
                self.cnt(stmt.a[0], pl)
                self.inserts.append((inner, idx, stmt, pl))
            elif k == 'decl':
                pl = Place('vins', path, o, envs, under)
                self.decls.append((stmt, pl))
                self.inserts.append((inner, idx, stmt, pl))
            else:
                self.err('code that is not a counter is added: %s' % brief(stmt)[:160], path)
            return
        if t.k != 'vec':
            self.err('list %s has been replaced by %s' % (brief(o)[:120], brief(t)[:160]), path)
            return
        if t.a[0] and t.a[0][-1].k == 'e' and self.injected(t.a[0][-1].a[0]) and self.at_end_of_directives(t, envs):
            # everything in front is a directive: the same as inserting behind the directives
            inner = mk('vec', t.a[0][:-1])
            return self.align_list(mk('vins', inner, mk('len', inner), t.a[0][-1].a[0]), o, path, envs, under)
        n = 0
        state = 0       # 0: anything, 1: seen statement counters, 2: seen content
        for s in t.a[0]:
            x = s.a[0]
            if s.k == 'e':
                k = self.injected(x)
                if k == 'cnt':
                    if state == 2:
                        self.oerr('counter %s stands behind the code it counts' % brief(x.a[0]), path)
                    elif state == 1 and x.a[0].a[0] != 's':
                        self.oerr('counter %s does not come first' % brief(x.a[0]), path)
                    if x.a[0].a[0] == 's':
                        state = max(state, 1)
                    self.cnt(x.a[0], Place('list', path, o, envs, under))
                    continue
                if k == 'decl':
                    self.decls.append((x, Place('list', path, o, envs, under)))
                    if state != 2 and not self.known_empty(o, envs):
                        self.front.append((mk('vec', tuple(y for y in t.a[0] if not (y.k == 'e' and self.injected(y.a[0]) == 'decl'))), x, self.decls[-1][1]))
                    continue
                state = 2
                n += 1
                if isinstance(o, tuple) and o[0] == 'one':
                    self.align(x, o[1], path, envs, under)
                elif isinstance(o, tuple) and o[0] == 'ret':
                    self.align_ret(x, o[1], path, envs, under)
                else:
                    self.err('statement list is rebuilt with %s' % brief(x)[:160], path)
                continue
            if s.k == 'rep':
                src, alts = s.a[0], s.a[1]
                if src.k == 'vb':
                    if self.identity(alts):
                        if state == 2:
                            self.oerr('statement counters stand behind their statement', path)
                        state = max(state, 1)
                        self.vbs.append((src, Place('list', path, o, envs, under)))
                    else:
                        self.err('waiting counters are altered: %s' % brief(s)[:200], path)
                    continue
                if src is o or self.base(src) is o:
                    n += 1
                    state = 2
                    if src is not o:
                        self.visits.append((src.k, src.a[0], src.a[1], Place('visit', path, o, envs, under)))
                    el = mk('elem', src)
                    for pc, segs in alts:
                        es = merge_all(envs, pc)
                        if not es:
                            continue
                        self.align_list(mk('vec', tuple(segs)), ('one', el), path + ('[]',), es, under)
                    continue
                self.err('statement list is rebuilt from %s' % brief(src)[:160], path)
                continue
            # splice
            if x.k == 'vb':
                if state == 2:
                    self.oerr('statement counters stand behind their statement', path)
                state = max(state, 1)
                self.vbs.append((x, Place('list', path, o, envs, under)))
                continue
            if x is self.before0 or x.k == 'mu' and self.before0 is not None and len(x.a) > 1 and x.a[1] is self.before0:
                self.flush.append((x, Place('list', path, o, envs, under)))
                continue
            if not isinstance(o, tuple) and (x is o or self.base(x) is o):
                n += 1
                state = 2
                self.align(x, o, path, envs, under)
                continue
            self.err('list has %s spliced into it' % brief(x)[:160], path)
        if n != 1:
            if n == 0 and not isinstance(o, tuple) and self.known_empty(o, envs):
                return
            self.err('%s occurs %d times in the result' % (brief(o[1] if isinstance(o, tuple) else o)[:120], n), path)

    def at_end_of_directives(self, t, envs):
        segs = t.a[0]
        while segs and segs[-1].k == 'e' and self.injected(segs[-1].a[0]):
            segs = segs[:-1]
        inner = mk('vec', segs)
        inner = segs[0].a[0] if len(segs) == 1 and segs[0].k == 'sp' else inner
        return bool(segs) and bool(envs) and all(any(x.k == 'any' and x.a[0] is inner and is_not_directive(x.a[1]) and e.must(x, 0) for x in e.d) for e in envs)

    def known_empty(self, o, envs):
        ln = [t for e in envs for t in e.d if t.k in ('len', 'app') and brief(t) == 'len(%s)' % brief(o)]
        return bool(ln) and all(any(e.must(t, 0) for t in ln) for e in envs)

    def base(self, x):
        while x.k in ('V', 'Vc'):
            x = x.a[0]
        return x

    def identity(self, alts):
        """Each element becomes exactly one statement: itself."""
        if len(alts) != 1:
            return False
        segs = alts[0][1]
        if len(segs) != 1 or segs[0].k != 'e':
            return False
        x = segs[0].a[0]
        while x.k == 'adt' and len(x.a[3]) == 1:
            x = x.a[3][0]
        return x.k == 'elem'

    def align_ret(self, x, e, path, envs, under):
        y = x
        if y.k in ('V', 'Vc'):
            self.visits.append((y.k, y.a[0], y.a[1], Place('visit', path, e, envs, under)))
            under = y
            y = y.a[0]
        r = variant_payload(y, 'Stmt', 'Return')
        if r is None or not is_adt(r, 'ReturnStmt'):
            self.err('%s is not returned any more' % brief(e)[:120], path)
            return
        arg = self.L.field(r, 'arg')
        if not is_adt(arg, 'Option', 'Some'):
            self.err('%s is dropped' % brief(e)[:120], path)
            return
        self.align(arg.a[3][0], e, path, envs, under)

    # -- truth tests of logic reporting
    def truth(self, t, o, path, envs, under):
        tr = Truth(self, o)
        r = tr.check(t)
        if r is None:
            return False
        cn, errs, x = r
        self.truths.append((cn, Place('truth', path, o, envs, under), errs))
        if under is not None:
            self.err('truth test is placed inside a part that is traversed afterwards', path)
        self.align(x, o, path, envs, under)
        return True


CLASSES = ('falsy', 'emptyarr', 'arr', 'emptyobj', 'obj', 'other')
TRUTHY = {'arr', 'obj', 'other'}


class Unknown(Exception):
    pass


class Truth:
    """Evaluates an injected truth test on every class of operand value."""

    def __init__(self, al, o):
        self.al, self.o, self.L = al, o, al.L

    def operand(self, t):
        return t is self.o or t.k in ('V', 'Vc') and self.al.base(t) is self.o

    def check(self, t):
        self.cn = None
        self.x = None
        errs = []
        try:
            for c in CLASSES:
                self.cls, self.temp, self.evals, self.inc = c, None, 0, 0
                self.slot = None
                r = self.ev(t)
                if r != ('v', c):
                    errs.append('value of a %s operand is not preserved' % c)
                if self.evals != 1:
                    errs.append('%s operand is evaluated %d times' % (c, self.evals))
                if self.inc != (1 if c in TRUTHY else 0):
                    errs.append('truth counter is incremented %d times for a %s operand' % (self.inc, c))
        except Unknown as ex:
            if self.x is None:
                return None
            return self.cn or mk('cnt', 'bT', I(0), None, None), ['truth test not understood: %s' % ex], self.x
        if self.x is None:
            return None
        if self.cn is None:
            return mk('cnt', 'bT', I(0), None, None), errs + ['no truth counter'], self.x
        return self.cn, errs, self.x

    def is_temp(self, t):
        m = self.L.member(t)
        if m is None:
            return False
        o, p = m
        if self.L.covcall(o) is None:
            return False
        if isinstance(p, tuple) or p.k == 'str' and p.a[0] in ('s', 'f', 'b', 'bT'):
            return False
        if self.slot is None:
            self.slot = (self.L.covcall(o), p)
        return self.slot == (self.L.covcall(o), p)

    def truthy(self, v):
        if v[0] == 'v':
            return v[1] != 'falsy'
        if v[0] == 'bool' or v[0] == 'num':
            return bool(v[1])
        if v[0] == 'null':
            return False
        raise Unknown('truth of %r' % (v,))

    def global_member(self, t):
        m = self.L.member(t)
        if m is None or isinstance(m[1], tuple) or m[1].k != 'str':
            return None
        i = self.L.expr(m[0], 'Ident')
        s = self.L.sym_of(i) if i is not None else None
        return (s.a[0], m[1].a[0]) if s is not None and s.k == 'str' else None

    def ev(self, t):
        L = self.L
        if self.operand(t):
            if self.x is not None and self.x is not t:
                raise Unknown('several operands')
            self.x = t
            self.evals += 1
            return ('v', self.cls)
        if t.k == 'cnt':
            if t.a[0] != 'bT':
                raise Unknown('another counter inside')
            self.cn = t
            self.inc += 1
            return ('num', 1)
        if t.k == 'wrap':
            raise Unknown('another wrapper inside')
        if t.k != 'adt':
            raise Unknown(brief(t)[:80])
        if is_adt(t, 'Expr', 'Paren'):
            return self.ev(L.field(t.a[3][0], 'expr'))
        if is_adt(t, 'Expr', 'Seq'):
            r = None
            ex = L.field(t.a[3][0], 'exprs')
            if ex.k != 'vec':
                raise Unknown('sequence')
            for s in ex.a[0]:
                if s.k != 'e':
                    raise Unknown('sequence')
                r = self.ev(s.a[0])
            return r
        if is_adt(t, 'Expr', 'Assign'):
            a = t.a[3][0]
            if not is_adt(L.field(a, 'op'), 'AssignOp', 'Assign'):
                raise Unknown('assignment operator')
            l = variant_payload(L.field(a, 'left'), 'AssignTarget', 'Simple')
            l = variant_payload(l, 'SimpleAssignTarget', 'Member') if l is not None else None
            if l is None or not self.is_temp(l):
                raise Unknown('assignment target')
            self.temp = self.ev(L.field(a, 'right'))
            return self.temp
        if is_adt(t, 'Expr', 'Cond'):
            c = t.a[3][0]
            return self.ev(L.field(c, 'cons') if self.truthy(self.ev(L.field(c, 'test'))) else L.field(c, 'alt'))
        if is_adt(t, 'Expr', 'Unary'):
            u = t.a[3][0]
            if is_adt(L.field(u, 'op'), 'UnaryOp', 'Bang'):
                return ('bool', not self.truthy(self.ev(L.field(u, 'arg'))))
            raise Unknown('unary operator')
        if is_adt(t, 'Expr', 'Lit'):
            l = t.a[3][0]
            if is_adt(l, 'Lit', 'Null'):
                return ('null',)
            n = L.num(t)
            if n is not None and n.k == 'int':
                return ('num', n.a[0])
            raise Unknown('literal')
        if is_adt(t, 'Expr', 'Bin'):
            b = t.a[3][0]
            op = L.field(b, 'op').a[2]
            l = self.ev(L.field(b, 'left'))
            if op == 'LogicalAnd':
                return self.ev(L.field(b, 'right')) if self.truthy(l) else l
            if op == 'LogicalOr':
                return l if self.truthy(l) else self.ev(L.field(b, 'right'))
            r = self.ev(L.field(b, 'right'))
            if op in ('EqEqEq', 'NotEqEq'):
                if 'proto' in (l[0], r[0]) and 'objproto' in (l[0], r[0]):
                    p = l if l[0] == 'proto' else r
                    eq = p[1] in ('emptyobj', 'obj')
                elif l[0] == 'num' and r[0] == 'num':
                    eq = l[1] == r[1]
                else:
                    raise Unknown('comparison')
                return ('bool', eq == (op == 'EqEqEq'))
            if op in ('Gt', 'Lt', 'GtEq', 'LtEq') and l[0] == 'num' and r[0] == 'num':
                return ('bool', {'Gt': l[1] > r[1], 'Lt': l[1] < r[1], 'GtEq': l[1] >= r[1], 'LtEq': l[1] <= r[1]}[op])
            raise Unknown('operator ' + op)
        if is_adt(t, 'Expr', 'Call'):
            c = t.a[3][0]
            cal = variant_payload(L.field(c, 'callee'), 'Callee', 'Expr')
            g = self.global_member(cal) if cal is not None else None
            args = L.field(c, 'args')
            if g is None or args.k != 'vec' or len(args.a[0]) != 1 or args.a[0][0].k != 'e':
                raise Unknown('call')
            a = args.a[0][0].a[0]
            if not is_adt(L.field(a, 'spread'), 'Option', 'None'):
                raise Unknown('spread')
            v = self.ev(L.field(a, 'expr'))
            if v[0] != 'v':
                raise Unknown('argument')
            if g == ('Array', 'isArray'):
                return ('bool', v[1] in ('arr', 'emptyarr'))
            if g == ('Object', 'getPrototypeOf'):
                if v[1] == 'falsy':
                    raise Unknown('getPrototypeOf may throw')
                return ('proto', v[1])
            if g in (('Object', 'values'), ('Object', 'keys')):
                if v[1] == 'falsy':
                    raise Unknown('Object.values may throw')
                return ('len', v[1])
            raise Unknown('call of %s.%s' % g)
        if is_adt(t, 'Expr', 'Member'):
            if self.is_temp(t):
                if self.temp is None:
                    raise Unknown('temporary is read before it is set')
                return self.temp
            g = self.global_member(t)
            if g == ('Object', 'prototype'):
                return ('objproto',)
            m = L.member(t)
            if m is not None and not isinstance(m[1], tuple) and m[1].k == 'str' and m[1].a[0] == 'length':
                v = self.ev(m[0])
                if v[0] == 'v' and v[1] in ('arr', 'emptyarr'):
                    return ('num', 0 if v[1] == 'emptyarr' else 1)
                if v[0] == 'len' and v[1] in ('emptyobj', 'obj'):
                    return ('num', 0 if v[1] == 'emptyobj' else 1)
                raise Unknown('length of %r' % (v,))
            raise Unknown('member ' + brief(t)[:80])
        raise Unknown(brief(t)[:80])
