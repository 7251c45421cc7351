"""C22-C28, C30, C33: the coverage data library (istanbul-oxide).

Every operation is summarised over a symbolic coverage object.  Loops become folds with a generic element, so each rule is an
inductive step: what one entry contributes to the result, by the cases "key not there yet" / "key already there".
"""
from . import positions
from .common import *
from engine.models import vlen
from engine.interp import uncast

FC = 'FileCoverage'
TRUE_PC = frozenset([frozenset()])


# -------------------------------------------------------------------------------------------------- helpers

def value_anchors(ctx):
    """Functions computing a text key or a percentage from shared values stay symbolic; they are judged on their own."""
    out = {}
    for b in ctx.fns(crate=OX):
        r = b.locals[0]
        if not b.argty or b.impl_trait is not None:
            continue
        txt = r is not None and r[0] == 'adt' and last(r[1]) == 'String'
        flt = r in (('prim', 'f32'), ('prim', 'f64'))
        if txt and all(t is not None and not (t[0] == 'ref' and t[1]) and t[0] != 'param' for t in b.argty) or \
                flt and all(t is not None and t[0] == 'prim' for t in b.argty):
            def h(I_, f, args, st, fr, b=b):
                return [(mk('app', 'pure:' + b.path, tuple(I_.deepval(st, a) for a in args), b.locals[0]), st)]
            out[b.path] = h
    return out


def by_path(ctx, path):
    return next((b for b in ctx.P.order if b.path == path), None)


def fget(c, term):
    """(neg, values) known for term in conjunction c."""
    for t, n, v in c:
        if t is term:
            return n, v
    return None


def is_val(c, term, val, dom=(0, 1)):
    f = fget(c, term)
    if f is None:
        return False
    n, v = f
    return (set(dom) - set(v) if n else set(v) & set(dom)) == {val}


def may(c, term, val):
    f = fget(c, term)
    return f is None or ((val in f[1]) != f[0])


def rb(I_, m, t):
    return Subst(m, I_.rebuild).t(t)


def norm_key(I_, k):
    while k.k == 'app' and k.a[0] in ('u32', 'usize', 'u64') and len(k.a[1]) == 1:
        k = k.a[1][0]
    return k


class Stage:
    """One loop over src that grows the map: alternatives (conj, key, value or None when nothing is stored)."""
    __slots__ = ('src', 'mu', 'alts')

    def __init__(self, src, mu):
        self.src, self.mu, self.alts = src, mu, []


def stages(I_, M):
    """The loops that filled map M, first one first; None when M is something else."""
    out = []
    while True:
        if M.k == 'mempty':
            break
        if M.k != 'fold':
            return None
        src, mu, init, alts = M.a
        s = Stage(src, mu)
        for pc, v in alts:
            for c in pc:
                if v is mu:
                    s.alts.append((c, None, None))
                elif v.k == 'minsert' and v.a[0] is mu and not mentions(v.a[1], lambda x: x is mu):
                    s.alts.append((c, v.a[1], v.a[2]))
                else:
                    return None
        out.append(s)
        M = init
    out.reverse()
    return out


def plus(I_, v, mu):
    """What v adds to mu: [(term or None for a constant, coefficient)]; None when v is no such sum."""
    if v is mu:
        return []
    if v.k == 'lin' and dict(v.a[1]).get(mu) == 1:
        return ([(None, v.a[0])] if v.a[0] else []) + [(x, k) for x, k in v.a[1] if x is not mu]
    # a loop that goes on from mu
    for x, k in (v.a[1] if v.k == 'lin' else ((v, 1),)):
        if x.k == 'fold' and k == 1 and mentions(x.a[2], lambda y: y is mu):
            src, m2, init, alts = x.a
            p = plus(I_, init, mu)
            if p is None or any(mentions(t, lambda y: y is mu) for pc, _ in alts for c in pc for t, _, _ in c):
                return None
            m3 = mk('mu', src, I(0), 7)
            sb = Subst({m2: m3}, I_.rebuild)
            new = mk('fold', src, m3, I(0), tuple((pc, sb.t(w)) for pc, w in alts))
            if mentions(new, lambda y: y is mu):
                return None
            rest = [(y, j) for y, j in (v.a[1] if v.k == 'lin' else ()) if y is not x] + ([(None, v.a[0])] if v.k == 'lin' and v.a[0] else [])
            return p + rest + [(new, 1)]
    return None


def count(I_, t):
    """Number denoted by t as {nesting of (sequence, condition): coefficient}; None if it is no such sum."""
    out = {}

    def add(key, n):
        out[key] = out.get(key, 0) + n

    def go(t, ctxk, n):
        if t.k == 'int':
            if t.a[0]:
                add(ctxk, n * t.a[0])
            return True
        if t.k == 'lin':
            if t.a[0]:
                add(ctxk, n * t.a[0])
            return all(go(x, ctxk, n * k) for x, k in t.a[1])
        if t.k == 'len':
            x = t.a[0]
            if x.k == 'vec':
                return segs(x, ctxk, n)
            add(ctxk + ((x, TRUE_PC),), n)
            return True
        if t.k == 'app' and t.a[0] in ('u32', 'usize', 'u64') and len(t.a[1]) == 1:
            return go(t.a[1][0], ctxk, n)
        if t.k in ('not', 'eq', 'lt', 'bapp') and ctxk:
            src, pc = ctxk[-1]
            pc = simplify(I_, I_.assume(pc, t, False, [1]))
            if pc:
                add(ctxk[:-1] + ((src, pc),), n)
            return True
        if t.k == 'fold':
            src, mu, init, alts = t.a
            if not go(init, ctxk, n):
                return False
            parts = {}
            for pc, v in alts:
                for x, k in plus(I_, v, mu) or [(mu, 1)]:
                    if x is mu:
                        if v is not mu:
                            return False
                        continue
                    if x is not None and mentions(x, lambda y: y is mu):
                        return False
                    parts.setdefault((x, k), set()).update(pc)
            for (x, k), pc in parts.items():
                if not elems(src, frozenset(pc), x, k, ctxk, n):
                    return False
            return True
        return False

    def elems(src, pc, x, k, ctxk, n):
        pc = simplify(I_, pc)
        if src.k == 'vec':
            return False
        c2 = ctxk + ((src, pc),)
        if x is None:
            add(c2, n * k)
            return True
        return go(x, c2, n * k)

    def segs(v, ctxk, n):
        for s in v.a[0]:
            if s.k == 'e':
                add(ctxk, n)
            elif s.k == 'sp':
                if not go(mk('len', s.a[0]), ctxk, n):
                    return False
            elif s.k == 'rep':
                src, alts = s.a
                for pc, sg in alts:
                    if not sg:
                        continue
                    pc = simplify(I_, pc)
                    if not segs(mk('vec', tuple(sg)), ctxk + ((src, pc),), n):
                        return False
            else:
                return False
        return True
    if not go(t, (), 1):
        return None
    return {k: v for k, v in out.items() if v}


def simplify(I_, pc):
    from engine.interp import pc_simplify
    return pc_simplify(frozenset(pc), I_.domain)


def nonzero(I_, t):
    return I_.assume(TRUE_PC, t, True, [0])


# -------------------------------------------------------------------------------------------------- entry

def check(ctx, prop):
    F = Fields(ctx)
    A = value_anchors(ctx)
    if prop in ('C22', 'C23', 'C24'):
        Merge(ctx, F, A).check()
    if prop in ('C26', 'C25'):
        lines(ctx, F, A)
    if prop == 'C25':
        summary(ctx, F, A)
        summary_merge(ctx, F, A)
        summary_empty(ctx, F)
    if prop == 'C27':
        reset(ctx, F, A)
    if prop == 'C28':
        covmap(ctx, F, A)
    if prop == 'C30':
        branch_lines(ctx, F, A)
    if prop == 'C33':
        percent(ctx, F)


def panics_ok(ctx, prop, I_, b, good):
    """No path aborts except on objects that are no valid coverage data."""
    bad = []
    for p in I_.panics:
        for c in p.pc:
            if not good(c) and not any(t.k == 'any' and not n and v == {1} and all(good(k) for k in t.a[1]) for t, n, v in c):
                bad.append('%s in %s when %s' % (p.msg, p.where, brief_conj(c)[:300]))
    ctx.ob(prop, not bad, 'no-abort:' + b.name, b, '; '.join(sorted(set(bad)))[:700] or '%d aborts need an object with missing entries' % len(I_.panics))


# -------------------------------------------------------------------------------------------------- merge

CATS = (('s', 'statement_map', 'statements'), ('f', 'fn_map', 'functions'), ('b', 'branch_map', 'branches'))


def outermost(ctx, l, what):
    """The one merging method none of the others calls."""
    inner = {f.res or f.p for b in l for f, _, _ in ctx.P.callees(b)}
    l = [b for b in l if b.path not in inner] if len(l) > 1 else l
    if len(l) != 1:
        raise AnalysisError('expected one method merging a %s into another, found %d' % (what, len(l)))
    return l[0]


class Merge:
    def __init__(self, ctx, F, A):
        self.ctx, self.F, self.A = ctx, F, A
        b = ctx.fns(crate=OX, self_ty=FC, pred=lambda b: len(b.argty) == 2 and b.argty[0][0] == 'ref' and b.argty[0][1] and
                    (s := ctx.P.strip(b.argty[1])) and s[0] == 'adt' and last(s[1]) == FC)
        self.b = outermost(ctx, b, 'FileCoverage')
        fc = ctx.adt(FC)
        self.a = [mk('sym', 'a0', ('adt', fc, ())), mk('sym', 'a1', ('adt', fc, ()))]
        self.keys = {}

    def f(self, i, *names):
        return self.F.get(self.a[i], *names)

    def check(self):
        ctx, F, b = self.ctx, self.F, self.b
        I_, outs = ctx.run(b, anchors=self.A)
        self.I = I_
        for p in ('C22', 'C23', 'C24'):
            ctx.need_modelled(p, I_, b)
        self.canon_tables()
        panics_ok(ctx, 'C23', I_, b, self.invalid)
        ctx.ob('C22', len(outs) > 0, 'returns', b, 'merge never returns')
        seen = set()
        for ret, s in outs:
            fin = s.heap[('H', 'a0')]
            other = s.heap[('H', 'a1')]
            ctx.ob('C22', other is self.a[1], 'argument-kept', b, 'the merged-in object becomes %s' % brief(other)[:200])
            for c in s.pc:
                if self.invalid(c):
                    continue
                all0 = {v for v in (0, 1) if may(c, self.f(0, 'all'), v)}
                all1 = {v for v in (0, 1) if may(c, self.f(1, 'all'), v)}
                for x in sorted(all0):
                    for y in sorted(all1):
                        seen.add((x, y))
                        self.case(x, y, fin, c)
        ctx.ob('C24', seen == {(0, 0), (0, 1), (1, 0), (1, 1)}, 'cases', b, 'placeholder cases that return: %s' % sorted(seen))
        self.key_functions()

    def same_obj(self, x, y):
        if x is y:
            return True
        if x.k == 'adt' and last(x.a[0]) == FC:
            return all(x.a[3][i] is self.F.one(y, f[0]) for i, f in enumerate(self.ctx.P.adts[x.a[0]][2][0][2]))
        return False

    def case(self, x, y, fin, c):
        ctx, b = self.ctx, self.b
        kept, repl = self.same_obj(fin, self.a[0]), self.same_obj(fin, self.a[1])
        if (x, y) == (0, 1):
            ctx.ob('C24', kept, 'placeholder-in', b, 'merging a placeholder into real data changes it')
        elif (x, y) == (1, 0):
            ctx.ob('C24', repl, 'real-in', b, 'merging real data into a placeholder does not replace it completely')
        elif (x, y) == (1, 1):
            ctx.ob('C24', kept or repl, 'both', b, 'merging two placeholders yields neither of them')
        else:
            self.real(fin, c)

    # -- canonical names for what a valid object guarantees: an entry of a hit map has its location entry and the other way round
    def canon_tables(self):
        self.canon = {}
        self.present = set()
        self.ent = {}
        for i in (0, 1):
            for h, l, _ in CATS:
                hm, lm = self.f(i, h), self.f(i, l)
                HIT, ITEM = mk('eval', hm), mk('mval', lm, mk('ekey', hm))
                self.ent[i, h] = (HIT, ITEM)
                self.canon[mk('eval', lm)] = ITEM
                self.canon[mk('mval', hm, mk('ekey', lm))] = HIT
                self.present.add(mk('mopt', lm, mk('ekey', hm)))
                self.present.add(mk('mopt', hm, mk('ekey', lm)))
            bt = mk('proj', self.f(i, 'b_t'), 'Some', 0, '0')
            lm = self.f(i, 'branch_map')
            self.ent[i, 'b_t'] = (mk('eval', bt), mk('mval', lm, mk('ekey', bt)))
            self.present.add(mk('mopt', lm, mk('ekey', bt)))
            self.present.add(mk('mopt', self.f(i, 'b'), mk('ekey', bt)))

    def invalid(self, c):
        """The path needs an object whose hit and location maps have different keys."""
        return any(t.k == 'discr' and t.a[0] in self.present and not n and v == {0} for t, n, v in c)

    def pair_of(self, src):
        for i in (0, 1):
            for h, l, _ in CATS:
                if src is self.f(i, h) or src is self.f(i, l):
                    return i, h
            if src is mk('proj', self.f(i, 'b_t'), 'Some', 0, '0'):
                return i, 'b_t'
        return None

    def cn(self, t):
        return rb(self.I, self.canon, t)

    def real(self, fin, c):
        ctx, F, b, I_ = self.ctx, self.F, self.b, self.I
        if fin.k != 'adt':
            ctx.ob('C22', False, 'merged', b, 'real data is not merged: result is %s' % brief(fin)[:200])
            return
        for n in ('all', 'path', 'input_source_map'):
            v = F.one(fin, n)
            ctx.ob('C22', v is self.f(0, n), 'kept:' + n, b, '%s becomes %s' % (n, brief(v)[:200]))
        for h, l, what in CATS:
            self.category(h, l, what, F.one(fin, h), F.one(fin, l))
        self.truth(fin, c)

    def entries(self, M, what, which):
        """M as {numbering key: value} over the entries of one keyed collection: (collection, key, value)."""
        st = stages(self.I, M)
        if st is None or len(st) != 1 or len(st[0].alts) != 1 or st[0].alts[0][1] is None or st[0].alts[0][0]:
            return None
        s = st[0]
        c, k, v = s.alts[0]
        if mentions(v, lambda x: x is s.mu):
            return None
        return s.src, norm_key(self.I, k), v

    def category(self, h, l, what, H, L):
        ctx, b, I_ = self.ctx, self.b, self.I
        eh, el = self.entries(H, what, 'hits'), self.entries(L, what, 'locations')
        if not ctx.ob('C23', eh is not None and el is not None, 'rebuilt:' + h, b,
                      'the merged %s are not rebuilt entry by entry: %s' % (what, ('hits', 'locations')[eh is not None])):
            return
        ctx.ob('C23', eh[0] is el[0], 'same-entries:' + h, b, 'hit and location map of %s are built from different collections' % what)
        ctx.ob('C23', eh[1] is el[1], 'same-keys:' + h, b, 'hits are stored under %s, locations under %s' % (brief(eh[1])[:150], brief(el[1])[:150]))
        X = eh[0]
        k = eh[1]
        ok = k is mk('idx', X) or (k.k == 'lin' and k.a[1] == ((mk('idx', X), 1),))
        ctx.ob('C23', ok, 'numbered:' + h, b, 'merged %s are numbered %s' % (what, brief(k)[:150]))
        if eh[0] is not el[0]:
            return
        self.items(X, eh[2], el[2], h, what)

    def items(self, X, hv, lv, h, what):
        """X: the collection keyed by position; hv, lv: hits and location as functions of its entry."""
        ctx, b, I_ = self.ctx, self.b, self.I
        st = stages(I_, X)
        if not ctx.ob('C22', st is not None and len(st) == 2, 'two-passes:' + h, b, 'merged %s do not come from one pass over each side' % what):
            return
        sides = [self.pair_of(s.src) for s in st]
        ctx.ob('C22', None not in sides and {x[1] for x in sides} == {h} and {x[0] for x in sides} == {0, 1}, 'both-sides:' + h, b,
               'passes over %s' % ', '.join(brief(s.src)[:80] for s in st))
        if None in sides:
            return
        lam = []
        e = mk('eval', X)
        for n, (s, side) in enumerate(zip(st, sides)):
            HIT, ITEM = self.ent[side[0], h]
            tag = '%s:%s' % (h, ('first', 'second')[n])
            keys = set()
            absent = present = 0
            for c, K, V in s.alts:
                if self.invalid(c):
                    continue
                if K is None:
                    here = [x for x in self.known_keys(c, s.mu)]
                    there = here and here[0][1] == 1
                    ctx.ob('C22', n == 0 and there, 'kept-entry:' + tag, b, 'an entry of the %s pass over %s is dropped when %s' % (
                        ('first', 'second')[n], what, brief_conj(c)[:300]))
                    continue
                K2 = self.cn(K)
                keys.add(K2)
                D = mk('discr', mk('mopt', s.mu, K))
                old = mk('mval', s.mu, K)
                V = self.cn(V)
                hx, lx = rb(I_, {e: V}, hv), rb(I_, {e: V}, lv)
                oh, ol = rb(I_, {e: self.cn(old)}, hv), rb(I_, {e: self.cn(old)}, lv)
                if may(c, D, 0) and (n == 1 or True):
                    absent += 1
                    if is_val(c, D, 0) or n == 0:
                        ctx.ob('C22', self.vec_is(hx, None, HIT, c, h), 'new-hits:' + tag, b,
                               'a location of one side only gets hits %s' % brief(hx)[:300])
                        ctx.ob('C22', lx is ITEM or self.same_item(lx, ITEM), 'new-location:' + tag, b, 'it is stored as %s' % brief(lx)[:300])
                        continue
                if n == 1:
                    if not is_val(c, D, 1):
                        ctx.ob('C22', False, 'checked:' + tag, b, 'an entry of the second side is stored without looking whether its location exists: %s' % brief(hx)[:300])
                        continue
                    present += 1
                    ctx.ob('C22', self.vec_is(hx, oh, HIT, c, h), 'sum:' + tag, b, 'hits of a location on both sides become %s' % brief(hx)[:500])
                    ctx.ob('C22', lx is ol or self.same_item(lx, ol) or self.same_item(lx, ITEM), 'location:' + tag, b, 'its location becomes %s' % brief(lx)[:300])
            ctx.ob('C22', absent > 0 and (n == 0 or present > 0), 'cases:' + tag, b, 'cases covered: new %d, known %d' % (absent, present))
            if ctx.ob('C22', len(keys) == 1, 'one-key:' + tag, b, 'keys used: %s' % ', '.join(sorted(brief(k)[:100] for k in keys))):
                K = keys.pop()
                lam.append(rb(I_, {ITEM: mk('sym', 'item', None)}, K))
        if len(lam) == 2:
            ctx.ob('C22', lam[0] is lam[1], 'same-key:' + h, b, 'first side is keyed by %s, second by %s' % (brief(lam[0])[:150], brief(lam[1])[:150]))
            self.keys[h] = rb(I_, {mk('sym', 'item', None): self.ent[0, h][1]}, lam[0])

    def known_keys(self, c, mu):
        for t, n, v in c:
            if t.k == 'discr' and t.a[0].k == 'mopt' and t.a[0].a[0] is mu and not n and len(v) == 1:
                yield t.a[0].a[1], next(iter(v))

    def same_item(self, x, y):
        """x is a copy of y (field by field)."""
        if x is y:
            return True
        if x.k == 'adt' and not self.ctx.P.adts[x.a[0]][0]:
            return all(self.same_item(x.a[3][i], self.F.one(y, f[0])) for i, f in enumerate(self.ctx.P.adts[x.a[0]][2][0][2]))
        return False

    # -- hits
    def vec_is(self, v, old, hit, c, h):
        """v = old + hit (old None: v = hit), numbers or position by position with missing paths counting zero."""
        I_ = self.I
        if h in ('s', 'f'):
            return v is (hit if old is None else I_.lin(0, ((old, 1), (hit, 1))))
        if old is None and v is hit:
            return True
        if self.sum_by_structure(v, old, hit, c):
            return True
        orders = ('lt',) if old is None else [x for x in ('lt', 'eq', 'gt') if may(c, mk('lt', mk('len', old), mk('len', hit)), x == 'lt') and
                                              may(c, mk('lt', mk('len', hit), mk('len', old)), x == 'gt')]
        return bool(orders) and positions.is_sum(I_, rb, v, old, hit, orders)

    def sum_by_structure(self, v, old, hit, c):
        I_ = self.I
        cm = {}
        lo = self.I.lin(0, ()) if old is None else mk('len', old)
        ln = mk('len', hit)
        # the regions of positions that can exist: in both, only in the old hits, only in the new ones
        if old is None:
            regs = ['N']
            if is_val_len(c, ln, 0):
                regs = []
        else:
            less = fget(c, mk('lt', lo, ln))
            more = fget(c, mk('lt', ln, lo))
            eq = None
            regs = ['ON']
            if not (less and is_val(c, mk('lt', lo, ln), 1)) and not (more and is_val(c, mk('lt', ln, lo), 0)):
                regs.append('O')
            if not (less and is_val(c, mk('lt', lo, ln), 0)) and not (more and is_val(c, mk('lt', ln, lo), 1)):
                regs.append('N')
        # length
        L = vlen(I_, v)
        if v.k == 'fold' and v.a[0] is hit and all(is_val(c, mk('lt', mk('idx', hit), mk('len', v.a[1])), 0) and w.k == 'vec' or
                                                   is_val(c, mk('lt', mk('idx', hit), mk('len', v.a[1])), 1) and w.k == 'iset' for pc, w in v.a[3] for c in pc):
            # every position of hit that is not there is appended
            bl = vlen(I_, v.a[2])
            L = ln if bl is I(0) or bl is ln else mk('max', *sorted((bl, ln), key=lambda t: t.n)) if bl is lo else L
        if old is None:
            lenok = L is ln or (is_val_len(c, ln, 0) and L is I(0))
        else:
            lenok = (L is lo and 'N' not in regs) or (L is ln and 'O' not in regs) or L is mk('max', *sorted((lo, ln), key=lambda t: t.n))
        if not lenok:
            return False
        o, n = mk('sym', 'o', ('prim', 'u32')), mk('sym', 'n', ('prim', 'u32'))
        for r in regs:
            want = {'ON': I_.lin(0, ((o, 1), (n, 1))), 'O': o, 'N': n}[r]
            if self.at(v, r, old, hit, o, n) is not want:
                return False
        return True

    def at(self, v, r, old, hit, o, n):
        """Element of v at a position in region r, or None when outside / unknown."""
        I_ = self.I
        if v is old:
            return o if 'O' in r else None
        if v is hit:
            return n if 'N' in r else None
        if v.k == 'resize':
            base, ln, x = v.a
            inside = {mk('len', hit): 'N' in r}
            if old is not None:
                inside[mk('len', old)] = 'O' in r
                inside[mk('max', *sorted((mk('len', hit), mk('len', old)), key=lambda t: t.n))] = True
            ok = inside.get(ln)
            if not ok:
                return None
            y = self.at(base, r, old, hit, o, n)
            return x if y is None else y
        if v.k == 'zupd':
            base, src, e = v.a
            w = self.within(src, r, old, hit, o, n)
            if w:
                return self.ev(e, src, r, old, hit, o, n)
            return self.at(base, r, old, hit, o, n) if w is False else None
        if v.k == 'fold' and v.a[0] is hit:
            # position by position: changed where it exists, appended where it does not
            src, mu, base, alts = v.a
            if 'N' not in r:
                return self.at(base, r, old, hit, o, n)
            x = self.at(base, r, old, hit, o, n)
            there = mk('lt', mk('idx', src), mk('len', mu))
            got = None
            for pc, w in alts:
                for c in pc:
                    f = fget(c, there)
                    if f is None or not (is_val(c, there, 0) or is_val(c, there, 1)):
                        return None
                    if is_val(c, there, 0):
                        if w.k != 'vec' or len(w.a[0]) != 2 or w.a[0][0] is not SP(mu) or w.a[0][1].k != 'e':
                            return None
                        y = rb(I_, {mk('elem', src): n}, w.a[0][1].a[0])
                    else:
                        if w.k != 'iset' or w.a[0] is not mu or w.a[1] is not mk('idx', src):
                            return None
                        y = rb(I_, {mk('at', mu, mk('idx', src)): x, mk('elem', src): n}, w.a[2]) if x is not None else None
                    if is_val(c, there, 1) == (x is not None):
                        if got is not None and got is not y:
                            return None
                        got = y
            return got
        if v.k == 'vec':
            if len(v.a[0]) == 1 and v.a[0][0].k == 'rep':
                src, alts = v.a[0][0].a
                if len(alts) == 1 and alts[0][0] == TRUE_PC and len(alts[0][1]) == 1 and alts[0][1][0].k == 'e' and \
                        self.within(src, r, old, hit, o, n):
                    return self.ev(alts[0][1][0].a[0], src, r, old, hit, o, n)
            return None
        return None

    def within(self, src, r, old, hit, o, n):
        """Does a loop over src get to positions of region r?"""
        if src.k == 'zip':
            w = [self.within(x, r, old, hit, o, n) for x in src.a]
            return False if False in w else None if None in w else True
        if src is hit:
            return 'N' in r
        if src is old:
            return 'O' in r
        if src.k in ('resize', 'zupd', 'fold'):
            return self.at(src, r, old, hit, o, n) is not None
        return None

    def ev(self, e, src, r, old, hit, o, n):
        I_ = self.I
        m = {}
        for x in subterms(e):
            if x.k == 'elem' and x.a[0] in (hit, old) and x.a[0] is src:
                m[x] = n if src is hit else o
            elif x.k == 'at' and x.a[1] is mk('idx', src):
                y = self.at(x.a[0], r, old, hit, o, n)
                if y is None:
                    return None
                m[x] = y
        return rb(I_, m, e)

    # -- branch truth
    def truth(self, fin, c):
        ctx, F, b, I_ = self.ctx, self.F, self.b, self.I
        D = [mk('discr', self.f(i, 'b_t')) for i in (0, 1)]
        have = [{v for v in (0, 1) if may(c, d, v)} for d in D]
        bt = F.one(fin, 'b_t')
        if any(len(x) != 1 for x in have):
            # a combined test: judge by each possibility
            pass
        for x in sorted(have[0]):
            for y in sorted(have[1]):
                tag = '%d%d' % (x, y)
                if not x and not y:
                    ctx.ob('C23', bt.k == 'adt' and bt.a[2] == 'None' or bt is self.f(0, 'b_t') or bt is self.f(1, 'b_t'), 'no-truth', b,
                           'branch truth appears from nothing: %s' % brief(bt)[:200])
                    continue
                if not ctx.ob('C23', bt.k == 'adt' and bt.a[2] == 'Some', 'truth-some:' + tag, b,
                              'branch truth of one side is lost or kept in its own numbering: %s' % brief(bt)[:200]):
                    continue
                self.truth_map(bt.a[3][0], F.one(fin, 'branch_map'), [i for i, z in enumerate((x, y)) if z], tag)

    def truth_map(self, M, merged, sides, tag):
        ctx, b, I_ = self.ctx, self.b, self.I
        st = stages(I_, M)
        if not ctx.ob('C23', st is not None and len(st) == 1 and st[0].src is merged, 'truth-aligned:' + tag, b,
                      'merged branch truth is not built over the merged branches: %s' % brief(M)[:200]):
            return
        s = st[0]
        T = None
        item = mk('eval', merged)
        nk = nv = 0
        for c, K, V in s.alts:
            if K is None:
                # skipped exactly when no side has truth data for the location
                d = [t for t, n, v in c if t.k == 'discr' and t.a[0].k == 'mopt' and not n and v == {0}]
                if ctx.ob('C23', len(d) == 1 and len(c) == 1, 'truth-skip:' + tag, b, 'a branch gets no truth data when %s' % brief_conj(c)[:200]):
                    T = T or d[0].a[0]
                    nk += 1
                    ctx.ob('C23', d[0].a[0] is T, 'truth-table:' + tag, b, 'two truth tables are consulted')
                continue
            ctx.ob('C23', norm_key(I_, K) is mk('ekey', merged), 'truth-key:' + tag, b, 'branch truth is stored under %s' % brief(K)[:150])
            if ctx.ob('C23', V.k == 'mval', 'truth-value:' + tag, b, 'branch truth stored is %s' % brief(V)[:200]):
                d = mk('mopt', V.a[0], V.a[1])
                T = T or d
                ctx.ob('C23', d is T and is_val(c, mk('discr', d), 1) and len(c) == 1, 'truth-table:' + tag, b,
                       'a branch gets truth data %s when %s' % (brief(V)[:150], brief_conj(c)[:200]))
                nv += 1
        if not ctx.ob('C23', T is not None and nv > 0 and nk > 0, 'truth-cases:' + tag, b, 'branches with truth data: %d cases, without: %d' % (nv, nk)):
            return
        table, K = T.a
        lam = rb(I_, {item: mk('sym', 'item', None)}, K)
        mine = self.keys.get('b')
        ok = mine is not None and lam is rb(I_, {self.ent[0, 'b'][1]: mk('sym', 'item', None)}, mine)
        ctx.ob('C23', ok, 'truth-same-key:' + tag, b, 'truth data is looked up by %s' % brief(lam)[:150])
        st = stages(I_, table)
        if not ctx.ob('C23', st is not None, 'truth-passes:' + tag, b, 'truth table is %s' % brief(table)[:200]):
            return
        got = [self.pair_of(x.src) for x in st]
        if not ctx.ob('C23', sorted(got, key=str) == sorted(((i, 'b_t') for i in sides), key=str), 'truth-sides:' + tag, b,
                      'truth data collected from %s' % ', '.join(brief(x.src)[:60] for x in st)):
            return
        for n, (s, side) in enumerate(zip(st, got)):
            HIT, ITEM = self.ent[side[0], 'b_t']
            t2 = '%s:%d' % (tag, side[0])
            for c, K, V in s.alts:
                if self.invalid(c):
                    continue
                if not ctx.ob('C22', K is not None, 'truth-kept:' + t2, b, 'truth data is dropped when %s' % brief_conj(c)[:200]):
                    continue
                ctx.ob('C23', rb(I_, {ITEM: mk('sym', 'item', None)}, self.cn(K)) is lam, 'truth-stored-key:' + t2, b,
                       'truth data is collected under %s' % brief(K)[:150])
                D = mk('discr', mk('mopt', s.mu, K))
                old = mk('mval', s.mu, K)
                if is_val(c, D, 0) or (n == 0 and may(c, D, 0)):
                    ok = self.vec_is(V, None, HIT, c, 'b_t')
                elif n == 0:
                    ok = True
                else:
                    ok = is_val(c, D, 1) and self.vec_is(V, old, HIT, c, 'b_t')
                ctx.ob('C22', ok, 'truth-sum:' + t2, b, 'truth hits become %s when %s' % (brief(V)[:300], brief_conj(c)[:200]))

    # -- keys
    def key_functions(self):
        ctx, I_ = self.ctx, self.I
        for h, l, what in CATS:
            K = self.keys.get(h)
            if K is None:
                continue
            item = self.ent[0, h][1]
            if h == 's':
                good = [item]
            elif h == 'f':
                good = [self.F.one(item, 'loc')]
            else:
                loc = self.F.one(item, 'loc')
                good = [mk('at', self.F.one(item, 'locations'), I(0)), mk('proj', loc, 'Some', 0, '0')]
            for c, t, where in self.renderings(K, [frozenset()], self.b, 0):
                ok = any(self.full_position(t, g) for g in good)
                if not ok and h == 'b':
                    # neither a location nor a path location: the line is all there is
                    loc, locs, ln = (self.F.one(item, x) for x in ('loc', 'locations', 'line'))
                    ok = is_val(c, mk('discr', loc), 0) and is_val_len(c, mk('len', locs), 0) and t.k == 'fmt' and \
                        any(mentions(p, lambda y: y is ln) for p in t.a[0] if isinstance(p, T))
                ctx.ob('C22', ok, 'full-position:' + h, where, '%s are keyed by %s%s' % (what, brief(t)[:200], ' when ' + brief_conj(c)[:150] if c else ''))

    def renderings(self, K, conjs, where, depth):
        """(conj, text term, function) of key term K, looking through key functions."""
        I_ = self.I
        if K.k == 'app' and isinstance(K.a[0], str) and K.a[0].startswith('pure:') and depth < 4:
            fb = by_path(self.ctx, K.a[0][5:])
            J, outs = self.ctx.run(fb)
            self.ctx.need_modelled('C22', J, fb)
            m = {}
            for i, (t, v) in enumerate(zip(fb.argty, K.a[1])):
                m[mk('sym', 'a%d' % i, self.ctx.P.strip(t) if t[0] == 'ref' else t)] = v
            sb = Subst(m, I_.rebuild)
            for ret, s in outs:
                for c in I_.subst_pc(s.pc, sb):
                    yield c, sb.t(ret), fb
            return
        yield frozenset(), K, where

    def full_position(self, t, rng):
        """The text t determines all four numbers of rng."""
        if t.k != 'fmt':
            return False
        want = {self.F.get(rng, a, x) for a in ('start', 'end') for x in ('line', 'column')}
        got = set()
        sep = True
        for p in t.a[0]:
            if isinstance(p, str) or p.k == 'str':
                s = p if isinstance(p, str) else p.a[0]
                if s and not all(ch.isdigit() for ch in s) and not s[0].isdigit() and not s[-1].isdigit():
                    sep = True
                elif s:
                    return False
            elif p.k in ('disp', 'dbg'):
                if not sep:
                    return False
                v = p.a[0] if p.k == 'disp' else p.a[-1]
                if p.k == 'dbg' and p.a[0] != 'new_debug':
                    return False
                sep = False
                if v in want:
                    got.add(v)
                elif p.k == 'dbg' and v is rng:
                    got |= want
                elif p.k == 'dbg' and v in (self.F.one(rng, 'start'), self.F.one(rng, 'end')):
                    got |= {self.F.get(v, 'line'), self.F.get(v, 'column')}
                else:
                    return False        # anything else would tell equal positions apart
            else:
                return False
        return got == want


def is_val_len(c, ln, n):
    f = fget(c, ln)
    return f is not None and not f[0] and f[1] == {n}


# -------------------------------------------------------------------------------------------------- line coverage

def method(ctx, names, ret=None, args=1):
    """The method of FileCoverage with one of the public names."""
    l = ctx.fns(crate=OX, self_ty=FC, pred=lambda b: b.name in names and len(b.argty) == args)
    if len(l) != 1:
        raise AnalysisError('FileCoverage::%s not found' % names[0])
    return l[0]


def valid_lookup(ctx, F, a):
    """Path conditions only an object with missing entries can satisfy."""
    pres = set()
    for h, l, _ in CATS:
        hm, lm = F.one(a, h), F.one(a, l)
        pres |= {mk('mopt', lm, mk('ekey', hm)), mk('mopt', hm, mk('ekey', lm))}

    def bad(c):
        return any(t.k == 'discr' and t.a[0] in pres and not n and v == {0} for t, n, v in c)
    return bad


def line_table(ctx, F, I_, M, a, b, prop):
    """M is the map line -> largest hit count of the statements starting there."""
    bad = valid_lookup(ctx, F, a)
    st = stages(I_, M)
    if not ctx.ob(prop, st is not None and len(st) == 1 and st[0].src in (F.one(a, 's'), F.one(a, 'statement_map')), 'one-pass:' + b.name, b,
                  'line coverage is not one pass over the statements: %s' % brief(M)[:300]):
        return False
    s = st[0]
    hm, lm = F.one(a, 's'), F.one(a, 'statement_map')
    HIT, ITEM = mk('eval', hm), mk('mval', lm, mk('ekey', hm))
    canon = {mk('eval', lm): ITEM, mk('mval', hm, mk('ekey', lm)): HIT}
    line = F.get(ITEM, 'start', 'line')
    ok = True
    fresh = known = False
    for order in ('absent', '<', '=', '>'):
        for c, K, V in s.alts:
            if bad(c):
                continue
            Ks = [K] if K is not None else [t.a[0].a[1] for t, n, v in c if t.k == 'discr' and t.a[0].k == 'mopt' and t.a[0].a[0] is s.mu]
            if not Ks:
                ok &= ctx.ob(prop, False, 'looked-up:' + b.name, b, 'a statement is ignored when %s' % brief_conj(c)[:300])
                continue
            K = Ks[0]
            ok &= ctx.ob(prop, rb(I_, canon, K) is line, 'line-key:' + b.name, b, 'hits are recorded under %s' % brief(K)[:200])
            D = mk('discr', mk('mopt', s.mu, K))
            old = mk('mval', s.mu, K)
            if not may(c, D, 0 if order == 'absent' else 1):
                continue
            o, h = old, HIT
            c2 = frozenset((rb(I_, canon, t), n, v) for t, n, v in c)
            if order != 'absent':
                truth = {mk('lt', o, h): order == '<', mk('lt', h, o): order == '>', mk('eq', *sorted((o, h), key=lambda t: t.n)): order == '='}
                if any(fget(c2, t) and not may(c2, t, int(v)) for t, v in truth.items()):
                    continue
                if order in '<' and is_val_num0(c2, h) or order == '>' and is_val_num0(c2, o) or \
                        order == '=' and (is_val_num0(c2, h) and excl0(c2, o) or is_val_num0(c2, o) and excl0(c2, h)):
                    continue
            v = old if V is None else rb(I_, canon, V)
            mx = mk('max', *sorted((o, h), key=lambda t: t.n))
            want = {'absent': (h,), '<': (h, mx), '=': (o, h, mx), '>': (o, mx)}[order]
            good = (v in want or v is I(0) and any(is_val_num0(c2, x) for x in want)) and not (order == 'absent' and V is None)
            known |= order != 'absent'
            fresh |= order == 'absent'
            ok &= ctx.ob(prop, good, 'max:%s:%s' % (b.name, order), b, 'a statement with %s hits on its line leaves %s there' % (
                {'absent': 'the first', '<': 'more', '=': 'as many', '>': 'fewer'}[order], brief(v)[:200]))
    ok &= ctx.ob(prop, fresh and known, 'cases:' + b.name, b, 'first and later statements of a line')
    return ok


def is_val_num0(c, t):
    f = fget(c, t)
    return f is not None and not f[0] and f[1] == {0}


def excl0(c, t):
    f = fget(c, t)
    return f is not None and ((f[0] and 0 in f[1]) or (not f[0] and 0 not in f[1]))


def one_out(ctx, prop, outs, b, bad):
    l = [(r, s, c) for r, s in outs for c in s.pc if not bad(c)]
    ctx.ob(prop, len(l) > 0, 'returns:' + b.name, b, 'returns a result')
    return l


def lines(ctx, F, A):
    fc = ctx.adt(FC)
    a = mk('sym', 'a0', ('adt', fc, ()))
    bad = valid_lookup(ctx, F, a)
    b = method(ctx, ('get_line_coverage',))
    I_, outs = ctx.run(b, anchors=A)
    ctx.need_modelled('C26', I_, b)
    panics_ok(ctx, 'C26', I_, b, bad)
    for r, s, c in one_out(ctx, 'C26', outs, b, bad):
        line_table(ctx, F, I_, r, a, b, 'C26')
    b = method(ctx, ('get_uncovered_lines',))
    I_, outs = ctx.run(b, anchors=A)
    ctx.need_modelled('C26', I_, b)
    panics_ok(ctx, 'C26', I_, b, bad)
    for r, s, c in one_out(ctx, 'C26', outs, b, bad):
        ok = r.k == 'vec' and len(r.a[0]) == 1 and r.a[0][0].k == 'rep'
        if not ctx.ob('C26', ok, 'uncovered-shape', b, 'uncovered lines are %s' % brief(r)[:300]):
            continue
        src, alts = r.a[0][0].a
        if not line_table(ctx, F, I_, src, a, b, 'C26'):
            continue
        zero = I_.assume(TRUE_PC, mk('eval', src), False, [0])
        inc = [(pc, sg) for pc, sg in alts if sg]
        okk = len(inc) == 1 and inc[0][1] == (E(mk('ekey', src)),)
        ctx.ob('C26', okk, 'uncovered-line', b, 'reported: %s' % ', '.join(brief(x)[:100] for _, sg in inc for x in sg))
        ctx.ob('C26', okk and simplify(I_, inc[0][0]) == zero, 'uncovered-zero', b, 'reported when %s' % (brief_conj(next(iter(inc[0][0])))[:200] if inc else 'never'))


# -------------------------------------------------------------------------------------------------- summaries

def totals(ctx, F, I_, t, prop, key, b, total, covered):
    """t: Totals with the given counts (as count() forms), nothing skipped and the percentage of its own counts."""
    gt, gc = count(I_, F.one(t, 'total')), count(I_, F.one(t, 'covered'))
    ctx.ob(prop, gt == total, 'total:' + key, b, 'total is %s' % brief(F.one(t, 'total'))[:300])
    ctx.ob(prop, gc == covered, 'covered:' + key, b, 'covered is %s' % brief(F.one(t, 'covered'))[:300])
    ctx.ob(prop, F.one(t, 'skipped') is I(0), 'skipped:' + key, b, 'skipped is %s' % brief(F.one(t, 'skipped'))[:100])
    pct(ctx, F, t, prop, key, b)


def pct(ctx, F, t, prop, key, b):
    p = F.one(t, 'pct')
    c, n = F.one(t, 'covered'), F.one(t, 'total')
    ok = p.k == 'adt' and p.a[2] == 'Value' and p.a[3][0].k == 'app' and str(p.a[3][0].a[0]).startswith('pure:') and p.a[3][0].a[1] == (c, n)
    ctx.ob(prop, ok, 'pct:' + key, b, 'percentage is %s' % brief(p)[:300])
    if ok:
        ctx.ob(prop, p.a[3][0].a[0][5:] == percent_fn(ctx).path, 'pct-fn:' + key, b, 'percentage computed by %s' % p.a[3][0].a[0][5:])


def summary(ctx, F, A):
    fc = ctx.adt(FC)
    a = mk('sym', 'a0', ('adt', fc, ()))
    bad = valid_lookup(ctx, F, a)
    b = method(ctx, ('to_summary',))
    I_, outs = ctx.run(b, anchors=A)
    ctx.need_modelled('C25', I_, b)
    panics_ok(ctx, 'C25', I_, b, bad)
    got = set()
    for r, s, c in one_out(ctx, 'C25', outs, b, bad):
        for name, m in (('statements', F.one(a, 's')), ('functions', F.one(a, 'f'))):
            totals(ctx, F, I_, F.one(r, name), 'C25', name, b, {((m, TRUE_PC),): 1}, {((m, nonzero(I_, mk('eval', m))),): 1})
        ln = F.one(r, 'lines')
        ct = count(I_, F.one(ln, 'total'))
        src = next(iter(ct))[0][0] if ct and len(ct) == 1 else None
        if ctx.ob('C25', src is not None, 'lines-source', b, 'lines total is %s' % brief(F.one(ln, 'total'))[:200]):
            line_table(ctx, F, I_, src, a, b, 'C25')
            totals(ctx, F, I_, ln, 'C25', 'lines', b, {((src, TRUE_PC),): 1}, {((src, nonzero(I_, mk('eval', src))),): 1})
        branch_totals(ctx, F, I_, F.one(r, 'branches'), 'branches', b, F.one(a, 'b'))
        bt = F.one(r, 'branches_true')
        D = mk('discr', F.one(a, 'b_t'))
        for v in (0, 1):
            if not may(c, D, v):
                continue
            got.add(v)
            if not v:
                ctx.ob('C25', bt.k == 'adt' and bt.a[2] == 'None', 'truth-absent', b, 'without truth data the truth category is %s' % brief(bt)[:200])
            elif ctx.ob('C25', bt.k == 'adt' and bt.a[2] == 'Some', 'truth-present', b, 'with truth data the truth category is %s' % brief(bt)[:200]):
                branch_totals(ctx, F, I_, bt.a[3][0], 'branches_true', b, mk('proj', F.one(a, 'b_t'), 'Some', 0, '0'))
    ctx.ob('C25', got == {0, 1}, 'truth-cases', b, 'truth data absent / present: %s' % sorted(got))


def branch_totals(ctx, F, I_, t, key, b, m):
    e = mk('eval', m)
    totals(ctx, F, I_, t, 'C25', key, b, {((m, TRUE_PC), (e, TRUE_PC)): 1}, {((m, TRUE_PC), (e, nonzero(I_, mk('elem', e)))): 1})


def summary_merge(ctx, F, A):
    cs = ctx.adt('CoverageSummary')
    l = ctx.fns(crate=OX, self_ty='CoverageSummary', pred=lambda b: len(b.argty) == 2 and b.argty[0][0] == 'ref' and b.argty[0][1] and
                ctx.P.strip(b.argty[1]) == ('adt', cs, ()))
    b = outermost(ctx, l, 'CoverageSummary')
    I_, outs = ctx.run(b, anchors=A)
    ctx.need_modelled('C25', I_, b)
    panics_ok(ctx, 'C25', I_, b, lambda c: False)
    a0, a1 = (mk('sym', 'a%d' % i, ('adt', cs, ())) for i in (0, 1))
    seen = set()

    def summed(t, x, y, key):
        for f in ('total', 'covered', 'skipped'):
            vx = F.one(x, f) if x is not None else I(0)
            want = I_.lin(0, ((vx, 1), (F.one(y, f), 1)))
            ctx.ob('C25', F.one(t, f) is want, 'sum:%s.%s' % (key, f), b, '%s.%s becomes %s' % (key, f, brief(F.one(t, f))[:200]))
        pct(ctx, F, t, 'C25', 'sum:' + key, b)
    for ret, s in outs:
        fin = s.heap[('H', 'a0')]
        ctx.ob('C25', s.heap[('H', 'a1')] is a1, 'argument-kept', b, 'the merged-in summary changes')
        for n in ('lines', 'statements', 'functions', 'branches'):
            summed(F.one(fin, n), F.one(a0, n), F.one(a1, n), n)
        for c in s.pc:
            d0, d1 = (mk('discr', F.one(x, 'branches_true')) for x in (a0, a1))
            for x in (0, 1):
                for y in (0, 1):
                    if not (may(c, d0, x) and may(c, d1, y)):
                        continue
                    seen.add((x, y))
                    bt = F.one(fin, 'branches_true')
                    b0, b1 = (mk('proj', F.one(z, 'branches_true'), 'Some', 0, '0') for z in (a0, a1))
                    if not y:
                        same = bt is F.one(a0, 'branches_true') or (x and bt.k == 'adt' and bt.a[2] == 'Some' and bt.a[3][0] is b0) or \
                            (not x and bt.k == 'adt' and bt.a[2] == 'None')
                        ctx.ob('C25', same, 'truth-kept:%d' % x, b, 'truth category becomes %s' % brief(bt)[:200])
                    elif ctx.ob('C25', bt.k == 'adt' and bt.a[2] == 'Some', 'truth-summed:%d' % x, b, 'truth category becomes %s' % brief(bt)[:200]):
                        summed(bt.a[3][0], b0 if x else None, b1, 'branches_true:%d' % x)
    ctx.ob('C25', len(seen) == 4, 'summary-cases', b, 'truth category absent / present: %s' % sorted(seen))


def summary_empty(ctx, F):
    for b in ctx.fns(crate=OX, self_ty='CoverageSummary', name='is_empty'):
        I_, outs = ctx.run(b)
        ctx.need_modelled('C25', I_, b)
        panics_ok(ctx, 'C25', I_, b, lambda c: False)
        n = F.one(F.one(mk('sym', 'a0', ctx.P.strip(b.argty[0])), 'lines'), 'total')
        for r, s in outs:
            for yes, s2 in I_.branch(s, r):
                other = I_.assume(s2.pc, n, yes, [0])
                ctx.ob('C25', not other, 'empty', b, 'a summary is %s when %s' % ('empty' if yes else 'not empty', brief_conj(next(iter(s2.pc)))[:200]))


# -------------------------------------------------------------------------------------------------- reset

def per_key(I_, t, base):
    """Value t holds under each key of base when t has exactly base's keys; None otherwise."""
    if t is base:
        return [(TRUE_PC, mk('eval', base))]
    if t.k == 'mapv' and t.a[0] is base:
        return list(t.a[1])
    st = stages(I_, t)
    if st and len(st) == 1 and st[0].src is base:
        out = []
        for c, k, v in st[0].alts:
            if k is None or norm_key(I_, k) is not mk('ekey', base) or mentions(v, lambda x: x is st[0].mu):
                return None
            out.append((frozenset([c]), v))
        return out
    return None


def all_zero(I_, v, old):
    """v: as long as old, every element zero."""
    if v.k == 'resize':
        return v.a[0].k == 'vec' and not v.a[0].a[0] and v.a[1] is mk('len', old) and v.a[2] is I(0)
    if v.k == 'vec' and len(v.a[0]) == 1 and v.a[0][0].k == 'rep':
        src, alts = v.a[0][0].a
        return src is old and all(sg == (E(I(0)),) or (sg == (E(mk('elem', old)),) and all(is_val_num0(c, mk('elem', old)) for c in pc)) for pc, sg in alts)
    if v.k == 'zupd':
        return v.a[0] is old and v.a[1] is old and v.a[2] is I(0)
    if v.k == 'app' and v.a[0] == 'filled':
        return v.a[1][0] is old and v.a[1][1] is I(0)
    return False


def reset(ctx, F, A):
    fc = ctx.adt(FC)
    a = mk('sym', 'a0', ('adt', fc, ()))
    b = method(ctx, ('reset_hits',))
    I_, outs = ctx.run(b, anchors=A)
    ctx.need_modelled('C27', I_, b)
    panics_ok(ctx, 'C27', I_, b, lambda c: False)
    ctx.ob('C27', len(outs) > 0, 'returns', b, 'never returns')
    for ret, s in outs:
        fin = s.heap[('H', 'a0')]
        for n in ('all', 'path', 'statement_map', 'fn_map', 'branch_map', 'input_source_map'):
            ctx.ob('C27', F.one(fin, n) is F.one(a, n), 'kept:' + n, b, '%s becomes %s' % (n, brief(F.one(fin, n))[:200]))
        for n in ('s', 'f', 'b'):
            zeroed(ctx, I_, b, n, F.one(fin, n), F.one(a, n), n == 'b')
        bt, old = F.one(fin, 'b_t'), F.one(a, 'b_t')
        inner = mk('proj', old, 'Some', 0, '0')
        for c in s.pc:
            for v in (0, 1):
                if not may(c, mk('discr', old), v):
                    continue
                if not v:
                    ctx.ob('C27', bt is old or bt.k == 'adt' and bt.a[2] == 'None', 'truth-none', b, 'absent truth data becomes %s' % brief(bt)[:200])
                elif ctx.ob('C27', bt.k == 'adt' and bt.a[2] == 'Some', 'truth-some', b, 'truth data becomes %s' % brief(bt)[:200]):
                    zeroed(ctx, I_, b, 'b_t', bt.a[3][0], inner, True)


def zeroed(ctx, I_, b, n, new, old, isvec):
    pk = per_key(I_, new, old)
    if not ctx.ob('C27', pk is not None, 'keys:' + n, b, '%s becomes %s' % (n, brief(new)[:300])):
        return
    e = mk('eval', old)
    for pc, v in pk:
        if isvec:
            ok = all_zero(I_, v, e) or (v is e and all(is_val_len(c, mk('len', e), 0) for c in pc))
        else:
            ok = v is I(0) or (v is e and all(is_val_num0(c, e) for c in pc))
        ctx.ob('C27', ok, 'zero:' + n, b, 'a counter of %s becomes %s' % (n, brief(v)[:200]))


# -------------------------------------------------------------------------------------------------- coverage map

def covmap(ctx, F, A):
    fc, cm, cs = ctx.adt(FC), ctx.adt('CoverageMap'), ctx.adt('CoverageSummary')
    tfc = ('adt', fc, ())
    A = dict(A)
    mg = Merge(ctx, F, A).b

    def h_merge(I_, f, args, st, fr):
        st = st.copy()
        c, p = I_.deref(st, args[0])
        I_.write(st, c, p, mk('app', 'FC::merge', (I_.read(st, c, p), I_.deepval(st, args[1])), tfc))
        return [(UNIT, st)]
    A[mg.path] = h_merge

    def h_sum(I_, f, args, st, fr):
        return [(mk('app', 'FC::to_summary', (I_.deepval(st, args[0]),), ('adt', cs, ())), st)]
    A[method(ctx, ('to_summary',)).path] = h_sum
    sm = ctx.fns(crate=OX, self_ty='CoverageSummary', pred=lambda b: len(b.argty) == 2 and b.argty[0][0] == 'ref' and b.argty[0][1] and
                 ctx.P.strip(b.argty[1]) == ('adt', cs, ()))
    if len(sm) != 1:
        raise AnalysisError('CoverageSummary::merge not found')

    def h_smerge(I_, f, args, st, fr):
        st = st.copy()
        c, p = I_.deref(st, args[0])
        I_.write(st, c, p, mk('app', 'CS::merge', (I_.read(st, c, p), I_.deepval(st, args[1])), ('adt', cs, ())))
        return [(UNIT, st)]
    A[sm[0].path] = h_smerge

    def meth(name):
        l = ctx.fns(crate=OX, self_ty='CoverageMap', pred=lambda b: b.name == name)
        if len(l) != 1:
            raise AnalysisError('CoverageMap::%s not found' % name)
        return l[0]

    def run(name):
        b = meth(name)
        args = [mk('sym', 'a0', ('adt', 'alloc::vec::Vec', (tfc,)))] if name == 'from_iter' and len(b.argty) == 1 else None
        I_, outs = ctx.run(b, anchors=A, args=args)
        um = {k for k in I_.unmodelled if k != 'callv'}
        ctx.ob('C28', not um, 'modelled:' + name, b, 'calls outside the model: ' + ', '.join(sorted(map(str, um)))[:400])
        panics_ok(ctx, 'C28', I_, b, lambda c: False)
        ctx.ob('C28', len(outs) > 0, 'returns:' + name, b, 'never returns')
        return b, I_, outs
    fld = None
    for n, ft in ctx.P.adts[cm][2][0][2]:
        s = ctx.P.strip(ft)
        if s and s[0] == 'adt' and s[1] not in (fc, cs) and any(ctx.P.strip(x) == tfc for x in s[2]):
            fld = n
    if fld is None:
        raise AnalysisError('CoverageMap holds no map of FileCoverage')
    a0 = mk('sym', 'a0', ('adt', cm, ()))
    inner = F.one(a0, fld)

    def step(I_, c, old, new, X, key, b):
        """new = old with coverage X added under its path."""
        p = F.one(X, 'path')
        ps = {p} | ({key} if key is not None else set())
        for q in ps:
            D = mk('discr', mk('mopt', old, q))
            have = {v for v in (0, 1) if may(c, D, v)}
            if fget(c, D) is None and len(ps) > 1:
                continue
            for v in have:
                if v:
                    ok = new.k == 'minsert' and new.a[0] is old and new.a[1] in ps and new.a[2] is mk('app', 'FC::merge', (mk('mval', old, q), X), tfc)
                    ctx.ob('C28', ok, 'known-path:' + b.name, b, 'coverage of a known path leaves %s' % brief(new)[:300])
                else:
                    ok = new.k == 'minsert' and new.a[0] is old and new.a[1] in ps and new.a[2] is X
                    ctx.ob('C28', ok, 'new-path:' + b.name, b, 'coverage of a new path leaves %s' % brief(new)[:300])
            return
        ctx.ob('C28', False, 'looked-up:' + b.name, b, 'stored without looking up its path: %s' % brief(new)[:300])

    # adding one object
    b, I_, outs = run('add_coverage_for_file')
    a1 = mk('sym', 'a1', tfc)
    cases = set()
    for ret, s in outs:
        new = F.one(s.heap[('H', 'a0')], fld)
        for c in s.pc:
            step(I_, c, inner, new, a1, None, b)
            cases |= {v for v in (0, 1) if may(c, mk('discr', mk('mopt', inner, F.one(a1, 'path'))), v)}
    ctx.ob('C28', cases == {0, 1}, 'cases:add', b, 'known and new paths: %s' % sorted(cases))
    # many objects
    for name, src, X in (('merge', F.one(mk('sym', 'a1', ('adt', cm, ())), fld), None), ('from_iter', None, None)):
        b, I_, outs = run(name)
        for ret, s in outs:
            new = F.one(s.heap[('H', 'a0')], fld) if name == 'merge' else F.one(ret, fld)
            if name == 'merge':
                ctx.ob('C28', s.heap[('H', 'a1')].k == 'sym', 'argument-kept', b, 'the merged-in map changes')
            ok = new.k == 'fold' and (new.a[2] is inner if name == 'merge' else new.a[2].k == 'mempty')
            if name == 'merge':
                ok = ok and new.a[0] is src
            else:
                ok = ok and new.a[0].k == 'sym' and new.a[0].a[0] == 'a0'
            if not ctx.ob('C28', ok, 'every-object:' + name, b, 'result is %s' % brief(new)[:300]):
                continue
            sr, mu, init, alts = new.a
            X = mk('eval', sr) if name == 'merge' else mk('elem', sr)
            for pc, v in alts:
                for c in pc:
                    step_fold(ctx, F, I_, c, mu, v, X, mk('ekey', sr) if name == 'merge' else None, b, tfc)
    # filter
    b, I_, outs = run('filter')
    for ret, s in outs:
        new = F.one(s.heap[('H', 'a0')], fld)
        e = mk('eval', inner)
        if new.k == 'mretain' and new.a[0] is inner and len(new.a) == 3:
            st = [Stage(inner, None)]
            st[0].alts = [(c, mk('ekey', inner), e) for c in new.a[1]] + [(c, None, None) for c in new.a[2]]
        else:
            st = stages(I_, new)
        if not ctx.ob('C28', st is not None and len(st) == 1 and st[0].src is inner, 'filter-pass', b, 'filtered map is %s' % brief(new)[:300]):
            continue
        kept = dropped = 0
        for c, K, V in st[0].alts:
            call = [t for t, n, v in c if t.k == 'app' and t.a[0] == 'callv' and t.a[1] and t.a[1][0].k == 'sym' and t.a[1][0].a[0] == 'a1' and e in t.a[1]]
            if not ctx.ob('C28', len(call) == 1 and len(c) == 1, 'filter-decided', b, 'an entry is %s when %s' % ('kept' if K is not None else 'dropped', brief_conj(c)[:200])):
                continue
            if K is None:
                dropped += 1
                ctx.ob('C28', not may(c, call[0], 1) or is_val(c, call[0], 0), 'filter-drop', b, 'an accepted entry is dropped')
            else:
                kept += 1
                ctx.ob('C28', not may(c, call[0], 0), 'filter-keep', b, 'a rejected entry is kept')
                ctx.ob('C28', K in (mk('ekey', inner), F.one(e, 'path')) and V is e, 'filter-entry', b, 'kept as %s -> %s' % (brief(K)[:100], brief(V)[:100]))
        ctx.ob('C28', kept > 0 and dropped > 0, 'filter-cases', b, 'kept %d, dropped %d' % (kept, dropped))
    # overall summary
    b, I_, outs = run('get_coverage_summary')
    for ret, s in outs:
        ok = ret.k == 'fold' and ret.a[0] is inner and len(ret.a[3]) == 1 and ret.a[3][0][0] == TRUE_PC
        if ctx.ob('C28', ok, 'summary-all', b, 'the summary is %s' % brief(ret)[:300]):
            sr, mu, init, alts = ret.a
            want = mk('app', 'CS::merge', (mu, mk('app', 'FC::to_summary', (mk('eval', inner),), ('adt', cs, ()))), ('adt', cs, ()))
            ctx.ob('C28', alts[0][1] is want, 'summary-step', b, 'each file contributes %s' % brief(alts[0][1])[:300])
            for n in ('lines', 'statements', 'functions', 'branches'):
                t = F.one(init, n)
                ctx.ob('C28', all(F.one(t, x) is I(0) for x in ('total', 'covered', 'skipped')), 'summary-start:' + n, b, '%s starts as %s' % (n, brief(t)[:200]))
            bt = F.one(init, 'branches_true')
            ok = bt.k == 'adt' and (bt.a[2] == 'None' or all(F.one(bt.a[3][0], x) is I(0) for x in ('total', 'covered', 'skipped')))
            ctx.ob('C28', ok, 'summary-start:branches_true', b, 'branches_true starts as %s' % brief(bt)[:200])
    # reading
    b, I_, outs = run('get_files')
    for ret, s in outs:
        ok = ret.k == 'vec' and len(ret.a[0]) == 1 and ret.a[0][0].k == 'rep' and ret.a[0][0].a[0] is inner and \
            [x[1] for x in ret.a[0][0].a[1]] in ([(E(mk('ekey', inner)),)], [(E(F.one(mk('eval', inner), 'path')),)])
        ctx.ob('C28', ok, 'files', b, 'files are %s' % brief(ret)[:200])
    b, I_, outs = run('get_coverage_for_file')
    a1 = mk('sym', 'a1', ctx.P.strip(b.argty[1]))
    for ret, s in outs:
        m = mk('mopt', inner, a1)
        ok = ret is m or all(is_val(c, mk('discr', m), int(ret.k == 'adt' and ret.a[2] == 'Some')) for c in s.pc) and ret.k == 'adt' and \
            (ret.a[2] == 'None' or ret.a[3][0] is mk('mval', inner, a1))
        ctx.ob('C28', ok, 'lookup', b, 'lookup yields %s' % brief(ret)[:200])
    # nobody else changes the map
    for b in ctx.fns(crate=OX):
        if b.name in ('add_coverage_for_file', 'merge', 'filter') and b.impl_self is not None and last(b.impl_self[1]) == 'CoverageMap':
            continue
        if any(t is not None and t[0] == 'ref' and t[1] and ctx.P.strip(t) == ('adt', cm, ()) for t in b.argty):
            J, outs = ctx.run(b, anchors=A)
            for ret, s in outs:
                v = s.heap[('H', 'a0')]
                nm = F.one(v, fld)
                ok = nm is inner or nm.k == 'minsert' and nm.a[0] is inner and nm.a[2].k == 'app' and nm.a[2].a[0] == 'FC::merge'
                ctx.ob('C28', ok, 'other:' + b.name, b, 'the map becomes %s' % brief(nm)[:200])


def step_fold(ctx, F, I_, c, mu, v, X, key, b, tfc):
    p = F.one(X, 'path')
    ps = [p] + ([key] if key is not None else [])
    D = [(q, mk('discr', mk('mopt', mu, q))) for q in ps]
    D = [(q, d) for q, d in D if fget(c, d)]
    if not ctx.ob('C28', len(D) == 1 and len(c) == 1, 'looked-up:' + b.name, b, 'an object is stored when %s' % brief_conj(c)[:200]):
        return
    q, d = D[0]
    if is_val(c, d, 1):
        ok = v.k == 'minsert' and v.a[0] is mu and v.a[1] is q and v.a[2] is mk('app', 'FC::merge', (mk('mval', mu, q), X), tfc)
        ctx.ob('C28', ok, 'known-path:' + b.name, b, 'coverage of a known path leaves %s' % brief(v)[:300])
    else:
        ok = v.k == 'minsert' and v.a[0] is mu and v.a[1] in ps and v.a[2] is X
        ctx.ob('C28', ok, 'new-path:' + b.name, b, 'coverage of a new path leaves %s' % brief(v)[:300])


# -------------------------------------------------------------------------------------------------- branch coverage by line

def branch_lines(ctx, F, A):
    fc = ctx.adt(FC)
    a = mk('sym', 'a0', ('adt', fc, ()))
    bad0 = valid_lookup(ctx, F, a)
    b = method(ctx, ('get_branch_coverage_by_line',))
    I_, outs = ctx.run(b, anchors=A)
    ctx.need_modelled('C30', I_, b)
    bm, hm = F.one(a, 'branch_map'), F.one(a, 'b')
    ITEM, HIT = mk('eval', bm), mk('mval', hm, mk('ekey', bm))
    canon = {mk('mval', bm, mk('ekey', hm)): ITEM, mk('eval', hm): HIT, mk('ekey', hm): mk('ekey', bm)}
    line, loc = F.one(ITEM, 'line'), F.one(ITEM, 'loc')

    def bad(c):
        if bad0(c):
            return True
        c2 = frozenset((rb(I_, canon, t), n, v) for t, n, v in c)
        return is_val(c2, mk('discr', line), 0) and is_val(c2, mk('discr', loc), 0)
    panics_ok(ctx, 'C30', I_, b, bad)
    for R, s, c0 in one_out(ctx, 'C30', outs, b, bad):
        st = stages(I_, R)
        if not ctx.ob('C30', st is not None and len(st) == 1 and len(st[0].alts) == 1 and not st[0].alts[0][0] and st[0].alts[0][1] is not None,
                      'per-line', b, 'result is %s' % brief(R)[:300]):
            continue
        X = st[0].src
        _, K, V = st[0].alts[0]
        ctx.ob('C30', K is mk('ekey', X), 'line-key', b, 'stored under %s' % brief(K)[:200])
        e = mk('eval', X)
        if not ctx.ob('C30', V.k == 'adt' and last(V.a[0]) == 'Coverage', 'record', b, 'stored value is %s' % brief(V)[:200]):
            continue
        cov, tot, ratio = (F.one(V, n) for n in ('covered', 'total', 'coverage'))
        parts = None
        if uncast(cov).k == 'proj' and uncast(tot).k == 'proj' and uncast(cov).a[0] is e and uncast(tot).a[0] is e:
            # both numbers are kept per line
            parts = (uncast(cov).a[1:], uncast(tot).a[1:])
            ctx.ob('C30', parts[0] != parts[1], 'total', b, 'covered and total are the same number')
        else:
            ctx.ob('C30', count(I_, tot) == {((e, TRUE_PC),): 1}, 'total', b, 'total is %s' % brief(tot)[:200])
            ctx.ob('C30', count(I_, cov) == {((e, nonzero(I_, mk('elem', e))),): 1}, 'covered', b, 'covered is %s' % brief(cov)[:200])
        ctx.ob('C30', ratio_ok(I_, ratio, cov, tot), 'ratio', b, 'ratio is %s' % brief(ratio)[:200])
        # the hits of a line: all paths of all its branches
        st = stages(I_, X)
        if not ctx.ob('C30', st is not None and len(st) == 1 and st[0].src in (bm, hm), 'all-branches', b, 'hits per line come from %s' % brief(X)[:300]):
            continue
        s1 = st[0]
        cases = set()
        for c, K, V in s1.alts:
            if bad(c):
                continue
            if not ctx.ob('C30', K is not None, 'branch-kept', b, 'a branch is ignored when %s' % brief_conj(c)[:200]):
                continue
            c2 = frozenset((rb(I_, canon, t), n, v) for t, n, v in c)
            K2, V2 = rb(I_, canon, K), rb(I_, canon, V)
            for v in (0, 1):
                if not may(c2, mk('discr', line), v):
                    continue
                want = mk('proj', line, 'Some', 0, '0') if v else F.get(mk('proj', loc, 'Some', 0, '0'), 'start', 'line')
                ctx.ob('C30', K2 is want, 'line-of:%s' % ('line' if v else 'loc'), b, 'a branch counts for line %s' % brief(K2)[:200])
                D = mk('discr', mk('mopt', s1.mu, K))
                for d in (0, 1):
                    if not may(c, D, d):
                        continue
                    cases.add((v, d))
                    segs = segs_of(V2)
                    old = mk('mval', s1.mu, K2)
                    if parts:
                        for w, q, pc in (('covered', parts[0], nonzero(I_, mk('elem', HIT))), ('total', parts[1], TRUE_PC)):
                            x = I_.getp(V2, ('f',) + tuple(q))
                            if d:
                                o = I_.getp(old, ('f',) + tuple(q))
                                x = I_.lin(0, ((x, 1), (o, -1)))
                            ctx.ob('C30', count(I_, x) == {((HIT, pc),): 1}, 'paths:%s:%d%d' % (w, v, d), b, '%s paths of a line grow by %s' % (w, brief(x)[:200]))
                        continue
                    want = (SP(HIT),) if not d else (SP(old), SP(HIT))
                    ok = V2 is HIT if not d and V2.k != 'vec' else sorted(segs, key=lambda x: x.n) == sorted(want, key=lambda x: x.n)
                    ctx.ob('C30', ok, 'paths:%d%d' % (v, d), b, 'hits of a line become %s' % brief(V2)[:200])
        ctx.ob('C30', len(cases) == 4, 'cases', b, 'cases (line given, line known): %s' % sorted(cases))


def unf(t):
    while t.k == 'app' and t.a[0] in ('f32', 'f64') or t.k == 'i2f':
        t = t.a[1][0] if t.k == 'app' else t.a[0]
    return t


def num(t):
    t = unf(t)
    return t.a[0] if t.k in ('int', 'flt') else None


def ratio_ok(I_, t, cov, tot):
    """covered / total as a percentage."""
    t = unf(t)
    if t.k == 'bin' and t.a[0] == 'Mul':
        x, y = t.a[1], t.a[2]
        for x, y in ((x, y), (y, x)):
            if str(num(y)) in ('100', '100.0') and unf(x).k == 'bin' and unf(x).a[0] == 'Div':
                q = unf(x)
                return unf(q.a[1]) is unf(cov) and unf(q.a[2]) is unf(tot)
    if t.k == 'bin' and t.a[0] == 'Div' and unf(t.a[2]) is unf(tot):
        n = unf(t.a[1])
        if n.k == 'bin' and n.a[0] == 'Mul':
            return any(str(num(y)) in ('100', '100.0') and unf(x) is unf(cov) for x, y in ((n.a[1], n.a[2]), (n.a[2], n.a[1])))
    return False


# -------------------------------------------------------------------------------------------------- percentages

def percent_fn(ctx):
    l = [b for b in ctx.fns(crate=OX) if b.locals[0] in (('prim', 'f32'), ('prim', 'f64')) and b.impl_trait is None and
         len(b.argty) == 2 and all(t == ('prim', 'u32') for t in b.argty)]
    l = [b for b in l if b.name == 'percent'] or l
    if len(l) != 1:
        raise AnalysisError('no unique function computing a percentage of two counts')
    return l[0]


def percent(ctx, F):
    b = percent_fn(ctx)

    class Wide(Interp):
        narrow = ()

        def binop(self, op, a, b, t):
            if op.startswith('Mul') and t is not None and t[0] == 'prim' and t[1] in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32') and not (a.k == b.k == 'int'):
                self.narrow += (t[1],)
            return Interp.binop(self, op, a, b, t)
    I_, outs = ctx.run(b, interp=Wide(ctx.P))
    ctx.ob('C33', not I_.narrow, 'no-overflow', b, 'counts are scaled in %s, which overflows' % ', '.join(I_.narrow))
    ctx.need_modelled('C33', I_, b)
    panics_ok(ctx, 'C33', I_, b, lambda c: False)
    c, t = (mk('sym', 'a%d' % i, ('prim', 'u32')) for i in (0, 1))
    cases = set()
    for ret, s in outs:
        for cj in s.pc:
            zero = is_val_num0(cj, t)
            nz = excl0(cj, t)
            if zero:
                cases.add(0)
                ctx.ob('C33', ret.k == 'flt' and float(ret.a[0]) == 100.0, 'empty', b, 'an empty category is %s percent' % brief(ret)[:100])
                continue
            if not ctx.ob('C33', nz, 'zero-total', b, 'the total is not known to be positive when %s is returned' % brief(ret)[:200]):
                continue
            cases.add(1)
            ok, why = rounded_down(I_, ret, c, t, cj)
            ctx.ob('C33', ok, 'rounded-down', b, '%s: %s' % (why, brief(ret)[:300]))
    ctx.ob('C33', cases == {0, 1}, 'cases', b, 'empty and non-empty categories: %s' % sorted(cases))


def rounded_down(I_, t, c, n, cj):
    """t = floor(100 * 100 c / n) / 100, exactly representable: floor(floor(K c / n) / d) / 100 with K = 10000 d, all below 2^24."""
    if t.k == 'flt' and float(t.a[0]) == 100.0:
        # allowed for complete categories only
        f = fget(cj, mk('eq', *sorted((c, n), key=lambda x: x.n)))
        return (f is not None and is_val(cj, mk('eq', *sorted((c, n), key=lambda x: x.n)), 1)), 'a constant 100'
    while t.k == 'app' and t.a[0] in ('f32', 'f64') and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t.k != 'bin' or t.a[0] != 'Div':
        return False, 'no division by 100 at the end'
    if num(t.a[2]) is None or float(num(t.a[2])) != 100.0:
        return False, 'last divisor is not 100'
    x = t.a[1]
    d = 1
    if x.k == 'app' and x.a[0] in ('floor', 'trunc'):
        x = x.a[1][0]
        if x.k == 'bin' and x.a[0] == 'Div' and num(x.a[2]) is not None:
            d = float(num(x.a[2]))
            if d != int(d) or d <= 0:
                return False, 'inner divisor'
            d = int(d)
            x = x.a[1]
        elif x.k == 'bin' and x.a[0] == 'Div':
            # one floating-point quotient: rounding may cross an integer
            return False, 'the quotient is computed in floating point before rounding down'
    x = unf(x)
    while x.k == 'bin' and x.a[0] == 'Div' and x.a[2].k == 'int' and x.a[1].k == 'bin' and x.a[1].a[0] == 'Div':
        d *= x.a[2].a[0]
        x = x.a[1]
    if x.k != 'bin' or x.a[0] != 'Div':
        return False, 'no integer quotient'
    if x.a[2] is not n:
        return False, 'divided by %s' % brief(x.a[2])[:60]
    if x.a[1].k != 'lin' or x.a[1].a[0] != 0 or len(x.a[1].a[1]) != 1 or x.a[1].a[1][0][0] is not c:
        return False, 'numerator'
    K = x.a[1].a[1][0][1]
    if K != 10000 * d:
        return False, 'scaled by %d / %d' % (K, d)
    if K >= 1 << 24:
        return False, 'scaled value is not exact as f32'
    return True, 'integer quotient of %d * covered, rounded down to hundredths' % K
