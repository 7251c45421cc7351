"""C36: fresh, copied and assembled coverage values hold exactly what they were made from.

Every constructor of the coverage data types is summarised over symbolic arguments; each field of the result must be the argument
(or the empty value) it stands for, on every path.
"""
from engine.models import NONE, some
from .common import *

PROP = 'C36'
ZERO = {'total': 0, 'covered': 0, 'skipped': 0}


def field_names(ctx, path):
    return [f[0] for f in ctx.P.adts[path][2][0][2]]


class Values:
    def __init__(self, ctx):
        self.ctx, self.F = ctx, Fields(ctx)

    def made(self, ty, name, nargs):
        """[(arguments, path condition, result)] of one constructor; None when there is no such function."""
        l = [b for b in self.ctx.fns(crate=OX, self_ty=ty, name=name) if len(b.argty) == nargs]
        if not l:
            return None
        b = l[0]
        I_, outs = self.ctx.run(b)
        if not self.ctx.need_modelled(PROP, I_, b):
            return None
        return self.run(b, I_, outs)

    def run(self, b, I_=None, outs=None):
        if I_ is None:
            I_, outs = self.ctx.run(b)
            if not self.ctx.need_modelled(PROP, I_, b):
                return None
        self.ctx.ob(PROP, not I_.panics and outs, 'no-abort:' + (b.pretty or b.path), b, '; '.join(sorted({p.msg for p in I_.panics}))[:300] or 'it returns')
        args = [mk('sym', 'a%d' % i, self.ctx.P.strip(t) if t[0] == 'ref' else t) for i, t in enumerate(b.argty)]
        return b, args, [(s.pc, ret) for ret, s in outs]

    def part(self, ret, *names):
        for n in names:
            ret = self.F.one(ret, n)
        return ret

    def same(self, x, y, pc=()):
        """x is y, or a copy of it field by field."""
        if x is y:
            return True
        if x.k == 'adt' and x.a[0] in self.ctx.P.adts:
            isenum, _, variants = self.ctx.P.adts[x.a[0]]
            if not isenum:
                return all(self.same(x.a[3][i], self.part(y, f), pc) for i, f in enumerate(field_names(self.ctx, x.a[0])))
            if self.known(pc, mk('discr', y), x.a[1]):
                vn, _, fs = next(v for v in variants if v[0] == x.a[2])
                return all(self.same(x.a[3][i], mk('proj', y, vn, i, f[0]), pc) for i, f in enumerate(fs))
        return False

    @staticmethod
    def known(pc, t, v):
        return bool(pc) and all(any(u is t and not n and w == frozenset([v]) for u, n, w in c) for c in pc)

    def expect(self, what, b, pc, got, want, key):
        self.ctx.ob(PROP, self.same(got, want, pc), key, b, '%s is %s when %s' % (what, brief(got)[:200], '; '.join(brief_conj(c) for c in pc)[:200]))

    # -- the types
    def plain(self, ty, name, wants):
        """Each listed place of the result is the argument of that number (or a term)."""
        n = max([w for w in wants.values() if isinstance(w, int)], default=-1) + 1
        for b in self.ctx.fns(crate=OX, self_ty=ty, name=name):
            if len(b.argty) == n:
                m = self.run(b)
                if m is not None:
                    self.placed(ty, name, wants, *m)

    def placed(self, ty, name, wants, b, args, outs):
        for pc, ret in outs:
            for place, w in wants.items():
                self.expect('.'.join(place), b, pc, self.part(ret, *place), args[w] if isinstance(w, int) else w, '%s::%s:%s' % (ty, name, '.'.join(place)))

    def fresh(self, name):
        m = self.made('FileCoverage', name, 2)
        if m is None:
            return
        b, (path, logic), outs = m
        ctx = self.ctx
        seen = set()
        for pc, ret in outs:
            for f in field_names(ctx, ctx.adt('FileCoverage')):
                v = self.part(ret, f)
                key = 'fresh:%s:%s' % (name, f)
                if f == 'path':
                    ctx.ob(PROP, v is path, key, b, 'the path is %s' % brief(v)[:200])
                elif f == 'all':
                    ctx.ob(PROP, v is FALSE, key, b, 'the placeholder flag is %s' % brief(v)[:200])
                elif f == 'b_t':
                    if not ctx.ob(PROP, v.k == 'adt', key, b, 'branch truth is %s' % brief(v)[:200]):
                        continue
                    on = v.a[2] == 'Some'
                    for c in pc:
                        vals = [x for t, n, x in c if t is logic and not n]
                        ok = vals == [frozenset([int(on)])]
                        seen.add(on)
                        ctx.ob(PROP, ok, key, b, 'branch truth data %s when %s' % ('exists' if on else 'is missing', brief_conj(c)[:200]))
                    if on:
                        ctx.ob(PROP, v.a[3][0].k == 'mempty', key, b, 'branch truth data starts as %s' % brief(v.a[3][0])[:200])
                elif f == 'input_source_map':
                    ctx.ob(PROP, v is NONE, key, b, 'the source map is %s' % brief(v)[:200])
                else:
                    ctx.ob(PROP, v.k == 'mempty', key, b, '%s starts as %s' % (f, brief(v)[:200]))
        ctx.ob(PROP, seen == {True, False}, 'fresh:%s:truth' % name, b, 'branch truth data: %s' % sorted(seen))

    def copied(self, ty, name):
        m = self.made(ty, name, 1)
        if m is None:
            return
        b, (src,), outs = m
        for pc, ret in outs:
            self.expect('the copy', b, pc, ret, src, '%s::%s' % (ty, name))


    def clones(self):
        """Every copy of a value of these crates is that value (copies inside containers are taken as faithful elsewhere)."""
        n = 0
        for b in self.ctx.P.order:
            if b.impl_trait is None or last(b.impl_trait) != 'Clone' or b.name != 'clone' or b.crate not in (OX, INST):
                continue
            t = self.ctx.P.strip(b.impl_self)
            if t is None or t[0] != 'adt' or t[1] not in self.ctx.P.adts or t[1].split('::')[0] != b.crate:
                continue
            m = self.run(b)
            if m is None:
                continue
            n += 1
            for pc, ret in m[2]:
                self.expect('the copy', b, pc, ret, m[1][0], 'clone:' + last(t[1]))
        self.ctx.ob(PROP, n > 0, 'clones', 'istanbul-oxide', '%d types are copied' % n)


def check(ctx, prop):
    if prop != PROP:
        return
    v = Values(ctx)
    v.fresh('empty')
    v.fresh('from_file_path')
    v.copied('FileCoverage', 'from_file_coverage')
    v.copied('CoverageSummary', 'from')
    v.plain('Range', 'new', {('start', 'line'): 0, ('start', 'column'): 1, ('end', 'line'): 2, ('end', 'column'): 3})
    v.clones()
    v.plain('Range', 'default', {(a, b): I(0) for a in ('start', 'end') for b in ('line', 'column')})
    v.plain('Location', 'default', {(b,): I(0) for b in ('line', 'column')})
    v.plain('Totals', 'new', {('total',): 0, ('covered',): 1, ('skipped',): 2, ('pct',): 3})
    for t in ('Totals', 'CoverageSummary'):
        v.plain(t, 'default', {p + (n,): I(0) for n in ZERO for p in (((),) if t == 'Totals' else tuple((c,) for c in ('lines', 'statements', 'functions', 'branches')))})
    v.plain('Coverage', 'new', {('covered',): 0, ('total',): 1, ('coverage',): 2})
    v.plain('CoverageSummary', 'new', {('lines',): 0, ('statements',): 1, ('functions',): 2, ('branches',): 3, ('branches_true',): 4})
    v.plain('Branch', 'from_line', {('branch_type',): 0, ('line',): some(mk('sym', 'a1', ('prim', 'u32'))), ('loc',): NONE, ('locations',): 2})
    rng = ctx.adt('Range')
    v.plain('Branch', 'from_loc', {('branch_type',): 0, ('loc',): some(mk('sym', 'a1', ('adt', rng, ()))), ('line',): NONE, ('locations',): 2})
    if not any(o.prop == PROP for o in ctx.obs):
        raise AnalysisError('no constructor of coverage data found')
