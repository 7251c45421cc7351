"""C09 (dense ids, zero hits), C10 (paths, locations and hit slots aligned), C11 (pruned and final data).

Every function that can change a SourceCoverage is summarised; the summary of a registering method must be, on each of its
paths, exactly the insertion of the id's entry in the location map and of a zero hit (or empty path list) in the hit map.
"""
from .common import *

CATS = {'s': ('statement_map', 's'), 'f': ('fn_map', 'f'), 'b': ('branch_map', 'b')}
SC = 'SourceCoverage'


def registrars(ctx):
    out = {}
    for k in 'sfbp':
        l = ctx.VM.anchor_bodies.get(k, [])
        entry = public_entry(ctx, l)
        if entry is None:
            raise AnalysisError('no unique registering method of kind %r on SourceCoverage (found %d)' % (k, len(l)))
        out[k] = entry
    return out


def public_entry(ctx, l):
    """Of several methods with the same signature, the one not called by the others."""
    if len(l) == 1:
        return l[0]
    called = set()
    for b in l:
        for c, _, _ in ctx.P.callees(b):
            called.add(c.p)
    rest = [b for b in l if b.path not in called]
    return rest[0] if len(rest) == 1 else None


def mutators(ctx):
    """Functions taking &mut SourceCoverage (in any position)."""
    out = []
    for b in ctx.fns(crate=INST, kind=('fn', 'method', 'closure')):
        for t in b.argty:
            if t is not None and t[0] == 'ref' and t[1] and (s := ctx.P.strip(t)) and s[0] == 'adt' and last(s[1]) == SC:
                out.append(b)
                break
    return out


def leaf_paths(ctx, F, t, path=()):
    """(path, value) of the meta leaves of a SourceCoverage term."""
    ty = ctx.P.strip(F.I.ty(t)) if t.k != 'adt' else ('adt', t.a[0], ())
    if ty and ty[0] == 'adt' and ty[1].startswith(INST) and ty[1] in ctx.P.adts and not ctx.P.adts[ty[1]][0]:
        for n, _ in ctx.P.adts[ty[1]][2][0][2]:
            yield from leaf_paths(ctx, F, F.one(t, n), path + (n,))
    else:
        yield path, t


def inner_path(ctx, F, t):
    """The field of SourceCoverage that holds the FileCoverage."""
    for n, ft in ctx.P.adts[ctx.adt(SC)][2][0][2]:
        s = ctx.P.strip(ft)
        if s and s[0] == 'adt' and last(s[1]) == 'FileCoverage':
            return n
    raise AnalysisError('SourceCoverage holds no FileCoverage')


FC_FIELDS = ('all', 'path', 'statement_map', 'fn_map', 'branch_map', 's', 'f', 'b', 'b_t', 'input_source_map')


def check(ctx, prop):
    F = Fields(ctx)
    regs = registrars(ctx)
    if prop != 'C11':
        inn = inner_path(ctx, F, None)
        init(ctx, F, inn)
        for k in 'sfb':
            reg(ctx, F, k, regs[k], inn)
        path(ctx, F, regs['p'], inn)
        others(ctx, F, regs, inn)
    if prop in ('C11', 'C01'):
        final(ctx, F, regs)


def init(ctx, F, inn):
    """Whoever builds a SourceCoverage starts with empty maps and zero counters."""
    n = 0
    for b in ctx.fns(crate=INST, kind=('fn', 'method')):
        r = b.locals[0]
        if r is None or r[0] != 'adt' or last(r[1]) != SC:
            continue
        if b.impl_trait and last(b.impl_trait) == 'Clone':
            continue
        n += 1
        I_, outs = ctx.run(b)
        ctx.need_modelled('C09', I_, b)
        for ret, s in outs:
            inner = F.one(ret, inn)
            for m in ('statement_map', 'fn_map', 'branch_map', 's', 'f', 'b'):
                v = F.one(inner, m)
                ctx.ob('C09', v.k == 'mempty', 'init-empty:' + m, b, '%s starts as %s' % (m, brief(v)))
            for p, v in leaf_paths(ctx, F, ret):
                if p[0] != inn:
                    ctx.ob('C09', v is I(0), 'init-zero:' + '.'.join(p), b, '%s starts as %s' % ('.'.join(p), brief(v)))
            bt = F.one(inner, 'b_t')
            okbt = bt.k == 'adt' and (bt.a[2] == 'None' or bt.a[2] == 'Some' and bt.a[3][0].k == 'mempty')
            ctx.ob('C10', okbt, 'init-b_t', b, 'truth map starts as %s' % brief(bt))
    ctx.ob('C09', n > 0, 'init-exists', 'SourceCoverage', 'no constructor found')


def vec_empty(v):
    return v.k == 'vec' and not v.a[0]


def same(I_, a, b):
    return a is b or I_.eq(a, b) is TRUE


def reg(ctx, F, k, b, inn):
    I_, outs = ctx.run(b)
    ctx.need_modelled('C09', I_, b)
    ctx.ob('C09', not I_.panics, 'no-abort:' + k, b, '; '.join(p.msg for p in I_.panics))
    a0 = mk('sym', 'a0', ctx.P.strip(b.argty[0]))
    old = F.one(a0, inn)
    loc_m, hit_m = CATS[k]
    ctx.ob('C09', len(outs) > 0, 'returns:' + k, b, 'never returns')
    for ret, s in outs:
        fin = s.heap[('H', 'a0')]
        new = F.one(fin, inn)
        tag = k
        # the id: a counter of its own that advances by one, or the size of its own map
        cnts = [(p, v) for p, v in leaf_paths(ctx, F, a0) if p[0] != inn]
        newc = dict((p, v) for p, v in leaf_paths(ctx, F, fin) if p[0] != inn)
        idok, own = False, None
        # the own maps are as long as their counter says: both start at zero and advance together
        before = [len_of(I_, F.one(old, m)) for m in (loc_m, hit_m)]
        after = [len_of(I_, F.one(new, m)) for m in (loc_m, hit_m)]
        bysize = any(ret is x for x in before)
        for p, v in cnts:
            if same(I_, ret, v) or bysize:
                if same(I_, newc[p], I_.lin(1, ((v, 1),))) or any(newc[p] is x for x in after) or \
                        bysize and any(same(I_, newc[p], I_.lin(1, ((x, 1),))) for x in before):
                    idok, own = True, p
        idok = idok or bysize
        ctx.ob('C09', idok, 'id-next:' + tag, b, 'returned id %s; counters after: %s' % (
            brief(ret), ', '.join('.'.join(p) + '=' + brief(v) for p, v in newc.items())))
        # counters of the other categories untouched
        for p, v in cnts:
            if p != own:
                ctx.ob('C09', same(I_, newc[p], v), 'counter-kept:%s:%s' % (tag, '.'.join(p)), b,
                       '%s becomes %s' % ('.'.join(p), brief(newc[p])))
        owned = ctx.__dict__.setdefault('id_counters', {})
        if own is not None:
            other = owned.setdefault(own, k)
            ctx.ob('C09', other == k, 'counter-own:' + tag, b, '%s also numbers the entries of %s' % ('.'.join(own), other))
        # location map and hit map
        lv = inserted(I_, F.one(new, loc_m), F.one(old, loc_m), ret)
        hv = inserted(I_, F.one(new, hit_m), F.one(old, hit_m), ret)
        ctx.ob('C09', lv is not None, 'location-entry:' + tag, b, '%s becomes %s' % (loc_m, brief(F.one(new, loc_m))[:300]))
        want = 'an empty path list' if k == 'b' else '0'
        ctx.ob('C09', hv is not None and (vec_empty(hv) if k == 'b' else hv is I(0)), 'zero-hits:' + tag, b,
               '%s becomes %s, expected %s under the returned id' % (hit_m, brief(F.one(new, hit_m))[:300], want))
        for m in FC_FIELDS:
            if m in (loc_m, hit_m) or (k == 'b' and m == 'b_t'):
                continue
            ctx.ob('C09', F.one(new, m) is F.one(old, m), 'untouched:%s:%s' % (tag, m), b, '%s becomes %s' % (m, brief(F.one(new, m))[:300]))
        if lv is None:
            continue
        args = [mk('sym', 'a%d' % i, ctx.P.strip(t) if t[0] == 'ref' else t) for i, t in enumerate(b.argty)]
        if k == 's':
            ctx.ob('C09', lv is args[1], 'data:s', b, 'statement location is %s' % brief(lv))
        elif k == 'f':
            ctx.ob('C09', F.one(lv, 'decl') is args[2], 'data:f.decl', b, 'decl is %s' % brief(F.one(lv, 'decl')))
            ctx.ob('C09', F.one(lv, 'loc') is args[3], 'data:f.loc', b, 'loc is %s' % brief(F.one(lv, 'loc')))
            ln = F.get(args[3], 'start', 'line')
            ctx.ob('C09', F.one(lv, 'line') is ln, 'data:f.line', b, 'line is %s' % brief(F.one(lv, 'line')))
            nm = F.one(lv, 'name')
            for c in s.pc:
                d = {t: (n, v) for t, n, v in c}
                f = d.get(mk('discr', args[1]))
                if f is None or f[0] or len(f[1]) != 1:
                    ctx.ob('C09', False, 'data:f.name', b, 'name %s chosen without looking at the given name' % brief(nm))
                    continue
                if 1 in f[1]:
                    okn = nm is mk('proj', args[1], 'Some', 0, '0')
                else:
                    okn = nm.k == 'fmt' and len(nm.a[0]) == 3 and nm.a[0][0] in ('(anonymous_', S('(anonymous_')) and nm.a[0][2] in (')', S(')')) \
                        and nm.a[0][1].k == 'disp' and same(I_, nm.a[0][1].a[0], ret)
                ctx.ob('C09', okn, 'data:f.name:%s' % ('given' if 1 in f[1] else 'anonymous'), b, 'name is %s' % brief(nm))
        else:
            loc = F.one(lv, 'loc')
            ctx.ob('C09', loc.k == 'adt' and loc.a[2] == 'Some' and loc.a[3][0] is args[2], 'data:b.loc', b, 'loc is %s' % brief(loc))
            ctx.ob('C09', F.one(lv, 'branch_type') is args[1], 'data:b.type', b, 'type is %s' % brief(F.one(lv, 'branch_type')))
            ctx.ob('C10', vec_empty(F.one(lv, 'locations')), 'no-locations-yet', b, 'locations start as %s' % brief(F.one(lv, 'locations')))
            ctx.ob('C10', hv is not None and vec_empty(hv), 'no-slots-yet', b, 'hit slots start as %s' % (brief(hv) if hv is not None else None))
            ln = F.one(lv, 'line')
            ctx.ob('C09', ln.k == 'adt' and ln.a[2] == 'Some' and ln.a[3][0] is F.get(args[2], 'start', 'line'), 'data:b.line', b, 'line is %s' % brief(ln))
            truth(ctx, F, I_, b, s, old, new, ret, args)


def len_of(I_, m):
    from engine.models import vlen
    try:
        return vlen(I_, m)
    except Exception:
        return mk('len', m)


def inserted(I_, new, old, key):
    """v when new = old + {key: v}."""
    if new.k == 'minsert' and new.a[0] is old and same(I_, new.a[1], key):
        return new.a[2]
    return None


def truth(ctx, F, I_, b, s, old, new, ret, args):
    """The truth map gets an (empty) entry exactly for logical expressions with logic reporting on."""
    bt = ctx.adt('BranchType')
    vi = next((i for i, v in enumerate(ctx.P.adts[bt][2]) if v[0] == 'BinaryExpr'), None)
    if vi is None:
        raise AnalysisError('no BranchType::BinaryExpr')
    dv = I_.discr_of(bt, vi)
    flag, ty = args[3], mk('discr', args[1])
    ot, nt = F.one(old, 'b_t'), F.one(new, 'b_t')
    for c in s.pc:
        fl = value_in(c, flag, (0, 1))
        tv = value_in(c, ty, tuple(I_.discr_of(bt, i) for i in range(len(ctx.P.adts[bt][2]))))
        must = fl == {1} and tv == {dv}
        cannot = fl == {0} or dv not in tv
        if must:
            base = value_in(c, mk('discr', ot), (0, 1))
            ok = False
            if nt.k == 'adt' and nt.a[2] == 'Some':
                m = nt.a[3][0]
                if m.k == 'minsert' and same(I_, m.a[1], ret) and vec_empty(m.a[2]):
                    if base == {0}:
                        ok = m.a[0].k == 'mempty'
                    elif base == {1}:
                        ok = m.a[0] is mk('proj', ot, 'Some', 0, '0')
            ctx.ob('C10', ok, 'truth-entry:logical', b, 'truth map becomes %s when %s' % (brief(nt)[:200], brief_conj(c)))
        elif cannot:
            ctx.ob('C10', nt is ot, 'truth-entry:other', b, 'truth map becomes %s when %s' % (brief(nt)[:200], brief_conj(c)))
        else:
            ctx.ob('C10', False, 'truth-entry:undecided', b, 'truth map becomes %s without deciding the branch type and the option (%s)' % (brief(nt)[:200], brief_conj(c)))


def value_in(c, term, dom):
    vs = set(dom)
    for t, n, v in c:
        if t is term:
            vs = vs - set(v) if n else vs & set(v)
    return vs


def path(ctx, F, b, inn):
    I_, outs = ctx.run(b)
    ctx.need_modelled('C10', I_, b)
    a0 = mk('sym', 'a0', ctx.P.strip(b.argty[0]))
    old = F.one(a0, inn)
    bid = mk('sym', 'a1', b.argty[1])
    loc = mk('sym', 'a2', ctx.P.strip(b.argty[2]))
    hits = F.one(old, 'b')
    bmap = F.one(old, 'branch_map')
    ctx.ob('C10', len(outs) > 0, 'path-returns', b, 'never returns')
    has = {m: mk('discr', mk('mopt', x, bid)) for m, x in (('b', hits), ('branch_map', bmap))}
    for p in I_.panics:
        ok = all(any(value_in(c, has[m], (0, 1)) == {0} for m in has) for c in p.pc)
        ctx.ob('C10', ok, 'path-abort', b, '%s can abort for a registered branch: %s' % (p.msg, show(p.pc)[:200]))
    for ret, s in outs:
        new = F.one(s.heap[('H', 'a0')], inn)
        # paths on which the branch is registered (ids only come from registering one, see C01)
        live = [c for c in s.pc if value_in(c, has['b'], (0, 1)) != {0} and value_in(c, has['branch_map'], (0, 1)) != {0}]
        if not live:
            continue
        slots = mk('mval', hits, bid)
        ent = mk('mval', bmap, bid)
        nl = entry_update(I_, F.one(new, 'branch_map'), bmap, bid)
        nh = entry_update(I_, F.one(new, 'b'), hits, bid)
        okl = nl is not None and all(F.one(nl, f) is F.one(ent, f) for f in ('loc', 'branch_type', 'line')) \
            and appended(F.one(nl, 'locations'), F.one(ent, 'locations')) is loc
        ctx.ob('C10', okl, 'path-location', b, 'branch entry becomes %s' % (brief(nl)[:400] if nl is not None else brief(F.one(new, 'branch_map'))[:400]))
        ctx.ob('C10', nh is not None and appended(nh, slots) is I(0), 'path-slot', b, 'hit slots become %s' % brief(nh if nh is not None else F.one(new, 'b'))[:300])
        lens = [len_of(I_, slots), len_of(I_, F.one(ent, 'locations'))]
        ot, nt = F.one(old, 'b_t'), F.one(new, 'b_t')
        tmap = mk('proj', ot, 'Some', 0, '0')
        for c in live:
            some_bt = value_in(c, mk('discr', ot), (0, 1))
            e = value_in(c, mk('discr', mk('mopt', tmap, bid)), (0, 1))
            if some_bt == {1} and e == {1}:
                te = mk('mval', tmap, bid)
                nv = entry_update(I_, nt.a[3][0], tmap, bid) if nt.k == 'adt' and nt.a[2] == 'Some' else None
                ctx.ob('C10', nv is not None and appended(nv, te) is I(0), 'path-truth-slot', b, 'truth slots become %s' % brief(nt)[:300])
                lens.append(len_of(I_, te))
            elif some_bt == {0} or e == {0}:
                ctx.ob('C10', nt is ot, 'path-truth-kept', b, 'truth map becomes %s' % brief(nt)[:300])
            else:
                ctx.ob('C10', False, 'path-truth-undecided', b, 'truth map becomes %s when %s' % (brief(nt)[:200], brief_conj(c)[:300]))
        ctx.ob('C10', ret in lens, 'path-index', b, 'returned index is %s' % brief(ret))
        for m in FC_FIELDS:
            if m not in ('branch_map', 'b', 'b_t'):
                ctx.ob('C10', F.one(new, m) is F.one(old, m), 'path-untouched:' + m, b, '%s becomes %s' % (m, brief(F.one(new, m))[:200]))
        for p, v in leaf_paths(ctx, F, a0):
            if p[0] != inn:
                nv = dict(leaf_paths(ctx, F, s.heap[('H', 'a0')]))[p]
                ctx.ob('C09', nv is v, 'counter-kept:p:' + '.'.join(p), b, '%s becomes %s' % ('.'.join(p), brief(nv)))


def entry_update(I_, new, old, key):
    return inserted(I_, new, old, key)


def appended(new, old):
    """x when new = old ++ [x]."""
    if new.k == 'vec' and len(new.a[0]) == 2 and new.a[0][0].k == 'sp' and new.a[0][0].a[0] is old and new.a[0][1].k == 'e':
        return new.a[0][1].a[0]
    return None


def others(ctx, F, regs, inn):
    """No other function changes counters, locations or hits (pruning is C11)."""
    entry = {b.path for b in regs.values()}
    # helpers only reachable from the registering methods are part of their summaries
    callers = {}
    for b in ctx.P.order:
        if b.crate != INST:
            continue
        for c, _, _ in ctx.P.callees(b):
            callers.setdefault(c.res or c.p, set()).add(b.path)
            callers.setdefault(c.p, set()).add(b.path)
    inside = set(entry)
    muts = {b.path: b for b in mutators(ctx)}
    ch = True
    while ch:
        ch = False
        for p in muts:
            if p not in inside and callers.get(p) and callers[p] <= inside:
                inside.add(p)
                ch = True
    def owner(p):
        return p.split('::{closure')[0]
    # helpers only called by other mutating methods are part of their summaries, too
    for p in muts:
        if callers.get(p) and all(owner(c) in muts and owner(c) != p for c in callers[p]):
            inside.add(p)
    for p, b in muts.items():
        if p in inside or b.kind == 'closure':
            continue
        I_, outs = ctx.run(b)
        for i, t in enumerate(b.argty):
            st = ctx.P.strip(t)
            if not (t[0] == 'ref' and t[1] and st[0] == 'adt' and last(st[1]) == SC):
                continue
            a0 = mk('sym', 'a%d' % i, st)
            for _, s in outs:
                fin = s.heap[('H', 'a%d' % i)]
                if fin is a0:
                    ctx.ob('C09', True, 'other-mutator:' + b.name, b)
                    continue
                fl = dict(leaf_paths(ctx, F, fin))
                for q, v in leaf_paths(ctx, F, a0):
                    if q[0] != inn:
                        ctx.ob('C09', fl[q] is v, 'other-mutator-counter:%s' % b.name, b, '%s changes %s to %s' % (b.name, '.'.join(q), brief(fl[q])[:200]))
                new, old = F.one(fin, inn), F.one(a0, inn)
                for m in ('statement_map', 'fn_map', 's', 'f'):
                    ctx.ob('C09', F.one(new, m) is F.one(old, m), 'other-mutator:%s:%s' % (b.name, m), b, '%s changes %s to %s' % (b.name, m, brief(F.one(new, m))[:200]))
                if F.one(new, 'branch_map') is not F.one(old, 'branch_map') or F.one(new, 'b') is not F.one(old, 'b') or F.one(new, 'b_t') is not F.one(old, 'b_t'):
                    acc = accepted_maps(I_, F, new, old)
                    for m in ('branch_map', 'b', 'b_t'):
                        ok = pruned(I_, F, F.one(new, m), F.one(old, m), old, acc, s.pc)
                        ctx.ob('C10', ok, 'other-mutator:%s:%s' % (b.name, m), b, '%s changes %s to %s' % (b.name, m, brief(F.one(new, m))[:300]))
    # no function outside the type's own module writes through its fields
    own = {p.rsplit('::', 1)[0] for p in [ctx.adt(SC)]}
    scp = ctx.adt(SC)
    pubs = [f for f in ctx.P.adts[scp][2][0][2]]
    ctx.ob('C09', True, 'fields:%d' % len(pubs), scp)


# -- pruning ------------------------------------------------------------------------------------------------------------

def unwrap_pc(pc):
    return frozenset(pc)


def empties(I_, F, pc, src_elem_conds):
    """Whether pc is exactly 'the entry has no path' (True), 'has one' (False) or neither (None)."""
    t = None
    for c in pc:
        v = None
        for term, n, vals in c:
            if term in src_elem_conds:
                emptyval = src_elem_conds[term]
                is_eq = (not n and vals == frozenset([emptyval]))
                is_ne = (n and vals == frozenset([emptyval])) or (not n and emptyval not in vals)
                if is_eq:
                    v = True
                elif is_ne:
                    v = False
        if v is None or (t is not None and t != v):
            return None
        t = v
    return t


def conds(I_, F, inner, src, key, accepted):
    """Terms whose value tells that the entry of `src` at hand has no path (term -> the value meaning empty)."""
    out = {}
    bm, hits = F.one(inner, 'branch_map'), F.one(inner, 'b')
    ev = mk('eval', src)
    if src is bm:
        out[len_of(I_, F.one(ev, 'locations'))] = 0
    if src is hits:
        out[len_of(I_, ev)] = 0
    # looking the entry up by key in another map of the same object
    out[len_of(I_, F.one(mk('mval', bm, key), 'locations'))] = 0
    out[len_of(I_, mk('mval', hits, key))] = 0
    for m in accepted:
        out[mk('discr', mk('mopt', m, key))] = 0
    return out


def opt_inner(t, old):
    """Map inside an Option map: (map term, whether t keeps None as None)."""
    return t


def accepted_maps(I_, F, new, old):
    """Maps of `new` already known to be pruned: looking a key up in them tells whether its branch has a path."""
    acc = ()
    for m in ('branch_map', 'b'):
        if pruned(I_, F, F.one(new, m), F.one(old, m), old, acc):
            acc += (F.one(new, m),)
    for m in ('branch_map',):
        if F.one(new, m) not in acc and pruned(I_, F, F.one(new, m), F.one(old, m), old, acc):
            acc += (F.one(new, m),)
    return acc


def pruned(I_, F, new, old, inner, accepted=(), pc=None, depth=0):
    """new = old without the entries whose branch has no path."""
    if depth > 4:
        return False
    if pc is not None and surely(pc, mk('discr', old), 0) and new in (old, mk('adt', OPT, 0, 'None', ())):
        return True
    bm, hits = F.one(inner, 'branch_map'), F.one(inner, 'b')
    if new.k == 'mretain' and new.a[0] is old:
        if by_list(I_, F, new, old, inner, accepted):
            return True
        return empties(I_, F, negate_ok(new.a[1]), conds(I_, F, inner, old, mk('ekey', old), accepted)) is False
    if new.k == 'adt' and new.a[2] == 'Some' and new.a[0] == OPT:
        return pruned(I_, F, new.a[3][0], mk('proj', old, 'Some', 0, '0'), inner, accepted, None, depth + 1)
    if new.k == 'fold' and new.a[2] is old:
        src, mu, _, alts = new.a[0], new.a[1], new.a[2], new.a[3]
        seen_rm = False
        for pc, val in alts:
            if src.k == 'vec':
                # keys collected beforehand
                ok = removal(I_, val, mu, key_of_list(src)) and collected(I_, F, src, inner, accepted)
                if not ok:
                    return False
                seen_rm = True
                continue
            key = mk('ekey', src)
            cd = conds(I_, F, inner, src, key, accepted)
            # ignore facts about whether the optional map is there at all
            for c in pc:
                facts = frozenset(f for f in c if not is_mu_discr(f, mu))
                e = empties(I_, F, frozenset([facts]), cd)
                absent = any(is_mu_discr(f, mu) and not f[1] and f[2] == frozenset([0]) for f in c)
                if e is True:
                    if absent:
                        if val is not mu:
                            return False
                    else:
                        if not removal(I_, val, mu, key):
                            return False
                        seen_rm = True
                elif e is False:
                    if val is not mu:
                        return False
                else:
                    return False
            if src not in (bm, hits):
                return False
        return seen_rm
    return False


def by_list(I_, F, new, old, inner, accepted):
    """Kept: the keys which are not in the list of the branches without a path."""
    key = mk('ekey', old)

    def listed(f):
        t, neg, vals = f
        if t.k != 'any' or t.a[0].k != 'vec' or not collected(I_, F, t.a[0], inner, accepted):
            return None
        if t.a[1] not in [frozenset([frozenset([(mk('eq', *xs), False, frozenset([1]))])]) for xs in ((key, mk('elem', t.a[0])), (mk('elem', t.a[0]), key))]:
            return None
        return (1 in vals) != neg
    return len(new.a) > 2 and all(any(listed(f) is want for f in c) for want, pc in ((False, new.a[1]), (True, new.a[2])) for c in pc)


def negate_ok(pc):
    return pc


def is_mu_discr(f, mu):
    return f[0].k == 'discr' and f[0].a[0] is mu


def removal(I_, val, mu, key):
    if val.k == 'mremove' and val.a[0] is mu and val.a[1] is key:
        return True
    if val.k == 'adt' and val.a[2] == 'Some' and val.a[0] == OPT:
        v = val.a[3][0]
        return v.k == 'mremove' and v.a[0] is mk('proj', mu, 'Some', 0, '0') and v.a[1] is key
    return False


def key_of_list(src):
    return mk('elem', src)


def collected(I_, F, src, inner, accepted):
    """src lists exactly the keys of the branches without a path."""
    if len(src.a[0]) != 1 or src.a[0][0].k != 'rep':
        return False
    m, alts = src.a[0][0].a
    bm, hits = F.one(inner, 'branch_map'), F.one(inner, 'b')
    if m not in (bm, hits):
        return False
    cd = conds(I_, F, inner, m, mk('ekey', m), accepted)
    for pc, segs in alts:
        e = empties(I_, F, pc, cd)
        if e is True:
            if not (len(segs) == 1 and segs[0].k == 'e' and segs[0].a[0] is mk('ekey', m)):
                return False
        elif e is False:
            if segs:
                return False
        else:
            return False
    return True


def root_methods(ctx):
    """Visitor methods that build the coverage function (their summary contains its declaration)."""
    VM = ctx.VM
    decl = {b.path for b in VM.anchor_bodies.get('decl', [])}
    if not decl:
        raise AnalysisError('no function builds the coverage function from a FileCoverage')
    reach = {}
    calls = {}
    for b in ctx.P.order:
        calls[b.path] = {(c.res or c.p) for c, _, _ in ctx.P.callees(b)} | {c.p for c, _, _ in ctx.P.callees(b)}

    def reaches(p, seen):
        if p in decl:
            return True
        if p in seen or p not in calls:
            return False
        seen.add(p)
        return any(reaches(q, seen) for q in calls[p])
    out = []
    for vp, ms in VM.methods.items():
        for n, b in ms.items():
            if reaches(b.path, set()):
                out.append((vp, n, b))
    return out


def decl_events(s):
    return [(i, e) for i, e in enumerate(s.ev) if e.k == 'decl']


def final(ctx, F, regs):
    roots = root_methods(ctx)
    ctx.ob('C11', len(roots) > 0, 'roots', 'visitors', 'no visitor method emits the coverage function')
    inn = inner_path(ctx, F, None)
    for vp, n, b in roots:
        I_, node, outs = ctx.VM.analyse(vp, b)
        ctx.analysed.add(b.pretty or b.path)
        ctx.need_modelled('C11', I_, b)
        some_decl = False
        for r, s in outs:
            ctx.paths += len(s.pc)
            ds = decl_events(s)
            cov0 = mk('sym', 'cov0', ('adt', ctx.adt(SC), ()))
            cov = s.heap[('H', 'cov')]
            if any(nested_decl(e) for e in s.ev):
                ctx.ob('C11', False, 'emitted-in-loop:' + n, b, 'the coverage data is emitted inside a loop')
            if not ds:
                ctx.ob('C11', cov is cov0, 'no-emit-no-change:' + n, b, 'coverage becomes %s without being emitted' % brief(cov)[:200])
                continue
            some_decl = True
            ctx.ob('C11', len(ds) == 1, 'emitted-once:' + n, b, 'emitted %d times' % len(ds))
            i, e = ds[-1]
            fc = [x for x in e.a[0].a[1] if x.k == 'adt' and last(x.a[0]) == 'FileCoverage' or F.I.ty(x) and last(str(ctx.P.strip(F.I.ty(x))[1])) == 'FileCoverage']
            if len(fc) != 1:
                ctx.ob('C11', False, 'emitted-data:' + n, b, 'the emitted coverage data is not a FileCoverage value: %s' % brief(e)[:200])
                continue
            fc = fc[0]
            old = F.one(cov0, inn)
            acc = accepted_maps(I_, F, fc, old)
            for m in ('branch_map', 'b', 'b_t'):
                ctx.ob('C11', pruned(I_, F, F.one(fc, m), F.one(old, m), old, acc, s.pc), 'pruned:%s' % m, b,
                       'emitted %s is %s; expected: the registered one without the branches that have no path' % (m, brief(F.one(fc, m))[:500]))
            for m in FC_FIELDS:
                if m not in ('branch_map', 'b', 'b_t'):
                    ctx.ob('C11', F.one(fc, m) is F.one(old, m), 'complete:%s' % m, b, 'emitted %s is %s' % (m, brief(F.one(fc, m))[:300]))
            ctx.ob('C11', F.one(cov, inn) is fc, 'final-state:' + n, b, 'the coverage object differs from what was emitted: %s' % brief(F.one(cov, inn))[:300])
            late = [x for x in s.ev[i + 1:] if x.k in ('reg', 'visit', 'evrep')]
            ctx.ob('C11', not late, 'nothing-after:' + n, b, 'after emitting: %s' % brief(late[0])[:200] if late else '')
            early = [x for x in s.ev[:i] if x.k in ('visit', 'evrep')]
            ctx.ob('C11', bool(early) or not children_exist(s), 'after-traversal:' + n, b, 'the data is emitted although the program was not traversed before')
        ctx.ob('C11', some_decl, 'emits:' + n, b, 'never emits the coverage data')


def nested_decl(e):
    return e.k == 'evrep' and mentions(e, lambda t: t.k == 'decl')


def children_exist(s):
    """False when the path establishes that there is nothing to traverse."""
    return not any(t.k == 'len' and not n and v == frozenset([0]) for c in s.pc for t, n, v in c)
