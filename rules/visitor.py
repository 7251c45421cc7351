"""Rules over the instrumenting visitors: C01-C08, C17-C21.

Every VisitMut method of every instrumenting visitor is executed abstractly once, on a symbolic node and visitor; the summary
of each way through it is aligned with the original node and compared with what the node type requires.
"""
import re
from .common import *
from .align import *
from engine.models import span_of, canon_span, some, vlen
from engine.interp import pc_simplify

LOGICAL = ('LogicalOr', 'LogicalAnd', 'NullishCoalescing')

STMTS = ('ExprStmt', 'ReturnStmt', 'BreakStmt', 'ContinueStmt', 'ThrowStmt', 'DebuggerStmt', 'TryStmt', 'WithStmt', 'LabeledStmt',
         'WhileStmt', 'DoWhileStmt', 'ForStmt', 'ForInStmt', 'ForOfStmt', 'IfStmt', 'SwitchStmt', 'TaggedTpl')
VALUES = {'ClassProp': 'value', 'PrivateProp': 'value', 'VarDeclarator': 'init'}
FUNCS = ('FnDecl', 'FnExpr', 'ClassMethod', 'MethodProp', 'GetterProp', 'SetterProp', 'ArrowExpr')
BRANCHES = ('IfStmt', 'CondExpr', 'SwitchStmt', 'BinExpr', 'AssignPat')
REQUIRED = tuple(dict.fromkeys(STMTS + tuple(VALUES) + FUNCS + BRANCHES))
ROOTS = ('Script', 'Vec<ModuleItem>', 'Module', 'Program')
LISTS = ('Vec<Stmt>',)


def txt(t, n=240):
    return brief(t)[:n]


def file_ignored(x):
    return mk('app', 'file_ignored', (x,))


class Reg:
    __slots__ = ('kind', 'id', 'vals', 'envs')

    def __init__(self, kind, id, vals, envs):
        self.kind, self.id, self.vals, self.envs = kind, id, vals, envs


class Out:
    """One way through one method."""


class Method:
    def __init__(self, V, vp, body, given=None):
        self.V, self.vp, self.body = V, vp, body
        ctx = V.ctx
        self.ctx = ctx
        self.vname = last(vp)
        self.tname = V.vm.tn(body.argty[1])
        self.root = self.tname in ROOTS
        self.where = ctx.where(body)
        self.key = '%s:%s' % (self.vname, self.tname)
        I_, node, outs = V.vm.analyse(vp, body, given)
        self.I, self.node = I_, node
        ctx.analysed.add(body.pretty or body.path)
        ctx.paths += sum(len(s.pc) for _, s in outs)
        self.fields = [f[0] for f in ctx.P.adts[vp][2][0][2]]
        self.before0 = I_.start_before
        self.outs = []
        for _, s in outs:
            o = self.outcome(s)
            if o is not None:
                self.outs.append(o)

    def selff(self, heap, name):
        h = heap[('H', 'self')]
        if h.k != 'adt':
            return None
        return h.a[3][self.fields.index(name)] if name in self.fields else None

    def outcome(self, s):
        V, L = self.V, self.ctx.L
        o = Out()
        o.m = self
        o.st = s
        o.envs = [e for e in envs_of(self.lift_pc(s.pc)) if V.feasible(e)]
        if not o.envs:
            return None
        o.final = L.lift(s.heap[('H', 'node')])
        o.before = self.selff(s.heap, 'before')
        o.before = L.lift(o.before) if o.before is not None else None
        al = Aligner(self.ctx, self.I, self.before0)
        o.al = al
        al.align_top(o.final, self.node, o.envs)
        o.regs, o.vis, o.decl, o.comments = [], [], [], []
        self.events(s.ev, o.envs, o)
        return o

    def lift_pc(self, pc):
        L = self.ctx.L
        return frozenset(frozenset((L.lift(t), n, v) for t, n, v in c) for c in pc)

    def events(self, evs, envs, o):
        L = self.ctx.L
        for e in evs:
            if e.k == 'reg':
                o.regs.append(Reg(e.a[0], L.lift(e.a[1]), tuple(L.lift(v) for v in e.a[2]), envs))
            elif e.k == 'visit':
                o.vis.append((e.a[0], L.lift(e.a[1]), L.lift(e.a[2]), envs))
            elif e.k == 'decl':
                o.decl.append((L.lift(e.a[0]), envs))
            elif e.k == 'comment':
                o.comments.append((L.lift(e.a[2]), envs))
            elif e.k == 'evrep':
                for pc, sub in e.a[1]:
                    m = merge_all(envs, self.lift_pc(pc))
                    if m:
                        self.events(sub, m, o)
            else:
                raise AnalysisError('event %s' % e.k)


def align_top(self, t, o, envs):
    self.align(t, o, (), tuple(envs), None) if not (t.k in ('vec', 'vins') and self.tname(o) == 'Vec') else self.align_list(t, o, (), tuple(envs), None)


Aligner.align_top = align_top


class Visitors:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.vm = ctx.VM
        self.finders()
        self.I = self.vm.interp()
        self.L_lift = ctx.L.lift
        self.methods = {}       # (visitor, type) -> summary
        self.variants = {}      # the same for each start state looked at
        names = [p for p in self.vm.methods if p.split('::')[0] == INST]
        if not names:
            raise AnalysisError('no instrumenting visitor found')
        self.vps = sorted(names)
        for vp in self.vps:
            for n, b in sorted(self.vm.methods[vp].items()):
                if self.is_noop(b):
                    continue
                tn = self.vm.tn(b.argty[1])
                self.variants[(vp, tn)] = [Method(self, vp, b, g) for g in self.starts(vp, tn)]
                self.methods[(vp, tn)] = self.variants[(vp, tn)][0]
        self.main = self.main_visitor()

    def starts(self, vp, tn):
        """Roots start with nothing waiting; alone, or below a Program."""
        if tn not in ROOTS:
            return [None]
        e = mk('vec', ())
        fs = [f[0] for f in self.P.adts[vp][2][0][2]]
        if 'nodes' not in fs:
            return [{'before': e}]
        nt = next((p for p in self.P.adts if last(p) == 'Node' and p.split('::')[0] == INST), None)
        if nt is None:
            raise AnalysisError('no Node enum')
        vi = [v[0] for v in self.P.adts[nt][2]].index('Program')
        prog = mk('vec', (mk('e', mk('adt', nt, vi, 'Program', ())),))
        return [{'before': e, 'nodes': e}] + ([{'before': e, 'nodes': prog}] if tn != 'Program' else [])

    def is_noop(self, b):
        n = self.vm.tn(b.argty[1]) or ''
        base = n[4:-1] if n.startswith('Vec<') else n
        return (base.startswith('Ts') and base != 'TsModuleBlock') or base in ('Accessibility', 'TruePlusMinus')

    def main_visitor(self):
        l = [vp for vp in self.vps if 'Program' in self.vm.overrides[vp]]
        if len(l) != 1:
            raise AnalysisError('expected one visitor overriding Program, found %d' % len(l))
        return l[0]

    # -- finders: boolean questions the visitors ask about an expression
    def finders(self):
        P = self.P
        self.traps, self.odd, self.fbodies = {}, {}, {}
        for b in P.order:
            if b.impl_trait and last(b.impl_trait) == 'Visit' and b.kind == 'method' and b.crate == INST:
                fp = P.strip(b.impl_self)[1]
                tn = self.vm.tn(b.argty[1])
                self.fbodies.setdefault(fp, {})[tn] = b
                fs = P.adts[fp][2][0][2]
                flag = mk('adt', fp, 0, last(fp), tuple(FALSE for _ in fs))
                I_ = self.vm.interp()
                nt = P.strip(b.argty[1])
                st = State({('H', 'self'): flag, ('H', 'node'): mk('sym', 'node', nt)})
                outs = I_.run_body(b, [mk('ref', ('H', 'self'), ()), mk('ref', ('H', 'node'), ())], st, 0, {}, ())
                if outs and all(s.heap[('H', 'self')].k == 'adt' and s.heap[('H', 'self')].a[3] and s.heap[('H', 'self')].a[3][0] is TRUE for _, s in outs):
                    self.traps.setdefault(fp, set()).add(tn)
                else:
                    self.odd.setdefault(fp, {})[tn] = (b, I_, outs)
        self._reach = {}

    def reach(self, tname, avoid):
        """Type names reachable from AST type `tname` without going through `avoid`."""
        key = (tname, frozenset(avoid))
        r = self._reach.get(key)
        if r is not None:
            return r
        seen = set()
        todo = [p for p in self.P.adts if last(p) == tname and p.startswith('swc_ecma_ast::')]

        def add(t):
            t = self.P.strip(t)
            if t is None:
                return
            if t[0] == 'adt':
                if t[1] in self.P.adts and t[1].startswith('swc_ecma_ast::'):
                    todo.append(t[1])
                for x in t[2]:
                    add(x)
            elif t[0] == 'tuple':
                for x in t[1]:
                    add(x)
            elif t[0] in ('slice', 'array'):
                add(t[1])
        while todo:
            p = todo.pop()
            n = last(p)
            if n in seen or n in avoid:
                continue
            seen.add(n)
            for v in self.P.adts[p][2]:
                for f in v[2]:
                    add(f[1])
        self._reach[key] = seen
        return seen

    def feasible(self, e):
        fs = {}
        for t, (n, v) in e.d.items():
            if t.k == 'finds' and not n and len(v) == 1:
                fs.setdefault((t.a[1], t.a[2]), []).append((t.a[0], next(iter(v))))
        for (x, whole), l in fs.items():
            t = self.P.strip(self.I.ty(x)) if hasattr(self, 'I') else self.P.strip(self.vm.interp().ty(x))
            tn = self.vm.tn(t)
            for fp, v in l:
                if fp in self.odd or fp not in self.traps or not whole:
                    continue
                if tn in self.traps[fp] and v == 0:
                    return False
                if v == 1 and tn is not None:
                    for fp2, v2 in l:
                        if v2 == 0 and fp2 not in self.odd and fp2 in self.traps and fp2 != fp:
                            if not (self.reach(tn, self.traps[fp2]) & self.traps[fp]):
                                return False
        return True

    # -- hints
    def may_next(self, e, S_):
        if S_.k == 'adt':
            return S_.a[2] == 'Some' and (S_.a[3][0].k != 'adt' or S_.a[3][0].a[2] == 'Next')
        return e.may(discr(S_), 1) and e.may(discr(payload(S_)), self.hint('Next'))

    def must_next(self, e, S_):
        if S_.k == 'adt':
            return S_.a[2] == 'Some' and S_.a[3][0].k == 'adt' and S_.a[3][0].a[2] == 'Next'
        return e.must(discr(S_), 1) and e.must(discr(payload(S_)), self.hint('Next'))

    def must_hint(self, e, S_, name):
        return S_.k != 'adt' and e.must(discr(S_), 1) and e.must(discr(payload(S_)), self.hint(name))

    def may_hint(self, e, S_, name):
        return S_.k != 'adt' and e.may(discr(S_), 1) and e.may(discr(payload(S_)), self.hint(name))

    def hint(self, name):
        for i, v in enumerate(self.P.adts[self.vm.scope_adt][2]):
            if v[0] == name:
                return self.I.discr_of(self.vm.scope_adt, i)
        raise AnalysisError('no IgnoreScope::' + name)


def vfield(vis, name):
    for n, x in vis.a[1]:
        if n == name:
            return x
    return None


class MethodRule:
    """All obligations of one method."""

    def __init__(self, V, m):
        self.V, self.m, self.ctx = V, m, V.ctx
        self.P, self.I, self.L = V.P, m.I, V.ctx.L
        self.node = m.node
        self.S0 = mk('sym', 'self.should_ignore', dict((f[0], f[1]) for f in self.P.adts[m.vp][2][0][2])['should_ignore'])
        self.al0 = Aligner(self.ctx, self.I)
        sp = span_of(self.I, m.node)
        self.span = sp
        self.own = scope(sp) if not (sp.k == 'app' and m.tname.startswith('Vec<')) else None

    def f(self, *names, o=None):
        o = o if o is not None else self.node
        for n in names:
            o = self.one(o, n)
        return o

    def one(self, o, n):
        if n == 'Some':
            return mk('proj', o, 'Some', 0, '0') if o.k != 'adt' else o.a[3][0]
        t = self.P.strip(self.I.ty(o))
        a = self.P.adts.get(t[1]) if t else None
        if a is None:
            raise AnalysisError('field %s of %s' % (n, txt(o)))
        if not a[0]:
            for i, f in enumerate(a[2][0][2]):
                if f[0] == n:
                    return self.I.getp(o, ('f', None, i, n))
            raise AnalysisError('no field %s in %s' % (n, t[1]))
        for v in a[2]:
            if v[0] == n:
                return self.I.getp(o, ('f', n, 0, v[2][0][0]))
        raise AnalysisError('no variant %s in %s' % (n, t[1]))

    def variant(self, o, name):
        t = self.P.strip(self.I.ty(o))
        for i, v in enumerate(self.P.adts[t[1]][2]):
            if v[0] == name:
                return self.I.discr_of(t[1], i)
        raise AnalysisError('no variant %s in %s' % (name, t[1]))

    def is_var(self, e, o, name):
        return e.must(discr(o), self.variant(o, name))

    def may_var(self, e, o, name):
        return e.may(discr(o), self.variant(o, name))

    def rng(self, x):
        return mk('app', 'range', (canon_span(self.I, x),))

    def sp(self, o):
        return self.L.lift(span_of(self.I, o))

    def sc(self, o):
        return scope(canon_span(self.I, span_of(self.I, o)))

    def ob(self, prop, ok, key, detail='', e=None):
        return self.ctx.ob(prop, ok, '%s:%s' % (key, self.m.key), self.m.where, detail + (' when ' + e.text()[:500] if e is not None else ''))

    # -- status of the code at one place
    def status(self, e, elem=None):
        V = self.V
        S_ = [self.S0]
        if self.own is not None and self.m.tname not in CONTAINERS:
            S_.append(self.own)
        if elem is not None:
            S_.append(self.sc(elem))
        if any(V.must_next(e, s) for s in S_):
            return 'NEXT'
        if not any(V.may_next(e, s) for s in S_):
            return 'LIVE'
        return '?'

    def check(self):
        m = self.m
        for i, o in enumerate(m.outs):
            self.o = o
            self.c07()
            self.c03()
            self.c01()
            self.c02()
            self.c04()
            self.c05()
            self.c06()
            self.c17()
        self.c08()
        self.c20()
        if m.tname == 'Program':
            self.c21()
        if m.tname in ('FnExpr', 'ClassMethod', 'MethodProp', 'GetterProp', 'SetterProp', 'FnDecl', 'ArrowExpr'):
            self.c19()

    def e0(self):
        return self.o.envs[0]

    # -- C07
    def c07(self):
        o, m = self.o, self.m
        h = o.st.heap[('H', 'self')]
        if h.k != 'adt':
            self.ob('C07', False, 'state', 'visitor state is not known at the end: %s' % txt(h), self.e0())
            return
        for n, x in zip(m.fields, h.a[3]):
            if n in ('before', 'cov'):
                continue
            self.ob('C07', x is m.I.start_fields[n], 'state', 'field %s is %s at the end' % (n, txt(self.L.lift(x))), self.e0())
        if 'cov' in m.fields:
            x = h.a[3][m.fields.index('cov')]
            self.ob('C07', x is mk('rc', ('H', 'cov')), 'state', 'field cov is replaced', self.e0())
        self.ob('C08', not o.st.guards, 'borrow', 'the shared coverage state stays borrowed', self.e0())

    # -- C03
    def c03(self):
        o, m = self.o, self.m
        for msg, p in o.al.errs:
            self.ob('C03', False, 'keep', '%s (at .%s)' % (msg, p), self.e0())
        if not o.al.errs:
            self.ob('C03', True, 'keep', 'all parts kept')
        for x, pl in o.al.keeps:
            for e in pl.envs:
                st = self.status(e, self.elem_of(pl))
                if st == 'NEXT' or pl.extra is not None:
                    continue
                why = self.unvisited(x, e, 0)
                if why is None:
                    continue
                hinted = self.by_hint(e)
                self.ob('C03', False, 'walk', '%s is not traversed' % txt(why), e)
                self.ob('C05', False, 'walk', '%s is not traversed' % txt(why), e)
                if hinted:
                    self.ob('C06', False, 'walk', '%s is left out without a hint saying so' % txt(why), e)
                break
        for mode, x, vis, pl in o.al.visits:
            for e in pl.envs:
                r = self.visit_ok(mode, x, vis, pl, e)
                self.ob('C03', r is None, 'visitor', r or 'complete traversal', e if r else None)
                if r is not None:
                    self.ob('C05', False, 'visitor', r, e)
                    break

    def by_hint(self, e):
        """The way is taken on account of a hint."""
        for t in e.d:
            if t.k == 'discr' and t.a[0].k == 'proj' and t.a[0].a[0].k == 'app' and t.a[0].a[0].a[0] == 'scope':
                return True
            if t.k == 'discr' and t.a[0].k == 'app' and t.a[0].a[0] == 'scope' and e.must(t, 1):
                return True
        return False

    def elem_of(self, pl):
        x = pl.orig
        if isinstance(x, tuple):
            x = x[1]
        while isinstance(x, T):
            if x.k == 'elem':
                return x
            if x.k == 'proj':
                x = x.a[0]
                continue
            break
        return None

    def unvisited(self, x, e, d):
        """A part of x that must be traversed although x is kept as it is, or None."""
        t = self.P.strip(self.I.ty(x))
        if t is None:
            return x
        if not self.I.visitable(t):
            return None
        if self.V.must_next(e, self.sc(x)) if t[0] == 'adt' and t[1].startswith('swc_ecma_ast::') else False:
            return None
        if self.hinted_arm(x, e):
            return None
        if self.excused(x, e):
            return None
        if d > 6:
            return x
        if t[0] == 'adt' and t[1] == OPT:
            if e.must(discr(x), 0):
                return None
            return self.unvisited(self.one(x, 'Some'), e, d + 1) if e.must(discr(x), 1) else x
        if t[0] == 'adt' and t[1].startswith('swc_ecma_ast::') and t[1] in self.P.adts:
            a = self.P.adts[t[1]]
            if not a[0]:
                for i, f in enumerate(a[2][0][2]):
                    y = self.unvisited(self.I.getp(x, ('f', None, i, f[0])), e, d + 1)
                    if y is not None:
                        return y
                return None
            f = e.d.get(discr(x))
            if f is None:
                return x
            for i, v in enumerate(a[2]):
                if e.may(discr(x), self.I.discr_of(t[1], i)):
                    for j, ff in enumerate(v[2]):
                        y = self.unvisited(self.I.getp(x, ('f', v[0], j, ff[0])), e, d + 1)
                        if y is not None:
                            return y
            return None
        for t2 in e.d:
            if t2.k in ('len', 'app') and brief(t2) == 'len(%s)' % brief(x) and e.must(t2, 0):
                return None
        return x

    def hinted_arm(self, x, e):
        if self.m.tname == 'IfStmt' and self.own is not None:
            if x is self.f('cons') and self.V.must_hint(e, self.own, 'If'):
                return True
            if (x is self.f('alt') or x is self.f('alt', 'Some')) and self.V.must_hint(e, self.own, 'Else'):
                return True
        return False

    def excused(self, x, e):
        """Constructs left alone by option, or that are not the user's."""
        if x is self.node and self.ignored_method(e) == 1:
            return True
        if x is self.node and e.must(file_ignored(x), 1):
            return True
        for t, (n, v) in e.d.items():
            if t.k == 'bapp' and t.a[0] == 'directive_continue' and not n and v == frozenset([1]) and self.is_elem_stmt(t.a[1], x):
                return True
            if t.k == 'eq' and not n and v == frozenset([1]) and mk('sym', 'self.cov_fn_ident', None).a[0] in (brief(t.a[0]), brief(t.a[1])):
                y = t.a[0] if brief(t.a[1]) == 'self.cov_fn_ident' else t.a[1]
                while y.k == 'proj':
                    if y is x or y.a[0] is x:
                        return True
                    y = y.a[0]
        return False

    def is_elem_stmt(self, args, x):
        a = args[0] if isinstance(args, tuple) else args
        while isinstance(a, T):
            if a is x:
                return True
            if a.k != 'proj':
                break
            a = a.a[0]
        y = x
        while isinstance(y, T) and y.k == 'proj':
            y = y.a[0]
            if y is (args[0] if isinstance(args, tuple) else args):
                return True
        return False

    def ignored_method(self, e):
        """1 / 0 if the ignore-methods option is known to list / not to list something, None if it is not consulted."""
        for t, (n, v) in e.d.items():
            if t.k in ('any', 'contains') and mentions(t, lambda y: y.k == 'proj' and y.a[3] == 'ignore_class_methods'):
                if not n and len(v) == 1:
                    return next(iter(v))
        return None

    def visit_ok(self, mode, x, vis, pl, e):
        V = self.V
        vp = vis.a[0]
        if vp not in V.vm.overrides:
            return '%s is traversed by %s, which is no instrumenting visitor' % (txt(x), last(vp))
        ov = V.vm.overrides[vp]
        xb = x
        while xb.k in ('V', 'Vc'):
            xb = xb.a[0]
        miss = [t for t in REQUIRED if t not in ov]
        if miss:
            ok = False
            for t, (n, v) in e.d.items():
                if t.k == 'finds' and t.a[1] is xb and not n and v == frozenset([1]) and t.a[0] in V.odd and V.leaf_finder(t.a[0]):
                    ok = 'BinExpr' in ov
            if self.m.vp == vp and (x is self.node or self.al0.base(x) is self.node):
                ok = True   # entered with a logical expression only
            if not ok:
                return '%s is traversed by %s, which does not count %s' % (txt(x), last(vp), ', '.join(miss[:4]))
        if self.m.tname == 'SwitchStmt' and 'SwitchCase' not in ov and (xb is self.node or self.node_like(xb) or any(
                y is self.f('cases') for y in (xb,))):
            return 'the cases are traversed by %s, which does not count them' % last(vp)
        if mode == 'Vc' and not (xb is self.node or self.node_like(xb)):
            t = self.P.strip(self.I.ty(xb)) if xb.k != 'adt' else ('adt', xb.a[0], ())
            tn = V.vm.tn(t)
            if tn in ov:
                mm = V.methods.get((vp, tn))
                if mm is None or any(oo.regs for oo in mm.outs):
                    return 'only the children of %s are traversed: its own counters are skipped' % txt(x)
        return None

    def node_like(self, x):
        return x.k == 'adt' and last(x.a[0]) == self.m.tname

    # -- C01
    def idents(self):
        return self.V.idents(self.m.vp)

    def branch_ok(self, b):
        """b: branch id term."""
        if b.k == 'id' and b.a[0] == 'b':
            return True
        return b is self.selfbranch()

    def selfbranch(self):
        for n, t in [(f[0], f[1]) for f in self.P.adts[self.m.vp][2][0][2]]:
            if n == 'branch':
                return mk('sym', 'self.branch', t)
        return None

    def all_cnts(self):
        o = self.o
        out = list(o.al.cnts)
        for s, pl in self.before_segs():
            if s.k == 'e' and s.a[0].k == 'cstmt':
                out.append((s.a[0].a[0], pl))
        return out

    def before_segs(self):
        o = self.o
        b = o.before
        if b is None:
            return []
        segs = b.a[0] if b.k == 'vec' else (mk('sp', b),)
        return [(s, Place('before', ('before',), None, o.envs)) for s in self.flat_segs(segs)]

    def flat_segs(self, segs):
        """What each element of a list hands over, one element after the other, counts as handed over for the generic element."""
        out = []
        for s in segs:
            if s.k == 'rep' and len(s.a[1]) == 1 and frozenset() in s.a[1][0][0]:
                el = mk('elem', s.a[0])
                sub = self.flat_segs(s.a[1][0][1])
                if all(x.k == 'sp' and x.a[0].k == 'vb' and any(y is el for y in subterms(x.a[0].a[1])) for x in sub):
                    out += sub
                    continue
            out.append(s)
        return out

    def c01(self):
        o = self.o
        ids = self.idents()
        for c, pl in self.all_cnts():
            kind, i, p, ident = c.a
            ok = True
            why = 'counter %s' % txt(c)
            if kind in ('s', 'f'):
                ok = i.k == 'id' and i.a[0] == kind and p is None
            elif kind == 'b':
                ok = self.branch_ok(i) and p is not None and p.k == 'id' and p.a[0] == 'p' and self.L.lift(p.a[2][0]) is i
            else:
                ok = False
            self.ob('C01', ok, 'entry', why + ('' if ok else ' does not name an entry registered for this place'), None if ok else self.e0())
            self.ob('C01', ident in ids, 'ident', why + ' goes through ' + txt(ident), None if ident in ids else self.e0())
        for c, pl, errs in o.al.truths:
            kind, i, p, ident = c.a
            ok = kind == 'bT' and p is not None and self.branch_ok(i) and p.k == 'id' and p.a[0] == 'p' and self.L.lift(p.a[2][0]) is i
            self.ob('C01', ok, 'truth', 'truth counter %s' % txt(c), None if ok else self.e0())
            if ok:
                self.ob('C01', ident in ids, 'ident', 'truth counter goes through ' + txt(ident), None if ident in ids else self.e0())
                if i.k == 'id':
                    v = i.a[2]
                    tr = v[0].k == 'adt' and v[0].a[2] == 'BinaryExpr'
                    self.ob('C01', tr, 'truthbranch', 'truth counter for branch %s' % txt(v), None if tr else self.e0())
                    for e in pl.envs:
                        rl = v[2]
                        tr = rl is TRUE or e.must(rl, 1)
                        if not tr:
                            break
                    self.ob('C01', tr, 'truthslot', 'branch %s is registered %s truth slots' % (txt(i), 'with' if tr else 'without'), None if tr else self.e0())
        # visitors continuing this branch
        for mode, x, vis, pl in o.al.visits:
            b = vfield(vis, 'branch')
            if b is None:
                continue
            want = {'SwitchCaseVisitor': 'Switch'}
            has_case = 'SwitchCase' in self.V.vm.overrides.get(vis.a[0], ())
            bt = 'Switch' if has_case else 'BinaryExpr'
            if b is self.selfbranch():
                ok = vis.a[0] == self.m.vp
            else:
                ok = b.k == 'id' and b.a[0] == 'b' and b.a[2][0].k == 'adt' and b.a[2][0].a[2] == bt and any(r.kind == 'b' and r.id is b for r in o.regs)
            self.ob('C01', ok, 'branchof', '%s counts into branch %s' % (last(vis.a[0]), txt(b)), None if ok else self.e0())
        for mode, x, vis, envs in o.vis:
            bad = self.vis_fields(vis)
            self.ob('C01', not bad, 'visfields', 'nested visitor %s: %s' % (last(vis.a[0]), bad or 'shares coverage, options and identifiers'),
                    None if not bad else self.e0())

    def vis_fields(self, vis):
        m = self.m
        bad = []
        tys = dict((f[0], f[1]) for f in self.P.adts[m.vp][2][0][2])
        for n, x in vis.a[1]:
            if n in ('nodes', 'should_ignore', 'branch'):
                continue
            if n == 'cov':
                if x is not mk('rc', ('H', 'cov')):
                    bad.append('cov is %s' % txt(x))
            elif n == 'cov_fn_ident':
                if x not in self.idents():
                    bad.append('cov_fn_ident is %s' % txt(x))
            elif n == 'cov_fn_temp_ident':
                if x not in self.V.temps(m.vp):
                    bad.append('cov_fn_temp_ident is %s' % txt(x))
            elif n in tys:
                if x is not mk('sym', 'self.' + n, tys[n]):
                    bad.append('%s is %s' % (n, txt(x)))
            else:
                bad.append('%s is %s' % (n, txt(x)))
        return '; '.join(bad)

    # -- C02
    def c02(self):
        o = self.o
        cn = self.all_cnts()
        for s, pl in self.before_segs():
            x = s.a[0]
            ok = s.k == 'e' and x.k == 'cstmt' or s.k == 'sp' and (x.k == 'vb' or x is self.m.before0)
            self.ob('C02', ok, 'waiting', 'waiting counters at the end: %s' % txt(s), None if ok else self.e0())
        b0 = self.m.before0
        n = sum(1 for s, _ in self.before_segs() if s.k == 'sp' and s.a[0] is b0)
        if b0 is not None and b0.k == 'sym':
            # statement counters of an enclosing statement that wait for its list stay there, in front
            flushed = bool(o.al.flush)
            ok = n == 1 and not flushed and self.before_segs()[0][0].a[0] is b0
            self.ob('C02', n == 1 or flushed, 'waiting', 'counters already waiting are %s' % ('kept' if n == 1 or flushed else 'lost'), None if ok else self.e0())
            self.ob('C04', ok, 'waiting', 'counters of the enclosing statement are %s' % ('kept in front' if ok else 'moved into this construct' if flushed else
                                                                                          'lost or reordered'), None if ok else self.e0())
        elif b0 is not None:
            # a root: there is no list outside that could take a counter
            left = [s for s, pl in self.before_segs() if not (s.k == 'sp' and s.a[0].k == 'vb' and s.a[0].a[1] is self.node)]
            self.ob('C02', not left, 'root', 'counters left over at the end: %s' % ', '.join(txt(s, 80) for s in left), None if not left else self.e0())
        for r in o.regs:
            if r.kind == 'b':
                continue
            for e in r.envs:
                k = 0
                for c, pl in cn:
                    i = c.a[2] if r.kind == 'p' else c.a[1]
                    if i is r.id and (r.kind == 'p') == (c.a[2] is not None) and any(e.merge(e2) is not None for e2 in pl.envs):
                        k += 1
                self.ob('C02', k == 1, 'emit', '%s %s is registered and counted by %d emitted counters' % (r.kind, txt(r.id), k), None if k == 1 else e)
                if k != 1:
                    break
        # and the other way round: a counter in a list element alternative must be registered there
        for c, pl in cn:
            i = c.a[2] if c.a[2] is not None else c.a[1]
            for e in pl.envs:
                ok = any(r.id is i and any(e.merge(e2) is not None for e2 in r.envs) for r in o.regs)
                if not ok:
                    break
            self.ob('C01', ok, 'registered', 'counter %s is %s' % (txt(c), 'registered' if ok else 'not registered on this way'), None if ok else e)
        # traversal results
        vbs = list(o.al.vbs) + [(s.a[0], pl) for s, pl in self.before_segs() if s.k == 'sp' and s.a[0].k == 'vb']
        for mode, x, vis, envs in o.vis:
            for e in envs:
                k = sum(1 for v, pl in vbs if v.a[1] is x and v.a[2] is vis and v.a[0] == mode and any(e.merge(e2) is not None for e2 in pl.envs))
                ok = k == 1 or k == 0 and self.V.quiet(vis.a[0], self.tn(x), mode)
                self.ob('C02', ok, 'handover', 'counters left waiting by the traversal of %s are placed %d times' % (txt(x, 120), k), None if ok else e)
                if not ok:
                    break
            placed = any(v[1] is x and v[2] is vis for v in o.al.visits) or mode == 'Vc' and any(
                v[2] is vis and (v[1].k == 'proj' and v[1].a[0] is x) for v in o.al.visits)
            if not placed and x.k == 'adt':
                placed = any(v[2] is vis for v in o.al.visits)
            if not placed and mode == 'Vc' and self.unvisited_type(x):
                placed = True
            if mode == 'V' and vis.a[0] == self.m.vp and (x is self.node or o.al.base(x) is self.node):
                self.ob('C08', False, 'descends', 'the visit of %s starts over with the same node' % txt(x, 120), self.e0())
            self.ob('C02', placed, 'result', 'the traversed %s is %s' % (txt(x, 120), 'kept' if placed else 'thrown away with its counters'),
                    None if placed else self.e0())

    def unvisited_type(self, x):
        t = self.P.strip(self.I.ty(x))
        return t is not None and not self.I.visitable(t)

    def tn(self, x):
        if x.k == 'adt':
            return last(x.a[0])
        return self.V.vm.tn(self.P.strip(self.I.ty(x)))

    def inferred_name(self, c, pl):
        """A function or class that takes its name from the variable loses it when it is wrapped."""
        x = self.one(self.f('init'), 'Some')
        p = self.P.strip(self.I.ty(x))[1]
        d = discr(x)
        for i, v in enumerate(self.P.adts[p][2]):
            # what is found in every such expression
            traps = {'Arrow': {'ArrowExpr'}, 'Class': {'ClassExpr', 'Class'}, 'Fn': {'FnExpr', 'Function', 'BlockStmt'}}.get(v[0])
            if traps is None:
                continue
            for e in pl.envs:
                ok = not e.may(d, self.I.discr_of(p, i)) or any(
                    t.k == 'finds' and t.a[1] is x and t.a[2] and e.must(t, 0) and self.V.traps.get(t.a[0], set()) & (traps | {'Expr'}) for t in e.d)
                ok = ok or not self.V.feasible(e)
                n = self.f('name')
                pn = self.P.strip(self.I.ty(n))[1]
                ok = ok or not any(e.may(discr(n), self.I.discr_of(pn, j)) for j, w in enumerate(self.P.adts[pn][2]) if w[0] == 'Ident')
                self.ob('C04', ok, 'name', 'the initializer %s' % ('keeps the name it takes from its variable' if ok else 'loses the name it takes from its variable if it is %s' % v[0]),
                        None if ok else e)
                if not ok:
                    break

    # -- C04
    def c04(self):
        o, m = self.o, self.m
        for msg, p in o.al.ordererrs:
            self.ob('C04', False, 'order', '%s (at .%s)' % (msg, p), self.e0())
        if not o.al.ordererrs:
            self.ob('C04', True, 'order', 'counters precede what they count')
        arms = {'IfStmt': {('cons',): 'list', ('alt',): 'list'}, 'CondExpr': {('cons',): 'wrap', ('alt',): 'wrap'},
                'AssignPat': {('right',): 'wrap'}, 'BinExpr': {('left',): 'wrap', ('right',): 'wrap'}, 'SwitchCase': {('cons',): 'list'}}
        for c, pl in self.all_cnts():
            kind = c.a[0]
            ok, want = True, ''
            if kind == 'b':
                w = arms.get(m.tname, {})
                p = tuple(x for x in pl.path if x != '[]')
                if p[:1] == ('alt',) or p[:1] == ('cons',):
                    p = p[:1] if m.tname in ('IfStmt',) and p in (('cons', 'stmts'), ('alt', 'stmts'), p[:1]) else p
                ok = w.get(p) == pl.kind
                want = 'branch counter %s stands at .%s' % (txt(c), '.'.join(pl.path))
            elif kind == 'f':
                fp = {'FnDecl': ('function', 'body', 'stmts'), 'FnExpr': ('function', 'body', 'stmts'), 'ClassMethod': ('function', 'body', 'stmts'),
                      'MethodProp': ('function', 'body', 'stmts'), 'GetterProp': ('body', 'stmts'), 'SetterProp': ('body', 'stmts')}
                if m.tname == 'ArrowExpr':
                    ok = pl.path[:1] == ('body',) and pl.kind in ('vins', 'list')
                    if self.is_var(self.e0(), self.f('body'), 'BlockStmt'):
                        ok = pl.path == ('body', 'stmts') or pl.path == ('body', '0', 'stmts')
                else:
                    ok = pl.kind in ('vins', 'list') and pl.path == fp.get(m.tname)
                want = 'function counter %s stands at .%s' % (txt(c), '.'.join(pl.path))
            elif kind == 's':
                if pl.kind == 'before':
                    ok = True
                    want = 'statement counter waits for the enclosing list'
                elif pl.kind == 'list':
                    ok = '[]' in pl.path
                    want = 'statement counter %s stands at .%s' % (txt(c), '.'.join(pl.path))
                elif pl.kind == 'wrap':
                    ok = m.tname in VALUES and pl.path == (VALUES[m.tname],)
                    want = 'statement counter %s wraps .%s' % (txt(c), '.'.join(pl.path))
                    if ok and m.tname == 'VarDeclarator':
                        self.inferred_name(c, pl)
                else:
                    ok = False
                    want = 'statement counter %s is inserted at .%s' % (txt(c), '.'.join(pl.path))
            if pl.kind == 'before' and kind != 's':
                ok = False
            self.ob('C04', ok, 'place', want, None if ok else self.e0())
        # a directly traversed single statement must be in a list taking its counters
        if m.tname not in ('LabeledStmt', 'WithStmt'):
            for mode, x, vis, pl in o.al.visits:
                for y, path in self.single_stmts(x):
                    for e in pl.envs:
                        ok = self.stmt_ok(y, e) or any(v.a[1] is x and v.a[2] is vis and q.kind == 'list' for v, q in o.al.vbs)
                        self.ob('C04', ok, 'single', 'counters of the single statement %s %s' % (
                            txt(y, 100), 'go in front of it' if ok else 'would run outside of it'), None if ok else e)
                        if not ok:
                            break
        for c, pl, errs in o.al.truths:
            a = [x for x in errs if 'truth counter' not in x]
            b = [x for x in errs if 'truth counter' in x]
            self.ob('C04', not a, 'truth', '; '.join(a) or 'operand evaluated once into the temporary before the test', self.e0() if a else None)
            self.ob('C20', not b, 'truth', '; '.join(b) or 'counts truthy values that are not empty only', self.e0() if b else None)
            if a:
                self.ob('C20', False, 'truth', '; '.join(a), self.e0())
            w = [q for cc, q in o.al.cnts if q.kind == 'wrap' and q.path == pl.path and c.a[2] is not None and cc.a[2] is c.a[2]]
            self.ob('C20', len(w) == 1, 'sameoperand', 'truth counter %s belongs to the path counted at .%s' % (txt(c), '.'.join(pl.path)),
                    None if len(w) == 1 else self.e0())
        # several truth counters share one temporary identifier: it must be this file's
        for c, pl, errs in o.al.truths:
            pass

    def single_stmts(self, x):
        """Statement-typed places directly below a traversed value that are not list elements."""
        t = self.P.strip(self.I.ty(x)) if x.k != 'adt' else ('adt', x.a[0], ())
        if t is None or t[0] != 'adt':
            return []
        n = last(t[1])
        if n == 'Stmt' and x.k != 'adt':
            if x.k == 'elem':
                return []
            return [(x, ())]
        out = []
        a = self.P.adts.get(t[1])
        if a is None or a[0] or not t[1].startswith('swc_ecma_ast::') or n in ('LabeledStmt', 'WithStmt'):
            return []
        for i, f in enumerate(a[2][0][2]):
            ft = self.P.strip(f[1])
            opt = ft is not None and ft[0] == 'adt' and ft[1] == OPT
            if opt:
                ft = self.P.strip(ft[2][0])
            if ft is not None and ft[0] == 'adt' and last(ft[1]) == 'Stmt':
                y = x.a[3][i] if x.k == 'adt' else self.I.getp(x, ('f', None, i, f[0]))
                out.append((mk('proj', y, 'Some', 0, '0') if opt and y.k != 'adt' else y.a[3][0] if opt and y.a[3] else y, (f[0],)))
        return out

    def stmt_ok(self, y, e):
        """A statement known to be a block (whose list takes the counters) or absent."""
        if y.k == 'adt':
            return is_adt(y, 'Stmt', 'Block') or is_adt(y, 'Option', 'None')
        if y.k == 'proj' and y.a[1] == 'Some' and e.must(discr(y.a[0]), 0):
            return True
        return self.is_var(e, y, 'Block') if last(self.P.strip(self.I.ty(y))[1]) == 'Stmt' else True

    # -- C05 / C18: what must be registered
    def expected(self, e):
        """List of (kind, fields) for a construct that is not ignored."""
        n = self.m.tname
        R = self.rng
        V = self.V
        out = []
        if n in STMTS:
            if n == 'ExprStmt' and self.not_counted_expr(e):
                return []
            out.append(('s', R(self.f('span'))))
        if n in VALUES:
            v = self.f(VALUES[n])
            if e.must(discr(v), 1):
                x = self.one(v, 'Some')
                if not self.is_var(e, x, 'TaggedTpl'):
                    out.append(('s', R(self.sp(x))))
        if n in ('FnDecl', 'FnExpr', 'ClassMethod', 'MethodProp', 'GetterProp', 'SetterProp'):
            if n != 'FnDecl' and self.ignored_method(e) == 1:
                return []
            fn = ('function',) if n in ('FnDecl', 'FnExpr', 'ClassMethod', 'MethodProp') else ()
            body = self.f(*fn, 'body')
            if e.must(discr(body), 0):
                return []
            br = R(self.f(*fn, 'body', 'Some', 'span'))
            none = mk('adt', OPT, 0, 'None', ())

            def nm(x):
                return mk('adt', OPT, 1, 'Some', (x,))
            if n == 'FnDecl':
                out.append(('f', nm(self.f('ident', 'sym')), R(self.f('ident', 'span')), br))
            elif n == 'FnExpr':
                i = self.f('ident')
                if e.must(discr(i), 1):
                    out.append(('f', nm(self.f('ident', 'Some', 'sym')), R(self.f('ident', 'Some', 'span')), br))
                elif e.must(discr(i), 0):
                    out.append(('f', none, R(self.f('function', 'span')), br))
                else:
                    out.append(('f', None, None, br))
            else:
                k = self.f('key')
                if self.is_var(e, k, 'Ident'):
                    out.append(('f', nm(self.f('key', 'Ident', 'sym')), R(self.f('key', 'Ident', 'span')), br))
                else:
                    out.append(('f', nm(S('anonymous')), (R(self.f('span')) if n in ('GetterProp', 'SetterProp') else R(self.sp(k))), br))
        if n == 'ArrowExpr':
            b = self.f('body')
            out.append(('f', mk('adt', OPT, 0, 'None', ()), R(self.f('span')),
                        R(self.f('body', 'BlockStmt', 'span')) if self.is_var(e, b, 'BlockStmt') else R(self.sp(b))))
        if n == 'IfStmt':
            out.append(('b', 'If', R(self.f('span'))))
            for hint in ('If', 'Else'):
                if not V.must_hint(e, self.own, hint):
                    out.append(('p', None, R(self.f('span'))))
        if n == 'SwitchStmt':
            out.append(('b', 'Switch', R(self.f('span'))))
        if n == 'CondExpr':
            out.append(('b', 'CondExpr', R(self.f('span'))))
            for a in ('cons', 'alt'):
                if not V.must_next(e, self.sc(self.f(a))):
                    out.append(('p', None, R(self.sp(self.f(a)))))
        if n == 'AssignPat':
            out.append(('b', 'DefaultArg', R(self.f('span'))))
            if not V.must_next(e, self.sc(self.f('right'))):
                out.append(('p', None, R(self.sp(self.f('right')))))
        if n == 'BinExpr' and self.logical(e):
            br = self.selfbranch() if 'Vec<Stmt>' not in V.vm.overrides[self.m.vp] else None
            if br is None:
                out.append(('b', 'BinaryExpr', R(self.f('span'))))
            for a in ('left', 'right'):
                x = self.f(a)
                if V.must_next(e, self.sc(x)):
                    continue
                if V.nested_logical(e, x):
                    continue
                out.append(('p', br, R(self.sp(x))))
        if n == 'SwitchCase':
            out.append(('p', self.selfbranch(), R(self.f('span'))))
        return out

    def cases(self, envs):
        """The conditions, told apart by what decides whether there is something to count."""
        n = self.m.tname
        if n in VALUES:
            t, yes = discr(self.f(VALUES[n])), frozenset([1])
        elif n == 'BinExpr':
            op = self.f('op')
            p = self.P.strip(self.I.ty(op))[1]
            t, yes = discr(op), frozenset(self.I.discr_of(p, i) for i, v in enumerate(self.P.adts[p][2]) if v[0] in LOGICAL)
        else:
            return envs
        envs = [x for e in envs for x in (e.add(t, False, yes), e.add(t, True, yes)) if x is not None and self.some(x, t)]
        if n in VALUES:
            # a tagged template is counted where it is visited
            x = self.one(self.f(VALUES[n]), 'Some')
            p = self.P.strip(self.I.ty(x))[1]
            tag = frozenset(self.I.discr_of(p, i) for i, v in enumerate(self.P.adts[p][2]) if v[0] == 'TaggedTpl')
            envs = [y for e in envs for y in ((e,) if not e.must(t, 1) else (e.add(discr(x), False, tag), e.add(discr(x), True, tag)))
                    if y is not None and (not e.must(t, 1) or self.some(y, discr(x)))]
        return envs

    def some(self, e, t):
        """Is a value of the discriminant left?"""
        p = self.P.strip(self.I.ty(t.a[0]))[1]
        return any(e.may(t, self.I.discr_of(p, i)) for i in range(len(self.P.adts[p][2])))

    def logical(self, e):
        op = self.f('op')
        return all(not e.may(discr(op), self.I.discr_of(self.P.strip(self.I.ty(op))[1], i)) or v[0] in LOGICAL
                   for i, v in enumerate(self.P.adts[self.P.strip(self.I.ty(op))[1]][2]))

    def not_counted_expr(self, e):
        """Expression statements without counter: string literals (possible directives) and counters injected before."""
        x = self.f('expr')
        if self.is_var(e, x, 'Lit'):
            l = self.one(x, 'Lit')
            if self.is_var(e, l, 'Str'):
                return True
        for t, (n, v) in e.d.items():
            if t.k == 'eq' and not n and v == frozenset([1]) and 'self.cov_fn_ident' in (brief(t.a[0]), brief(t.a[1])):
                return True
        return False

    def finds(self, p):
        """The nodes a finder stops at."""
        ns = sorted({camel(b.name[6:]) for b in self.P.order if b.impl_trait and last(b.impl_trait) == 'Visit' and b.impl_self is not None
                     and self.P.strip(b.impl_self)[1] == p and b.name.startswith('visit_')})
        return 'has(%s)' % '|'.join(ns) if ns else last(p)

    def finder_text(self, e):
        l = ['%s=%s' % (self.finds(t.a[0]), ''.join(map(str, sorted(v)))) for t, (n, v) in e.d.items() if t.k == 'finds' and not n]
        for t, (n, v) in e.d.items():
            if t.k == 'discr' and t.a[0].k == 'at' and not n and len(v) == 1:
                nt = next((p for p in self.P.adts if last(p) == 'Node' and p.split('::')[0] == INST), None)
                for i, x in enumerate(self.P.adts[nt][2]) if nt else ():
                    if self.I.discr_of(nt, i) in v:
                        l.append('below=' + x[0])
        return ','.join(sorted(set(l)))

    def c05(self):
        o, m = self.o, self.m
        if m.tname not in REQUIRED and m.tname != 'SwitchCase':
            for r in o.regs:
                if r.kind == 's' and self.export_const(r):
                    self.ob('C05', True, 'exportconst', 'export const counted')
                    continue
                self.ob('C05', False, 'extra', '%s%s is counted here' % (r.kind, txt(r.vals)), r.envs[0])
            if m.tname in ('Vec<ModuleItem>', 'Script', 'TsModuleBlock'):
                self.export_missing()
            self.ob('C05', True, 'nocount', 'nothing to count')
            return
        regs = [r for r in o.regs]
        for e in self.cases(o.envs):
            st = self.status(e)
            if st == 'NEXT':
                continue
            want = self.expected(e)
            bid = next((r.id for r in regs if r.kind == 'b'), None)
            left = list(regs)
            missing = []
            for w in want:
                r = next((r for r in left if self.reg_matches(r, w, bid, True)), None)
                if r is None:
                    r = next((r for r in left if self.reg_matches(r, w, bid, False)), None)
                    if r is not None:
                        self.ob('C18', False, 'loc', '%s%s has another location or name than %s' % (r.kind, txt(r.vals), txt(w[1:])), e)
                else:
                    self.ob('C18', True, 'loc', '%s%s' % (r.kind, txt(r.vals)))
                if r is None:
                    missing.append(w)
                else:
                    left.remove(r)
            lab = self.finder_text(e)
            key = 'count' + ('[%s]' % lab if lab and m.tname in VALUES else '')
            self.ob('C05', not missing and not left, key, ('missing: %s; ' % '; '.join('%s%s' % (w[0], txt(tuple(x for x in w[1:] if x is not None))) for w in missing)
                                                           if missing else '') +
                    ('too many: %s' % '; '.join('%s%s' % (r.kind, txt(r.vals)) for r in left) if left else '') or 'counted as required', e if missing or left else None)
            if missing and st == '?' and self.by_hint(e):
                self.ob('C06', False, 'uncounted', '%s is left out without a hint saying so' % txt(tuple(x for x in missing[0] if x is not None)), e)
        # branch paths stand at their own arms, first the consequent
        if m.tname in ('IfStmt', 'CondExpr', 'BinExpr'):
            pos = {}
            for c, pl in o.al.cnts:
                if c.a[0] == 'b' and c.a[2] is not None and c.a[2].k == 'id':
                    pos[pl.path[0]] = c.a[2]
                    if m.tname != 'IfStmt':
                        x = self.f(pl.path[0])
                        r = next((r for r in o.regs if r.id is c.a[2]), None)
                        ok = r is None or r.vals[1] is self.rng(self.sp(x))
                        self.ob('C18', ok, 'arm', 'path at .%s has location %s' % (pl.path[0], txt(r.vals[1]) if r else '?'), None if ok else self.e0())
            a, b = ('cons', 'alt') if m.tname != 'BinExpr' else ('left', 'right')
            if a in pos and b in pos:
                ok = pos[a].a[1] < pos[b].a[1]
                self.ob('C05', ok, 'armorder', 'path %s comes %s path %s' % (a, 'before' if ok else 'behind', b), None if ok else self.e0())

    def reg_matches(self, r, w, bid, strict):
        if r.kind != w[0]:
            return False
        if r.kind == 's':
            return not strict or r.vals[0] is w[1]
        if r.kind == 'f':
            if not strict:
                return True
            return (w[1] is None or self.same_name(r.vals[0], w[1])) and (w[2] is None or r.vals[1] is w[2]) and r.vals[2] is w[3]
        if r.kind == 'b':
            if not (r.vals[0].k == 'adt' and r.vals[0].a[2] == w[1]):
                return False
            return not strict or r.vals[1] is w[2]
        if r.kind == 'p':
            if r.vals[0] is not (w[1] if w[1] is not None else bid):
                return False
            return not strict or r.vals[1] is w[2]

    def same_name(self, a, b):
        return a is b or a.k == 'adt' and b.k == 'adt' and a.a[2] == b.a[2] and (not a.a[3] or a.a[3][0] is b.a[3][0])

    def export_const(self, r):
        """Statement counter of an exported const declaration."""
        v = r.vals[0]
        if v.k != 'app' or v.a[0] != 'range':
            return False
        sp = v.a[1][0]
        if sp.k == 'app' and sp.a[0] == 'span':
            x = sp.a[1][0]
            t = self.P.strip(self.I.ty(x))
            for path, way in (('ModuleItem', ('ModuleDecl', 'ExportDecl')), ('ModuleDecl', ('ExportDecl',))):
                if t is not None and t[0] == 'adt' and last(t[1]) == path:
                    for n, v in enumerate(way):
                        if not all(self.is_var(e, self.f(*way[:n], o=x), v) for e in r.envs):
                            return False
                    x = self.f(*way, o=x)
                    break
        elif sp.k != 'proj' or sp.a[3] != 'span':
            return False
        else:
            x = sp.a[0]
        t = self.P.strip(self.I.ty(x))
        if t is None or t[0] != 'adt' or last(t[1]) != 'ExportDecl':
            return False
        d = self.f('decl', o=x)
        for e in r.envs:
            if not self.is_var(e, d, 'Var'):
                return False
            k = self.f('decl', 'Var', 'kind', o=x)
            if not self.is_var(e, k, 'Const'):
                return False
        return True

    def export_missing(self):
        o = self.o
        for c in o.al.visits:
            mode, x, vis, pl = c
            if x.k != 'elem':
                continue
            for e in pl.envs:
                try:
                    d = self.f('ModuleDecl', o=x)
                    if not (self.is_var(e, x, 'ModuleDecl') and self.is_var(e, d, 'ExportDecl')):
                        continue
                    v = self.f('ModuleDecl', 'ExportDecl', 'decl', o=x)
                    if not self.is_var(e, v, 'Var'):
                        continue
                    k = self.f('ModuleDecl', 'ExportDecl', 'decl', 'Var', 'kind', o=x)
                except AnalysisError:
                    continue
                if not self.is_var(e, k, 'Const') or self.status(e, x) == 'NEXT':
                    continue
                ok = any(r.kind == 's' and self.export_const(r) and any(e.merge(e2) is not None for e2 in r.envs) for r in o.regs)
                self.ob('C05', ok, 'exportconst', 'export const is %scounted' % ('' if ok else 'not '), None if ok else e)

    # -- C06
    def c06(self):
        o, m = self.o, self.m
        V = self.V
        for r in o.regs:
            for e in r.envs:
                el = None
                for t in subterms(mk('tup', r.vals)):
                    if t.k == 'elem':
                        el = t
                st = self.status(e, el)
                self.ob('C06', st == 'LIVE', 'count', '%s%s is counted %s' % (r.kind, txt(r.vals), 'only outside ignored code' if st == 'LIVE' else 'in ignored code'),
                        None if st == 'LIVE' else e)
                if st != 'LIVE':
                    break
                # a hint at the counted expression itself
                sp = self.counted_child(r)
                if sp is not None:
                    ok = not V.may_next(e, sp)
                    self.ob('C06', ok, 'hinted', '%s%s is counted %s' % (r.kind, txt(r.vals), 'only without a hint at it' if ok else 'although a hint stands at it'), None if ok else e)
                    if not ok:
                        break
        for mode, x, vis, pl in o.al.visits:
            S_ = vfield(vis, 'should_ignore')
            if S_ is None:
                self.ob('C06', False, 'scope', '%s does not carry the ignore scope' % last(vis.a[0]), self.e0())
                continue
            el = self.elem_of(pl)
            xb = self.al0.base(x)
            childs = [self.sc(xb)]
            if isinstance(pl.orig, T):
                childs.append(self.sc(pl.orig))
            if m.tname == 'ArrowExpr':
                childs.append(self.sc(self.f('body')))
            for e in pl.envs:
                why = self.scope_ok(e, S_, el, xb, childs)
                self.ob('C06', why is None, 'scope', why or 'scope handed on', e if why else None)
                if why:
                    break

    def counted_child(self, r):
        """The ignore scope of the arm a path was registered for."""
        if r.kind != 'p' or self.m.tname not in ('CondExpr', 'BinExpr', 'AssignPat'):
            return None
        for a in ('cons', 'alt', 'left', 'right'):
            if a not in self.fields():
                continue
            x = self.f(a)
            if any(v is self.rng(self.sp(x)) for v in r.vals if isinstance(v, T)):
                return self.sc(x)
        return None

    def fields(self):
        p = self.P.strip(self.I.ty(self.node))[1]
        return [f[0] for f in self.P.adts[p][2][0][2]]

    def scope_ok(self, e, S_, el, x, childs):
        V = self.V
        st = self.status(e, el)
        if st == 'NEXT' or V.must_next(e, self.sc(x)) or self.hinted_arm(x, e):
            if not V.must_next(e, S_):
                return 'ignored code %s is traversed with scope %s' % (txt(x, 100), txt(S_))
            return None
        own = [s for s in (self.own, self.sc(el) if el is not None else None) if s is not None]
        if st == 'LIVE':
            if S_ in childs:
                return None
            if V.may_next(e, S_):
                return '%s is traversed with the foreign scope %s' % (txt(x, 100), txt(S_))
            return None
        # not decided here: the scope must carry what may still apply
        if V.may_next(e, self.S0) and S_ is not self.S0:
            return 'the enclosing ignore scope is not handed on to %s' % txt(x, 100)
        for s in own:
            if V.may_next(e, s) and S_ is not s and s not in childs:
                if V.must_next(e, S_):
                    continue
                if s is self.own and (self.m.tname in NOHINT or self.m.tname not in HINTED and self.V.vm.plain(self.m.vp, self.m.tname)):
                    continue
                return 'the hint at %s is not handed on to %s' % (txt(s), txt(x, 100))
        if S_ is not self.S0 and S_ not in own and S_ not in childs and V.may_next(e, S_):
            return '%s is traversed with the foreign scope %s' % (txt(x, 100), txt(S_))
        return None

    # -- C08
    def c08(self):
        m = self.m
        ps = [p for p in m.I.panics if self.V.feasible_pc(p.pc)]
        self.ob('C08', not ps, 'abort', '; '.join('%s in %s when %s' % (p.msg, last(p.where), brief_conj(next(iter(p.pc)))[:200]) for p in ps[:3]) or 'no abort')
        self.ob('C08', not m.I.unmodelled, 'modelled', 'calls outside the model: %s' % ', '.join(sorted(map(str, m.I.unmodelled)))[:400] if m.I.unmodelled else 'modelled')

    # -- C17
    def c17(self):
        o, m = self.o, self.m
        for inner, idx, stmt, pl in o.al.inserts:
            if stmt.k != 'cstmt':
                while inner.k == 'vins' and idx in (inner.a[1], self.V.I.lin(1, ((inner.a[1], 1),))):
                    inner, idx = inner.a[0], inner.a[1]
                while inner.k == 'vec' and idx.k == 'len' and inner.a[0] and inner.a[0][-1].k == 'e' and o.al.injected(inner.a[0][-1].a[0]):
                    inner = mk('vec', inner.a[0][:-1])
                    idx = mk('len', inner)
                bad = [e for e in pl.envs if not behind_directives(idx, inner, self.al0, e)]
                self.ob('C17', not bad, 'template', 'the coverage function is inserted at %s' % ('the end of the directives' if not bad else txt(idx)), bad[0] if bad else None)
                continue
            bad = [e for e in pl.envs if not directive_index(idx, inner, self.al0, e)]
            self.ob('C17', not bad, 'insert', 'counter is inserted at %s' % ('the end of the directives' if not bad else txt(idx)), bad[0] if bad else None)
        for c, pl in o.al.cnts:
            if c.a[0] == 'f' and pl.kind == 'list':
                bad = [e for e in pl.envs if not self.no_directives(pl, e)]
                self.ob('C17', not bad, 'first', 'function counter is put in front of the list', bad[0] if bad else None)
        for l, stmt, pl in o.al.front:
            bad = [e for e in pl.envs if not behind_directives(I(0), l, self.al0, e)]
            self.ob('C17', not bad, 'template', 'the coverage function stands in front of the list', bad[0] if bad else None)
        if m.tname == 'ExprStmt':
            for r in o.regs:
                for e in r.envs:
                    x = self.f('expr')
                    may = self.may_var(e, x, 'Lit') and (not self.is_var(e, x, 'Lit') or self.may_var(e, self.one(x, 'Lit'), 'Str'))
                    self.ob('C17', not may, 'directive', 'a directive %s a counter' % ('may get' if may else 'never gets'), e if may else None)
                    if may:
                        break
        if m.tname in ('Vec<Stmt>', 'Vec<ModuleItem>', 'Script'):
            self.ob('C17', True, 'lists', 'list keeps order: ' + str(not o.al.errs))

    def no_directives(self, pl, e):
        """The list the counter is put in front of cannot start with a directive."""
        if self.m.tname == 'ArrowExpr':
            return self.is_var(e, self.f('body'), 'Expr')
        return False

    # -- C19
    def c19(self):
        m = self.m
        n = m.tname
        for o in m.outs:
            self.o = o
            for e in o.envs:
                if self.status(e) == 'NEXT':
                    continue
                v = self.ignored_method(e)
                ts = [t for t in e.d if t.k in ('any', 'contains') and mentions(t, lambda y: y.k == 'proj' and y.a[3] == 'ignore_class_methods')]
                if n in ('FnDecl', 'ArrowExpr'):
                    self.ob('C19', not ts, 'nooption', 'the option %s for this construct' % ('is consulted' if ts else 'plays no role'), e if ts else None)
                    continue
                name = self.method_name(e)
                if name is None:
                    self.ob('C19', not ts, 'noname', 'the option %s for an unnamed construct' % ('is consulted' if ts else 'plays no role'), e if ts else None)
                    continue
                if name == '?':
                    self.ob('C19', False, 'named', 'the name is not looked at', e)
                    continue
                if not ts:
                    body = self.f(*(('function',) if n in ('FnExpr', 'ClassMethod', 'MethodProp') else ()), 'body')
                    ok = not o.regs and not o.al.visits or e.must(discr(body), 0) and not o.regs and not o.al.visits
                    self.ob('C19', ok, 'consulted', 'the option is not consulted', None if ok else e)
                    continue
                want = whole_name_test(ts[0], name)
                self.ob('C19', len(ts) == 1 and want, 'compare', 'compared by %s' % txt(ts[0], 300), None if want else e)
                if v == 1:
                    ok = o.final is self.node and not o.regs and not o.vis and self.unchanged_before()
                    self.ob('C19', ok, 'listed', 'a listed construct is %s' % ('left alone' if ok else 'changed'), None if ok else e)
                elif v == 0:
                    body = self.f(*(('function',) if n in ('FnExpr', 'ClassMethod', 'MethodProp') else ()), 'body')
                    ok = bool(o.vis) and (any(r.kind == 'f' for r in o.regs) or e.must(discr(body), 0))
                    self.ob('C19', ok, 'unlisted', 'an unlisted construct is %s' % ('counted' if ok else 'skipped'), None if ok else e)
                else:
                    self.ob('C19', False, 'decided', 'the option does not decide', e)

    def unchanged_before(self):
        b = self.o.before
        return b is self.m.before0

    def method_name(self, e):
        n = self.m.tname
        if n == 'FnExpr':
            i = self.f('ident')
            return self.f('ident', 'Some', 'sym') if e.must(discr(i), 1) else None if e.must(discr(i), 0) else '?'
        k = self.f('key')
        if self.is_var(e, k, 'Ident'):
            return self.f('key', 'Ident', 'sym')
        return '?' if self.may_var(e, k, 'Ident') else None

    # -- C21
    def c21(self):
        m = self.m
        for o in m.outs:
            self.o = o
            for e in o.envs:
                f = file_ignored(self.node)
                if e.must(f, 1):
                    h = o.st.heap[('H', 'self')]
                    ok = o.final is self.node and not o.regs and not o.vis and not o.decl
                    self.ob('C21', ok, 'ignored', 'an ignored program is %s' % ('left alone' if ok else 'changed'), None if ok else e)
                elif e.must(f, 0):
                    ok = any(v[1] is self.node for v in o.vis)
                    self.ob('C21', ok, 'live', 'a program without the hint is %sinstrumented' % ('' if ok else 'not '), None if ok else e)
                else:
                    self.ob('C21', False, 'asked', 'the file-level hint is not looked at', e)

    # -- C20
    def c20(self):
        m = self.m
        on, off = [], []
        rl = None
        for o in m.outs:
            for e in o.envs:
                t = next((t for t in e.d if t.k == 'proj' and t.a[3] == 'report_logic'), None)
                if t is not None:
                    rl = t
                    (on if e.must(t, 1) else off).append((o, Env({k: v for k, v in e.d.items() if k is not t})))
        if rl is None:
            n = sum(len(o.al.truths) for o in m.outs)
            self.ob('C20', n == 0, 'independent', 'does not depend on logic reporting' if not n else 'counts truth values without logic reporting')
            return
        done = set()
        for a, ea in on:
            for b, eb in off:
                if (a, b) in done or ea.merge(eb) is None:
                    continue
                done.add((a, b))
                ok = self.strip(a.final, rl, a) is self.strip(b.final, rl, b) and self.strip(a.before, rl, a) is self.strip(b.before, rl, b) and \
                    self.regsig(a, rl) == self.regsig(b, rl)
                self.ob('C20', ok, 'same', 'with and without logic reporting: %s' % ('same counters' if ok else 'different counters'), ea if not ok else None)
        for b, eb in off:
            self.ob('C20', not b.al.truths, 'off', 'truth counters without logic reporting' if b.al.truths else 'no truth counters without logic reporting')
        for a, ea in on:
            ps = [c for c, pl in a.al.cnts if c.a[0] == 'b' and pl.kind == 'wrap']
            ok = m.tname != 'BinExpr' or len(a.al.truths) == len(ps)
            self.ob('C20', ok, 'all', '%d of %d operands have a truth counter' % (len(a.al.truths), len(ps)), None if ok else ea)

    def regsig(self, o, rl):
        return sorted((r.kind, str(self.strip(mk('tup', r.vals), rl, o).a)) for r in o.regs)

    def strip(self, t, rl, o):
        """Without truth tests; the branch registration argument `report logic` is the same in both."""
        if t is None:
            return None
        memo = {}
        L = self.L
        me = self

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            if not isinstance(x, T):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if x is rl:
                r = TRUE
            elif is_adt(x, 'Expr', 'Seq') and x.k == 'adt':
                tr = next((pl for c, pl, errs in o.al.truths), None)
                y = None
                for c, pl, errs in o.al.truths:
                    z = Truth(o.al, pl.orig).check(x)
                    if z is not None:
                        y = z[2]
                        break
                r = go(y) if y is not None else mk(x.k, *go(x.a))
            elif x.k == 'id' and x.a[0] == 'b':
                v = x.a[2]
                r = mk('id', 'b', x.a[1], (go(v[0]), go(v[1]), TRUE), x.a[3]) if len(v) == 3 else x
            else:
                na = go(x.a)
                r = x if na == x.a else mk(x.k, *na)
            memo[x] = r
            return r
        return go(t)


# Types whose own leading comment is not a place for a hint (handled by what they contain).
CONTAINERS = ('Script', 'Program', 'TsModuleBlock')
# Constructs whose leading comment is a place for a hint; anything else may be traversed without a look at it.
HINTED = frozenset('''ArrowExpr AssignPat BinExpr BreakStmt ClassDecl ClassMethod ClassProp CondExpr ContinueStmt DebuggerStmt
    DoWhileStmt ExportDecl ExportDefaultDecl Expr ExprStmt FnDecl FnExpr ForInStmt ForOfStmt ForStmt GetterProp IfStmt LabeledStmt
    MethodProp ModuleDecl PrivateProp ReturnStmt SetterProp Stmt SwitchCase SwitchStmt TaggedTpl ThrowStmt TryStmt VarDecl
    VarDeclarator WhileStmt WithStmt'''.split())
NOHINT = ('BlockStmt', 'Script', 'Program', 'TsModuleBlock', 'Vec<Stmt>', 'Vec<ModuleItem>')


def whole_name_test(t, name):
    if t.k == 'contains':
        return name in t.a
    if t.k == 'any':
        pc = t.a[1]
        if len(pc) != 1:
            return False
        c = next(iter(pc))
        if len(c) != 1:
            return False
        (x, n, v), = c
        return x.k == 'eq' and not n and v == frozenset([1]) and (
            x.a[0].k == 'elem' and x.a[1] is name or x.a[1].k == 'elem' and x.a[0] is name)
    return False


def behind_directives(idx, inner, al, e):
    """idx is the number of leading directives of list `inner`, at least one item if there is no directive."""
    if directive_index(idx, inner, al, e):
        return True
    if idx.k == 'max' and I(1) in idx.a:
        return any(directive_index(x, inner, al, e) for x in idx.a)
    if idx.k == 'min':
        # never behind the end of the list
        ls = {mk('len', inner), vlen(al.I, inner)}
        return any(x in ls and behind_directives(y, inner, al, e) for x, y in (idx.a, idx.a[::-1]))
    if idx.k == 'int' and idx.a[0] in (0, 1):
        for t in e.d:
            if t.k == 'len' and t.a[0] is inner and e.must(t, 0):
                return True
            if t.k in ('pre', 'fold', 'found', 'len') and e.must(t, 0) and directive_index(t, inner, al, e):
                return True
            if t.k == 'eq' and I(0) in t.a and e.must(t, 1) and any(directive_index(x, inner, al, e) for x in t.a):
                return True
            if t.k == 'lt' and t.a[0] in (I(0),) and e.must(t, 0) and directive_index(t.a[1], inner, al, e):
                return True
    return False


def directive_index(idx, inner, al, e):
    """idx is the number of leading directives of list `inner`."""
    if inner.k == 'vec' and len(inner.a[0]) == 1 and inner.a[0][0].k == 'sp':
        inner = inner.a[0][0].a[0]
    if idx.k == 'found':
        return idx.a[0] is inner and idx.a[1].a[0] == 'idx' and idx.a[2].k == 'any' and is_not_directive(idx.a[2].a[1]) and e.must(idx.a[2], 1)
    if idx.k == 'len':
        x = idx.a[0]
        x = x.a[0][0].a[0] if x.k == 'vec' and len(x.a[0]) == 1 and x.a[0][0].k == 'sp' else x
        return x is inner and any(y.k == 'any' and y.a[0] is inner and is_not_directive(y.a[1]) and e.must(y, 0) for y in e.d)
    pre = False
    if idx.k == 'pre':
        pre = True
        idx = idx.a[0]
    if idx.k != 'fold':
        return False
    src, mu, init, alts = idx.a
    if src is not inner or init is not I(0):
        return False
    anyt = [t for t in e.d if t.k == 'any' and t.a[0] is inner]
    if len(alts) != 1:
        return False
    pc, val = alts[0]
    if len(pc) != 1:
        return False
    c = next(iter(pc))
    if len(c) != 1:
        return False
    (t, n, v), = c
    if not (t.k == 'bapp' and t.a[0] == 'directive_continue' and not n and v == frozenset([1])):
        return False
    if not (val.k == 'lin' and val.a[0] == 1 and len(val.a[1]) == 1 and val.a[1][0][0] is mu and val.a[1][0][1] == 1):
        return False
    # stops at the first non-directive exactly when there is one
    return pre == any(e.must(x, 1) for x in anyt)


def _leaf_finder(self, fp):
    """The finder answers: is this expression, possibly in parentheses, a logical expression?"""
    r = getattr(self, '_leaf', None)
    if r is None:
        r = self._leaf = {}
    if fp in r:
        return r[fp]
    ok = True
    bs = self.fbodies.get(fp, {})
    if not set(bs) <= {'Expr', 'BinExpr', 'ParenExpr'} or 'Expr' not in bs or 'BinExpr' not in bs:
        ok = False
    else:
        for tn, (b, I_, outs) in self.odd.get(fp, {}).items():
            node = mk('sym', 'node', self.P.strip(b.argty[1]))
            for _, s in outs:
                h = s.heap[('H', 'self')]
                val = h.a[3][0]
                for e in envs_of(s.pc):
                    if tn == 'Expr':
                        ok = ok and self.leaf_expr(fp, node, val, e, I_)
                    elif tn == 'BinExpr':
                        ok = ok and self.leaf_bin(node, val, e, I_)
                    else:
                        ok = False
        if any(tn in self.traps.get(fp, ()) for tn in bs):
            ok = False
    r[fp] = ok
    return ok


def _leaf_expr(self, fp, node, val, e, I_):
    t = self.P.strip(I_.ty(node))
    ds = {v[0]: I_.discr_of(t[1], i) for i, v in enumerate(self.P.adts[t[1]][2])}
    pe = [q for q in self.P.adts if last(q) == 'ParenExpr' and q.startswith('swc_ecma_ast')][0]
    pi = [f[0] for f in self.P.adts[pe][2][0][2]].index('expr')

    def inside(x):
        return self.I.getp(mk('proj', x, 'Paren', 0, '0'), ('f', None, pi, 'expr'))

    if val.k == 'finds':
        # continues into the payload
        if val.a[0] != fp:
            return False
        x = node
        while e.must(discr(x), ds['Paren']):
            if val.a[1] in (inside(x), mk('proj', x, 'Paren', 0, '0')):
                return True
            x = inside(x)
    elif val not in (TRUE, FALSE):
        return False
    # looks through the parentheses itself
    x = node
    n = 0
    while e.must(discr(x), ds['Paren']) and n < 20:
        x = inside(x)
        n += 1
    if e.may(discr(x), ds['Paren']):
        fs = set()
        for t in e.d:
            for y in subterms(t):
                if y.k == 'fold' and self.paren_walk(y, ds['Paren'], (('f', 'Paren', 0, '0'), ('f', None, pi, 'expr')), n):
                    fs.add(y)
        if len(fs) == 1 and discr(x) not in e.d:
            x = next(iter(fs))
        if e.may(discr(x), ds['Paren']):
            return False
    if val.k == 'finds':
        return e.must(discr(x), ds['Bin']) and val.a[1] is mk('proj', x, 'Bin', 0, '0')
    if val is TRUE and not e.must(discr(x), ds['Bin']):
        return False
    if not e.may(discr(x), ds['Bin']):
        return val is FALSE
    return self.leaf_bin(mk('proj', x, 'Bin', 0, '0'), val, e, I_)


def _paren_walk(self, f, d, down, n):
    """The fold goes down from n parentheses below the node as long as it stands on a parenthesized expression."""
    src, mu, init, alts = f.a
    if init is not mk('ref', ('H', 'node'), down * n) or len(alts) != 1:
        return False
    pc, val = alts[0]
    return pc == frozenset([frozenset([(discr(mu), False, frozenset([d]))])]) and val is mk('ref', ('P', mu), down)


def _leaf_bin(self, node, val, e, I_):
    fs = self.P.adts[[q for q in self.P.adts if last(q) == 'BinExpr' and q.startswith('swc_ecma_ast')][0]][2][0][2]
    i = [f[0] for f in fs].index('op')
    op = I_.getp(node, ('f', None, i, 'op'))
    ot = self.P.strip(fs[i][1])
    for i, v in enumerate(self.P.adts[ot[1]][2]):
        d = I_.discr_of(ot[1], i)
        if e.may(discr(op), d) and (val is TRUE) != (v[0] in LOGICAL):
            return False
    return True


def _nested_logical(self, e, x):
    for t, (n, v) in e.d.items():
        if t.k == 'finds' and t.a[1] is x and not n and v == frozenset([1]) and self.leaf_finder(t.a[0]):
            return True
    return False


def _quiet(self, vp, tn, mode):
    """A traversal of this type leaves the waiting counters alone."""
    m = self.methods.get((vp, tn))
    if m is None or mode != 'V':
        return False
    return all(o.before is m.before0 for o in m.outs)


def _feasible_pc(self, pc):
    return any(self.feasible(e) for e in envs_of(pc))


def _idents(self, vp):
    return self._id(vp, 'cov_fn_ident')


def _temps(self, vp):
    return self._id(vp, 'cov_fn_temp_ident')


def _id(self, vp, name):
    key = (vp, name)
    r = self._idm.get(key) if hasattr(self, '_idm') else None
    if not hasattr(self, '_idm'):
        self._idm = {}
    if r is None:
        t = dict((f[0], f[1]) for f in self.P.adts[vp][2][0][2])[name]
        r = {mk('sym', 'self.' + name, t)} | self.derived(name)
        self._idm[key] = r
    return r


def _derived(self, name):
    """The identifier as nested visitors compute it from the file's coverage object."""
    return self._der.get(name, set()) if hasattr(self, '_der') else set()


for _n, _f in (('leaf_finder', _leaf_finder), ('leaf_expr', _leaf_expr), ('leaf_bin', _leaf_bin), ('paren_walk', _paren_walk), ('nested_logical', _nested_logical), ('quiet', _quiet),
               ('feasible_pc', _feasible_pc), ('idents', _idents), ('temps', _temps), ('_id', _id), ('derived', _derived)):
    setattr(Visitors, _n, _f)


def check(ctx, prop):
    V = ctx.visitors = getattr(ctx, 'visitors', None) or Visitors(ctx)
    ctx.constructed = True
    constructors(V)
    for k in sorted(V.methods):
        for m in V.variants[k]:
            MethodRule(V, m).check()
    required(V)
    ctx.notes += ['default traversal of swc_ecma_visit visits every child of a node exactly once',
                 'rustc MIR and the library models describe the executed code']


def required(V):
    ctx = V.ctx
    for vp in V.vps:
        ov = V.vm.overrides[vp]
        if 'Vec<Stmt>' not in ov and 'BlockStmt' not in ov:
            continue      # not a general visitor: uses of it are judged where they are
        for t in REQUIRED:
            ctx.ob('C05', t in ov, 'override:%s:%s' % (last(vp), t), last(vp), '%s is %s' % (t, 'handled' if t in ov else 'not handled'))
        ctx.ob('C05', 'Vec<Stmt>' in ov, 'override:%s:list' % last(vp), last(vp), 'statement lists take the waiting counters')
        ctx.ob('C02', 'Vec<Stmt>' in ov, 'override:%s:list' % last(vp), last(vp), 'statement lists take the waiting counters')


def subst(t, a, b):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x is a:
            return b
        r = memo.get(x)
        if r is None:
            na = go(x.a)
            r = memo[x] = x if na == x.a else mk(x.k, *na)
        return r
    return go(t)


def camel(n):
    return ''.join(x.capitalize() for x in n.split('_'))


def plain_name(t):
    """An identifier made of fixed texts and unsigned numbers only."""
    if t.k == 'str':
        return re.fullmatch(r'[A-Za-z_$][A-Za-z0-9_$]*', t.a[0]) is not None
    if t.k != 'fmt':
        return False
    ps = t.a[0]
    return bool(ps) and ps[0].k == 'str' and plain_name(ps[0]) and all(
        x.k == 'str' and re.fullmatch(r'[A-Za-z0-9_$]*', x.a[0]) or x.k == 'disp' and x.a[0].k in ('hash', 'int') or x.k == 'fmt' and plain_name(x) for x in ps)


def constructors(V):
    """The visitor a caller gets starts clean, and nested visitors compute the same identifiers as it did: both are functions of
    the file's path, which nothing changes afterwards."""
    V._der = {}
    ctx, P = V.ctx, V.P
    F = Fields(ctx)
    pubs = [b for b in P.order if b.kind == 'fn' and b.impl_self is None and b.locals[0] is not None and b.locals[0][0] == 'adt' and b.locals[0][1] == V.main]
    if len(pubs) != 1:
        raise AnalysisError('expected one function creating the instrumenting visitor, found %d' % len(pubs))
    b = pubs[0]
    I_, outs = ctx.run(b)
    for p in ('C01', 'C08'):
        ctx.need_modelled(p, I_, b)
    ctx.ob('C08', not I_.panics, 'abort:' + b.name, b, '; '.join(p.msg for p in I_.panics) or 'no abort')
    cov0 = mk('sym', 'cov0', ('adt', [p for p in P.adts if last(p) == 'SourceCoverage'][0], ()))
    path0 = V.L_lift(F.get(cov0, 'inner', 'path'))
    ids = {}
    for r, s in outs:
        cov = F.get(r, 'cov')
        if cov.k != 'rc':
            raise AnalysisError('the visitor does not share its coverage')
        cv = s.heap[cov.a[0]]
        path = F.get(cv, 'inner', 'path')
        ctx.ob('C01', path.k == 'sym', 'start:path', b, 'coverage starts with path %s' % txt(path))
        ctx.ob('C16', path.k == 'sym' and F.get(r, 'file_path') is path, 'start:path', b, 'coverage and visitor have the same path')
        for n, want in (('before', lambda x: x.k == 'vec' and not x.a[0]), ('nodes', lambda x: x.k == 'vec' and not x.a[0]),
                        ('should_ignore', lambda x: is_adt(x, 'Option', 'None'))):
            x = F.get(r, n)
            for p in ({'before': ('C02', 'C07'), 'nodes': ('C07',), 'should_ignore': ('C06', 'C07')})[n]:
                ctx.ob(p, want(x), 'start:' + n, b, '%s starts as %s' % (n, txt(x)))
        opt = F.get(r, 'instrument_options')
        ctx.ob('C32', opt.k == 'sym', 'start:options', b, 'options reach the visitor as %s' % txt(opt))
        sm, want = V.L_lift(F.get(cv, 'inner', 'input_source_map')), V.L_lift(F.get(opt, 'input_source_map'))
        for p in ('C12', 'C32'):
            ctx.ob(p, sm is want, 'start:source-map', b, "the data's source map is %s" % ("the option's" if sm is want else txt(sm)))
        bt, lo = V.L_lift(F.get(cv, 'inner', 'b_t')), V.L_lift(F.get(opt, 'report_logic'))
        es = [e for e in (envs_of(frozenset(frozenset((V.L_lift(t), n, v) for t, n, v in c) for c in s.pc)))]
        ok = bt.k == 'adt' and all(e.must(lo, int(bt.a[2] == 'Some')) for e in es)
        for p in ('C10', 'C20', 'C32'):
            ctx.ob(p, ok, 'start:b_t', b, 'truth values are %s' % ('kept exactly when the option asks for them' if ok else '%s when %s' % (txt(bt), ' or '.join(e.text()[:200] for e in es))))
        for n in ('cov_fn_ident', 'cov_fn_temp_ident'):
            ids.setdefault(n, set()).add(subst(V.L_lift(F.get(r, n)), path, path0))
        a, c = F.get(r, 'cov_fn_ident'), F.get(r, 'cov_fn_temp_ident')
        ctx.ob('C01', F.get(a, 'sym') is not F.get(c, 'sym'), 'start:idents', b, 'function and temporary have different names')
    for n, l in ids.items():
        ctx.ob('C01', len(l) == 1, 'start:' + n, b, '%s is a function of the path: %s' % (n, ', '.join(map(txt, l))))
        V._der[n] = l
        bad = [t for t in l if not plain_name(F.get(t, 'sym'))]
        ctx.ob('C13', not bad, 'start:%s:name' % n, b, '%s is %s' % (n, 'made of fixed texts and numbers' if not bad else 'made from outside text: %s' % txt(bad[0])))
        ok = all(any(x.k == 'hasher' and any(y is path0 for z in x.a if isinstance(z, tuple) for y in z) for x in subterms(t)) for t in l)
        for p in ('C01', 'C16'):
            ctx.ob(p, ok, 'start:%s:path' % n, b, '%s is named after %s' % (n, 'a hash of the whole path' if ok else ', '.join(map(txt, l))))
    # what the log lines print is left out of the paths above: it neither fails nor changes anything
    for m in P.order:
        if m.path.endswith('::print_node'):
            I_, outs = ctx.run(m)
            ctx.ob('C08', not I_.panics, 'log:' + last(P.strip(m.impl_self)[1]), m, '; '.join(p.msg for p in I_.panics) or 'the log line of every state can be written')
            for r, s in outs:
                ctx.ob('C08', not s.guards, 'log:borrow', m, 'the shared coverage state %s' % ('stays borrowed' if s.guards else 'is not borrowed'))
    # the path of a file's coverage is not changed
    for m in P.order:
        if m.impl_self is None or m.kind != 'method' or not m.argty or m.argty[0][0] != 'ref' or not m.argty[0][1]:
            continue
        t = P.strip(m.impl_self)
        if t[0] != 'adt' or last(t[1]) != 'SourceCoverage' or m.impl_trait is not None or P.strip(m.argty[0]) != t:
            continue
        I_, outs = ctx.run(m)
        for r, s in outs:
            x = F.get(s.heap[('H', 'a0')], 'inner', 'path')
            ok = x is F.get(mk('sym', 'a0', t), 'inner', 'path')
            ctx.ob('C01', ok, 'path:' + m.name, m, 'the path of the file is %s' % ('kept' if ok else txt(x)))
