"""What all rules share: the analysed program, obligations, and running one function abstractly."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

import extract  # noqa: E402
from engine.terms import *  # noqa: E402,F401,F403
from engine.mir import Program  # noqa: E402
from engine.interp import Interp, State, Limit  # noqa: E402
from engine.visit import VisitorModel  # noqa: E402
from engine.lift import Lifter, brief, brief_conj  # noqa: E402

INST = 'swc_coverage_instrument'
OX = 'istanbul_oxide'
PLUGIN = 'swc_plugin_coverage'
OPT = 'core::option::Option'


class AnalysisError(Exception):
    """The analysis cannot decide the property on this tree (missing construct, unmodelled code, limit)."""


def last(p):
    return p.split('::')[-1]


class Ob:
    """One proof obligation: rule applied to one construct."""
    __slots__ = ('prop', 'ok', 'key', 'where', 'detail')

    def __init__(self, prop, ok, key, where, detail=''):
        self.prop, self.ok, self.key, self.where, self.detail = prop, bool(ok), key, where, detail


class Ctx:
    def __init__(self):
        self.dir = extract.extract()
        self.P = Program(self.dir, extract.CRATES)
        self._vm = None
        self.L = Lifter(self.P)
        self.obs = []
        self.analysed = set()
        self.paths = 0
        self.notes = []

    @property
    def VM(self):
        if self._vm is None:
            self._vm = VisitorModel(self.P)
        return self._vm

    # -- obligations
    def ob(self, prop, ok, key, where, detail=''):
        if not isinstance(where, str):
            where = self.where(where)
        self.obs.append(Ob(prop, ok, key, where, detail if isinstance(detail, str) else str(detail)))
        return bool(ok)

    def where(self, b):
        sp = b.span
        if isinstance(sp, dict):
            sp = '%s:%s' % (sp.get('f'), sp.get('l'))
        return '%s (%s)' % (b.pretty or b.path, sp)

    # -- finding functions
    def fns(self, crate=None, self_ty=None, name=None, trait=None, kind=('fn', 'method'), pred=None):
        out = []
        for b in self.P.order:
            if b.kind not in kind:
                continue
            if crate and b.crate != crate:
                continue
            if self_ty is not None:
                t = self.P.strip(b.impl_self) if b.impl_self is not None else None
                if t is None or t[0] != 'adt' or last(t[1]) != self_ty:
                    continue
            if name is not None and b.name != name:
                continue
            if trait is not None and (b.impl_trait is None or last(b.impl_trait) != trait):
                continue
            if trait is None and self_ty is not None and b.impl_trait is not None:
                continue
            if pred and not pred(b):
                continue
            out.append(b)
        return out

    def fn(self, **kw):
        l = self.fns(**kw)
        if len(l) != 1:
            raise AnalysisError('expected exactly one function %r, found %d' % (kw, len(l)))
        return l[0]

    def adt(self, name):
        l = [p for p in self.P.adts if last(p) == name and p.split('::')[0] in (INST, OX, PLUGIN)]
        if len(l) != 1:
            raise AnalysisError('expected exactly one type %s, found %d' % (name, len(l)))
        return l[0]

    def tystr(self, t, depth=0):
        if t is None:
            return '?'
        k = t[0]
        if k == 'adt':
            return last(t[1]) + ('<' + ','.join(self.tystr(x) for x in t[2] if not (x[0] == 'adt' and last(x[1]) in ('Global', 'RandomState'))) + '>' if t[2] else '')
        if k == 'ref':
            return '&' + ('mut ' if t[1] else '') + self.tystr(t[2])
        if k == 'tuple':
            return '(' + ','.join(self.tystr(x) for x in t[1]) + ')'
        if k in ('slice',):
            return '[' + self.tystr(t[1]) + ']'
        return str(t[1])

    # -- running
    def run(self, b, interp=None, args=None, heap=None, anchors=None, pc=None, names=None):
        """Abstractly executes body b on symbolic arguments a0, a1, ...; returns (interp, outcomes)."""
        I_ = interp or Interp(self.P, anchors=anchors or {})
        heap = dict(heap or {})
        if args is None:
            args = []
            for i, t in enumerate(b.argty):
                n = names[i] if names else 'a%d' % i
                if t[0] == 'ref':
                    heap[('H', n)] = mk('sym', n, self.P.strip(t))
                    args.append(mk('ref', ('H', n), ()))
                else:
                    args.append(mk('sym', n, t))
        st = State(heap)
        if pc is not None:
            st.pc = pc
        try:
            outs = I_.run_body(b, args, st, 0, {}, ())
        except Limit as ex:
            raise AnalysisError('%s: %s' % (b.pretty or b.path, ex))
        except RecursionError:
            raise AnalysisError('%s: recursion limit' % (b.pretty or b.path))
        self.analysed.add(b.pretty or b.path)
        self.paths += sum(len(s.pc) for _, s in outs)
        self.steps = getattr(self, 'steps', 0) + I_.steps
        return I_, outs

    def need_modelled(self, prop, I_, b):
        return self.ob(prop, not I_.unmodelled, 'modelled:' + (b.pretty or b.path), b,
                       'calls outside the model: ' + ', '.join(sorted(map(str, I_.unmodelled)))[:600] if I_.unmodelled else 'every call modelled')


class Fields:
    """Field access on (partly symbolic) record terms by field name."""

    def __init__(self, ctx):
        self.P = ctx.P
        self.I = Interp(ctx.P)

    def get(self, t, *names):
        for n in names:
            t = self.one(t, n)
        return t

    def one(self, t, n):
        if t.k == 'adt':
            v = self.P.variant(t.a[0], t.a[2])
            for i, f in enumerate(v[1][2]):
                if f[0] == n:
                    return t.a[3][i]
            raise AnalysisError('no field %s in %s' % (n, t.a[0]))
        ty = self.P.strip(self.I.ty(t))
        if ty is None or ty[0] != 'adt':
            raise AnalysisError('field %s of %s' % (n, brief(t)[:80]))
        a = self.P.adts.get(ty[1])
        vs = a[2]
        for vn, _, fs in vs:
            for i, f in enumerate(fs):
                if f[0] == n:
                    return mk('proj', t, vn if a[0] else None, i, n)
        raise AnalysisError('no field %s in %s' % (n, ty[1]))


def conjs(pc):
    """Facts of a path condition as list of dicts term -> (neg, values)."""
    out = []
    for c in pc:
        d = {}
        for t, n, v in c:
            d.setdefault(t, []).append((n, v))
        out.append(d)
    return out


def excl(pc, term, val):
    """True if pc implies term != val on every conjunct."""
    for c in pc:
        ok = False
        for t, n, v in c:
            if t is term and ((not n and val not in v) or (n and val in v)):
                ok = True
        if not ok:
            return False
    return True


def surely(pc, term, val):
    """True if pc implies term == val on every conjunct."""
    for c in pc:
        if not any(t is term and not n and v == frozenset([val]) for t, n, v in c):
            return False
    return True
