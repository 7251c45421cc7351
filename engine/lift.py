"""Lifting of summary terms to the instrumenter's own vocabulary.

  cnt(kind, id, path|None, ident)      cov_fn().<kind>[id][path]++
  cstmt(cnt)                           the expression statement of a counter
  wrap((cnt..), x)                     (counter, .., x) with or without parentheses
  twrap(cnt, inner)                    (counter, <temp = x, test && truth counter, temp>) of logic reporting

Everything else stays as it is; the rules then talk about these.
"""
from .terms import *

AST = 'swc_ecma_ast'


def last(p):
    return p.split('::')[-1]


def is_adt(t, name, variant=None):
    return t.k == 'adt' and last(t.a[0]) == name and (variant is None or t.a[2] == variant)


def variant_payload(t, name, variant):
    """x of name::variant(x)."""
    if is_adt(t, name, variant) and t.a[3]:
        return t.a[3][0]
    return None


class Lifter:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def field(self, t, fname):
        v = self.P.variant(t.a[0], t.a[2])
        if v is None:
            return None
        for i, f in enumerate(v[1][2]):
            if f[0] == fname:
                return t.a[3][i]
        return None

    def expr(self, t, variant):
        return variant_payload(t, 'Expr', variant)

    def sym_of(self, t):
        """Text of an Ident / IdentName term."""
        if is_adt(t, 'Ident') or is_adt(t, 'IdentName'):
            s = self.field(t, 'sym')
            return s
        return None

    def num(self, t):
        """Number literal expression -> its value term (integers only)."""
        x = self.expr(t, 'Lit')
        if x is None:
            return None
        n = variant_payload(x, 'Lit', 'Num')
        if n is None or not is_adt(n, 'Number'):
            return None
        v = self.field(n, 'value')
        raw = self.field(n, 'raw')
        if raw is not None and not (is_adt(raw, 'Option', 'None')):
            return None
        if v.k == 'app' and v.a[0] == 'i2f' or v.k == 'i2f':
            return v.a[-1] if v.k == 'i2f' else (v.a[1][0] if isinstance(v.a[1], tuple) else v.a[1])
        if v.k == 'flt':
            return v
        return None

    def member(self, t):
        """(object, property) of a member expression (Expr or MemberExpr); property as str term or ('c', expr)."""
        m = t if is_adt(t, 'MemberExpr') else self.expr(t, 'Member')
        if m is None or not is_adt(m, 'MemberExpr'):
            return None
        o = self.field(m, 'obj')
        p = self.field(m, 'prop')
        i = variant_payload(p, 'MemberProp', 'Ident')
        if i is not None:
            s = self.sym_of(i)
            return (o, s) if s is not None else (o, i)
        c = variant_payload(p, 'MemberProp', 'Computed')
        if c is not None and is_adt(c, 'ComputedPropName'):
            return o, ('c', self.field(c, 'expr'))
        return None

    def covcall(self, t):
        """cov_fn() -> the identifier called."""
        c = self.expr(t, 'Call')
        if c is None or not is_adt(c, 'CallExpr'):
            return None
        cal = variant_payload(self.field(c, 'callee'), 'Callee', 'Expr')
        args = self.field(c, 'args')
        if cal is None or not (args.k == 'vec' and not args.a[0]):
            return None
        return self.expr(cal, 'Ident')

    def counter(self, t):
        u = self.expr(t, 'Update')
        if u is None or not is_adt(u, 'UpdateExpr'):
            return None
        op = self.field(u, 'op')
        if not is_adt(op, 'UpdateOp', 'PlusPlus'):
            return None
        arg = self.field(u, 'arg')
        idx = []
        while True:
            m = self.member(arg)
            if m is None:
                return None
            o, p = m
            if isinstance(p, tuple):
                n = self.num(p[1])
                if n is None:
                    return None
                idx.append(n)
                arg = o
                continue
            if p.k != 'str' or not idx or len(idx) > 2:
                return None
            ident = self.covcall(o)
            if ident is None:
                return None
            idx.reverse()
            return mk('cnt', p.a[0], idx[0], idx[1] if len(idx) == 2 else None, ident)

    def lift(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._lift(t)
            self.memo[t] = r
        return r

    def any(self, y):
        if isinstance(y, T):
            return self.lift(y)
        if isinstance(y, tuple):
            return tuple(self.any(z) for z in y)
        if isinstance(y, frozenset):
            return frozenset(self.any(z) for z in y)
        return y

    def _lift(self, t):
        if t.k in ('sym', 'int', 'str', 'proj', 'const', 'id', 'vis', 'dum', 'clo', 'fn'):
            return t
        if t.k == 'adt':
            c = self.counter(t) if t.a[2] == 'Update' else None
            if c is not None:
                return c
            na = tuple(self.lift(x) for x in t.a[3])
            t2 = t if na == t.a[3] else mk('adt', t.a[0], t.a[1], t.a[2], na)
            if is_adt(t2, 'Stmt', 'Expr'):
                es = t2.a[3][0]
                if is_adt(es, 'ExprStmt'):
                    e = self.field(es, 'expr')
                    if e.k == 'cnt':
                        return mk('cstmt', e)
            if is_adt(t2, 'ModuleItem', 'Stmt') and t2.a[3][0].k == 'cstmt':
                return t2.a[3][0]
            if is_adt(t2, 'Expr', 'Paren'):
                pe = t2.a[3][0]
                if is_adt(pe, 'ParenExpr'):
                    e = self.field(pe, 'expr')
                    if e.k in ('wrap', 'twrap'):
                        return e
            if is_adt(t2, 'Expr', 'Seq'):
                se = t2.a[3][0]
                if is_adt(se, 'SeqExpr'):
                    ex = self.field(se, 'exprs')
                    if ex.k == 'vec' and all(s.k == 'e' for s in ex.a[0]) and len(ex.a[0]) >= 2:
                        xs = [s.a[0] for s in ex.a[0]]
                        if all(x.k == 'cnt' for x in xs[:-1]):
                            return mk('wrap', tuple(xs[:-1]), xs[-1])
            return t2
        if t.k in ('rep',):
            return mk('rep', t.a[0], tuple((pc, self.any(segs)) for pc, segs in t.a[1]))
        na = tuple(self.any(x) for x in t.a)
        if na == t.a:
            return t
        r = mk(t.k, *na)
        if r.m is None:
            r.m = t.m
        return r


def brief(t, P=None, d=0):
    """Short rendering of a lifted term for reports."""
    if isinstance(t, tuple):
        return '(' + ', '.join(brief(x, P, d) for x in t) + ')'
    if isinstance(t, frozenset):
        return '{' + ' | '.join(sorted(brief(x, P, d) for x in t)) + '}'
    if not isinstance(t, T):
        return str(t)
    if d > 30:
        return '...'
    k, a = t.k, t.a
    d += 1
    if k == 'cnt':
        return '#%s[%s%s]' % (a[0], brief(a[1], P, d), ',' + brief(a[2], P, d) if a[2] is not None else '')
    if k == 'cstmt':
        return brief(a[0], P, d) + ';'
    if k == 'wrap':
        return '<' + ','.join(brief(c, P, d) for c in a[0]) + ' : ' + brief(a[1], P, d) + '>'
    if k == 'id':
        return '%s%d' % (a[0], a[1])
    if k == 'vis':
        fs = dict((x if isinstance(x, str) else str(x), y) for x, y in a[1])
        si = fs.get('should_ignore')
        return last(a[0])[:5] + '/' + (brief(si, P, d) if isinstance(si, T) else '?')
    if k == 'vb':
        return 'vb(%s %s by %s)' % (a[0], brief(a[1], P, d), brief(a[2], P, d))
    if k in ('V', 'Vc'):
        return k + '<' + brief(a[0], P, d) + ' by ' + brief(a[1], P, d) + '>'
    if k == 'app':
        return a[0] + '(' + ', '.join(brief(x, P, d) for x in (a[1] if isinstance(a[1], tuple) else (a[1],))) + ')'
    if k == 'adt':
        nm = last(a[0]) + ('::' + a[2] if a[2] and a[2] != last(a[0]) else '')
        return nm + ('{' + ', '.join(brief(x, P, d) for x in a[3]) + '}' if a[3] else '')
    if k == 'vec':
        return '[' + ', '.join(brief(x, P, d) for x in a[0]) + ']'
    if k == 'e':
        return brief(a[0], P, d)
    if k == 'sp':
        return '*' + brief(a[0], P, d)
    if k == 'proj':
        return brief(a[0], P, d) + ('@' + a[1] if a[1] else '') + '.' + a[3]
    if k == 'sym':
        return a[0]
    if k == 'int':
        return str(a[0])
    if k == 'str':
        return repr(a[0])
    if k == 'const':
        return a[0]
    if k == 'tup':
        return '(' + ', '.join(brief(x, P, d) for x in a[0]) + ')'
    if k in ('rep', 'evrep'):
        return k + '(' + brief(a[0], P, d) + ': ' + ' / '.join(brief(x, P, d) for _, x in a[1]) + ')'
    if k == 'elem':
        return 'elem'
    return k + '(' + ', '.join(brief(x, P, d) for x in a) + ')'


def brief_conj(c, P=None):
    out = []
    for t, n, v in sorted(c, key=lambda f: str(f[0])):
        out.append('%s%s%s' % (brief(t, P), '!' if n else '=', ','.join(map(str, sorted(v, key=str)))))
    return ' & '.join(out)
