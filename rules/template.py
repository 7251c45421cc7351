"""Rules over the emitted coverage function: C12, C13, C14, C16.

The value analysis gives the syntax tree the instrumenter emits as a term whose leaves are the inputs (path, options, coverage
data).  The tree is read back as JavaScript and decided for every input at once: the object literal is compared with the coverage
data part by part, the registration function is evaluated over the five possible states of the global coverage variable, and
every string and identifier in the tree is traced to its source.
"""
import json

from .common import *
from .align import Env, envs_of, merge_all, discr

AST = 'swc_ecma_ast'
BRANCH_TYPES = {'BinaryExpr': 'binary-expr', 'DefaultArg': 'default-arg', 'If': 'if', 'Switch': 'switch', 'CondExpr': 'cond-expr'}


def txt(t, n=200):
    return brief(t)[:n]


class Bad(Exception):
    pass


class JS:
    """Reads a syntax tree term as JavaScript."""

    def __init__(self, ctx, I_, st):
        self.ctx, self.P, self.I, self.st = ctx, ctx.P, I_, st
        self.F = Fields(ctx)
        self.strs = []      # (value, raw)
        self.nums = []
        self.syms = []      # identifier names
        self.spread = 0

    def d(self, t):
        n = 0
        while t.k == 'ref' and n < 8:
            t = self.I.deepval(self.st, t)
            n += 1
        return t

    def f(self, t, n):
        t = self.d(t)
        if t.k == 'app' and t.a[0] == 'into':
            t = self.into(t)
        if t.k == 'ident':      # BindingIdent around an identifier
            if n == 'id':
                return t.a[0]
            raise Bad('field %s' % n)
        return self.d(self.F.get(t, n))

    def into(self, t):
        x = self.d(t.a[1][0])
        ty = t.a[2]
        n = last(ty[1]) if ty and ty[0] == 'adt' else None
        if n == 'BindingIdent':
            return mk('ident', x)
        if n == 'Str':
            return mk('jsstr', x)
        if n in ('IdentName', 'Bool'):
            return mk('jsname' if n == 'IdentName' else 'jsbool', x)
        return x

    def sym(self, t):
        """The name of an Ident / IdentName / BindingIdent."""
        t = self.d(t)
        if t.k == 'app' and t.a[0] == 'into':
            t = self.into(t)
        if t.k in ('ident', 'jsname'):
            return self.sym(t.a[0])
        n = self.tn(t)
        if n == 'BindingIdent':
            return self.sym(self.f(t, 'id'))
        s = self.f(t, 'sym')
        self.syms.append(s)
        return s

    def tn(self, t):
        t = self.d(t)
        if t.k == 'adt':
            return last(t.a[0])
        ty = self.P.strip(self.I.ty(t))
        return last(ty[1]) if ty is not None and ty[0] == 'adt' else None

    def payload(self, t):
        """Enum value -> (variant, payload)."""
        t = self.d(t)
        if t.k == 'app' and t.a[0] == 'into':
            t = self.into(t)
        if t.k != 'adt':
            raise Bad('unknown syntax %s' % txt(t))
        return t.a[2], (self.d(t.a[3][0]) if t.a[3] else None)

    def opt(self, t):
        v, p = self.payload(t)
        return p if v == 'Some' else None

    def segs(self, t):
        t = self.d(t)
        if t.k == 'vec':
            return t.a[0]
        raise Bad('unknown list %s' % txt(t))

    # -- statements
    def stmt(self, t):
        v, p = self.payload(t)
        if v == 'Stmt' and last(self.d(t).a[0]) == 'ModuleItem':
            return self.stmt(p)
        if v == 'Expr':
            return ('expr', self.expr(self.f(p, 'expr')))
        if v == 'Block':
            return ('block', self.block(p))
        if v == 'If':
            alt = self.opt(self.f(p, 'alt'))
            return ('if', self.expr(self.f(p, 'test')), self.stmt(self.f(p, 'cons')), self.stmt(alt) if alt is not None else None)
        if v == 'Return':
            a = self.opt(self.f(p, 'arg'))
            return ('return', self.expr(a) if a is not None else ('undef',))
        if v == 'Empty':
            return ('block', [])
        if v == 'Decl':
            dv, q = self.payload(p)
            if dv == 'Fn':
                return ('fndecl', self.sym(self.f(q, 'ident')), self.func(self.f(q, 'function')))
            if dv == 'Var':
                out = []
                for s in self.segs(self.f(q, 'decls')):
                    if s.k != 'e':
                        raise Bad('declarators')
                    x = self.d(s.a[0])
                    init = self.opt(self.f(x, 'init'))
                    pv, pp = self.payload(self.f(x, 'name'))
                    if pv == 'Ident':
                        out.append(('bind', self.sym(pp), self.expr(init) if init is not None else None))
                    elif pv == 'Assign' and init is None:
                        lv, lp = self.payload(self.f(pp, 'left'))
                        if lv != 'Ident':
                            raise Bad('pattern')
                        out.append(('bind', self.sym(lp), self.expr(self.f(pp, 'right'))))
                    else:
                        raise Bad('pattern %s' % pv)
                return ('var', out)
        raise Bad('statement %s' % v)

    def block(self, b):
        out = []
        for s in self.segs(self.f(b, 'stmts')):
            if s.k != 'e':
                raise Bad('statement list %s' % txt(s))
            out.append(self.stmt(s.a[0]))
        return out

    def func(self, t):
        for n in ('is_generator', 'is_async'):
            if self.f(t, n) is not FALSE:
                raise Bad(n)
        if self.segs(self.f(t, 'params')):
            raise Bad('parameters')
        b = self.opt(self.f(t, 'body'))
        if b is None:
            raise Bad('no body')
        return ('fn', self.block(b))

    # -- expressions
    def expr(self, t):
        t = self.d(t)
        v, p = self.payload(t)
        if v == 'Paren':
            return self.expr(self.f(p, 'expr'))
        if v == 'Ident':
            return ('id', self.sym(p))
        if v == 'Lit':
            return self.lit(p)
        if v == 'Member':
            return self.member(p)
        if v == 'Call':
            cv, cp = self.payload(self.f(p, 'callee'))
            if cv != 'Expr':
                raise Bad('callee')
            return ('call', self.expr(cp), self.args(self.f(p, 'args')))
        if v == 'New':
            a = self.opt(self.f(p, 'args'))
            return ('new', self.expr(self.f(p, 'callee')), self.args(a) if a is not None else [])
        if v == 'Assign':
            op, _ = self.payload(self.f(p, 'op'))
            if op != 'Assign':
                raise Bad('assignment operator %s' % op)
            return ('assign', self.target(self.f(p, 'left')), self.expr(self.f(p, 'right')))
        if v == 'Bin':
            op, _ = self.payload(self.f(p, 'op'))
            return ('bin', op, self.expr(self.f(p, 'left')), self.expr(self.f(p, 'right')))
        if v == 'Unary':
            op, _ = self.payload(self.f(p, 'op'))
            return ('un', op, self.expr(self.f(p, 'arg')))
        if v == 'Cond':
            return ('cond', self.expr(self.f(p, 'test')), self.expr(self.f(p, 'cons')), self.expr(self.f(p, 'alt')))
        if v == 'Seq':
            return ('seq', [self.expr(s.a[0]) for s in self.segs(self.f(p, 'exprs'))])
        if v == 'Fn':
            return self.func(self.f(p, 'function'))
        if v == 'Object':
            return ('obj', self.props(self.segs(self.f(p, 'props'))))
        if v == 'Array':
            return ('arr', self.elems(self.f(p, 'elems')))
        raise Bad('expression %s' % v)

    def args(self, t):
        out = []
        for s in self.segs(t):
            x = self.d(s.a[0])
            if s.k != 'e' or self.opt(self.f(x, 'spread')) is not None:
                raise Bad('argument')
            out.append(self.expr(self.f(x, 'expr')))
        return out

    def target(self, t):
        v, p = self.payload(t)
        if v == 'Simple':
            v, p = self.payload(p)
        if v == 'Ident':
            return ('id', self.sym(p))
        if v == 'Member':
            return self.member(p)
        raise Bad('assignment target %s' % v)

    def member(self, p):
        o = self.expr(self.f(p, 'obj'))
        v, q = self.payload(self.f(p, 'prop'))
        if v == 'Ident':
            return ('mem', o, ('str', self.sym(q)))
        if v == 'Computed':
            return ('mem', o, self.expr(self.f(q, 'expr')))
        raise Bad('property %s' % v)

    def str(self, p):
        p = self.d(p)
        if p.k == 'app' and p.a[0] == 'into':
            p = self.into(p)
        if p.k == 'jsstr':
            self.strs.append((p.a[0], None))
            return p.a[0]
        v = self.f(p, 'value')
        raw = self.opt(self.f(p, 'raw'))
        self.strs.append((v, raw))
        return v

    def lit(self, t):
        v, p = self.payload(t) if not (self.d(t).k == 'app') else ('', self.d(t))
        if v == '':
            x = self.into(p)
            if x.k == 'jsstr':
                self.strs.append((x.a[0], None))
                return ('str', x.a[0])
            if x.k == 'jsbool':
                return ('bool', x.a[0])
            raise Bad('literal %s' % txt(t))
        if v == 'Str':
            return ('str', self.str(p))
        if v == 'Num':
            if p.k == 'app' and p.a[0] == 'into':
                return ('num', self.d(p.a[1][0]))
            n, raw = self.f(p, 'value'), self.opt(self.f(p, 'raw'))
            if n.k == 'i2f':
                n = n.a[0]
            if n.k == 'app' and n.a[0] in ('into', 'i2f'):
                n = n.a[1][0]
            self.nums.append((n, raw))
            return ('num', n)
        if v == 'Bool':
            x = p
            if x.k == 'app' and x.a[0] == 'into':
                x = x.a[1][0]
            elif x.k == 'adt':
                x = self.f(x, 'value')
            return ('bool', self.d(x))
        if v == 'Null':
            return ('null',)
        raise Bad('literal %s' % v)

    def rep(self, s, one):
        return ('rep', s.a[0], [(pc, [one(x) for x in segs]) for pc, segs in s.a[1]])

    def props(self, segs):
        return [self.prop(s) for s in segs]

    def prop(self, s):
        if s.k == 'rep':
            return self.rep(s, self.prop)
        if s.k != 'e':
            raise Bad('properties %s' % txt(s))
        v, p = self.payload(s.a[0])
        if v != 'Prop':
            raise Bad('spread')
        v, p = self.payload(p)
        if v != 'KeyValue':
            raise Bad('property %s' % v)
        kv, k = self.payload(self.f(p, 'key'))
        if kv == 'Ident':
            key = self.sym(k)
        elif kv == 'Str':
            key = self.str(k)
        else:
            raise Bad('key %s' % kv)
        return ('kv', key, self.expr(self.f(p, 'value')))

    def elems(self, t):
        t = self.d(t)
        if t.k == 'vec':
            return [self.elem(s) for s in t.a[0]]
        raise Bad('elements %s' % txt(t))

    def elem(self, s):
        if s.k == 'rep':
            return self.rep(s, self.elem)
        if s.k != 'e':
            raise Bad('elements %s' % txt(s))
        x = self.opt(s.a[0])
        if x is None:
            raise Bad('hole')
        if self.opt(self.f(x, 'spread')) is not None:
            raise Bad('spread')
        return ('v', self.expr(self.f(x, 'expr')))


# ---------------------------------------------------------------------------------------------- the registration function

class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Obj:
    def __init__(self, props=None, lit=None):
        self.p = dict(props or {})
        self.lit = lit


class Fn:
    def __init__(self, body, env):
        self.body, self.env = body, env


UND = ('undef',)
FCTOR = mk('str', '((function(){}).constructor)')


class Run:
    """Evaluates the emitted function; strings are the terms themselves (equal iff the same term)."""

    def __init__(self, decl):
        self.glob = Obj()
        self.top = {}
        self.steps = 0
        for d in decl:
            if d[0] == 'fndecl':
                self.top[d[1]] = Fn(d[2][1], None)

    def call(self, f):
        if not isinstance(f, Fn):
            raise Bad('calls something that is not a function')
        env = {'': f.env}
        self.hoist(f.body, env)
        try:
            self.block(f.body, env)
        except Ret as r:
            return r.v
        return UND

    def hoist(self, b, env):
        for s in b:
            if s[0] == 'var':
                for x in s[1]:
                    env.setdefault(x[1], UND)
            elif s[0] == 'fndecl':
                env[s[1]] = Fn(s[2][1], env)
            elif s[0] == 'block':
                self.hoist(s[1], env)
            elif s[0] == 'if':
                for y in s[2:]:
                    if y is not None:
                        self.hoist([y], env)

    def scope(self, env, n):
        while env is not None:
            if n in env:
                return env
            env = env['']
        if n in self.top:
            return self.top
        return None

    def block(self, b, env):
        for s in b:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 4000:
            raise Bad('does not end')
        k = s[0]
        if k == 'expr':
            self.ev(s[1], env)
        elif k == 'block':
            self.block(s[1], env)
        elif k == 'var':
            for x in s[1]:
                if x[2] is not None:
                    env[x[1]] = self.ev(x[2], env)
        elif k == 'if':
            if self.truthy(self.ev(s[1], env)):
                self.stmt(s[2], env)
            elif s[3] is not None:
                self.stmt(s[3], env)
        elif k == 'return':
            raise Ret(self.ev(s[1], env))
        elif k == 'fndecl':
            pass
        else:
            raise Bad(k)

    def truthy(self, v):
        if isinstance(v, (Obj, Fn)):
            return True
        if v == UND or v == ('null',):
            return False
        if v[0] == 'bool' and v[1].k == 'int':
            return bool(v[1].a[0])
        if v[0] == 'str' and v[1].k == 'str':
            return bool(v[1].a[0])
        raise Bad('truthiness of %s' % (v,))

    def ev(self, e, env):
        k = e[0]
        if k in ('str', 'num', 'bool', 'null', 'undef'):
            return e
        if k == 'id':
            s = self.scope(env, e[1])
            if s is None:
                if e[1] is S('undefined'):
                    return UND
                if e[1] in (FCTOR, S('Function')):
                    return ('Function',)
                raise Bad('unknown variable %s' % txt(e[1]))
            return s[e[1]]
        if k == 'mem':
            o, p = self.ev(e[1], env), self.ev(e[2], env)
            if not isinstance(o, Obj):
                raise Bad('reads a property of %s' % (o,))
            return o.p.get(self.key(p), UND)
        if k == 'assign':
            t = e[1]
            if t[0] == 'id':
                v = self.ev(e[2], env)
                s = self.scope(env, t[1])
                if s is None:
                    raise Bad('assigns the undeclared variable %s' % txt(t[1]))
                s[t[1]] = v
                return v
            o, p = self.ev(t[1], env), self.ev(t[2], env)
            v = self.ev(e[2], env)
            if not isinstance(o, Obj):
                raise Bad('sets a property of %s' % (o,))
            o.p[self.key(p)] = v
            return v
        if k == 'bin':
            op = e[1]
            a = self.ev(e[2], env)
            if op == 'LogicalOr':
                return a if self.truthy(a) else self.ev(e[3], env)
            if op == 'LogicalAnd':
                return self.ev(e[3], env) if self.truthy(a) else a
            if op == 'NullishCoalescing':
                return self.ev(e[3], env) if a in (UND, ('null',)) else a
            b = self.ev(e[3], env)
            if op in ('EqEqEq', 'NotEqEq', 'EqEq', 'NotEq'):
                eq = a is b or not isinstance(a, (Obj, Fn)) and not isinstance(b, (Obj, Fn)) and a == b
                return ('bool', TRUE if eq == op.startswith('Eq') else FALSE)
            raise Bad('operator %s' % op)
        if k == 'un':
            a = self.ev(e[2], env)
            if e[1] == 'Bang':
                return ('bool', FALSE if self.truthy(a) else TRUE)
            if e[1] == 'Void':
                return UND
            raise Bad('operator %s' % e[1])
        if k == 'cond':
            return self.ev(e[2] if self.truthy(self.ev(e[1], env)) else e[3], env)
        if k == 'seq':
            v = UND
            for x in e[1]:
                v = self.ev(x, env)
            return v
        if k == 'obj':
            o = Obj(lit=e)
            for p in e[1]:
                if p[0] == 'kv':
                    o.p[p[1]] = self.ev(p[2], env) if p[2][0] not in ('arr',) else p[2]
            return o
        if k == 'arr':
            return Obj(lit=e)
        if k == 'fn':
            return Fn(e[1], env)
        if k == 'new' or k == 'call' and e[1][0] == 'id' and self.scope(env, e[1][1]) is None:
            f = self.ev(e[1], env)
            a = [self.ev(x, env) for x in e[2]]
            if f == ('Function',) and len(a) == 1 and a[0][0] == 'str':
                return ('code', a[0][1])
            raise Bad('constructs %s' % (f,))
        if k == 'call':
            f = self.ev(e[1], env)
            if isinstance(f, tuple) and f[0] == 'code':
                if e[2]:
                    raise Bad('arguments')
                if f[1] is S('return this') or f[1].k == 'fmt' and ''.join(x.a[0] if x.k == 'str' else '?' for x in f[1].a[0]) == 'return this':
                    return self.glob
                raise Bad('runs the code %s' % txt(f[1]))
            if e[2]:
                raise Bad('arguments')
            return self.call(f)
        raise Bad(k)

    def key(self, p):
        if isinstance(p, (Obj, Fn)) or p[0] != 'str':
            raise Bad('property name %s' % (p,))
        return p[1]


def norm_str(t):
    """fmt of constant pieces -> constant."""
    if t.k == 'fmt':
        out = []
        for x in t.a[0]:
            y = x.a[0] if x.k == 'disp' else x
            if y.k == 'fmt':
                y = norm_str(y)
            if y.k == 'str':
                out.append(y)
            elif x.k == 'disp' and y.k == 'fmt':
                out.extend(y.a[0])
            else:
                out.append(x)
        r = []
        for x in out:
            if x.k == 'str' and r and r[-1].k == 'str':
                r[-1] = S(r[-1].a[0] + x.a[0])
            else:
                r.append(x)
        if len(r) == 1 and r[0].k == 'str':
            return r[0]
        if len(r) == 1 and r[0].k == 'disp' and is_string(r[0].a[0]):
            return r[0].a[0]
        return mk('fmt', tuple(r))
    return t


def is_string(t):
    return t.k in ('str', 'fmt')


class Object:
    """C12: compares the emitted literal with the coverage data."""

    def __init__(self, R, js, data, envs):
        self.R, self.js, self.data, self.envs = R, js, data, envs
        self.F = js.F

    def say(self, ok, key, detail, envs=None):
        self.R.ob('C12', ok, 'object:' + key, detail)

    def dict(self, props, where):
        d = {}
        for p in props:
            if p[0] != 'kv':
                self.say(False, where, 'unexpected properties %s' % (str(p)[:200],))
                continue
            k = norm_str(p[1])
            if k.k != 'str':
                self.say(False, where, 'unexpected property name %s' % txt(k))
                continue
            if k.a[0] in d:
                self.say(False, where, 'property %s appears twice' % k.a[0])
            d[k.a[0]] = p[2]
        return d

    def expect(self, e, spec, envs, where):
        """spec: ('str'|'num'|'bool', term) | ('obj', [(name, spec, opt-term)]) | ('map', term, spec(k, v)) | ('list', term, spec(v)) |
        ('optelem', v, spec) | ('type', v)"""
        k = spec[0]
        if k in ('str', 'num', 'bool'):
            ok = e[0] == k and self.same(e[1], spec[1])
            self.say(ok, where, 'is %s' % (txt(spec[1]) if ok else '%s, should be %s' % (str(e)[:200], txt(spec[1]))))
        elif k == 'strs':
            ok = e[0] == 'str' and norm_str(e[1]) is spec[1]
            self.say(ok, where, 'is %s' % (str(e)[:200]))
        elif k == 'type':
            d = discr(spec[1])
            adt = self.js.P.adts[self.js.P.strip(self.js.I.ty(spec[1]))[1]]
            ok, seen = e[0] == 'str', []
            if ok and norm_str(e[1]).k == 'str':
                for env in envs:
                    for vi, (vn, _, _) in enumerate(adt[2]):
                        if env.may(d, self.js.I.discr_of(self.js.P.strip(self.js.I.ty(spec[1]))[1], vi)):
                            seen.append(vn)
                            if BRANCH_TYPES.get(vn) != norm_str(e[1]).a[0]:
                                ok = False
            else:
                ok = False
            self.say(ok, where, 'type of %s is %s' % ('/'.join(sorted(set(seen))), str(e)[:100]))
        elif k == 'obj':
            if e[0] != 'obj':
                self.say(False, where, 'is %s, should be an object' % str(e)[:200])
                return
            d = self.dict(e[1], where)
            want = {}
            for name, sp, present in spec[1]:
                want[name] = sp
                if present is None:
                    if name not in d:
                        self.say(False, where + '.' + name, 'is missing')
                        continue
                    self.expect(d[name], sp, envs, where + '.' + name)
                    continue
                for env in envs:
                    must, may = present(env)
                    if name in d:
                        if not may:
                            self.say(False, where + '.' + name, 'is emitted when absent: %s' % env.text()[:300])
                            break
                    elif must is not False:
                        self.say(False, where + '.' + name, 'is left out when present: %s' % env.text()[:300])
                        break
                else:
                    if name in d:
                        self.expect(d[name], sp, envs, where + '.' + name)
                    else:
                        self.say(True, where + '.' + name, 'left out when absent')
            for name in d:
                if name not in want:
                    self.say(False, where + '.' + name, 'is not part of the coverage format')
        elif k == 'map':
            if e[0] != 'obj' or len(e[1]) != 1 or e[1][0][0] != 'rep':
                self.say(False, where, 'is %s, should have one entry per element of %s' % (str(e)[:200], txt(spec[1])))
                return
            src, alts = e[1][0][1], e[1][0][2]
            ok = src is spec[1]
            self.say(ok, where, 'has one entry per element of %s' % txt(src))
            if not ok:
                return
            kt, vt = mk('ekey', src), mk('eval', src)
            for pc, items in alts:
                es = merge_all(envs, pc)
                if not es:
                    continue
                if len(items) != 1 or items[0][0] != 'kv':
                    self.say(False, where, 'an element of %s gives %d entries when %s' % (txt(src), len(items), es[0].text()[:300]))
                    continue
                _, key, val = items[0]
                ok = norm_str(key) in (mk('fmt', (mk('disp', kt),)), kt)
                self.say(ok, where + '.key', 'entries are named %s' % txt(key))
                self.expect(val, spec[2](vt), es, where + '[]')
        elif k == 'list':
            src = spec[1]
            if e[0] == 'arr' and not e[1] and envs and all(env.must(mk('eq', *sorted((mk('len', src), I(0)), key=str)), 1) for env in envs):
                return
            if e[0] != 'arr' or len(e[1]) != 1 or e[1][0][0] != 'rep':
                self.say(False, where, 'is %s, should have one element per element of %s' % (str(e)[:200], txt(src)))
                return
            ok = e[1][0][1] is src
            self.say(ok, where, 'has one element per element of %s' % txt(e[1][0][1]))
            if not ok:
                return
            for pc, items in e[1][0][2]:
                es = merge_all(envs, pc)
                if not es:
                    continue
                if len(items) != 1 or items[0][0] != 'v':
                    self.say(False, where, 'an element gives %d elements when %s' % (len(items), es[0].text()[:300]))
                    continue
                self.expect(items[0][1], spec[2](mk('elem', src)), es, where + '[]')
        elif k == 'optelem':
            d = discr(spec[1])
            for env in envs:
                if env.may(d, 1) and env.may(d, 0):
                    self.say(False, where, 'does not tell missing from present text')
                elif env.may(d, 1):
                    self.expect(e, ('str', mk('proj', spec[1], 'Some', 0, '0')), [env], where)
                else:
                    self.say(e[0] == 'null', where, 'missing text is %s' % str(e)[:80])
        else:
            raise AnalysisError(k)

    def same(self, a, b):
        return norm_str(a) is norm_str(b)

    def check(self, e, hash_):
        F, c = self.F, self.data
        L = []

        def fld(t, n):
            return F.get(t, n)

        def some(t):
            return mk('proj', t, 'Some', 0, '0')

        def opt(t):
            d = discr(t)

            def present(env):
                return (True if env.must(d, 1) else None if env.may(d, 1) else False), env.may(d, 1)
            return present

        def rng(t):
            def p(x):
                return ('obj', [('line', ('num', fld(x, 'line')), None), ('column', ('num', fld(x, 'column')), None)])
            return ('obj', [('start', p(fld(t, 'start')), None), ('end', p(fld(t, 'end')), None)])

        def func(v):
            return ('obj', [('name', ('str', fld(v, 'name')), None), ('decl', rng(fld(v, 'decl')), None),
                            ('loc', rng(fld(v, 'loc')), None), ('line', ('num', fld(v, 'line')), None)])

        def nonempty(t):
            n = mk('len', t)

            def present(env):
                zero = self.empty(env, n)
                return (False if zero else True), True
            return present

        def branch(v):
            return ('obj', [('loc', rng(some(fld(v, 'loc'))), opt(fld(v, 'loc'))), ('type', ('type', fld(v, 'branch_type')), None),
                            ('locations', ('list', fld(v, 'locations'), rng), nonempty(fld(v, 'locations'))),
                            ('line', ('num', some(fld(v, 'line'))), opt(fld(v, 'line')))])

        def num(v):
            return ('num', v)

        def nums(v):
            return ('list', v, num)

        def text(v):
            return ('str', v)
        ism = fld(c, 'input_source_map')
        m = some(ism)
        bt = fld(c, 'b_t')
        sc = fld(m, 'sources_content')
        spec = ('obj', [
            ('all', ('bool', fld(c, 'all')), None),
            ('path', ('str', fld(c, 'path')), None),
            ('statementMap', ('map', fld(c, 'statement_map'), rng), None),
            ('fnMap', ('map', fld(c, 'fn_map'), func), None),
            ('branchMap', ('map', fld(c, 'branch_map'), branch), None),
            ('s', ('map', fld(c, 's'), num), None),
            ('f', ('map', fld(c, 'f'), num), None),
            ('b', ('map', fld(c, 'b'), nums), None),
            ('bT', ('map', some(bt), nums), opt(bt)),
            ('inputSourceMap', ('obj', [
                ('version', ('num', fld(m, 'version')), None),
                ('file', ('str', some(fld(m, 'file'))), opt(fld(m, 'file'))),
                ('sourceRoot', ('str', some(fld(m, 'source_root'))), opt(fld(m, 'source_root'))),
                ('sources', ('list', fld(m, 'sources'), text), None),
                ('sourcesContent', ('list', some(sc), lambda v: ('optelem', v)), opt(sc)),
                ('names', ('list', fld(m, 'names'), text), None),
                ('mappings', ('str', fld(m, 'mappings')), None)]), opt(ism)),
            ('_coverageSchema', ('any',), None),
            ('hash', ('str', hash_), None)])
        # every field of the data has its place above
        self.expect_any(e, spec)

    def empty(self, env, n):
        for t, (neg, vals) in env.d.items():
            if t is n and not neg and vals == frozenset([0]):
                return True
            if t.k == 'eq' and n in t.a and I(0) in t.a and not neg and vals == frozenset([1]):
                return True
            if t.k == 'lt' and t.a[0] is I(0) and t.a[1] is n and not neg and vals == frozenset([0]):
                return True
            if t.k == 'lt' and t.a[0] is n and t.a[1] is I(1) and not neg and vals == frozenset([1]):
                return True
        return False

    def expect_any(self, e, spec):
        if e[0] == 'obj':
            d = self.dict(e[1], 'coverage')
            s = d.get('_coverageSchema')
            self.say(s is not None and s[0] == 'str' and norm_str(s[1]).k == 'str', 'coverage._coverageSchema', 'schema is %s' % str(s)[:80])
        spec = ('obj', [x for x in spec[1] if x[1] != ('any',)])
        e = (e[0], [p for p in e[1] if not (p[0] == 'kv' and norm_str(p[1]) is S('_coverageSchema'))]) if e[0] == 'obj' else e
        self.expect(e, spec, self.envs, 'coverage')


class Rule:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.where = '?'
        self.seen = set()

    def ob(self, prop, ok, key, detail=''):
        k = (prop, bool(ok), key, detail)
        if k in self.seen:
            return ok
        self.seen.add(k)
        return self.ctx.ob(prop, ok, key, self.where, detail)

    # -- C13
    def string_ok(self, v, raw):
        if raw is None:
            return True
        raw, v = norm_str(raw), norm_str(v)
        if raw.k == 'str':
            return v.k == 'str' and raw.a[0] in ('"%s"' % v.a[0], "'%s'" % v.a[0]) and not set(v.a[0]) & set('"\'\\\n\r\u2028\u2029')
        if raw.k != 'fmt':
            return False
        ps = list(raw.a[0])
        if len(ps) < 2 or ps[0].k != 'str' or ps[-1].k != 'str' or not ps[0].a[0].startswith('"') or not ps[-1].a[0].endswith('"'):
            return False
        ps[0], ps[-1] = S(ps[0].a[0][1:]), S(ps[-1].a[0][:-1])
        ps = [p for p in ps if not (p.k == 'str' and not p.a[0])]
        inner = norm_str(mk('fmt', tuple(ps)))
        if inner is not v and inner is not norm_str(mk('fmt', (mk('disp', v),))):
            return False
        return self.safe(v)

    def safe(self, v):
        """Text that needs no escaping."""
        v = norm_str(v)
        if v.k == 'str':
            return not set(v.a[0]) & set('"\'\\\n\r\u2028\u2029')
        if v.k == 'fmt':
            return all(self.safe(x.a[0] if x.k == 'disp' else x) for x in v.a[0])
        if v.k in ('hash', 'int', 'lin', 'len'):
            return True
        ty = self.P.strip(self.js.I.ty(v))
        if ty is not None and ty[0] == 'prim' and ty[1] not in ('str', 'char'):
            return True
        # the name of a function is an identifier or one of our own texts (checked where functions are registered)
        if v.k == 'proj' and v.a[3] == 'name' and v.a[0].k in ('eval', 'elem'):
            t = self.P.strip(self.js.I.ty(v.a[0]))
            return t is not None and t[0] == 'adt' and last(t[1]) == 'Function'
        return False

    def name_ok(self, s, own):
        s = norm_str(s)
        if s.k == 'str':
            return True
        return s in own


def comment_ok(text, data):
    """The text of a comment cannot contain its end."""
    t = norm_str(text)
    parts = t.a[0] if t.k == 'fmt' else (t,)
    prev = ''
    for i, p in enumerate(parts):
        x = p.a[0] if p.k == 'disp' else p
        if x.k == 'str':
            if '*/' in prev + x.a[0]:
                return False
            prev = x.a[0][-1:] or prev
            continue
        if not (x.k == 'app' and x.a[0] == 'str::replace'):
            return False
        src, pat, rep = x.a[1][:3]
        pat = pat.a[0] if pat.k in ('str',) else chr(pat.a[0]) if pat.k == 'int' else None
        if pat is None or rep.k != 'str':
            return False
        r = rep.a[0]
        if pat == '*/':
            ok = r and '*/' not in r and not r.endswith('*') and not r.startswith('/')
        elif pat == '/':
            ok = r and '*/' not in r and not r.startswith('/')
        elif pat == '*':
            ok = '*' not in r
        else:
            ok = False
        if not ok:
            return False
        # a replaced text may begin with / or end with *
        if prev == '*' or i + 1 < len(parts):
            nx = parts[i + 1] if i + 1 < len(parts) else None
            if prev == '*' or nx is None or nx.k != 'str' or nx.a[0].startswith('/'):
                return False
        prev = '?'
    return True


def hash_covers(h, data):
    """The hash is that of a serialization of the whole data."""
    def whole(x):
        while True:
            if x.k == 'proj' and x.a[1] in ('Ok', 'Some'):
                x = x.a[0]
            elif x.k == 'app' and x.a[0] in ('into', 'str::as_bytes', 'String::as_bytes', 'bytes', 'String::into_bytes'):
                x = x.a[1][0]
            else:
                break
        return x.k == 'app' and x.a[0].startswith('json') and x.a[1] and x.a[1][0] is data
    for x in subterms(h):
        if x.k == 'hasher':
            for y in subterms(x):
                if y.k == 'tup' and any(whole(z) for z in y.a[0]):
                    return True
            for z in x.a:
                if isinstance(z, tuple) and any(isinstance(q, T) and whole(q) for q in z):
                    return True
                if isinstance(z, T) and whole(z):
                    return True
    return False


def check(ctx, prop):
    R = Rule(ctx)
    R.check()


def rule_check(R):
    ctx = R.ctx
    V = ctx.VM
    l = V.anchor_bodies.get('decl', [])
    if len(l) != 1:
        raise AnalysisError('expected one function emitting the coverage function, found %d' % len(l))
    b = l[0]
    R.where = ctx.where(b)
    I_, outs = ctx.run(b)
    for p in ('C12', 'C13', 'C14', 'C16'):
        ctx.need_modelled(p, I_, b)
    # serializing plain data with string or integer keys does not fail
    pan = [p for p in I_.panics if not (p.pc and all(any(t.k == 'discr' and t.a[0].k == 'app' and t.a[0].a[0] == 'json' and not n and v == frozenset([1])
                                                         for t, n, v in c) for c in p.pc))]
    ctx.ob('C08', not pan, 'abort:' + b.name, b, '; '.join(p.msg for p in pan) or 'no abort')
    roots = root_decls(R)
    names(R)
    # templates for the global object
    for args, where in roots:
        R.where = ctx.where(b)
        sub = {}
        for i, a in enumerate(args):
            sub[mk('sym', 'a%d' % i, ctx.P.strip(b.argty[i]))] = a
        for v, s in outs:
            one(R, I_, v, s, b, args)
        debug_comment(R, b, outs, args, R.emitted[args])


def one(R, I_, v, s, b, args):
    ctx = R.ctx
    P = ctx.P
    envs = envs_of(s.pc)
    if not envs:
        return
    js = JS(ctx, I_, s)
    R.js = js
    v = I_.deepval(s, v)
    role = {}
    for i, t in enumerate(b.argty):
        t = P.strip(t)
        n = last(t[1]) if t[0] == 'adt' else t[1]
        role.setdefault(n, []).append(mk('sym', 'a%d' % i, t))
    sub = {}
    for i, t in enumerate(b.argty):
        t = P.strip(t)
        sub[i] = mk('sym', 'a%d' % i, t)
    datas = role.get('FileCoverage', [])
    if len(datas) != 1:
        raise AnalysisError('coverage data argument')
    data = datas[0]
    # the statement that finds the global object, and the function's own name, come in as arguments
    m = {}
    for i, x in sub.items():
        t = P.strip(b.argty[i])
        if t[0] == 'adt' and last(t[1]) in ('Stmt', 'Ident'):
            m[x] = args[i]
    from .visitor import subst
    for x, y in m.items():
        v = subst(v, x, y)
    try:
        d = js.stmt(v)
    except Bad as ex:
        R.ob('C16', False, 'shape', 'the emitted function cannot be read: %s' % ex)
        R.ob('C12', False, 'shape', 'the emitted function cannot be read: %s' % ex)
        R.ob('C14', False, 'shape', 'the emitted function cannot be read: %s' % ex)
        R.ob('C13', False, 'shape', 'the emitted function cannot be read: %s' % ex)
        return
    own = set()
    for i, x in sub.items():
        t = P.strip(b.argty[i])
        if t[0] == 'adt' and last(t[1]) == 'Ident':
            own.add(js.F.get(args[i], 'sym'))
    # C13
    for val, raw in js.strs:
        ok = R.string_ok(val, raw)
        R.ob('C13', ok, 'string:%s' % txt(norm_str(val), 60), 'text %s is %s' % (txt(val), 'emitted as a value' if raw is None else 'needs no escaping' if ok else 'preformatted as %s' % txt(raw)))
    for n, raw in js.nums:
        ok = raw is None or norm_str(raw) in (mk('fmt', (mk('disp', n),)), norm_str(mk('fmt', (mk('disp', n),)))) or n.k == 'int' and norm_str(raw) is S(str(n.a[0]))
        R.ob('C13', ok, 'number:%s' % txt(n, 60), 'number %s is written as %s' % (txt(n), txt(raw) if raw is not None else 'itself'))
        R.ob('C12', ok, 'number:%s' % txt(n, 60), 'number %s is written as %s' % (txt(n), txt(raw) if raw is not None else 'itself'))
    for x in js.syms:
        R.ob('C13', R.name_ok(x, own), 'name:%s' % txt(x, 60), 'identifier %s is %s' % (txt(x), 'ours' if R.name_ok(x, own) else 'made from outside text'))
    ncom = 0
    for e in s.ev:
        if e.k == 'comment':
            ncom += 1
            comment(R, js, e.a[2], data)
        elif e.k == 'evrep':
            R.ob('C13', False, 'comment', 'comments are added in a loop')
    # C16 / C14: behaviour of the function
    if d[0] != 'fndecl':
        R.ob('C16', False, 'function', 'what is emitted is not a function declaration')
        return
    name = d[1]
    R.ob('C16', name in own, 'name', 'the function is named %s' % txt(name))
    strs = [x for x in sub.values() if x.a[1] in (('prim', 'str'), ('adt', 'alloc::string::String', ()))]
    rolevals = {}
    lit = [None]

    def scenario(nm, setup):
        r = Run([d])
        exp = setup(r)
        try:
            v1 = r.call(r.top[name])
            v2 = r.call(r.top[name])
        except Bad as ex:
            return r, None, None, 'cannot be evaluated: %s' % ex
        return r, v1, v2, None
    # which inputs are the variable and the path: found from a first run
    r, v1, v2, err = scenario('first', lambda r: None)
    if err:
        for p in ('C14', 'C16'):
            R.ob(p, False, 'runs', 'the coverage function ' + err)
        return
    ok = isinstance(v1, Obj) and len(r.glob.p) == 1
    var = next(iter(r.glob.p)) if len(r.glob.p) == 1 else None
    store = r.glob.p.get(var)
    ok = ok and isinstance(store, Obj) and len(store.p) == 1
    path = next(iter(store.p)) if ok else None
    ok = ok and store.p[path] is v1
    R.ob('C16', ok, 'stores', 'a first call %s' % ('stores the initial data and returns it' if ok else 'does not leave the returned data in the global variable (globals set: %s)' % ', '.join(map(txt, r.glob.p))))
    R.ob('C16', v2 is v1, 'again', 'a later call returns %s' % ('the stored object' if v2 is v1 else 'something else'))
    if not ok:
        R.ob('C14', False, 'runs', 'the coverage function does not store the data')
        return
    idx = {x: i for i, x in sub.items()}
    R.ob('C16', var in idx and is_option(args[idx[var]], 'coverage_variable') if var in idx else False, 'variable',
         'the data is kept in the global %s' % (txt(args[idx[var]]) if var in idx else txt(var)))
    isown = path in idx and is_path(args[idx[path]]) or path is js.F.get(data, 'path')
    R.ob('C16', isown, 'path', 'the data is kept under %s' % (txt(args[idx[path]]) if path in idx else txt(path)))
    init = v1.lit
    hv = v1.p.get(S('hash'))
    R.ob('C14', hv is not None and hv[0] == 'str', 'hash', 'the data carries its hash')
    if init is None or hv is None or isinstance(hv, Obj) or hv[0] != 'str':
        R.ob('C12', False, 'object', 'no object literal is stored')
        return
    ok = hash_covers(hv[1], data)
    R.ob('C14', ok, 'whole', 'the hash %s' % ('is that of the complete serialized data' if ok else 'is not that of the complete serialized data: %s' % txt(hv[1])))

    def existing(props, others):
        def f(r):
            e = Obj(props)
            st = Obj({path: e})
            st.p.update(others)
            r.glob.p[var] = st
        return f
    H = hv[1]
    other = mk('sym', 'another file', ('prim', 'str'))
    for nm, props, keep in (('same', {S('hash'): ('str', H), S('path'): ('str', path)}, True),
                            ('different', {S('hash'): ('str', mk('sym', 'another hash', ('prim', 'str'))), S('path'): ('str', path)}, False),
                            ('nohash', {S('path'): ('str', path)}, False)):
        oth = Obj()
        r, v1, v2, err = scenario(nm, existing(props, {other: oth}))
        if err:
            R.ob('C14', False, nm, 'with an entry in place the coverage function ' + err)
            continue
        st = r.glob.p[var]
        e0 = st.p.get(path)
        okc = isinstance(e0, Obj) and isinstance(st, Obj)
        kept = okc and e0.lit is None
        R.ob('C14', okc and kept == keep, nm, 'an entry with %s hash is %s' % ({'same': 'the same', 'different': 'another', 'nohash': 'no'}[nm], 'kept' if kept else 'replaced'))
        R.ob('C16', okc and v1 is e0 and v2 is e0, 'returns:' + nm, 'the function returns the stored object')
        R.ob('C16', st.p.get(other) is oth and len(st.p) == 2 and len(r.glob.p) == 1, 'others:' + nm, 'entries of other files stay as they are')
    r = Run([d])
    oth = Obj()
    r.glob.p[var] = Obj({other: oth})
    try:
        v1 = r.call(r.top[name])
        st = r.glob.p[var]
        ok = isinstance(st, Obj) and st.p.get(path) is v1 and st.p.get(other) is oth and isinstance(v1, Obj) and v1.lit is not None
    except Bad as ex:
        ok = False
    R.ob('C14', ok, 'added', 'a file without an entry is added')
    R.ob('C16', ok, 'added', 'a file without an entry is added next to others')
    # C12
    Object(R, js, data, envs).check(init, H)


def comment(R, js, c, data):
    try:
        t = js.f(c, 'text')
        kind = js.payload(js.f(c, 'kind'))[0]
    except (AnalysisError, Bad, AttributeError):
        t, kind = None, None
    ok = t is not None and kind == 'Block' and comment_ok(t, data)
    R.ob('C13', ok, 'comment', 'the debug comment %s' % ('cannot be closed by its content' if ok else 'may be closed by its content: %s' % (txt(t) if t is not None else '?')))
    if ok:
        bad = comment_data(t, data)
        R.ob('C32', not bad, 'comment', bad or 'the debug comment carries the coverage data as JSON')


MARK = '__coverage_data_json_comment__::'


def comment_data(text, data):
    """What is wrong with the data in a comment that cannot be closed early."""
    t = norm_str(text)
    parts = list(t.a[0]) if t.k == 'fmt' else [t]
    parts = [p.a[0] if p.k == 'disp' else p for p in parts]
    pre = ''
    while parts and parts[0].k == 'str':
        pre += parts.pop(0).a[0]
    if not pre.endswith(MARK):
        return 'the debug comment starts with %r: its data is not found' % pre
    if len(parts) > 1 and not all(p.k == 'str' and not p.a[0].strip() for p in parts[1:]) or not parts:
        return 'the debug comment does not end with the data'
    x = parts[0]
    while x.k == 'app' and x.a[0] == 'str::replace':
        src, pat, rep = x.a[1][:3]
        pat = pat.a[0] if pat.k == 'str' else chr(pat.a[0])
        try:
            same = json.loads('"%s"' % rep.a[0]) == pat
        except ValueError:
            same = False
        if not same:
            return 'the data in the debug comment has %r where it should have %r' % (rep.a[0], pat)
        x = src
    while True:
        if x.k == 'proj' and x.a[1] in ('Ok', 'Some'):
            x = x.a[0]
        elif x.k == 'app' and x.a[0] in ('into', 'str::as_str', 'String::as_str', 'unwrap_or_default'):
            x = x.a[1][0]
        else:
            break
    if not (x.k == 'app' and x.a[0].startswith('json') and x.a[1] and (data is None or x.a[1][0] is data)):
        return 'the debug comment carries %s instead of the coverage data' % txt(x)
    return None


def with_args(b, P, args, pc):
    """A path condition of the emitting function in terms of what it is called with."""
    from .visitor import subst
    out = []
    for c in pc:
        e = Env({})
        for t, n, v in c:
            for i, x in enumerate(args):
                t = subst(t, mk('sym', 'a%d' % i, P.strip(b.argty[i])), x)
            if t.k == 'int':
                e = e if (t.a[0] in v) != bool(n) else None
            else:
                e = e.add(t, n, v)
            if e is None:
                break
        if e is not None:
            out.append(e)
    return out


def debug_comment(R, b, outs, args, emitted):
    """C32: the coverage data is repeated in a comment exactly when the option asks for it."""
    ctx = R.ctx
    V = ctx.visitors
    for m, o, envs in emitted:
        opt = V.L_lift(Fields(ctx).get(mk('sym', 'self.instrument_options', dict((f[0], f[1]) for f in ctx.P.adts[m.vp][2][0][2])['instrument_options']), 'debug_initial_coverage_comment'))
        for v, s in outs:
            n = sum(e.k == 'comment' for e in s.ev)
            for c in with_args(b, ctx.P, args, s.pc):
                for e in envs:
                    e = e.merge(c)
                    if e is None or not V.feasible(e):
                        continue
                    k = n + sum(1 for _, es in o.comments if any(e.merge(x) is not None for x in es))
                    ok = k == 1 and e.must(opt, 1) or k == 0 and e.must(opt, 0)
                    ctx.ob('C32', ok, 'comment:' + m.key, m.where, '%d debug comments are added%s' % (k, '' if ok else ' when ' + e.text()[:400]))


def names(R):
    """C13: names recorded for functions are identifiers or our own texts, so they need no escaping where they are emitted."""
    ctx = R.ctx
    V = ctx.visitors

    def name(x):
        if x.k == 'str':
            return not set(x.a[0]) & set('"\'\\\n\r')
        if x.k == 'proj' and x.a[3] == 'sym':
            t = ctx.P.strip(V.I.ty(x.a[0]))
            return t is not None and t[0] == 'adt' and last(t[1]) in ('Ident', 'IdentName', 'BindingIdent')
        return False
    for (vp, tn), ms in sorted(V.variants.items()):
        for m in ms:
            bad, n = None, 0
            for o in m.outs:
                for r in o.regs:
                    if r.kind != 'f':
                        continue
                    n += 1
                    x = r.vals[0]
                    if x.k == 'adt' and last(x.a[0]) == 'Option':
                        if x.a[3] and not name(norm_str(x.a[3][0])):
                            bad = x
                    else:
                        bad = x
            if n:
                ctx.ob('C13', bad is None, 'fnname:' + m.key, m.where, 'function names are identifiers or fixed texts' if bad is None else 'a function is named %s' % txt(bad))


def is_option(t, n):
    return t.k == 'proj' and t.a[3] == n and t.a[0].k == 'sym' and t.a[0].a[0] == 'self.instrument_options'


def is_path(t):
    return t.k == 'sym' and t.a[0] == 'self.file_path' or t.k == 'proj' and t.a[3] == 'path' and t.a[0].k == 'proj' and t.a[0].a[3] == 'inner'


def root_decls(R):
    """(arguments, place) of every emission of the coverage function; checks that programs get it exactly once."""
    from . import visitor
    ctx = R.ctx
    V = visitor.Visitors(ctx) if not hasattr(ctx, 'visitors') else ctx.visitors
    ctx.visitors = V
    if not hasattr(ctx, 'constructed'):
        ctx.constructed = True
        visitor.constructors(V)
    out = {}
    R.emitted = {}
    counts = {}
    for (vp, tn), ms in sorted(V.variants.items()):
        for m in ms:
            cs = set()
            for o in m.outs:
                if o.comments and not o.decl:
                    ctx.ob('C13', False, 'comment:' + m.key, m.where, 'a comment is added where no coverage function is')
                for c, _ in o.comments:
                    comment(R, JS(ctx, m.I, o.st), c, None)
                nd, nc = 0, 0
                for st, pl in o.al.decls:
                    x = st
                    while x.k == 'adt' and len(x.a[3]) == 1 and last(x.a[0]) in ('ModuleItem', 'Stmt'):
                        x = x.a[3][0]
                    if x.k == 'app' and x.a[0] == 'covdecl':
                        nd += 1
                        key = tuple(x.a[1])
                        out.setdefault(key, m.where)
                        R.emitted.setdefault(key, []).append((m, o, pl.envs or o.envs))
                        if tn not in ('Script', 'Module', 'Vec<ModuleItem>', 'Program'):
                            ctx.ob('C16', False, 'place:' + m.key, m.where, 'the coverage function is put into %s' % tn)
                        ctx.ob('C16', len(pl.path) <= 1, 'top:' + m.key, m.where, 'the coverage function stands at the top level')
                        own = V_ident(ctx, vp, 'cov_fn_ident', x.a[1])
                        ctx.ob('C16', own, 'own:' + m.key, m.where, 'the function emitted is %s' % ('the one the counters call' if own else 'not the one the counters call'))
                        fc = [a for a in x.a[1] if mentions(a, lambda y: y.k == 'sym' and y.a[0] == 'cov0')]
                        ctx.ob('C16', bool(fc), 'data:' + m.key, m.where, 'the data emitted is %s' % ("this file's" if fc else 'not the coverage collected'))
                        for a in x.a[1]:
                            t = ctx.P.strip(V.I.ty(a)) if a.k != 'adt' else None
                            if a.k == 'adt' and last(a.a[0]) == 'Option':
                                continue
                    else:
                        nc += 1
                        s = V.ctx.L.covcall(visitor_expr(x))
                        own = s is not None and (s.k == 'sym' and s.a[0] == 'self.cov_fn_ident')
                        ctx.ob('C16', own, 'call:' + m.key, m.where, 'the call emitted is %s' % ("of the file's function" if own else txt(x)))
                if tn == 'Program' and all(e.must(visitor.file_ignored(m.node), 1) for e in o.envs):
                    ctx.ob('C16', nd == nc == 0, 'ignored:' + m.key, m.where, 'an ignored file gets %d functions' % nd)
                    continue
                if nd != len(o.decl):
                    ctx.ob('C16', False, 'lost:' + m.key, m.where, '%d coverage functions are created, %d emitted' % (len(o.decl), nd))
                cs.add((nd, nc))
            if tn in ('Script', 'Module', 'Vec<ModuleItem>', 'Program') and vp == V.main:
                counts.setdefault(tn, set()).update(cs)
            elif cs - {(0, 0)}:
                ctx.ob('C16', False, 'place:' + m.key, m.where, 'the coverage function is put into %s' % tn)
    for chain in (('Program', 'Module', 'Vec<ModuleItem>'), ('Program', 'Script')):
        tot = {(0, 0)}
        for tn in chain:
            tot = {(a + c, b + d) for a, b in tot for c, d in counts.get(tn, {(0, 0)})}
        ctx.ob('C16', tot == {(1, 1)}, 'once:' + chain[1], last(V.main), 'a %s gets (functions, calls): %s' % (chain[1].lower(), sorted(tot)))
    if not out:
        raise AnalysisError('no coverage function is emitted')
    return sorted(out.items(), key=lambda z: z[1])


def visitor_expr(x):
    return x.a[3][[i for i, _ in enumerate(x.a[3])][-1]] if not (x.k == 'adt' and last(x.a[0]) == 'ExprStmt') else x.a[3][1]


def V_ident(ctx, vp, name, args):
    return any(a.k == 'sym' and a.a[0] == 'self.' + name for a in args)


Rule.check = rule_check
