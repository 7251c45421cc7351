"""Loads the MIR dumps of the analysed crates into one program model."""
import json
import os
import re


def norm(pp):
    out = []
    d = 0
    for i, c in enumerate(pp):
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or pp[i - 1] != '-'):
            d -= 1
        elif d == 0:
            out.append(c)
    s = re.sub(r'(::)+', '::', ''.join(out)).strip(':')
    return s


BOXES = ('alloc::boxed::Box',)


class Callee:
    __slots__ = ('p', 'pp', 'n', 'trait', 'self', 'impl_self', 'a', 'res', 'ctor', 'key', 'raw')


class Body:
    __slots__ = ('path', 'name', 'kind', 'span', 'args', 'locals', 'names', 'bbs', 'impl_self', 'impl_trait',
                 'impl_trait_args', 'parent', 'upvars', 'pub', 'exp', 'crate', 'rpo', 'loops', 'pretty', 'succ', 'argty')


INST = 'swc_coverage_instrument'


def roles(raw):
    """The analysed crate's own types and fields are known by what they are, not by what they are called: ({type: name the rules
    use}, {(type, field): name the rules use})."""
    d = raw.get(INST)
    if d is None:
        return {}, {}
    T = d['types']
    adts = {a['p']: a for a in d['adts'] if a['p'].split('::')[0] == INST}
    last = lambda p: p.split('::')[-1]

    def show(i):
        t = T[i]
        if t['k'] == 'adt':
            if t['p'] == 'alloc::boxed::Box':
                return show(t['a'][0])
            a = [show(x) for x in t['a'] if not (T[x]['k'] == 'adt' and last(T[x]['p']) in ('Global', 'RandomState'))]
            return t['p'] + ('<' + ','.join(a) + '>' if a else '')
        return t.get('n') or t.get('p') or t['k']
    types, fields = {}, {}

    def called(p, want):
        if last(p) != want:
            types[p] = p[:len(p) - len(last(p))] + want

    def sole(l):
        return l[0] if len(l) == 1 else None
    plain = {p: [v['n'] for v in a['v']] for p, a in adts.items() if a['enum'] and all(not v['f'] for v in a['v'])}
    scope = sole([p for p, vs in plain.items() if sorted(vs) == ['Else', 'If', 'Next']])
    cov = sole([p for p, a in adts.items() if not a['enum'] and any(last(show(t)) == 'FileCoverage' for _, t in a['v'][0]['f'])])
    impls = {}
    for b in d['bodies']:
        if b.get('impl_trait') and 'impl_self' in b and b.get('kind') == 'method':
            t = T[b['impl_self']]
            if t['k'] == 'adt':
                impls.setdefault((last(b['impl_trait']), t['p']), set()).add(b.get('name') or last(b['path']))
    node = None
    vis = [p for t, p in impls if t == 'VisitMut' and p in adts]
    for p in vis:
        a = adts[p]
        by = {}
        for n, t in a['v'][0]['f']:
            by.setdefault(show(t), []).append(n)
        nt = sole([t for t in by if t.startswith('alloc::vec::Vec<') and t[15 + 1:-1] in plain])
        node = nt[16:-1] if nt else node
        want = [(nt, 'nodes'), ('core::option::Option<%s>' % scope, 'should_ignore'), ('alloc::string::String', 'file_path'), ('u32', 'branch')]
        for t, ns in by.items():
            if t.startswith('alloc::vec::Vec<swc_ecma_ast::') and last(t) == 'Stmt>':
                want.append((t, 'before'))
            if last(t.split('<')[0]) in ('Rc', 'Arc') and cov and cov in t:
                want.append((t, 'cov'))
            if last(t) == 'InstrumentOptions':
                want.append((t, 'instrument_options'))
            if t.startswith('swc_ecma_ast::') and last(t) == 'Ident' and len(ns) == 2:
                k = [n for n in ns if 'temp' in n or 'tmp' in n]
                tmp = k[0] if len(k) == 1 else ns[1]
                for n in ns:
                    fields[(p, n)] = 'cov_fn_temp_ident' if n == tmp else 'cov_fn_ident'
        for t, n in want:
            o = sole(by.get(t, []))
            if o:
                fields[(p, o)] = n
    cases = [p for p in vis if 'visit_mut_switch_case' in impls[('VisitMut', p)] and 'branch' in [fields.get((p, n)) for n, _ in adts[p]['v'][0]['f']]]
    for want, l in (('SwitchCaseVisitor', cases),
                    ('LogicalExprVisitor', [p for p in vis if p not in cases and any(fields.get((p, n)) == 'branch' for n, _ in adts[p]['v'][0]['f'])]),
                    ('CoverageVisitor', [p for p in vis if any(fields.get((p, n)) == 'file_path' for n, _ in adts[p]['v'][0]['f'])]),
                    ('StmtVisitor', [p for p in vis if not any(fields.get((p, n)) in ('branch', 'file_path') for n, _ in adts[p]['v'][0]['f'])]),
                    ('IgnoreScope', [scope] if scope else []), ('Node', [node] if node else []), ('SourceCoverage', [cov] if cov else [])):
        if len(l) == 1:
            called(l[0], want)
    if cov:
        o = sole([n for n, t in adts[cov]['v'][0]['f'] if last(show(t)) == 'FileCoverage'])
        if o:
            fields[(cov, o)] = 'inner'
    types = {o: n for o, n in types.items() if n not in adts and sum(x == n for x in types.values()) == 1}
    # a field keeps its own name where the role's name is another field's
    out = {}
    for (p, n), w in fields.items():
        if n != w and w not in [x for x, _ in adts[p]['v'][0]['f'] if fields.get((p, x), x) == x]:
            out[(p, n)] = w
    return types, out


class Program:
    def __init__(self, d, crates):
        self.adts = {}
        self.bodies = {}
        self.order = []
        self._tyc = {}
        texts = {c: open(os.path.join(d, c + '.json')).read() for c in crates}
        raw = {c: json.loads(t) for c, t in texts.items()}
        types, self.fieldnames = roles(raw)
        if types:
            for c, t in texts.items():
                for old, new in types.items():
                    t = re.sub(re.escape(old) + r'(?![A-Za-z0-9_])', new, t)
                raw[c] = json.loads(t)
            _, self.fieldnames = roles(raw)
        for c in crates:
            self._load(c, raw.pop(c))
        self.impls = {}
        for b in self.order:
            if b.impl_trait:
                self.impls.setdefault((b.impl_trait, b.name), []).append(b)
        self._vis = {}

    # -- types ---------------------------------------------------------------------------------
    def _load(self, crate, d):
        types = d['types']
        n = len(types)
        memo = [None] * n

        def ty(i):
            if i is None:
                return None
            r = memo[i]
            if r is not None:
                return r
            t = types[i]
            k = t['k']
            if k == 'adt':
                r = ('adt', t['p'], tuple(ty(x) for x in t['a']))
            elif k == 'ref':
                r = ('ref', t['m'], ty(t['t']))
            elif k == 'ptr':
                r = ('ptr', ty(t['t'])) if 't' in t else ('other', 'ptr')
            elif k == 'tuple':
                r = ('tuple', tuple(ty(x) for x in t['a']))
            elif k == 'slice':
                r = ('slice', ty(t['t']))
            elif k == 'array':
                r = ('array', ty(t['t']), t.get('n'))
            elif k == 'fndef':
                r = ('fndef', callee(t['f']).p)
            elif k == 'closure':
                r = ('closure', t['p'])
            else:
                r = (k, t.get('n') or t.get('p') or '')
            memo[i] = r
            return r

        cmemo = {}

        def callee(f):
            key = json.dumps(f, sort_keys=True)
            c = cmemo.get(key)
            if c is not None:
                return c
            c = Callee()
            c.p = f['p']
            c.pp = f.get('pp', f['p'])
            c.n = f.get('n') or c.p.split('::')[-1]
            c.trait = f.get('trait')
            c.self = ty(f['self']) if 'self' in f else None
            c.impl_self = ty(f['impl_self']) if 'impl_self' in f else None
            c.a = tuple(ty(x) for x in f.get('a', ()))
            c.res = f.get('res')
            c.ctor = {k: v for k, v in f.items() if k.startswith('ctor')} or None
            nm = norm(c.pp).split('::')
            if c.trait:
                c.key = c.trait.split('::')[-1] + '::' + c.n
            else:
                c.key = '::'.join(nm[-2:])
            c.raw = f
            cmemo[key] = c
            return c

        def fix(o):
            if isinstance(o, dict):
                if 'o' in o and o.get('o') == 'k':
                    o['t'] = ty(o['t'])
                    v = o['v']
                    if v['c'] == 'fn':
                        v['f'] = callee(v['f'])
                    if v['c'] == 'named':
                        v['a'] = tuple(ty(x) for x in v.get('a', ()))
                    return
                if o.get('k') == 'f' and (o.get('p'), o.get('n')) in self.fieldnames:
                    o['n'] = self.fieldnames[(o['p'], o['n'])]
                    return
                if o.get('r') == 'cast':
                    o['t'] = ty(o['t'])
                    fix(o['o'])
                    return
                for v in o.values():
                    fix(v)
            elif isinstance(o, list):
                for v in o:
                    fix(v)

        for a in d['adts']:
            vs = []
            for v in a['v']:
                vs.append((v['n'], v.get('d'), tuple((self.fieldnames.get((a['p'], f[0]), f[0]), ty(f[1])) for f in v['f'])))
            if a['p'] not in self.adts:
                self.adts[a['p']] = (a['enum'], tuple(a.get('g', ())), tuple(vs))
        for r in d['bodies']:
            b = Body()
            b.path = r['path']
            b.pretty = r.get('pretty')
            b.name = r.get('name') or r['path'].split('::')[-1]
            b.kind = r['kind']
            b.span = r['span']
            b.args = r['args']
            b.crate = crate
            b.locals = [ty(x) for x in r['locals']]
            b.names = r['names']
            b.impl_self = ty(r['impl_self']) if 'impl_self' in r else None
            b.impl_trait = r.get('impl_trait')
            b.impl_trait_args = tuple(ty(x) for x in r.get('impl_trait_args', ()) or ())
            b.parent = r.get('parent')
            b.upvars = r.get('upvars')
            b.pub = r.get('pub')
            b.exp = r.get('exp')
            fix(r['bbs'])
            # place types are indices used nowhere: drop them
            b.bbs = r['bbs']
            b.rpo = None
            b.argty = b.locals[1:1 + b.args]
            self.bodies[b.path] = b
            self.order.append(b)

    def callees(self, b):
        for bb in b.bbs:
            t = bb['t']
            if t['t'] == 'call' and t['f']['o'] == 'k' and t['f']['v']['c'] == 'fn':
                yield t['f']['v']['f'], t, bb

    # -- types helpers -------------------------------------------------------------------------
    def strip(self, t):
        while t is not None:
            if t[0] == 'adt' and t[1] in BOXES and t[2]:
                t = t[2][0]
            elif t[0] in ('ref',):
                t = t[2]
            else:
                return t
        return t

    def subst(self, t, m):
        if t is None or not m:
            return t
        k = t[0]
        if k == 'param':
            return m.get(t[1], t)
        if k == 'adt':
            return ('adt', t[1], tuple(self.subst(x, m) for x in t[2]))
        if k == 'ref':
            return ('ref', t[1], self.subst(t[2], m))
        if k == 'ptr':
            return ('ptr', self.subst(t[1], m))
        if k == 'tuple':
            return ('tuple', tuple(self.subst(x, m) for x in t[1]))
        if k in ('slice',):
            return ('slice', self.subst(t[1], m))
        if k == 'array':
            return ('array', self.subst(t[1], m), t[2])
        return t

    def unify(self, pat, t, m):
        """One-way match of an impl type against a concrete type."""
        if pat is None or t is None:
            return True
        if pat[0] == 'param':
            if pat[1] in m:
                return True
            m[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] == 'adt':
            return pat[1] == t[1] and all(self.unify(a, b, m) for a, b in zip(pat[2], t[2]))
        if pat[0] == 'ref':
            return self.unify(pat[2], t[2], m)
        if pat[0] == 'tuple':
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, m) for a, b in zip(pat[1], t[1]))
        if pat[0] in ('slice', 'array'):
            return self.unify(pat[1], t[1], m)
        return pat == t

    def variant(self, path, name):
        a = self.adts.get(path)
        if not a:
            return None
        for i, v in enumerate(a[2]):
            if v[0] == name or (not a[0]):
                return i, v
        return None

    def fieldty(self, t, vname, i):
        t = self.strip(t)
        if t is None:
            return None
        if t[0] == 'tuple':
            return t[1][i] if i < len(t[1]) else None
        if t[0] != 'adt':
            return None
        a = self.adts.get(t[1])
        if not a:
            return None
        v = self.variant(t[1], vname)
        if v is None or i >= len(v[1][2]):
            return None
        m = dict(zip(a[1], t[2]))
        return self.subst(v[1][2][i][1], m)

    def elemty(self, t):
        t = self.strip(t)
        if t is None:
            return None
        if t[0] in ('slice', 'array'):
            return t[1]
        if t[0] == 'adt':
            n = t[1].split('::')[-1]
            if n in ('Vec', 'VecDeque', 'HashSet', 'IndexSet', 'BTreeSet') and t[2]:
                return t[2][0]
            if n in ('IndexMap', 'HashMap', 'BTreeMap'):
                return ('tuple', (t[2][0], t[2][1]))
            if n == 'Option' and t[2]:
                return t[2][0]
        return None

    # -- cfg -------------------------------------------------------------------------------------
    def tail_calls(self, b):
        """A function that returns what calling itself gives, and lends nothing of its own to that call, goes round: the call becomes a
        jump to the start with the parameters set."""
        def own(bb):
            t = bb['t']
            if t['t'] != 'call' or t['to'] is None or t['f']['o'] != 'k' or t['f']['v']['c'] != 'fn' or t['d']['p']:
                return False
            f = t['f']['v']['f']
            return (f.res or f.p) == b.path and len(t['a']) == b.args and all(o['o'] == 'k' or not o['p']['p'] for o in t['a'])

        def returned(l, at):
            have = {l}
            for _ in range(len(b.bbs)):
                bb = b.bbs[at]
                for s in bb['s']:
                    if s['s'] in ('live', 'dead', 'nop'):
                        continue
                    if s['s'] != '=' or s['p']['p']:
                        return False
                    v = s['v']
                    if v['r'] == 'use' and v['o']['o'] in ('c', 'm') and not v['o']['p']['p'] and v['o']['p']['l'] in have:
                        have.add(s['p']['l'])
                    elif v['r'] == 'ref' and v['p']['l'] in have and [e['k'] for e in v['p']['p']] == ['deref']:
                        have.add(s['p']['l'])
                    else:
                        return False
                t = bb['t']
                if t['t'] == 'ret':
                    return 0 in have
                if t['t'] not in ('goto', 'drop') or t.get('to') is None:
                    return False
                at = t['to']
            return False
        todo = [bb for bb in b.bbs if own(bb) and returned(bb['t']['d']['l'], bb['t']['to'])]
        if not todo:
            return
        for bb in b.bbs:
            for s in bb['s']:
                if s['s'] == '=' and s['v']['r'] in ('ref', 'raw') and not any(e['k'] == 'deref' for e in s['v']['p']['p']):
                    return
        for bb in todo:
            t = bb['t']
            n = len(b.locals)
            b.locals.extend(b.locals[1:1 + b.args])
            sp = t.get('sp') or b.span
            for i, o in enumerate(t['a']):
                bb['s'].append({'s': '=', 'p': {'l': n + i, 'p': []}, 'v': {'r': 'use', 'o': o}, 'sp': sp})
            for i in range(b.args):
                bb['s'].append({'s': '=', 'p': {'l': 1 + i, 'p': []}, 'v': {'r': 'use', 'o': {'o': 'm', 'p': {'l': n + i, 'p': []}}}, 'sp': sp})
            bb['t'] = {'t': 'goto', 'to': 0}

    def cfg(self, b):
        if b.rpo is not None:
            return
        self.tail_calls(b)
        n = len(b.bbs)
        succ = []
        for bb in b.bbs:
            t = bb['t']
            k = t['t']
            if k in ('goto', 'drop', 'assert', 'other'):
                s = [t['to']] if t.get('to') is not None else []
            elif k == 'switch':
                s = [x[1] for x in t['ts']] + ([t['else']] if t['else'] is not None else [])
            elif k == 'call':
                s = [t['to']] if t['to'] is not None else []
            else:
                s = []
            succ.append(s)
        b.succ = succ
        order = []
        seen = set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    st.append((w, iter(succ[w])))
                    break
            else:
                order.append(v)
                st.pop()
        order.reverse()
        rpo = {v: i for i, v in enumerate(order)}
        preds = {v: [] for v in order}
        for v in order:
            for w in succ[v]:
                preds[w].append(v)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for v in order[1:]:
                ps = [p for p in preds[v] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while rpo[x] > rpo[y]:
                            x = idom[x]
                        while rpo[y] > rpo[x]:
                            y = idom[y]
                if idom.get(v) != x:
                    idom[v] = x
                    ch = True

        def dom(a, v):
            while True:
                if v == a:
                    return True
                if v == 0:
                    return False
                v = idom[v]
        loops = {}
        for v in order:
            for w in succ[v]:
                if dom(w, v):
                    body = loops.setdefault(w, {w})
                    st = [v]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        b.rpo = rpo
        b.loops = loops
