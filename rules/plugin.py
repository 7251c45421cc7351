"""C31, C32: the plugin's entry point.

The entry point is interpreted abstractly on an arbitrary program and arbitrary metadata. What a run depends on (is there a file
name, a configuration, can it be read, are there patterns, are they valid, do they match, the log options) is enumerated; in each of
these worlds every path the code can take must give what the properties ask for. A path that depends on anything else is reported.
"""
import re

from engine import models
from engine.models import full, seq_segs, to_iter, collect_seq, wr, cellof
from .common import *

STR = ('adt', 'alloc::string::String', ())
LEVELS = ('error', 'warn', 'info', 'debug', 'trace')
OPAQUE_OK = re.compile(r'^(tracing_subscriber::|SubscriberBuilder::|Format::|FmtSpan::|BitOr::bitor$|Layer|TestWriter)')


def wax_any(I_, f, args, st, fr):
    rty = I_.rty
    return [(mk('app', 'any', (v,), rty), s) for v, s in collect_seq(I_, st, to_iter(I_, st, args[0]), fr)]


def is_match(I_, f, args, st, fr):
    return [(mk('bapp', 'matches', (full(I_, st, args[0]), full(I_, st, args[1]))), st)]


def same(I_, f, args, st, fr):
    return [(args[0], st)]


def meta_get(I_, f, args, st, fr):
    return [(mk('app', f.n, tuple(full(I_, st, x) for x in args), I_.rty), st)]


def as_pass(I_, f, args, st, fr):
    return [(mk('app', 'pass', (full(I_, st, args[0]),), I_.rty), st)]


def apply_(I_, f, args, st, fr):
    return [(mk('app', 'applied', (full(I_, st, args[0]), unpass(full(I_, st, args[1]))), I_.rty), st)]


def apply_mut(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    t = I_.P.strip(I_.ty(v))
    if t is None or t[0] != 'adt' or last(t[1]) != 'Program':
        return None
    p = unpass(full(I_, st, args[1]))
    st = st.copy()
    wr(I_, st, cellof(I_, st, args[0]), mk('app', 'applied', (v, p), t))
    return [(UNIT, st)]


def unpass(x):
    while x.k == 'app' and x.a[0] == 'pass':
        x = x.a[1][0]
    return x


def fmt_(I_, f, args, st, fr):
    if args:
        return models.fmt_format(I_, f, args, st, fr)
    return [(mk('app', 'Format', (), I_.rty), st)]


def try_init(I_, f, args, st, fr):
    rty = I_.rty
    st = st.copy()
    st.ev = st.ev + (mk('logging', full(I_, st, args[0])),)
    return [(mk('app', 'try_init', (), rty), st)]


def init(I_, f, args, st, fr):
    st = st.copy()
    st.ev = st.ev + (mk('logging', full(I_, st, args[0])), mk('abort', 'a second run in the same process finds a subscriber installed and aborts'))
    return [(UNIT, st)]


MODELS = {
    'wax::any': wax_any, 'Pattern::is_match': is_match, 'CandidatePath::from': same, 'Path::new': same,
    'TransformPluginProgramMetadata::get_context': meta_get, 'TransformPluginProgramMetadata::get_transform_plugin_config': meta_get,
    'visit::visit_mut_pass': as_pass, 'visit::as_folder': as_pass, 'swc_ecma_ast::apply': apply_, 'Program::apply': apply_,
    'swc_ecma_ast::mutate': apply_mut, 'Program::mutate': apply_mut, 'VisitMutWith::visit_mut_with': apply_mut,
    'fmt::format': fmt_, 'SubscriberBuilder::try_init': try_init, 'SubscriberInitExt::try_init': try_init,
    'SubscriberBuilder::init': init, 'SubscriberInitExt::init': init,
}


def derive(I_, f, args, st, fr):
    return [(mk('app', f.n, tuple(full(I_, st, x) for x in args), I_.rty), st)]


PATHS = {'Utf8TypedPath::' + n: derive for n in ('derive', 'is_windows', 'is_unix', 'with_unix_encoding', 'with_windows_encoding', 'to_path_buf', 'normalize', 'as_str')}
PATHS.update({'str::chars': derive, 'str::split': derive})
PATHS.update({'Utf8TypedPathBuf::' + n: derive for n in ('to_string', 'into_string', 'as_str', 'normalize')})


class Rules:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.norms = {}

    def interp(self, anchors=None):
        I_ = Interp(self.P, anchors=anchors or {})
        I_.logging = True
        I_.models = dict(I_.models)
        I_.models.update(MODELS)
        I_.models.update(PATHS)
        return I_

    # -- functions that give a path with forward slashes only
    def find_norms(self, prop):
        cand = [b for b in self.P.order if b.crate == PLUGIN and not b.exp and b.kind in ('fn', 'method') and len(b.argty) == 1
                and self.stringy(b.argty[0]) and self.stringy(b.locals[0])]
        todo = list(cand)
        why = {}
        while todo:
            done = False
            for b in todo:
                w = self.norm_why(b)
                if w is None:
                    self.norms[b.path] = b
                    todo.remove(b)
                    done = True
                    break
                why[b.path] = w
            if not done:
                break
        for b in self.norms.values():
            self.ctx.ob(prop, True, 'slashes:' + b.name, b, 'the result has forward slashes for every path')
        return {b.path: why[b.path] for b in todo}

    def stringy(self, t):
        t = self.P.strip(t)
        return t is not None and (t == ('prim', 'str') or t[0] == 'adt' and last(t[1]) in ('String', 'Cow'))

    def anchors(self):
        def h(path):
            return lambda I_, f, args, st, fr: [(mk('app', 'slashes:' + path, (full(I_, st, args[0]),), STR), st)]
        return {p: h(p) for p in self.norms}

    def norm_why(self, b):
        a0 = mk('sym', 'a0', ('prim', 'str'))
        t = b.argty[0]
        heap = {('H', 'a0'): a0}
        I_, outs = self.ctx.run(b, interp=self.interp(self.anchors()), args=[mk('ref', ('H', 'a0'), ()) if t[0] == 'ref' else a0], heap=heap)
        if I_.panics:
            return '; '.join(p.msg for p in I_.panics)
        for r, s in outs:
            r = full(I_, s, r)
            for c in s.pc:
                w = self.norm_form(a0, r, c)
                if w:
                    return w + ' when ' + (brief_conj(c) or 'called')
        return None

    def norm_form(self, a0, r, conj):
        facts = {(t, next(iter(v))) for t, n, v in conj if not n and len(v) == 1}
        facts |= {(t, 1 - next(iter(v))) for t, n, v in conj if n and len(v) == 1 and v <= {0, 1}}

        def strip(x):
            while True:
                if x.k == 'fmt' and len(x.a[0]) == 1 and x.a[0][0].k == 'disp':
                    x = x.a[0][0].a[0]
                elif x.k == 'app' and x.a[0] in ('to_string', 'into_string', 'to_path_buf') and len(x.a[1]) == 1:
                    x = x.a[1][0]
                else:
                    return x

        def derived(x):
            return x.k == 'app' and x.a[0] == 'derive' and x.a[1][0] is a0

        def about(n):
            for t, v in facts:
                if n == 'is_windows' and t.k == 'discr' and derived(t.a[0]) and v == 1:      # typed_path::Utf8TypedPath::Windows
                    return True
            return any(t.k in ('app', 'bapp') and t.a[0] == n and derived(t.a[1][0]) and v == 1 for t, v in facts) or \
                any(t.k in ('app', 'bapp') and t.a[0] == ('is_unix' if n == 'is_windows' else 'is_windows') and derived(t.a[1][0]) and v == 0 for t, v in facts)
        r = strip(r)
        if r.k == 'app' and r.a[0] == 'with_unix_encoding' and derived(r.a[1][0]):
            return None if about('is_windows') else 'backslashes of a path that is not a Windows path are kept'
        if r.k == 'app' and r.a[0] == 'str::replace':
            x, fr, to = r.a[1][0], r.a[1][1], r.a[1][2]
            x = strip(x)
            if (x is a0 or derived(x)) and fr in (I(92), S('\\')) and to in (S('/'), I(47)):
                return None
        if self.charwise(r, a0):
            return None
        if r is a0 or derived(r):
            for t, v in facts:
                if t.k == 'bapp' and t.a[0] == 'str::contains' and t.a[1][0] is a0 and t.a[1][1] in (I(92), S('\\')) and v == 0:
                    return None
            return 'the path is kept as it is'
        if r.k == 'app' and r.a[0].startswith('slashes:') and r.a[1][0] is a0:
            return None
        return 'gives %s' % brief(r)[:200]

    def charwise(self, r, a0):
        """Is r the text a0 rebuilt from its characters (or its parts between backslashes) with slashes for backslashes?"""
        def chars(x):
            return x.k == 'app' and x.a[0] == 'chars' and x.a[1][0] is a0

        def alts_ok(alts, el, get):
            seen = set()
            for pc, body in alts:
                x = get(body)
                for c in pc:
                    f = [(n, v) for t, n, v in c]
                    if [t for t, n, v in c] != [el] or f[0][1] != frozenset([92]):
                        return False
                    if x not in ((I(47), S('/')) if not f[0][0] else (el,)):
                        return False
                    seen.add(f[0][0])
            return seen == {True, False}
        if r.k == 'joined' and r.a[1] is S('/'):
            x = r.a[0]
            while x.k == 'vec' and len(x.a[0]) == 1 and x.a[0][0].k in ('sp', 'e'):
                x = x.a[0][0].a[0]
            return x.k == 'app' and x.a[0] == 'split' and x.a[1][0] is a0 and x.a[1][1] in (I(92), S('\\'))
        if r.k == 'joined' and r.a[1] is S('') and r.a[0].k == 'vec' and len(r.a[0].a[0]) == 1:
            g = r.a[0].a[0][0]
            return g.k == 'rep' and chars(g.a[0]) and alts_ok(g.a[1], mk('elem', g.a[0]), lambda s: s[0].a[0] if len(s) == 1 and s[0].k == 'e' else None)
        if r.k == 'fold' and chars(r.a[0]) and r.a[2] is S(''):
            mu = r.a[1]

            def get(x):
                if x.k == 'fmt' and len(x.a[0]) == 2 and x.a[0][0] is mk('disp', mu):
                    y = x.a[0][1]
                    return y.a[0] if y.k == 'disp' else y
            return alts_ok(r.a[3], mk('elem', r.a[0]), get)
        return False

    # -- the entry point
    def run(self, prop):
        ctx, P = self.ctx, self.P
        bad_norms = self.find_norms('C31')
        l = [b for b in P.order if b.crate == PLUGIN and not b.exp and b.kind == 'fn' and len(b.argty) == 2 and [last(P.strip(t)[1]) for t in b.argty
             if P.strip(t)[0] == 'adt'] == ['Program', 'TransformPluginProgramMetadata']]
        if len(l) != 1:
            raise AnalysisError('expected one plugin entry point, found %d' % len(l))
        b = l[0]
        called = [c.path for c in P.order if c.crate == PLUGIN and c.exp and c.name.startswith('__transform_plugin') or c.crate == PLUGIN and '__transform_plugin' in c.path
                  if any(bb['t'].get('t') == 'call' and self.callee(bb) == b.path for bb in c.bbs)]
        for p in ('C31', 'C32'):
            ctx.ob(p, called, 'entry:exported', b, 'called by the exported plugin function %s' % (called[0] if called else '(none)'))
        vis = [c for c in P.order if c.kind == 'fn' and c.crate == INST and c.impl_self is None and c.locals[0] is not None and c.locals[0][0] == 'adt'
               and last(c.locals[0][1]) == 'CoverageVisitor']
        if len(vis) != 1:
            raise AnalysisError('expected one function creating the visitor, found %d' % len(vis))
        anchors = self.anchors()
        anchors[vis[0].path] = lambda I_, f, args, st, fr: [(mk('app', 'visitor', tuple(full(I_, st, x) for x in args), ('adt', 'visitor', ())), st)]
        I_ = self.interp(anchors)
        I_, outs = ctx.run(b, interp=I_)
        un = sorted(k for k in I_.unmodelled if not OPAQUE_OK.search(k))
        for p in ('C31', 'C32'):
            ctx.ob(p, not un, 'entry:modelled', b, 'calls outside the model: ' + ', '.join(un) if un else 'every call modelled')
        ctx.ob('C32', not I_.panics, 'entry:abort', b, '; '.join(p.msg for p in I_.panics) or 'no path aborts')
        for r, s in outs:
            for e in s.ev:
                if e.k == 'abort':
                    ctx.ob('C32', False, 'entry:abort', b, e.a[0])
        self.worlds(I_, b, outs, bad_norms)

    def callee(self, bb):
        v = bb['t'].get('f', {}).get('v', {}) if isinstance(bb['t'].get('f'), dict) else {}
        f = v.get('f')
        return f and (f.res or f.p)

    def worlds(self, I_, b, outs, bad_norms):
        ctx, P = self.ctx, self.P
        F = Fields(ctx)
        prog, meta = mk('sym', 'a0', b.argty[0]), mk('sym', 'a1', b.argty[1])
        gets = {}
        for r, s in outs:
            for x in list(subterms(r)) + [y for c in s.pc for t, n, v in c for y in subterms(t)] + [y for e in s.ev for y in subterms(e)]:
                if x.k == 'app' and x.a[0] in ('get_context', 'get_transform_plugin_config', 'unjson', 'any'):
                    gets.setdefault(x.a[0], set()).add(x)

        def payload(x, v, i):
            return mk('proj', x, v, i, '0')
        some_ = lambda x: I_.getp(x, ('f', 'Some', 0, '0'))
        ok_ = lambda x: I_.getp(x, ('f', 'Ok', 0, '0'))
        name = [x for x in gets.get('get_context', ()) if x.a[1][0] is meta]
        good = len(name) == 1 and len(gets['get_context']) == 1 and x_variant(name[0].a[1][1]) == 'Filename'
        for p in ('C31', 'C32'):
            ctx.ob(p, good, 'entry:filename', b, 'the file name is asked of the compiler' if good else 'context read: %s' % ', '.join(map(brief, gets.get('get_context', ()))))
        conf = list(gets.get('get_transform_plugin_config', ()))
        good2 = len(conf) == 1 and conf[0].a[1][0] is meta
        ctx.ob('C32', good2, 'entry:config', b, 'the configuration is asked of the compiler' if good2 else 'read: %s' % ', '.join(map(brief, conf)))
        if not (good and good2):
            return
        name, conf = name[0], conf[0]
        text = some_(conf)
        js = [x for x in gets.get('unjson', ())]
        good = len(js) == 1 and js[0].a[1][0] is text
        ctx.ob('C32', good, 'entry:parse', b, 'the configuration is parsed as it is' if good else 'parsed: %s' % ', '.join(map(brief, js)))
        if not good:
            return
        read = ok_(js[0])
        dflt = self.default()
        excl = F.get(read, 'unstable_exclude')
        lst = some_(excl)
        lvl, trace = F.get(read, 'instrument_log', 'level'), F.get(read, 'instrument_log', 'enable_trace')
        anys = list(gets.get('any', ()))
        elem = None
        if not anys:
            ctx.ob('C31', False, 'entry:patterns', b, 'the patterns are never compiled')
            return
        norm = None
        for x in anys:
            v = x.a[1][0]
            n = self.pattern_norm(v, lst)
            good = n is not None and len(anys) == 1
            w = 'the patterns compiled are %s' % brief(v)[:300]
            if not good and bad_norms:
                w += '; ' + '; '.join('%s: %s' % kv for kv in bad_norms.items())
            if not ctx.ob('C31', good, 'entry:patterns', b, 'every configured pattern is compiled, with forward slashes' if good else w):
                return
            norm = n
        glob = anys[0]
        lvl_terms = {some_(lvl)}

        def val(t, w):
            """Value of a term facts are about, in a world; None if the world does not settle it."""
            if t.k == 'discr':
                x = t.a[0]
                if x is name:
                    return int(w['name'])
                if x is conf:
                    return int(w['conf'] != 'none')
                if x is js[0]:
                    return int(w['conf'] == 'bad')
                if x is excl:
                    return int(w['excl'] != 'none')
                if x is glob:
                    return int(w['excl'] == 'bad')
                if x is lvl:
                    return int(w['lvl'] is not None)
                if x.k == 'app' and x.a[0] == 'parse_level' and x.a[1][0] in lvl_terms:
                    return int(w['lvl'] not in LEVELS)
            if t is trace:
                return int(w['trace'])
            if t in lvl_terms:
                return w['lvl']
            if t.k == 'eq' and any(y in lvl_terms for y in t.a) and any(y.k == 'str' for y in t.a):
                return int(w['lvl'] == [y for y in t.a if y.k == 'str'][0].a[0])
            if t.k in ('bapp', 'app') and t.a[0] == 'matches':
                g, x = t.a[1]
                want = self.placeholder if not w['name'] else some_(name)
                if g is ok_(glob) and x.k == 'app' and x.a[0] == norm and x.a[1][0] is want:
                    return int(w['excl'] == 'match')
            if t.k == 'len' and t.a[0] is lst:
                return 0 if w['excl'] == 'empty' else 'some'
            return None
        ph = {y for r, s in outs for x in subterms(r) if x.k == 'app' and x.a[0] == 'visitor' for y in x.a[1] if y.k == 'str'}
        self.placeholder = next(iter(ph)) if len(ph) == 1 else S('')
        ctx.ob('C32', len(ph) == 1 and self.placeholder.a[0] != '', 'entry:placeholder', b, 'without a file name: %s' % ', '.join(map(brief, ph)))
        seen_unknown = set()
        checked = 0
        for w in self.all_worlds():
            hit = []
            for r, s in outs:
                for c in s.pc:
                    st, unk = True, None
                    for t, n, v in c:
                        x = val(t, w)
                        if x is None:
                            unk = t
                            continue
                        if x == 'some':
                            if not n and v == frozenset([0]):
                                st = False
                            continue
                        if (x in v) == n:
                            st = False
                            break
                    if not st:
                        continue
                    if unk is not None:
                        if unk not in seen_unknown:
                            seen_unknown.add(unk)
                            for p in ('C31', 'C32'):
                                ctx.ob(p, False, 'entry:depends', b, 'what happens depends on %s' % brief(unk)[:300])
                        continue
                    hit.append((r, s))
            if seen_unknown:
                continue
            desc = ', '.join('%s=%s' % kv for kv in sorted(w.items()))
            if not hit:
                ctx.ob('C31', False, 'entry:no path', b, desc)
                continue
            opts = read if w['conf'] == 'ok' else dflt
            nm = some_(name) if w['name'] else self.placeholder
            for r, s in hit:
                checked += 1
                r = full(I_, s, r)
                if w['excl'] == 'match':
                    ctx.ob('C31', r is prog, 'excluded:untouched', b, 'an excluded file gives %s (%s)' % (brief(r)[:200], desc))
                    continue
                good = r.k == 'app' and r.a[0] == 'applied' and r.a[1][0] is prog
                v = r.a[1][1] if good else None
                good = good and v.k == 'app' and v.a[0] == 'visitor' and len(v.a[1]) == 4
                ctx.ob('C31', good, 'kept:instrumented', b, 'a file that is not excluded gives %s (%s)' % (brief(r)[:200], desc))
                if not good:
                    continue
                sm, cm, op, fn = v.a[1]
                ctx.ob('C32', fn is nm, 'pass:filename', b, 'file name given to the visitor: %s (%s)' % (brief(fn)[:120], desc))
                ctx.ob('C32', op is opts, 'pass:options', b, 'options given to the visitor: %s (%s)' % (brief(op)[:300], desc))
                ctx.ob('C32', sm is F.get(meta, 'source_map'), 'pass:source map', b, 'source map given to the visitor: %s' % brief(sm)[:120])
                ctx.ob('C32', cm is F.get(meta, 'comments'), 'pass:comments', b, 'comments given to the visitor: %s' % brief(cm)[:120])
                logs = [e.a[0] for e in s.ev if e.k == 'logging']
                if w['conf'] == 'ok' and w['lvl'] in LEVELS:
                    good = len(logs) == 1 and self.level_of(logs[0], lvl_terms, w['lvl']) == w['lvl'].upper()
                    ctx.ob('C32', good, 'log:level', b, 'level %s gives %s' % (w['lvl'], brief(logs[0])[:300] if logs else 'no log'))
                    if good:
                        sp = self.spans(logs[0])
                        ctx.ob('C32', sp == w['trace'], 'log:trace', b, 'enableTrace %s gives %s' % (w['trace'], 'spans' if sp else 'no spans'))
                else:
                    ctx.ob('C32', not logs, 'log:off', b, 'no log level gives %s' % (brief(logs[0])[:200] if logs else 'no log'))
        ctx.notes.append('%d worlds of file name, configuration, patterns and log options, %d paths in them.' % (sum(1 for _ in self.all_worlds()), checked))
        ctx.notes.append('wax compiles and matches patterns, and reports invalid ones, as documented; an empty pattern list matches nothing; '
                         'typed_path rewrites Windows paths to forward slashes; swc calls the exported function with the metadata of the file.')

    def all_worlds(self):
        for name in (True, False):
            for conf in ('none', 'bad'):
                yield {'name': name, 'conf': conf, 'excl': 'none', 'lvl': None, 'trace': False}
            for excl in ('none', 'bad', 'empty', 'match', 'other'):
                for lvl in (None, 'something else') + LEVELS:
                    for trace in (True, False):
                        yield {'name': name, 'conf': 'ok', 'excl': excl, 'lvl': lvl, 'trace': trace}

    def default(self):
        p = self.ctx.adt('InstrumentOptions')
        for b in self.P.impls.get(('core::default::Default', 'default'), ()):
            t = self.P.strip(b.impl_self)
            if t[0] == 'adt' and t[1] == p:
                I_, outs = self.ctx.run(b, args=[])
                if len(outs) == 1:
                    return full(I_, outs[0][1], outs[0][0])
        raise AnalysisError('no default for the options')

    def pattern_norm(self, v, lst):
        """The function applied to each pattern of the list, if v is the list of all results."""
        if v.k != 'vec' or len(v.a[0]) != 1:
            return None
        g = v.a[0][0]
        if g.k != 'rep' or g.a[0] is not lst:
            return None
        if len(g.a[1]) != 1:
            return None         # what is compiled depends on the pattern
        pc, segs = g.a[1][0]
        if any(len(c) for c in pc):
            return None
        x = segs[0].a[0] if len(segs) == 1 and segs[0].k == 'e' else None
        if x is not None and x.k == 'app' and x.a[0].startswith('slashes:') and x.a[1][0] is mk('elem', lst):
            return x.a[0]
        return None

    def level_of(self, t, given, name):
        l = [x.a[1][1] for x in subterms(t) if x.k == 'app' and x.a[0] == 'SubscriberBuilder::with_max_level']
        if len(l) == 1 and l[0].k == 'proj' and l[0].a[1] == 'Ok' and l[0].a[0].k == 'app' and l[0].a[0].a[0] == 'parse_level' and l[0].a[0].a[1][0] in given:
            return name.upper()
        return last(l[0].a[0]) if len(l) == 1 and l[0].k == 'const' else None

    def spans(self, t):
        l = [x.a[1][1] for x in subterms(t) if x.k == 'app' and x.a[0] == 'SubscriberBuilder::with_span_events']
        return bool(l) and not (l[0].k == 'const' and last(l[0].a[0]) == 'NONE')


def x_variant(x):
    return x.a[2] if x.k == 'adt' else None


def check(ctx, prop):
    Rules(ctx).run(prop)
