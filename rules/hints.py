"""C06 (spelling and place of hints), C18 (how a span becomes a range), C21 (file-level hint).

The small functions that answer "which hint does this construct carry", "is the file ignored" and "what range is this span"
are summarised as decision tables; each table is evaluated on every class of comments a construct can have.
"""
import itertools

from .common import *
from . import regexlang


class Stuck(Exception):
    pass


class NotThis(Exception):
    """The term is not part of this scenario."""


class Match:
    def __init__(self, word):
        self.word = word


class Scenario:
    """Evaluates terms for one class of inputs. base(term) gives the value of scenario-dependent terms."""

    def __init__(self, base, regexes):
        self.base = base
        self.regexes = regexes
        self.bound = {}

    def ev(self, t):
        r = self.base(t)
        if r is not None:
            return r[0]
        k, a = t.k, t.a
        if k in ('int', 'str'):
            return a[0]
        if k == 'const' and isinstance(a[0], str) and a[0].startswith('"') and a[0].endswith('"') and '\\' not in a[0]:
            return a[0][1:-1]
        if k == 'discr':
            v = self.ev(a[0])
            if v is None:
                return 0
            if isinstance(v, tuple) and v[0] == 'some':
                return 1
            if isinstance(v, tuple) and v[0] == 'enum':
                return v[1]
            raise Stuck(brief(t))
        if k == 'proj':
            if a[1] == 'Some':
                v = self.ev(a[0])
                if not (isinstance(v, tuple) and v[0] == 'some'):
                    raise NotThis(brief(t))
                return v[1]
            v = self.ev(a[0])
            if isinstance(v, dict) and a[3] in v:
                return v[a[3]]
            raise Stuck(brief(t))
        if k == 'adt' and a[0] == OPT:
            return None if a[2] == 'None' else ('some', self.ev(a[3][0]))
        if k == 'elem' or k == 'found' and False:
            if t in self.bound:
                return self.bound[t]
            raise Stuck(brief(t))
        if k == 'any':
            l = self.ev(a[0])
            return int(any(self.holds(a[1], a[0], x) for x in l))
        if k == 'found':
            l = self.ev(a[0])
            pc = a[2].a[1] if a[2].k == 'any' else None
            if pc is None:
                raise Stuck(brief(t))
            for x in l:
                if self.holds(pc, a[0], x):
                    return x
            raise NotThis(brief(t))
        if k == 'eq':
            return int(self.ev(a[0]) == self.ev(a[1]))
        if k == 'lt':
            return int(number(self.ev(a[0])) < number(self.ev(a[1])))
        if k == 'not':
            return int(not self.ev(a[0]))
        if k == 'and':
            return int(all(self.ev(x) for x in a))
        if k == 'or':
            return int(any(self.ev(x) for x in a))
        if k in ('app', 'bapp'):
            n = a[0]
            if n in ('is_match', 'captures'):
                self.regex(a[1][0], n)
                x = self.ev(a[1][1])
                if n == 'is_match':
                    return int(x is not None)
                return None if x is None else ('some', Match(x))
            if n in ('capget', 'capgrp'):
                m = self.ev(a[1][0])
                i = self.ev(a[1][1])
                if i != 1:
                    raise Stuck('capture %s' % i)
                return ('some', m) if n == 'capget' else m
            if n == 'matchstr':
                return self.ev(a[1][0]).word
            if n in ('str::trim', 'str::trim_start', 'str::trim_end'):
                return self.ev(a[1][0])
        raise Stuck(brief(t)[:200])

    def regex(self, r, use):
        if r.k != 'regex' or r.a[0].k != 'str' if r.k == 'regex' and isinstance(r.a[0], T) else r.k != 'regex':
            raise Stuck(brief(r))
        p = r.a[0]
        self.regexes.add((p.a[0] if isinstance(p, T) else p, use))

    def holds(self, pc, src, x):
        el = mk('elem', src)
        old = self.bound.get(el)
        self.bound[el] = x
        try:
            return any(self.conj(c) for c in pc)
        finally:
            if old is None:
                del self.bound[el]
            else:
                self.bound[el] = old

    def conj(self, c):
        # facts are ordered by dependency only implicitly: decide the decidable ones first
        todo = list(c)
        for _ in range(len(todo) + 1):
            rest = []
            for t, n, v in todo:
                try:
                    x = self.ev(t)
                except NotThis:
                    rest.append((t, n, v))
                    continue
                if (x in v) == n:
                    return False
            if not rest:
                return True
            todo = rest
        raise Stuck('condition ' + brief_conj(todo)[:200])


def comment(word):
    return {'text': word}


def position(t):
    """('lo'|'hi', owner term) of a span position."""
    if t.k == 'proj' and t.a[3] in ('lo', 'hi'):
        return t.a[3], t.a[0]
    return None


def comment_query(t):
    if t.k == 'app' and t.a[0] in ('get_leading', 'get_trailing'):
        for x in t.a[1]:
            p = position(x)
            if p is not None:
                return t.a[0][4:], p
    return None


def outcomes(ctx, b):
    I_, outs = ctx.run(b)
    return I_, outs


def decide(outs, sc):
    """The outcome taken in a scenario."""
    hit = [(r, s) for r, s in outs if any(sc.conj(c) for c in s.pc)]
    if len(hit) != 1:
        raise Stuck('%d outcomes apply' % len(hit))
    return hit[0]


def regex_ob(ctx, prop, b, regexes, doc, key):
    ok = bool(regexes)
    why = 'no hint pattern is used' if not ok else ''
    for p, use in sorted(regexes):
        try:
            d = regexlang.difference(doc, p, marked=use == 'captures')
        except (regexlang.Unsupported, re_error) as ex:
            raise AnalysisError('pattern %r: %s' % (p, ex))
        if d is not None:
            ok = False
            why = 'pattern %r and the documented form differ on %r' % (p, d)
    ctx.ob(prop, ok, key, b, why or 'hint pattern has exactly the documented language')


try:
    import re._parser as _sp
    re_error = _sp.error
except Exception:  # pragma: no cover
    import re as _re
    re_error = _re.error


def check_hints(ctx):
    VM = ctx.VM
    hb = VM.anchor_bodies.get('hint', [])
    sb = VM.anchor_bodies.get('scope', [])
    fb = VM.anchor_bodies.get('file', [])
    rb = VM.anchor_bodies.get('range', [])
    if not sb:
        raise AnalysisError('no function looks up the ignore scope of a span')
    if not fb:
        raise AnalysisError('no function looks up the file-level hint')
    scopes = [v[0] for v in ctx.P.adts[VM.scope_adt][2]]
    for b, kind in [(b, 'hint') for b in hb] + [(b, 'scope') for b in sb]:
        I_, outs = outcomes(ctx, b)
        ctx.need_modelled('C06', I_, b)
        ctx.ob('C08', not I_.panics, 'abort:' + b.name, b, '; '.join(p.msg for p in I_.panics) or 'no abort')
        regexes = set()
        sp = [i for i, t in enumerate(b.argty) if mentions_span(ctx, t)]
        n = 0
        words = [None, 'next', 'if', 'else']
        lists = [None, []] + [[comment(w)] for w in words] + [[comment(None), comment(w)] for w in words[1:]] + \
            [[comment(a), comment(c)] for a, c in (('next', 'if'), ('if', 'next'), ('else', None))]
        for span in ('none', 'some'):
            for lo in lists:
                for hi in (None, [], [comment(None)]):
                    def base(t):
                        if t.k == 'sym' and sp and t.a[0] == 'a%d' % sp[0]:
                            return (None if span == 'none' else ('some', {'x': 1}),)
                        q = comment_query(t)
                        if q is not None:
                            side, (end, owner) = q
                            if side != 'leading':
                                raise Stuck('trailing comments are consulted')
                            v = lo if end == 'lo' else hi
                            return (None if v is None else ('some', v),)
                        return None
                    sc = Scenario(base, regexes)
                    want = None
                    if span == 'some':
                        want = next((c['text'] for c in lo or () if c['text']), None)
                    try:
                        r, s = decide(outs, sc)
                        got = result(ctx, r, sc, kind)
                    except (Stuck, NotThis) as ex:
                        raise AnalysisError('%s: %s' % (b.pretty or b.path, ex))
                    n += 1
                    if span == 'none' and kind == 'scope' and got is None or got == want:
                        continue
                    ctx.ob('C06', False, 'lookup:' + b.name, b, 'with %s in front the answer is %s' % ([c['text'] or '(other comment)' for c in lo or ()], got))
        ctx.ob('C06', True, 'lookup:' + b.name, b, '%d classes of leading comments evaluated' % n)
        regex_ob(ctx, 'C06', b, regexes, regexlang.DOC_HINT, 'pattern:' + b.name)
    for b in fb:
        I_, outs = outcomes(ctx, b)
        ctx.need_modelled('C21', I_, b)
        ctx.ob('C08', not I_.panics, 'abort:' + b.name, b, '; '.join(p.msg for p in I_.panics) or 'no abort')
        regexes = set()
        pi = next(i for i, t in enumerate(b.argty) if ctx.P.strip(t)[0] == 'adt' and last(ctx.P.strip(t)[1]) == 'Program')
        pt = ctx.P.strip(b.argty[pi])
        places = [(s, e) for s in ('leading', 'trailing') for e in ('lo', 'hi')]
        n = 0
        cl = [None, [], [comment(None)], [comment('file')], [comment(None), comment('file')]]
        for vi, v in enumerate(ctx.P.adts[pt[1]][2]):
            for combo in combos(cl, places):
                def base(t):
                    if t.k == 'sym' and t.a[0] == 'a%d' % pi:
                        return (('enum', I_.discr_of(pt[1], vi)),)
                    q = comment_query(t)
                    if q is not None:
                        side, (end, owner) = q
                        ow = [y.a[1] for y in subterms(owner) if y.k == 'proj' and y.a[1] is not None]
                        if ow and v[0] not in ow:
                            raise NotThis('another kind of program')
                        whole = owner.k == 'app' and owner.a[0] == 'span' and len(owner.a[1]) == 1 and owner.a[1][0].k == 'sym' and owner.a[1][0].a[0] == 'a%d' % pi
                        if not whole and not (owner.k == 'proj' and owner.a[3] == 'span' and owner.a[0].k == 'proj' and
                                              owner.a[0].a[0].k == 'sym' and owner.a[0].a[0].a[0] == 'a%d' % pi):
                            raise Stuck('position ' + brief(owner))
                        x = combo[(side, end)]
                        return (None if x is None else ('some', x),)
                    return None
                sc = Scenario(base, regexes)
                want = int(any(c['text'] for x in combo.values() for c in x or ()))
                try:
                    hit = [(r, s) for r, s in outs if any(conj_of(sc, c) for c in s.pc)]
                    if len(hit) != 1:
                        raise Stuck('%d outcomes apply' % len(hit))
                    got = int(sc.ev(hit[0][0]))
                except (Stuck, NotThis) as ex:
                    raise AnalysisError('%s: %s' % (b.pretty or b.path, ex))
                n += 1
                if got != want:
                    ctx.ob('C21', False, 'lookup:' + b.name, b, 'a %s with hints at %s is %signored' % (
                        v[0].lower(), [' '.join(p) for p, x in combo.items() if x and any(c['text'] for c in x)], '' if got else 'not '))
        ctx.ob('C21', True, 'lookup:' + b.name, b, '%d classes of comments at the ends of the program evaluated' % n)
        regex_ob(ctx, 'C21', b, regexes, regexlang.DOC_FILE, 'pattern:' + b.name)
    for b in rb:
        check_range(ctx, b)
    if not rb:
        raise AnalysisError('no function computes the range of a span')


def conj_of(sc, c):
    """A condition naming parts of another kind of program does not apply."""
    try:
        return sc.conj(c)
    except Stuck as ex:
        if 'condition' in str(ex):
            # every undecided fact is about another kind of program: some decided fact must already exclude it
            for t, n, v in c:
                try:
                    if (sc.ev(t) in v) == n:
                        return False
                except NotThis:
                    pass
        raise


def combos(cl, places):
    for p in places:
        for x in cl:
            d = {q: None for q in places}
            d[p] = x
            yield d
    for xs in itertools.product([None, cl[2], cl[3]], repeat=len(places)):
        yield dict(zip(places, xs))


def mentions_span(ctx, t):
    t = ctx.P.strip(t)
    if t is not None and t[0] == 'adt' and t[1] == OPT and t[2]:
        t = ctx.P.strip(t[2][0])
    return t is not None and t[0] == 'adt' and last(t[1]) in ('Span', 'BytePos')


def result(ctx, r, sc, kind):
    if r.k == 'adt' and r.a[0] == OPT:
        if r.a[2] == 'None':
            return None
        x = r.a[3][0]
        if x.k == 'adt' and last(x.a[0]) == 'IgnoreScope':
            return x.a[2].lower()
        return sc.ev(x)
    v = sc.ev(r)
    if v is None:
        return None
    return v[1]


def number(v):
    if isinstance(v, dict) and list(v) == ['0']:
        return v['0']
    if isinstance(v, int):
        return v
    raise Stuck('%s is not ordered' % (v,))


def check_range(ctx, b):
    I_, outs = outcomes(ctx, b)
    ctx.need_modelled('C18', I_, b)
    ctx.ob('C08', not I_.panics, 'abort:' + b.name, b, '; '.join(p.msg for p in I_.panics) or 'no abort')
    F = Fields(ctx)
    si = [i for i, t in enumerate(b.argty) if mentions_span(ctx, t)]
    spt = mk('sym', 'a%d' % si[0], None)

    def end_of(t, what):
        """'lo' / 'hi' if t is the `what` of the position the source map gives for that end of the span."""
        names = []
        while t.k == 'proj':
            names.append(t.a[3])
            t = t.a[0]
        if t.k == 'app' and t.a[0] == 'charpos' and names[-1:] == [what] and (what != 'col' or names in (['0', 'col'],)) and (what != 'line' or names == ['line']):
            p = position(t.a[1][0])
            if p is not None and p[1].k == 'sym' and p[1].a[0] == spt.a[0]:
                return p[0]
        return None
    # both ends real: on different lines, on one line, on one line at one place
    real = [((3, 7), (9, 2)), ((3, 2), (9, 7)), ((4, 2), (4, 8)), ((4, 2), (4, 2))]
    worlds = [(dlo, dhi, real[0]) for dlo, dhi in ((0, 1), (1, 0), (1, 1))] + [(0, 0, w) for w in real]
    for dlo, dhi, (lo, hi) in worlds:
        ends = {'lo': lo, 'hi': hi}

        def base(t):
            if t.k == 'bapp' and t.a[0] == 'is_dummy':
                p = position(t.a[1][0]) if isinstance(t.a[1], tuple) else None
                if p is None:
                    return ((dlo and dhi),) if t.a[1][0].k == 'sym' else None
                return (dlo if p[0] == 'lo' else dhi,)
            if t.k == 'app' and t.a[0] == 'charpos':
                p = position(t.a[1][0])
                if p is not None and p[1].k == 'sym' and p[1].a[0] == spt.a[0]:
                    line, col = ends[p[0]]
                    return ({'line': line, 'col': {'0': col}, 'col_display': col + 100},)
            if t.k == 'sym' and t.a[0] == spt.a[0]:
                return ({e: {'0': 1000 * ends[e][0] + ends[e][1]} for e in ends},)
            return None
        sc = Scenario(base, set())
        try:
            r, s = decide(outs, sc)
        except (Stuck, NotThis) as ex:
            raise AnalysisError('%s: %s' % (b.pretty or b.path, ex))
        parts = {}
        for e in ('start', 'end'):
            for c in ('line', 'column'):
                parts[(e, c)] = F.get(r, e, c)
        if dlo or dhi:
            ok = all(x is I(0) for x in parts.values())
            ctx.ob('C18', ok, 'range:dummy', b, 'a synthesized node is recorded as %s' % brief(r))
            continue
        for (e, c), x in sorted(parts.items()):
            want = 'lo' if e == 'start' else 'hi'
            got = end_of(x, 'line' if c == 'line' else 'col')
            if got is not None and ends[got][c != 'line'] == ends[want][c != 'line']:
                got = want
            ctx.ob('C18', got == want, 'range:%s.%s' % (e, c), b, '%s %s is %s' % (e, c, brief(x)))


def check(ctx, prop):
    check_hints(ctx)
    ctx.notes += ['comment lookup by position, regex matching and source-map lookup behave as documented by swc and the regex crate']
