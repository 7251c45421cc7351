"""Exact comparison of two regular expressions as languages (search semantics), over representatives of all character classes.

Patterns are read from the analysed program's string constants; group 1 can be made visible by markers, so that equality also
covers what is captured.
"""
try:
    import re._parser as sre_parse
    import re._constants as K
except ImportError:      # Python < 3.11
    import sre_parse
    import sre_constants as K

START, END = 'START', 'END'
REPS = [' ', '\n', '\t', '\u2003', 'q', 'Z', '5', '_', '-', '*', '\u00e9', '\u4e2d', '/', '.', '\\', '[', ']', '@', '\x00']
MARKS = ('<1', '1>')


class Unsupported(Exception):
    pass


def is_word(c):
    return c.isalnum() or c == '_'


class NFA:
    def __init__(self):
        self.eps = {}     # state -> [(assertion | None, state)]
        self.tr = {}      # state -> [(predicate, state)]
        self.n = 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b, cond=None):
        self.eps.setdefault(a, []).append((cond, b))

    def t(self, a, p, b):
        self.tr.setdefault(a, []).append((p, b))


def cat_pred(cat):
    n = str(cat)
    m = {'CATEGORY_SPACE': str.isspace, 'CATEGORY_WORD': is_word, 'CATEGORY_DIGIT': str.isdigit}
    if n in m:
        return m[n]
    if n.replace('_NOT_', '_') in m:
        f = m[n.replace('_NOT_', '_')]
        return lambda c: not f(c)
    raise Unsupported(n)


def build(pat, marked, lits):
    tree = sre_parse.parse(pat)
    flags = tree.state.flags
    icase = bool(flags & K.SRE_FLAG_IGNORECASE)
    multi = bool(flags & K.SRE_FLAG_MULTILINE)
    dotall = bool(flags & K.SRE_FLAG_DOTALL)
    N = NFA()

    def lit(c):
        lits.add(c)
        if icase:
            lits.add(c.lower())
            lits.add(c.upper())
            return lambda x, c=c: x.lower() == c.lower()
        return lambda x, c=c: x == c

    def setpred(items):
        neg = False
        ps = []
        for op, av in items:
            o = str(op)
            if o == 'NEGATE':
                neg = True
            elif o == 'LITERAL':
                ps.append(lit(chr(av)))
            elif o == 'RANGE':
                for c in (av[0], av[1], av[0] - 1, av[1] + 1):
                    if 0 <= c < 0x110000:
                        lits.add(chr(c))
                ps.append(lambda x, a=av[0], b=av[1]: a <= ord(x) <= b or icase and (a <= ord(x.lower()[0]) <= b or a <= ord(x.upper()[0]) <= b))
            elif o == 'CATEGORY':
                ps.append(cat_pred(av))
            else:
                raise Unsupported(o)
        return (lambda x: not any(p(x) for p in ps)) if neg else (lambda x: any(p(x) for p in ps))

    def seq(items, a):
        for it in items:
            a = node(it, a)
        return a

    def node(it, a):
        op, av = it
        o = str(op)
        b = N.new()
        if o == 'LITERAL':
            N.t(a, lit(chr(av)), b)
        elif o == 'NOT_LITERAL':
            p = lit(chr(av))
            N.t(a, lambda x: not p(x), b)
        elif o == 'ANY':
            N.t(a, (lambda x: True) if dotall else (lambda x: x != '\n'), b)
        elif o == 'IN':
            N.t(a, setpred(av), b)
        elif o == 'CATEGORY':
            N.t(a, cat_pred(av), b)
        elif o == 'BRANCH':
            for alt in av[1]:
                s = N.new()
                N.e(a, s)
                N.e(seq(alt, s), b)
        elif o == 'SUBPATTERN':
            s = N.new()
            if marked and av[0] == 1:
                N.t(a, MARKS[0], s)
                N.t(seq(av[3], s), MARKS[1], b)
            else:
                N.e(a, s)
                N.e(seq(av[3], s), b)
        elif o in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            cur = a
            for _ in range(lo):
                cur = seq(sub, cur)
            if hi == K.MAXREPEAT:
                s = N.new()
                N.e(cur, s)
                e = seq(sub, s)
                N.e(e, s)
                N.e(s, b)
            else:
                N.e(cur, b)
                for _ in range(hi - lo):
                    cur = seq(sub, cur)
                    N.e(cur, b)
        elif o == 'AT':
            n = str(av)
            if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                N.e(a, b, 'bol' if multi and n == 'AT_BEGINNING' else 'bos')
            elif n in ('AT_END', 'AT_END_STRING'):
                N.e(a, b, 'eol' if multi and n == 'AT_END' else 'eos')
            elif n == 'AT_BOUNDARY':
                N.e(a, b, 'wb')
            elif n == 'AT_NON_BOUNDARY':
                N.e(a, b, 'nwb')
            else:
                raise Unsupported(n)
        else:
            raise Unsupported(o)
        return b
    s = N.new()
    f = seq(tree, s)
    return N, s, f


def holds(cond, prev, nxt):
    if cond is None:
        return True
    w1 = prev not in (START,) and is_word(prev)
    w2 = nxt not in (END,) and nxt not in MARKS and is_word(nxt)
    return {'bos': prev == START, 'bol': prev in (START, '\n'), 'eos': nxt == END, 'eol': nxt in (END, '\n'),
            'wb': w1 != w2, 'nwb': w1 == w2}[cond]


class DFA:
    def __init__(self, pat, marked, lits):
        self.N, self.s, self.f = build(pat, marked, lits)

    def start(self):
        return (frozenset([self.s]), START, False)

    def closure(self, S, prev, nxt):
        out = set(S)
        todo = list(S)
        while todo:
            q = todo.pop()
            for c, r in self.N.eps.get(q, ()):
                if r not in out and holds(c, prev, nxt):
                    out.add(r)
                    todo.append(r)
        return out

    def step(self, st, c):
        S, prev, acc = st
        if acc:
            return st if c not in MARKS else (frozenset(), 'dead', False)
        C = self.closure(S, prev, c)
        if self.f in C:
            return (frozenset(), '', True) if c not in MARKS else (frozenset(), 'dead', False)
        out = set()
        for q in C:
            for p, r in self.N.tr.get(q, ()):
                if isinstance(p, str):
                    if p == c:
                        out.add(r)
                elif c not in MARKS and p(c):
                    out.add(r)
        if c in MARKS:
            return (frozenset(out), prev, False)
        if not any(q in out for q in ()) and prev != 'dead':
            out.add(self.s)      # search: a match may start at any position
        return (frozenset(out), c, False)

    def accepts(self, st):
        S, prev, acc = st
        return acc or prev != 'dead' and self.f in self.closure(S, prev, END)


def difference(a, b, marked=False, limit=200000):
    """None if both patterns match the same texts, else a text on which they differ."""
    a, b = a.replace('\\z', '\\Z'), b.replace('\\z', '\\Z')
    lits = set()
    A, B = DFA(a, marked, lits), DFA(b, marked, lits)
    alpha = sorted(set(REPS) | lits) + (list(MARKS) if marked else [])
    st = (A.start(), B.start())
    seen = {st: ''}
    todo = [st]
    while todo:
        nxt = []
        for p in todo:
            w = seen[p]
            if A.accepts(p[0]) != B.accepts(p[1]):
                return w
            for c in alpha:
                q = (A.step(p[0], c), B.step(p[1], c))
                if q not in seen:
                    seen[q] = w + c
                    nxt.append(q)
                    if len(seen) > limit:
                        raise Unsupported('too many states')
        todo = nxt
    return None


DOC_FILE = r'^\s*istanbul\s+ignore\s+(file)(\W|$)'
DOC_HINT = r'^\s*istanbul\s+ignore\s+(if|else|next)(\W|$)'
