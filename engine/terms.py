"""Hash-consed terms: the abstract values of the value-flow analysis (a Herbrand domain)."""


class T:
    __slots__ = ('k', 'a', 'n', 'm')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.n = len(_tab)
        t.m = None
        _tab[key] = t
    return t


def I(n):
    return mk('int', n)


def S(s):
    return mk('str', s)


TRUE = I(1)
FALSE = I(0)
UNIT = mk('tup', ())
NOISE = mk('noise')
UNDEF = mk('undef')
DUMMY_SPAN = mk('const', 'DUMMY_SP')


def is_int(t):
    return t.k == 'int'


def vec(segs):
    """Sequence value; flattens a single whole splice back to its source."""
    segs = tuple(segs)
    if len(segs) == 1 and segs[0].k == 'sp':
        return segs[0].a[0]
    out = []
    for s in segs:
        if s.k == 'sp' and s.a[0].k == 'vec':
            out.extend(s.a[0].a[0])
        else:
            out.append(s)
    return mk('vec', tuple(out))


def segs_of(v):
    return v.a[0] if v.k == 'vec' else (mk('sp', v),)


def E(t):
    return mk('e', t)


def SP(t):
    return mk('sp', t)


def children(t):
    """All sub-terms (through nested tuples / frozensets)."""
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


class Subst:
    """Simultaneous substitution T -> T, rebuilding with smart constructors."""

    def __init__(self, m, rebuild):
        self.m = dict(m)
        self.rb = rebuild
        self.memo = {}

    def t(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        if x in self.m:
            r = self.m[x]
        else:
            na = tuple(self.any(y) for y in x.a)
            r = x if na == x.a else self.rb(x.k, na)
        self.memo[x] = r
        return r

    def any(self, y):
        if isinstance(y, T):
            return self.t(y)
        if isinstance(y, tuple):
            return tuple(self.any(z) for z in y)
        if isinstance(y, frozenset):
            return frozenset(self.any(z) for z in y)
        return y


def show(t, d=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d) for x in t) + ')'
    if isinstance(t, frozenset):
        return '{' + ', '.join(sorted(show(x, d) for x in t)) + '}'
    if not isinstance(t, T):
        return str(t)
    if d > 40:
        return '...'
    k = t.k
    a = t.a
    d += 1
    if k == 'int':
        return str(a[0])
    if k == 'str':
        return repr(a[0])
    if k == 'sym':
        return a[0]
    if k == 'proj':
        return show(a[0], d) + ('@' + a[1] if a[1] else '') + '.' + a[3]
    if k == 'adt':
        nm = a[0].split('::')[-1] + ('::' + a[2] if a[2] and a[2] != a[0].split('::')[-1] else '')
        return nm + ('{' + ', '.join(show(x, d) for x in a[3]) + '}' if a[3] else '')
    if k == 'tup':
        return '(' + ', '.join(show(x, d) for x in a[0]) + ')'
    if k == 'vec':
        return '[' + ', '.join(show(x, d) for x in a[0]) + ']'
    if k == 'e':
        return show(a[0], d)
    if k == 'sp':
        return '*' + show(a[0], d)
    if k == 'ref':
        return '&' + '/'.join(map(str, a[0])) + ''.join('.' + str(x[3] if x[0] == 'f' else x[1]) for x in a[1])
    if k in ('V', 'Vc'):
        return k + '<' + show(a[0], d) + '>'
    if k == 'const':
        return a[0]
    return k + '(' + ', '.join(show(x, d) for x in a) + ')'
