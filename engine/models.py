"""Transfer functions for functions of other crates (std, swc, indexmap, regex, ...)."""
from .terms import *

OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
NONE = mk('adt', OPT, 0, 'None', ())
MODELS = {}


def some(x):
    return mk('adt', OPT, 1, 'Some', (x,))


def ok(x):
    return mk('adt', RES, 0, 'Ok', (x,))


def err(x):
    return mk('adt', RES, 1, 'Err', (x,))


def model(*keys):
    def d(fn):
        for k in keys:
            MODELS[k] = fn
        return fn
    return d


def rd(I_, st, a):
    """Value behind a reference argument (one level, or the value itself)."""
    if a.k in ('ref', 'rc', 'guard'):
        c, p = I_.deref(st, a)
        return I_.read(st, c, p)
    return a


def full(I_, st, a):
    return I_.load_val(st, a)


def cellof(I_, st, a):
    """(cell, path) of the place a reference argument finally designates (through smart pointers)."""
    n = 0
    c, p = I_.deref(st, a) if a.k in ('ref', 'rc', 'guard') else (('P', a), ())
    while n < 8:
        v = I_.read(st, c, p)
        if v.k in ('ref', 'rc', 'guard'):
            c, p = I_.deref(st, v)
            n += 1
        else:
            break
    return c, p


def wr(I_, st, cp, v):
    I_.write(st, cp[0], cp[1], v)


# ------------------------------------------------------------------------------- small helpers

def fork_enum(I_, st, v, path, vn0, vn1, unit0):
    """[(variant index, payload, state)] of a two-variant enum value."""
    if v.k == 'adt':
        return [(v.a[1], v.a[3][0] if v.a[3] else None, st)]
    if v.k in ('noise', 'undef'):
        return [(0, NOISE, st.copy()), (1, NOISE, st)]
    d = I_.discr(v)
    out = []
    for i in (0, 1):
        pc = I_.assume(st.pc, d, False, [i])
        if pc:
            s = st.copy()
            s.pc = pc
            vn = (vn0, vn1)[i]
            pl = None if (i == 0 and unit0) else I_.getp(v, ('f', vn, 0, '0'))
            out.append((i, pl, s))
    return out


def fork_opt(I_, st, v):
    return fork_enum(I_, st, v, OPT, 'None', 'Some', True)


def fork_res(I_, st, v):
    return fork_enum(I_, st, v, RES, 'Ok', 'Err', False)


def variant_accessor(I_, f, args, st, fr):
    """is_x / as_x / as_mut_x / expect_x / x of an enum of the syntax tree (the generated accessors of its variants)."""
    if len(args) != 1 or not f.p.startswith('swc_ecma_ast') or '::' not in f.key:
        return None
    en = f.key.split('::')[0]
    ps = [q for q in I_.P.adts if q.startswith('swc_ecma_ast') and q.split('::')[-1] == en and I_.P.adts[q][0]]
    if len(ps) != 1:
        return None
    n = f.n
    for kind in ('is_', 'as_mut_', 'as_', 'expect_', ''):
        if not n.startswith(kind):
            continue
        for vi, v in enumerate(I_.P.adts[ps[0]][2]):
            sn = ''.join(('_' if i and c.isupper() else '') + c.lower() for i, c in enumerate(v[0]))
            if n[len(kind):] in (sn, sn + '_', sn + '_stmt', sn + '_expr', sn + '_decl') and len(v[2]) <= 1:
                break
        else:
            continue
        byref = kind in ('is_', 'as_mut_', 'as_')
        cp = cellof(I_, st, args[0]) if byref else None
        val = I_.read(st, *cp) if byref else args[0]
        d = I_.eq(I_.discr(val), I(I_.discr_of(ps[0], vi)))
        if kind == 'is_':
            return [(d, st)]
        if not v[2]:
            return None
        el = ('f', v[0], 0, v[2][0][0])
        out = []
        for b, s in I_.branch(st, d):
            if not b:
                if kind == 'expect_':
                    I_.panic('expected another variant', s, fr)
                else:
                    out.append((NONE, s))
            elif byref:
                out.append((some(mk('ref', cp[0], cp[1] + (el,))), s))
            else:
                out.append((I_.getp(val, el) if kind == 'expect_' else some(I_.getp(val, el)), s))
        return out
    return None


def callf(I_, fv, args, st, fr):
    return I_.call_value(fv, list(args), st, fr.d + 1, fr.stack)


def prim(n):
    return ('prim', n)


STRING_TYPES = ('alloc::string::String', 'swc_atoms::Atom', 'alloc::borrow::Cow', 'hstr::Atom', 'bytes_str::byte_str::BytesStr')


def is_stringy(I_, v):
    if v.k in ('str', 'fmt', 'joined'):
        return True
    t = I_.P.strip(I_.ty(v))
    return t is not None and (t == prim('str') or t[0] == 'adt' and t[1] in STRING_TYPES)


# ------------------------------------------------------------------------------- identity-like

def ident(I_, f, args, st, fr):
    return [(args[0], st)]


for k in ('Box::new', 'From::from', 'hint::must_use', 'TryInto::try_into_', 'AsRef::as_ref', 'String::as_str',
          'str::as_ref', 'Arc::new_', 'fmt::must_use', 'IntoFuture::into_future', 'Box::leak', 'str::as_str',
          'String::as_mut_str', 'Vec::as_slice', 'Vec::as_mut_slice', 'Vec::into_boxed_slice', 'str::to_str', 'Atom::as_str', 'Atom::as_ref',
          'String::into_boxed_str', 'convert::identity', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut_', 'Cow::into_owned',
          'RefCell::new', 'Cell::new', 'Pin::new', 'slice::into_vec', 'slice::to_vec_', 'Vec::shrink_to_fit_', 'Wtf8::as_str', 'slice::as_ref',
          'Box::from', 'Cow::Borrowed_', 'ManuallyDrop::new', 'Option::cloned_'):
    MODELS[k.rstrip('_')] = ident
del MODELS['TryInto::try_into'], MODELS['Arc::new'], MODELS['BorrowMut::borrow_mut'], MODELS['slice::to_vec'], MODELS['Vec::shrink_to_fit'], MODELS['Cow::Borrowed'], MODELS['Option::cloned']


@model('hstr::inline_atom')
def inline_atom(I_, f, args, st, fr):
    # only a question of representation: the atom either way holds the text
    return [(some(full(I_, st, args[0])), st)]


@model('Into::into')
def into(I_, f, args, st, fr):
    # conversions the analysed code uses are injections of the same information
    a = args[0]
    to = I_.P.strip(f.a[1]) if len(f.a) > 1 else None
    fro = I_.P.strip(f.self)
    if to is not None and fro is not None and to[0] == 'adt' and to[1].split('::')[-1] in ('Rc', 'Arc') and fro != to:
        return MODELS['Rc::new'](I_, f, args, st, fr)
    return [(convert(I_, st, a, fro, to), st)]


def convert(I_, st, a, fro, to):
    P = I_.P
    if to is None or fro is None or fro == to:
        return a
    if to[0] == 'adt' and to[1] == OPT and not (fro[0] == 'adt' and fro[1] == OPT):
        return some(a)
    n = to[1].split('::')[-1] if to[0] == 'adt' else None
    m = fro[1].split('::')[-1] if fro[0] == 'adt' else None
    AST = 'swc_ecma_ast::'
    if n == 'IdentName' and m == 'Ident':
        v = I_.load_val(st, a)
        return I_.adt(to[1], 0, 'IdentName', (I_.getp(v, ('f', None, 0, 'span')), I_.getp(v, ('f', None, 2, 'sym'))))
    if n == 'Ident' and m == 'IdentName':
        v = I_.load_val(st, a)
        return I_.adt(to[1], 0, 'Ident', (I_.getp(v, ('f', None, 0, 'span')), CTXT0, I_.getp(v, ('f', None, 1, 'sym')), FALSE))
    if to == prim('f64') and fro[0] == 'prim' and fro[1] in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32'):
        v = I_.load_val(st, a)
        return mk('i2f', v) if v.k != 'noise' else v
    if n in ('Atom', 'String', 'str', 'Cow', 'PathBuf') or to == prim('str') or to[0] == 'prim':
        v = I_.load_val(st, a)
        return v
    if n == 'Vec' and fro[0] == 'array':
        return I_.load_val(st, a)
    if to[0] == 'adt' and to[1].startswith(AST):
        ad = P.adts.get(to[1])
        r = conv_struct(I_, st, a, fro, to)
        if r is not None:
            return r
        if ad and ad[0]:
            # enum: payload injection, directly or through one intermediate enum / Ident wrapper
            inj = inject(I_, a, fro, to, 0)
            if inj is not None:
                return inj
    return mk('app', 'into', (a,), to)


def conv_struct(I_, st, a, fro, to):
    """From impls of swc_ecma_ast which make a struct out of its main field."""
    n = to[1].split('::')[-1]
    m = fro[1].split('::')[-1] if fro[0] == 'adt' else None
    ad = I_.P.adts.get(to[1])
    if ad is None or ad[0] or to[0] != 'adt':
        return None
    text = m in ('Atom', 'String', 'Cow') or fro == prim('str')
    if n == 'ExprOrSpread':
        x = a if m == 'Expr' else convert(I_, st, a, fro, ('adt', 'swc_ecma_ast::expr::Expr', ()))
        if x.k == 'app' and x.a[0] == 'into':
            return None
        v = {'spread': NONE, 'expr': x}
    elif n == 'Str' and text:
        v = {'span': DUMMY_SPAN, 'value': I_.load_val(st, a), 'raw': NONE}
    elif n == 'Bool' and fro == prim('bool'):
        v = {'span': DUMMY_SPAN, 'value': a}
    elif n == 'Number' and fro == prim('f64'):
        v = {'span': DUMMY_SPAN, 'value': a, 'raw': NONE}
    elif n == 'ExprStmt' and m == 'Expr':
        return None
    elif n == 'BindingIdent' and m == 'Ident':
        v = {'id': a, 'type_ann': NONE}
    elif n in ('FnExpr', 'ClassExpr') and m in ('Function', 'Class'):
        v = {'ident': NONE, 'function': a, 'class': a}
    else:
        return None
    if not all(f[0] in v for f in ad[2][0][2]):
        return None
    return I_.adt(to[1], 0, ad[2][0][0], tuple(v[f[0]] for f in ad[2][0][2]))


def inject(I_, a, fro, to, depth):
    ad = I_.P.adts.get(to[1])
    if not ad or not ad[0] or depth > 3:
        return None
    for i, (vn, d, fs) in enumerate(ad[2]):
        if len(fs) == 1 and I_.P.strip(fs[0][1]) == fro:
            return I_.adt(to[1], i, vn, (a,))
    for i, (vn, d, fs) in enumerate(ad[2]):
        if len(fs) == 1:
            t = I_.P.strip(fs[0][1])
            if t and t[0] == 'adt' and t[1].startswith('swc_ecma_ast::'):
                if t[1].endswith('BindingIdent') and fro[1].endswith('::Ident'):
                    x = I_.adt(t[1], 0, 'BindingIdent', (a, NONE))
                    return I_.adt(to[1], i, vn, (x,))
    for i, (vn, d, fs) in enumerate(ad[2]):
        if len(fs) == 1:
            t = I_.P.strip(fs[0][1])
            if t and t[0] == 'adt' and t[1].startswith('swc_ecma_ast::') and t[1] != to[1] and I_.P.adts.get(t[1], (0,))[0] and \
                    t[1].split('::')[-1] not in ('Expr', 'Pat'):
                x = inject(I_, a, fro, t, depth + 1)
                if x is not None:
                    return I_.adt(to[1], i, vn, (x,))
    return None


@model('ExprFactory::as_arg')
def as_arg(I_, f, args, st, fr):
    r = conv_struct(I_, st, args[0], I_.P.strip(f.self), ('adt', 'swc_ecma_ast::expr::ExprOrSpread', ())) if f.self is not None else None
    return None if r is None else [(r, st)]


@model('From::from')
def from_(I_, f, args, st, fr):
    to = I_.P.strip(f.self)
    fro = I_.P.strip(f.a[1]) if len(f.a) > 1 else None
    if to is not None and to[0] == 'adt' and to[1].startswith('swc_ecma_ast::'):
        return [(convert(I_, st, args[0], fro, to), st)]
    if to is not None and fro is not None and to[0] == 'adt' and to[1] == OPT and fro[0] != 'adt':
        return [(some(args[0]), st)]
    v = I_.load_val(st, args[0])
    if to == prim('f64') and fro is not None:
        return [(convert(I_, st, args[0], fro, to), st)]
    if to is not None and to[0] == 'adt' and to[1].split('::')[-1] in ('Vec', 'IndexMap', 'HashMap', 'HashSet', 'Rc', 'Arc', 'RefCell'):
        if to[1].split('::')[-1] in ('Rc', 'Arc'):
            return MODELS['Rc::new'](I_, f, args, st, fr)
        return [(v, st)]
    return [(v, st)]


@model('TryInto::try_into', 'TryFrom::try_from')
def try_into(I_, f, args, st, fr):
    v = I_.load_val(st, args[0])
    t = mk('app', 'tryint', (v,), None)
    r = mk('adt', RES, 0, 'Ok', (v,))
    if v.k == 'int':
        return [(r, st)]
    tgt = I_.P.strip(f.self if f.n == 'try_from' else f.a[1] if len(f.a) > 1 else None)
    if tgt in (prim('u32'), prim('u64'), prim('i64'), prim('usize')) and (v.k == 'len' or v.k == 'lin' and all(x.k == 'len' and n == 1 for x, n in v.a[1])):
        return [(r, st)]  # a list has fewer than 2^32 items
    b = mk('bapp', 'fits', (v,))
    out = []
    for val, s in I_.branch(st, b):
        out.append((ok(v) if val else err(mk('const', 'TryFromIntError')), s))
    return out


@model('ToOwned::to_owned', 'ToString::to_string', 'slice::to_vec', 'str::to_string', 'String::from_str_', 'str::to_owned', 'str::into_string',
       'SpecToString::spec_to_string', 'Atom::to_string', 'Atom::new', 'String::from_utf8_lossy', 'get_atom', 'hstr::get_atom',
       'AtomStore::atom', 'FromStr::from_str_')
def to_owned(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    if f.n == 'to_string' and f.trait:
        t = I_.P.strip(f.self)
        if t is not None and (t[0] == 'prim' and t[1] != 'str' or t[0] == 'adt' and t[1] not in STRING_TYPES):
            if v.k == 'int':
                return [(S(str(v.a[0])), st)]
            return [(mk('fmt', (mk('disp', v),)), st)]
    return [(v, st)]


@model('Clone::clone', 'ImplicitClone::clone_quote_var')
def clone(I_, f, args, st, fr):
    a = args[0]
    v = rd(I_, st, a)
    t = f.self
    # clone of a reference copies the reference; clone of Rc/Arc shares
    if v.k in ('rc',):
        return [(v, st)]
    n = 0
    while v.k == 'ref' and n < 6 and not (t is not None and t[0] == 'ref'):
        v = rd(I_, st, v)
        n += 1
    if v.k == 'guard':
        v = full(I_, st, v)
    return [(deep_own(I_, st, v), st)]


def deep_own(I_, st, v):
    return v


MODELS['Clone::clone_from'] = None


def clone_from(I_, f, args, st, fr):
    st = st.copy()
    wr(I_, st, cellof(I_, st, args[0]), full(I_, st, args[1]))
    return [(UNIT, st)]


MODELS['Clone::clone_from'] = clone_from


@model('Option::cloned', 'Option::copied')
def opt_cloned(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    if v.k == 'adt' and v.a[3]:
        return [(some(full(I_, st, v.a[3][0])), st)]
    return [(v, st)]


# ------------------------------------------------------------------------------- Rc / RefCell

@model('Rc::new', 'Arc::new', 'Rc::from', 'Arc::from')
def rc_new(I_, f, args, st, fr):
    st = st.copy()
    n = 0
    while ('H', 'rc%d' % n) in st.heap:
        n += 1
    cell = ('H', 'rc%d' % n)
    st.heap[cell] = args[0]
    return [(mk('rc', cell), st)]


@model('Rc::clone', 'Arc::clone')
def rc_clone(I_, f, args, st, fr):
    return [(rd(I_, st, args[0]), st)]


@model('Rc::try_unwrap', 'Arc::try_unwrap')
def rc_unwrap(I_, f, args, st, fr):
    return [(ok(full(I_, st, args[0])), st)]


@model('RefCell::into_inner')
def refcell_into(I_, f, args, st, fr):
    return [(args[0], st)]


def borrow(mode):
    def h(I_, f, args, st, fr):
        c, p = cellof(I_, st, args[0])
        for g in st.guards:
            gc, gp, gm = g.a
            m = min(len(gp), len(p))
            if gc == c and gp[:m] == p[:m] and (mode == 'w' or gm == 'w'):
                I_.panic('already borrowed (%s while %s)' % (mode, gm), st, fr)
                return []
        g = mk('guard', c, p, mode)
        st = st.copy()
        st.guards = st.guards + (g,)
        return [(g, st)]
    return h


MODELS['RefCell::borrow'] = borrow('r')
MODELS['RefCell::borrow_mut'] = borrow('w')


@model('RefCell::get_mut')
def refcell_get_mut(I_, f, args, st, fr):
    c, p = cellof(I_, st, args[0])
    return [(mk('ref', c, p), st)]


@model('mem::drop')
def mem_drop(I_, f, args, st, fr):
    st = st.copy()
    out = []
    if I_.dropfns:
        I_.ntmp = getattr(I_, 'ntmp', 0) + 1
        cell = ('X', fr.d, 'drop%d' % I_.ntmp)
        st.heap[cell] = args[0]
        for s in I_.run_drop(st, fr, args[0], mk('ref', cell, ())):
            s = s.copy()
            s.heap.pop(cell, None)
            I_.release(s, args[0])
            out.append((UNIT, s))
        return out
    I_.release(st, args[0])
    return [(UNIT, st)]


# ------------------------------------------------------------------------------- deref

@model('Deref::deref', 'DerefMut::deref_mut', 'Lazy::force')
def deref(I_, f, args, st, fr):
    a = args[0]
    if a.k != 'ref':
        return [(a, st)]
    v = I_.read(st, a.a[0], a.a[1])
    if v.k == 'guard':
        return [(mk('ref', v.a[0], v.a[1]), st)]
    if v.k == 'rc':
        return [(mk('ref', v.a[0], ()), st)]
    if v.k == 'ref':
        t = f.self
        if t is not None and t[0] == 'ref':
            return [(v, st)]
        return [(v, st)]
    return [(a, st)]


# ------------------------------------------------------------------------------- equality

@model('PartialEq::eq', 'PartialEq::ne', 'Atom::eq', 'str::eq')
def peq(I_, f, args, st, fr):
    a = I_.deepval(st, args[0])
    b = I_.deepval(st, args[1])
    r = deep_eq(I_, a, b)
    if f.n == 'ne':
        r = I_.neg(r)
    return [(r, st)]


def deep_eq(I_, a, b):
    if a is b:
        return TRUE
    if a.k == 'adt' and b.k == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return conj_all([deep_eq(I_, x, y) for x, y in zip(a.a[3], b.a[3])])
    if b.k == 'adt' and a.k != 'adt':
        a, b = b, a
    if a.k == 'adt' and b.k not in ('int', 'str', 'noise', 'vec'):
        ad = I_.P.adts.get(a.a[0])
        if ad is not None and ad[0]:
            c = I_.eq(I_.discr(b), I(I_.discr_of(a.a[0], a.a[1])))
            cs = [c]
            for i, x in enumerate(a.a[3]):
                cs.append(deep_eq(I_, x, I_.getp(b, ('f', a.a[2], i, ad[2][a.a[1]][2][i][0]))))
            return conj_all(cs)
        if ad is not None and len(a.a[3]) and a.a[0].startswith('istanbul_oxide'):
            return conj_all([deep_eq(I_, x, I_.getp(b, ('f', None, i, ad[2][0][2][i][0]))) for i, x in enumerate(a.a[3])])
    if a.k == 'vec' and b.k == 'vec' and all(s.k == 'e' for s in a.a[0] + b.a[0]):
        if len(a.a[0]) != len(b.a[0]):
            return FALSE
        return conj_all([deep_eq(I_, x.a[0], y.a[0]) for x, y in zip(a.a[0], b.a[0])])
    return I_.eq(a, b)


def conj_all(xs):
    r = TRUE
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        r = x if r is TRUE else mk('and', r, x)
    return r


@model('str::parse', 'FromStr::from_str')
def str_parse(I_, f, args, st, fr):
    t = I_.rty
    t = I_.P.subst(t, fr.tm) if t is not None else None
    if t is not None and t[0] == 'adt' and t[1] == RES and t[2][0][0] == 'adt' and t[2][0][1].startswith('tracing_core::') and t[2][0][1].endswith('::Level'):
        return [(mk('app', 'parse_level', (full(I_, st, args[0]),), t), st)]
    if t is None or t[0] != 'adt' or t[1] != RES:
        return None
    want = I_.P.strip(t[2][0])
    for b in I_.P.impls.get(('core::str::traits::FromStr', 'from_str'), ()):
        if I_.P.strip(b.impl_self) == want:
            return I_.run_body(b, [args[0]], st, fr.d + 1, {}, fr.stack)
    return None


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def pord(I_, f, args, st, fr):
    a, b = full(I_, st, args[0]), full(I_, st, args[1])
    n = f.n
    if a.k == 'noise' or b.k == 'noise':
        return [(NOISE, st)]
    t = I_.P.strip(f.self)
    if t is not None and t[0] == 'prim' and t[1] not in ('f32', 'f64', 'str'):
        r = {'lt': lambda: I_.less(a, b, True), 'le': lambda: I_.less(a, b, False),
             'gt': lambda: I_.less(b, a, True), 'ge': lambda: I_.less(b, a, False)}[n]()
        return [(r, st)]
    return [(mk('bapp', 'ord' + n, (a, b)), st)]


@model('f32::floor', 'f64::floor', 'f32::ceil', 'f64::ceil', 'f32::round', 'f64::round', 'f32::trunc', 'f64::trunc')
def float_round(I_, f, args, st, fr):
    return [(mk('app', f.n, (args[0],), I_.ty(args[0])), st)]


@model('Ord::max', 'cmp::max', 'u32::max', 'f32::max')
def omax(I_, f, args, st, fr):
    a, b = full(I_, st, args[0]), full(I_, st, args[1])
    if a.k == 'int' and b.k == 'int':
        return [(I(max(a.a[0], b.a[0])), st)]
    return [(I_.rebuild('max', tuple(sorted((a, b), key=lambda t: t.n))), st)]


@model('Ord::min', 'cmp::min')
def omin(I_, f, args, st, fr):
    a, b = full(I_, st, args[0]), full(I_, st, args[1])
    if a.k == 'int' and b.k == 'int':
        return [(I(min(a.a[0], b.a[0])), st)]
    x, y = sorted((a, b), key=lambda t: t.n)
    return [(mk('min', x, y), st)]


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def ocmp(I_, f, args, st, fr):
    a, b = full(I_, st, args[0]), full(I_, st, args[1])
    out = []
    for v, s in I_.branch(st, I_.less(a, b, True)):
        if v:
            out.append((mk('adt', 'core::cmp::Ordering', 0, 'Less', ()), s))
        else:
            for w, s2 in I_.branch(s, I_.eq(a, b)):
                out.append((mk('adt', 'core::cmp::Ordering', 1 if w else 2, 'Equal' if w else 'Greater', ()), s2))
    if f.n == 'partial_cmp':
        out = [(some(r), s) for r, s in out]
    return out


for op, nm in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem')):
    def arith(I_, f, args, st, fr, nm=nm):
        t = I_.P.strip(f.self)
        if t is not None and t[0] == 'prim' and t[1] != 'str':
            return [(I_.binop(nm, full(I_, st, args[0]), full(I_, st, args[1]), t), st)]
        if t is not None and t[0] == 'adt' and t[1] == 'alloc::string::String' and nm == 'Add':
            return [(fmtcat([full(I_, st, args[0]), full(I_, st, args[1])]), st)]
        return None

    def arith_assign(I_, f, args, st, fr, nm=nm):
        t = I_.P.strip(f.self)
        cp = cellof(I_, st, args[0])
        old = I_.read(st, *cp)
        st = st.copy()
        if t is not None and t[0] == 'prim':
            wr(I_, st, cp, I_.binop(nm, old, full(I_, st, args[1]), t))
        elif nm == 'Add':
            wr(I_, st, cp, fmtcat([old, full(I_, st, args[1])]))
        else:
            return None
        return [(UNIT, st)]
    MODELS[nm + '::' + op] = arith
    MODELS[nm + 'Assign::' + op + '_assign'] = arith_assign


@model('Not::not')
def not_(I_, f, args, st, fr):
    return [(I_.neg(full(I_, st, args[0])), st)]


for w in ('u8', 'u16', 'u32', 'u64', 'usize', 'num'):
    def sat_sub(I_, f, args, st, fr):
        a, b = full(I_, st, args[0]), full(I_, st, args[1])
        if I_.rty is not None and I_.rty[0] == 'prim' and str(I_.rty[1]).startswith('i'):
            return None
        if a.k == 'int' and b.k == 'int':
            return [(I(max(0, a.a[0] - b.a[0])), st)]
        out = []
        for v, s in I_.branch(st, I_.less(a, b, True)):
            out.append((I(0) if v else I_.lin(0, ((a, 1), (b, -1))), s))
        return out

    def chk_sub(I_, f, args, st, fr):
        a, b = full(I_, st, args[0]), full(I_, st, args[1])
        out = []
        for v, s in I_.branch(st, I_.less(a, b, True)):
            out.append((NONE if v else some(I_.lin(0, ((a, 1), (b, -1)))), s))
        return out

    def wsub(I_, f, args, st, fr):
        a, b = full(I_, st, args[0]), full(I_, st, args[1])
        return [(I_.lin(0, ((a, 1), (b, -1))), st)]

    def wadd(I_, f, args, st, fr):
        a, b = full(I_, st, args[0]), full(I_, st, args[1])
        return [(I_.lin(0, ((a, 1), (b, 1))), st)]
    MODELS[w + '::saturating_sub'] = sat_sub
    MODELS[w + '::checked_sub'] = chk_sub
    MODELS[w + '::wrapping_sub'] = wsub

    def chk_add(I_, f, args, st, fr):
        a, b = full(I_, st, args[0]), full(I_, st, args[1])
        return [(some(I_.lin(0, ((a, 1), (b, 1)))), st)]
    MODELS[w + '::checked_add'] = chk_add
    MODELS[w + '::saturating_add'] = wadd
    MODELS[w + '::wrapping_add'] = wadd


# ------------------------------------------------------------------------------- dummies / defaults

CTXT0 = mk('const', 'CTXT0')


def dummy_of(I_, t, seen=()):
    P = I_.P
    t0 = t
    if t is not None and t[0] == 'ref':
        return mk('dum', t)
    t = P.strip(t) if t is not None and t[0] == 'adt' and t[1] in ('alloc::boxed::Box',) else t
    if t is None:
        return mk('dum', ('other', '?'))
    if t[0] == 'prim':
        if t[1] == 'bool':
            return FALSE
        if t[1] in ('f64', 'f32'):
            return mk('flt', '0')
        if t[1] == 'str':
            return S('')
        return I(0)
    if t[0] == 'tuple':
        return mk('tup', tuple(dummy_of(I_, x, seen) for x in t[1]))
    if t[0] in ('array', 'slice'):
        return vec(())
    if t[0] != 'adt':
        return mk('dum', t)
    n = t[1].split('::')[-1]
    if n == 'Span':
        return DUMMY_SPAN
    if n == 'SyntaxContext':
        return CTXT0
    if n == 'Option':
        return NONE
    if n in ('Vec', 'HashSet', 'BTreeSet', 'VecDeque'):
        return vec(())
    if n in ('IndexMap', 'HashMap', 'BTreeMap'):
        return mk('mempty', t)
    if t[1] in STRING_TYPES:
        return S('')
    if n == 'BytePos':
        return I(0)
    if t in seen or len(seen) > 8:
        return mk('dum', t)
    a = P.adts.get(t[1])
    if a is None:
        return mk('dum', t)
    if a[0]:
        for vn in ('Invalid', 'Empty'):
            x = P.variant(t[1], vn)
            if x is not None and t[1].startswith('swc_ecma_ast::'):
                vi, var = x
                return mk('adt', t[1], vi, vn, tuple(dummy_of(I_, fy, seen + (t,)) for _, fy in var[2]))
        if n == 'Decl':
            vi, var = P.variant(t[1], 'Var')
            return mk('adt', t[1], vi, 'Var', (dummy_of(I_, var[2][0][1], seen + (t,)),))
        if n == 'VarDeclKind':
            return mk('adt', t[1], 0, 'Var', ())
        if n == 'AssignOp':
            return mk('adt', t[1], 0, 'Assign', ())
        if n == 'Lit':
            vi, var = P.variant(t[1], 'Null')
            return mk('adt', t[1], vi, 'Null', (dummy_of(I_, var[2][0][1], seen + (t,)),))
        if n == 'ModuleItem':
            vi, var = P.variant(t[1], 'Stmt')
            return mk('adt', t[1], vi, 'Stmt', (dummy_of(I_, var[2][0][1], seen + (t,)),))
        if n == 'Callee':
            return mk('dum', t)
        return mk('dum', t)
    if not t[1].startswith(('swc_ecma_ast::', 'swc_common::', 'istanbul_oxide::', 'swc_coverage_instrument::')):
        return mk('dum', t)
    m = dict(zip(a[1], t[2]))
    return mk('adt', t[1], 0, a[2][0][0], tuple(dummy_of(I_, P.subst(fy, m), seen + (t,)) for _, fy in a[2][0][2]))


def default_of(I_, t, st, fr):
    """The type's own implementation of Default where the analysed crates have one."""
    want = I_.P.strip(t) if t is not None else None
    if want is not None and want[0] == 'adt':
        for b in I_.P.impls.get(('core::default::Default', 'default'), ()):
            m = {}
            if I_.P.unify(I_.P.strip(b.impl_self), want, m):
                return I_.run_body(b, [], st, fr.d + 1, m, fr.stack)
    return [(dummy_of(I_, t), st)]


@model('Take::dummy', 'Default::default')
def dummy(I_, f, args, st, fr):
    t = I_.P.subst(f.self, fr.tm) if f.self else I_.rty
    if (t is None or t[0] == 'param') and I_.rty is not None:
        t = I_.rty
    return default_of(I_, t, st, fr) if f.n == 'default' else [(dummy_of(I_, t), st)]


@model('Span::dummy_with_cmt')
def dummy_cmt(I_, f, args, st, fr):
    return [(mk('const', 'CMT_SP'), st)]


@model('SyntaxContext::empty')
def ctxt_empty(I_, f, args, st, fr):
    return [(CTXT0, st)]


@model('Take::take', 'mem::take')
def take(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    t = f.self or (f.a[0] if f.a else None)
    t = I_.P.subst(t, fr.tm) if t else None
    if t is None or t[0] == 'param':
        t = I_.rty or I_.ty(v)
    st = st.copy()
    wr(I_, st, cp, dummy_of(I_, t))
    return [(v, st)]


@model('Take::map_with_mut')
def map_with_mut(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    out = []
    for r, s in callf(I_, args[1], [v], st, fr):
        if r == 'panic':
            continue
        s = s.copy()
        wr(I_, s, cp, r)
        out.append((UNIT, s))
    return out


@model('mem::replace', 'Option::replace', 'RefCell::replace')
def mem_replace(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    wr(I_, st, cp, some(args[1]) if f.key == 'Option::replace' else args[1])
    return [(v, st)]


@model('mem::swap')
def mem_swap(I_, f, args, st, fr):
    a, b = cellof(I_, st, args[0]), cellof(I_, st, args[1])
    x, y = I_.read(st, *a), I_.read(st, *b)
    st = st.copy()
    wr(I_, st, a, y)
    wr(I_, st, b, x)
    return [(UNIT, st)]


@model('Option::take')
def opt_take(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    wr(I_, st, cp, NONE)
    return [(v, st)]


@model('Option::insert')
def opt_insert(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    st = st.copy()
    wr(I_, st, cp, some(args[1]))
    return [(mk('ref', cp[0], cp[1] + (('f', 'Some', 0, '0'),)), st)]


@model('Option::get_or_insert_with', 'Option::get_or_insert', 'Option::get_or_insert_default')
def opt_get_or_insert(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    inner = mk('ref', cp[0], cp[1] + (('f', 'Some', 0, '0'),))
    out = []
    for i, p, s in fork_opt(I_, st, v):
        if i == 1:
            out.append((inner, s))
            continue
        if f.n == 'get_or_insert':
            fresh = [(args[1], s)]
        elif f.n == 'get_or_insert_with':
            fresh = callf(I_, args[1], [], s, fr)
        else:
            t = I_.P.strip(I_.rty)
            fresh = [(dummy_of(I_, t), s)]
        for x, s2 in fresh:
            s2 = s2.copy()
            wr(I_, s2, cp, some(x))
            out.append((inner, s2))
    return out


# ------------------------------------------------------------------------------- Option / Result

@model('Option::is_some', 'Option::is_none')
def is_some(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    r = I_.eq(I_.discr(v), I(1))
    return [(r if f.n == 'is_some' else I_.neg(r), st)]


@model('Option::is_some_and', 'Option::is_none_or')
def is_some_and(I_, f, args, st, fr):
    out = []
    for i, p, s in fork_opt(I_, st, full(I_, st, args[0])):
        if i == 0:
            out.append((I(int(f.n == 'is_none_or')), s))
        else:
            out += callf(I_, args[1], [p], s, fr)
    return out


@model('Result::is_ok', 'Result::is_err')
def is_ok(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    r = I_.eq(I_.discr(v), I(0))
    return [(r if f.n == 'is_ok' else I_.neg(r), st)]


@model('Option::as_ref', 'Option::as_deref', 'Option::as_slice', 'Result::as_ref', 'Result::as_deref')
def as_ref(I_, f, args, st, fr):
    return [(full(I_, st, args[0]), st)]


@model('Option::as_mut', 'Option::as_deref_mut')
def as_mut(I_, f, args, st, fr):
    a = args[0]
    cp = cellof(I_, st, a)
    v = I_.read(st, *cp)
    out = []
    for i, p, s in fork_opt(I_, st, v):
        out.append((NONE if i == 0 else some(mk('ref', cp[0], cp[1] + (('f', 'Some', 0, '0'),))), s))
    return out


def unwrap_opt(I_, f, args, st, fr):
    v = args[0]
    v = v if v.k != 'ref' else full(I_, st, v)
    if f.key.startswith('Result'):
        forks = [(1 - i, p, s) for i, p, s in fork_res(I_, st, v)]
    else:
        forks = fork_opt(I_, st, v)
    out = []
    for i, p, s in forks:
        if i == 1:
            out.append((p, s))
        elif f.n in ('unwrap', 'expect'):
            msg = args[1].a[0] if len(args) > 1 and args[1].k == 'str' else ''
            I_.panic('%s on missing value%s' % (f.key, ': ' + msg if msg else ''), s, fr)
        elif f.n == 'unwrap_or':
            out.append((args[1], s))
        elif f.n == 'unwrap_or_default':
            out += default_of(I_, I_.rty, s, fr)
        else:
            out += callf(I_, args[1], [] if f.key.startswith('Option') else [p], s, fr)
    return out


for t in ('Option', 'Result'):
    for n in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else'):
        MODELS[t + '::' + n] = unwrap_opt


@model('Option::map', 'Option::and_then', 'Option::filter', 'Option::or_else', 'Option::or', 'Option::and', 'Option::map_or',
       'Option::map_or_else', 'Option::flatten', 'Option::ok_or', 'Option::ok_or_else', 'Option::inspect', 'Option::then', 'Option::xor_',
       'Option::get_or_insert_with_', 'Option::zip')
def opt_map(I_, f, args, st, fr):
    v = args[0] if args[0].k != 'ref' else full(I_, st, args[0])
    n = f.n
    out = []
    for i, p, s in fork_opt(I_, st, v):
        if n == 'map':
            out += [(NONE, s)] if i == 0 else [(some(r), s2) for r, s2 in callf(I_, args[1], [p], s, fr)]
        elif n == 'and_then':
            out += [(NONE, s)] if i == 0 else callf(I_, args[1], [p], s, fr)
        elif n == 'and':
            out.append((NONE if i == 0 else args[1], s))
        elif n == 'zip':
            if i == 0:
                out.append((NONE, s))
            else:
                out += [(NONE if j == 0 else some(mk('tup', (p, q))), s2) for j, q, s2 in fork_opt(I_, s, args[1])]
        elif n == 'filter':
            if i == 0:
                out.append((NONE, s))
            else:
                for r, s2 in callf(I_, args[1], [p], s, fr):
                    for b, s3 in I_.branch(s2, r):
                        out.append((some(p) if b else NONE, s3))
        elif n == 'or_else':
            out += callf(I_, args[1], [], s, fr) if i == 0 else [(some(p), s)]
        elif n == 'or':
            out.append((args[1] if i == 0 else some(p), s))
        elif n == 'map_or':
            out += [(args[1], s)] if i == 0 else callf(I_, args[2], [p], s, fr)
        elif n == 'map_or_else':
            out += callf(I_, args[1], [], s, fr) if i == 0 else callf(I_, args[2], [p], s, fr)
        elif n == 'flatten':
            out.append((NONE if i == 0 else p, s))
        elif n == 'ok_or':
            out.append((err(args[1]) if i == 0 else ok(p), s))
        elif n == 'ok_or_else':
            out += [(err(r), s2) for r, s2 in callf(I_, args[1], [], s, fr)] if i == 0 else [(ok(p), s)]
        elif n == 'inspect':
            out += [(NONE, s)] if i == 0 else [(some(p), s2) for r, s2 in callf(I_, args[1], [p], s, fr)]
        else:
            return None
    return out


@model('Result::map', 'Result::map_err', 'Result::ok', 'Result::err', 'Result::and_then', 'Result::or_else', 'Result::unwrap_or_else_')
def res_map(I_, f, args, st, fr):
    v = args[0] if args[0].k != 'ref' else full(I_, st, args[0])
    n = f.n
    out = []
    for i, p, s in fork_res(I_, st, v):
        if n == 'map':
            out += [(err(p), s)] if i == 1 else [(ok(r), s2) for r, s2 in callf(I_, args[1], [p], s, fr)]
        elif n == 'map_err':
            out += [(ok(p), s)] if i == 0 else [(err(r), s2) for r, s2 in callf(I_, args[1], [p], s, fr)]
        elif n == 'ok':
            out.append((some(p) if i == 0 else NONE, s))
        elif n == 'err':
            out.append((some(p) if i == 1 else NONE, s))
        elif n == 'and_then':
            out += [(err(p), s)] if i == 1 else callf(I_, args[1], [p], s, fr)
        elif n == 'or_else':
            out += [(ok(p), s)] if i == 0 else callf(I_, args[1], [p], s, fr)
        else:
            return None
    return out


@model('bool::then', 'bool::then_some')
def bool_then(I_, f, args, st, fr):
    out = []
    for b, s in I_.branch(st, args[0]):
        if not b:
            out.append((NONE, s))
        elif f.n == 'then_some':
            out.append((some(args[1]), s))
        else:
            out += [(some(r), s2) for r, s2 in callf(I_, args[1], [], s, fr)]
    return out


@model('Try::branch')
def try_branch(I_, f, args, st, fr):
    t = I_.P.strip(f.self)
    out = []
    if t is not None and t[0] == 'adt' and t[1] == OPT:
        for i, p, s in fork_opt(I_, st, args[0]):
            out.append((mk('adt', CF, 0, 'Continue', (p,)) if i == 1 else mk('adt', CF, 1, 'Break', (NONE,)), s))
        return out
    for i, p, s in fork_res(I_, st, args[0]):
        out.append((mk('adt', CF, 0, 'Continue', (p,)) if i == 0 else mk('adt', CF, 1, 'Break', (err(p),)), s))
    return out


@model('FromResidual::from_residual', 'Try::from_output_')
def from_residual(I_, f, args, st, fr):
    return [(args[0], st)]


# ------------------------------------------------------------------------------- formatting

def fmtcat(parts):
    out = []
    for p in parts:
        if p.k == 'fmt':
            out.extend(p.a[0])
        elif p.k == 'disp':
            out.append(p)
        elif p.k == 'str':
            out.append(p)
        else:
            out.append(mk('disp', p))
    m = []
    for p in out:
        if p.k == 'disp' and p.a[0].k == 'str':
            p = p.a[0]
        if p.k == 'disp' and p.a[0].k == 'fmt':
            m.extend(p.a[0].a[0])
            continue
        if p.k == 'disp' and p.a[0].k == 'int':
            p = S(str(p.a[0].a[0]))
        if p.k == 'str' and m and m[-1].k == 'str':
            m[-1] = S(m[-1].a[0] + p.a[0])
        elif p.k == 'str' and p.a[0] == '':
            continue
        else:
            m.append(p)
    if not m:
        return S('')
    if len(m) == 1 and m[0].k == 'str':
        return m[0]
    return mk('fmt', tuple(m))


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_lower_exp',
       'Argument::new_binary', 'Argument::new_octal', 'Argument::new_pointer')
def fmt_arg(I_, f, args, st, fr):
    v = I_.deepval(st, args[0])
    if f.n == 'new_display':
        return [(mk('disp', v), st)]
    return [(mk('dbg', f.n, v), st)]


def parse_template(bs):
    """Byte template of core::fmt::Arguments: list of str / ('arg', flagged)."""
    out = []
    i = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + ln]).decode('utf8', 'replace'))
            i += ln
        else:
            idx = None
            flags = n & 0x3f
            if n & 1:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('arg', idx, (n & 7) != 0))
    return out


@model('Arguments::new')
def args_new(I_, f, args, st, fr):
    t = full(I_, st, args[0])
    av = I_.deepval(st, args[1])
    if t.k != 'bytes' or av.k != 'vec':
        return [(mk('fmt', (mk('dbg', 'args', mk('tup', (t, av))),)), st)]
    parts = []
    k = 0
    vals = [s.a[0] for s in av.a[0]]
    for p in parse_template(t.a[0]):
        if isinstance(p, str):
            parts.append(S(p))
        else:
            i = p[1] if p[1] is not None else k
            v = vals[i]
            k = i + 1
            if p[2]:
                v = mk('dbg', 'flags', v)
            parts.append(v if v.k in ('disp', 'dbg') else mk('disp', v))
    return [(fmtcat2(parts), st)]


def fmtcat2(parts):
    return fmtcat([p if p.k in ('disp', 'str', 'fmt') else mk('fmt', (p,)) for p in parts])


@model('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def args_str(I_, f, args, st, fr):
    return [(full(I_, st, args[0]), st)]


@model('fmt::format', 'alloc::format')
def fmt_format(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    if v.k == 'fmt' and len(v.a[0]) == 1 and v.a[0][0].k == 'disp' and is_stringy(I_, v.a[0][0].a[0]):
        v = v.a[0][0].a[0]
    return [(v, st)]


@model('io::_print', 'io::_eprint', 'stdio::_print', 'stdio::_eprint')
def io_print(I_, f, args, st, fr):
    st = st.copy()
    st.ev = st.ev + (mk('print', I_.deepval(st, args[0])),)
    return [(UNIT, st)]


@model('String::new', 'Vec::new', 'Vec::with_capacity', 'String::with_capacity', 'IndexMap::new', 'IndexMap::with_capacity', 'HashMap::new',
       'HashSet::new', 'HashSet::with_capacity', 'HashMap::with_capacity', 'BTreeMap::new', 'BTreeSet::new', 'VecDeque::new',
       'IndexMap::with_hasher', 'IndexMap::with_capacity_and_hasher', 'IndexSet::new', 'HashSet::with_hasher')
def empty(I_, f, args, st, fr):
    n = f.key.split('::')[0]
    if n == 'String':
        return [(S(''), st)]
    if n in ('IndexMap', 'HashMap', 'BTreeMap'):
        return [(mk('mempty', I_.rty or ('adt', 'indexmap::map::IndexMap', ())), st)]
    return [(vec(()), st)]


@model('String::push_str', 'String::push', 'Extend::extend_str_')
def push_str(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    x = full(I_, st, args[1])
    if f.n == 'push' and x.k == 'int':
        x = S(chr(x.a[0]))
    wr(I_, st, cp, fmtcat([v, x]))
    return [(UNIT, st)]


@model('str::len', 'String::len')
def str_len(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    if v.k == 'str':
        return [(I(len(v.a[0].encode())), st)]
    return [(mk('len', v), st)]


def strfn(name, fold, boolean=False):
    def h(I_, f, args, st, fr):
        vs = [I_.deepval(st, a) for a in args]
        if all(v.k in ('str', 'int') for v in vs):
            try:
                r = fold(*[chr(v.a[0]) if v.k == 'int' else v.a[0] for v in vs])
                return [(I(int(r)) if isinstance(r, bool) else S(r), st)]
            except Exception:
                pass
        if boolean:
            return [(mk('bapp', name, tuple(vs)), st)]
        return [(mk('app', name, tuple(vs), ('adt', 'alloc::string::String', ())), st)]
    return h


for nm, fo, bo in (('contains', lambda a, b: b in a, True), ('starts_with', lambda a, b: a.startswith(b), True),
                   ('ends_with', lambda a, b: a.endswith(b), True), ('replace', lambda a, b, c: a.replace(b, c), False),
                   ('trim', lambda a: a.strip(), False), ('trim_start', lambda a: a.lstrip(), False), ('trim_end', lambda a: a.rstrip(), False),
                   ('to_lowercase', lambda a: a.lower(), False), ('to_uppercase', lambda a: a.upper(), False),
                   ('to_ascii_lowercase', lambda a: a.lower(), False), ('eq_ignore_ascii_case', lambda a, b: a.lower() == b.lower(), True),
                   ('is_empty', lambda a: a == '', True), ('replacen', None, False), ('repeat', None, False)):
    MODELS['str::' + nm] = strfn('str::' + nm, fo, bo)
    MODELS['String::' + nm] = MODELS['str::' + nm]


def str_is_empty(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    return [(I_.eq(v, S('')), st)]


MODELS['str::is_empty'] = MODELS['String::is_empty'] = str_is_empty


# ------------------------------------------------------------------------------- sequences

def vlen(I_, v):
    if v.k == 'vec':
        c = 0
        ts = []
        for s in v.a[0]:
            if s.k == 'e':
                c += 1
            elif s.k == 'sp':
                ts.append((vlen(I_, s.a[0]), 1))
            elif len(s.a[1]) == 1 and s.a[1][0][0] == frozenset([frozenset()]) and len(s.a[1][0][1]) == 1 and s.a[1][0][1][0].k == 'e' and s.a[0].k not in ('range', 'zip'):
                ts.append((vlen(I_, s.a[0]), 1))     # one for each
            else:
                ts.append((mk('len', mk('vec', (s,))), 1))
        return I_.lin(c, ts)
    if v.k == 'gupd':
        return vlen(I_, v.a[0])
    if v.k in ('iset', 'zupd'):
        return vlen(I_, v.a[0])
    if v.k == 'mu' and v in I_.keeps_len:
        return vlen(I_, v.a[1])
    if v.k == 'resize':
        return v.a[1]
    if v.k == 'vins':
        return I_.lin(1, ((vlen(I_, v.a[0]), 1),))
    if v.k == 'mempty':
        return I(0)
    if v.k == 'str':
        return I(len(v.a[0]))
    if v.k == 'mapv':
        return vlen(I_, v.a[0])
    return mk('len', v)


@model('Vec::len', 'slice::len', 'IndexMap::len', 'HashMap::len', 'HashSet::len', 'VecDeque::len', 'ExactSizeIterator::len')
def seq_len(I_, f, args, st, fr):
    return [(vlen(I_, full(I_, st, args[0])), st)]


@model('Vec::is_empty', 'slice::is_empty', 'IndexMap::is_empty', 'HashMap::is_empty', 'HashSet::is_empty')
def seq_is_empty(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    if v.k == 'vec' and any(s.k == 'e' for s in v.a[0]):
        return [(FALSE, st)]
    return [(I_.eq(vlen(I_, v), I(0)), st)]


@model('Vec::push', 'VecDeque::push_back')
def vpush(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    wr(I_, st, cp, vec(segs_of(v) + (E(args[1]),)))
    return [(UNIT, st)]


@model('Vec::push_mut')
def vpush_mut(I_, f, args, st, fr):
    (r, s), = vpush(I_, f, args, st, fr)
    cp = cellof(I_, st, args[0])
    return [(mk('ref', cp[0], cp[1] + (('last',),)), s)]


@model('Vec::pop', 'VecDeque::pop_back')
def vpop(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    if v.k == 'vec':
        if not v.a[0]:
            return [(NONE, st)]
        if v.a[0][-1].k == 'e':
            wr(I_, st, cp, vec(v.a[0][:-1]))
            return [(some(v.a[0][-1].a[0]), st)]
    out = []
    for b, s in I_.branch(st, I_.eq(vlen(I_, v), I(0))):
        if b:
            out.append((NONE, s))
        else:
            x = mk('at', v, mk('lastidx'))
            wr(I_, s, cp, mk('popped', v))
            out.append((some(x), s))
    return out


def last_(p):
    return p.split('::')[-1]


def insert_at(v, i, x):
    """Insert x at index term i (None if the position is not known structurally)."""
    segs = segs_of(v)
    if i.k == 'int':
        n = i.a[0]
        if n == 0:
            return vec((E(x),) + segs)
        if n <= len(segs) and all(s.k == 'e' for s in segs[:n]):
            return vec(segs[:n] + (E(x),) + segs[n:])
    return None


@model('Vec::insert')
def vinsert(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    i = args[1]
    L = vlen(I_, v)
    I_.in_bounds(st, fr, i, L, 'an insertion behind the end of a list')
    if i is L:
        wr(I_, st, cp, vec(segs_of(v) + (E(args[2]),)))
        return [(UNIT, st)]
    r = insert_at(v, i, args[2])
    if r is None:
        r = mk('vins', v, i, args[2])
    wr(I_, st, cp, r)
    return [(UNIT, st)]


@model('Vec::splice')
def vsplice(I_, f, args, st, fr):
    """Insertion only: an empty range."""
    r = args[1]
    if r.k != 'adt' or last_(r.a[0]) != 'Range' or r.a[3][0] is not r.a[3][1]:
        return None
    at = f.a[-1] if f.a else None
    sg = seq_segs(to_iter(I_, st, args[2], I_.P.subst(at, fr.tm) if at else None))
    if sg is None or any(x.k != 'e' for x in sg):
        return None
    cp = cellof(I_, st, args[0])
    i = r.a[3][0]
    for n, x in enumerate(sg):
        for _, st in vinsert(I_, f, (args[0], I_.lin(n, ((i, 1),)) if n and i.k != 'int' else I(i.a[0] + n) if n else i, x.a[0]), st, fr):
            pass
    return [(seqit(vec(()), 'own'), st)]


@model('Vec::remove', 'Vec::swap_remove')
def vremove(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    i = args[1]
    I_.in_bounds(st, fr, I_.lin(1, ((i, 1),)), vlen(I_, v), 'a removal behind the end of a list')
    segs = segs_of(v)
    if i.k == 'int' and i.a[0] < len(segs) and all(s.k == 'e' for s in segs[:i.a[0] + 1]) and f.n == 'remove':
        n = i.a[0]
        wr(I_, st, cp, vec(segs[:n] + segs[n + 1:]))
        return [(segs[n].a[0], st)]
    wr(I_, st, cp, mk('app', f.key, (v, i), I_.ty(v)))
    return [(mk('at', v, i), st)]


@model('Vec::clear', 'IndexMap::clear', 'HashMap::clear', 'HashSet::clear', 'String::clear')
def vclear(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    n = f.key.split('::')[0]
    t = I_.P.strip(I_.ty(v))
    wr(I_, st, cp, vec(()) if n in ('Vec', 'HashSet') else S('') if n == 'String' else mk('mempty', t or ('adt', 'indexmap::map::IndexMap', ())))
    return [(UNIT, st)]


@model('Vec::truncate', 'Vec::dedup', 'slice::sort', 'slice::reverse', 'slice::sort_unstable', 'slice::swap')
def vmut(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    if f.n == 'truncate' and v.k == 'vec' and args[1].k == 'int' and all(s.k == 'e' for s in v.a[0][:args[1].a[0]]):
        wr(I_, st, cp, vec(v.a[0][:args[1].a[0]]))
        return [(UNIT, st)]
    if f.n == 'truncate':
        # truncating back to the length of a prefix
        if v.k == 'vec':
            for n in range(len(v.a[0]) + 1):
                if vlen(I_, mk('vec', v.a[0][:n])) is args[1]:
                    wr(I_, st, cp, vec(v.a[0][:n]))
                    return [(UNIT, st)]
        if vlen(I_, v) is args[1]:
            return [(UNIT, st)]
    if f.n == 'reverse' and v.k == 'vec' and all(s.k == 'e' for s in v.a[0]):
        wr(I_, st, cp, vec(tuple(reversed(v.a[0]))))
        return [(UNIT, st)]
    wr(I_, st, cp, mk('app', f.key, (v,) + tuple(full(I_, st, a) for a in args[1:]), I_.ty(v)))
    return [(UNIT, st)]


@model('Vec::reserve', 'Vec::reserve_exact', 'Vec::shrink_to_fit', 'Vec::shrink_to', 'String::reserve', 'String::shrink_to_fit', 'IndexMap::reserve', 'HashMap::reserve',
       'IndexMap::shrink_to_fit', 'HashMap::shrink_to_fit', 'VecDeque::reserve', 'HashSet::reserve')
def vreserve(I_, f, args, st, fr):
    return [(UNIT, st)]


@model('Vec::resize')
def vresize(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    wr(I_, st, cp, mk('resize', v, full(I_, st, args[1]), args[2]))
    return [(UNIT, st)]


@model('vec::from_elem')
def from_elem(I_, f, args, st, fr):
    x, n = args
    if n.k == 'int' and n.a[0] <= 16:
        return [(vec([E(x)] * n.a[0]), st)]
    return [(mk('resize', vec(()), n, x), st)]


@model('Vec::append')
def vappend(I_, f, args, st, fr):
    a, b = cellof(I_, st, args[0]), cellof(I_, st, args[1])
    x, y = I_.read(st, *a), I_.read(st, *b)
    st = st.copy()
    wr(I_, st, a, rejoin(I_, segs_of(x) + segs_of(y)))
    wr(I_, st, b, vec(()))
    return [(UNIT, st)]


@model('Vec::extend_from_slice')
def extend_slice(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    x, y = I_.read(st, *cp), full(I_, st, args[1])
    st = st.copy()
    wr(I_, st, cp, padded(I_, segs_of(x) + segs_of(y)))
    return [(UNIT, st)]


@model('array::map', 'array::each_ref', 'array::each_mut')
def amap(I_, f, args, st, fr):
    if f.n != 'map':
        return None
    v = full(I_, st, args[0])
    if v.k != 'vec' or any(s.k != 'e' for s in v.a[0]):
        return None
    outs = [((), st)]
    for x in v.a[0]:
        nxt = []
        for done, s in outs:
            for r, s2 in callf(I_, args[1], (x.a[0],), s, fr):
                nxt.append((done + (E(r),), s2))
        outs = nxt
    return [(vec(done), s) for done, s in outs]


def cut(I_, st, cp, v, i):
    """Split the list v at a position that is not known: (first part, rest)."""
    t = I_.ty(v)
    a, b = mk('app', 'upto', (v, i), t), mk('app', 'from', (v, i), t)
    return a, b


def tmax(*xs):
    return xs[0] if xs[0] is xs[1] else mk('max', *sorted(xs, key=lambda t: t.n))


def padded(I_, segs):
    """v ++ [x; n] is v resized to len(v) + n with x."""
    segs = tuple(segs)
    if len(segs) < 2 or segs[-1].k != 'sp' or segs[-1].a[0].k != 'resize' or segs[-1].a[0].a[0] is not vec(()):
        return vec(segs)
    _, n, x = segs[-1].a[0].a
    base = vec(segs[:-1])
    have = vlen(I_, base)
    if n.k == 'satsub' and n.a[1] is have:
        return mk('resize', base, tmax(n.a[0], have), x)
    return mk('resize', base, I_.lin(0, ((have, 1), (n, 1))), x)


def rejoin(I_, segs):
    """[v up to i] ++ xs ++ [v from i] is v with xs inserted at i."""
    if len(segs) >= 2 and all(s.k == 'sp' for s in (segs[0], segs[-1])) and all(s.k == 'e' for s in segs[1:-1]):
        a, b = segs[0].a[0], segs[-1].a[0]
        if a.k == 'app' and b.k == 'app' and a.a[0] == 'upto' and b.a[0] == 'from' and a.a[1] == b.a[1]:
            v, i = a.a[1]
            for x in reversed(segs[1:-1]):
                v = mk('vins', v, i, x.a[0])
            return v
    return padded(I_, segs)


@model('slice::concat')
def sconcat(I_, f, args, st, fr):
    v = I_.deepval(st, args[0])
    if v.k == 'vec' and all(s.k == 'e' for s in v.a[0]):
        if I_.rty is not None and I_.rty[0] == 'adt' and I_.rty[1] == 'alloc::string::String':
            return [(fmtcat([s.a[0] for s in v.a[0]]), st)]
        out = []
        for s in v.a[0]:
            out.extend(segs_of(s.a[0]))
        return [(vec(out), st)]
    return None


@model('Vec::drain', 'VecDeque::drain')
def vdrain(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    r = args[1]
    segs = segs_of(v)
    st = st.copy()
    nm = r.a[0].split('::')[-1] if r.k == 'adt' else ''
    lo, hi = 0, None
    if nm in ('RangeFrom', 'RangeTo', 'Range'):
        for x in r.a[3]:
            I_.in_bounds(st, fr, x, vlen(I_, v), 'a range behind the end of a list')
    if nm == 'RangeFull':
        pass
    elif nm == 'RangeFrom' and r.a[3][0].k == 'int':
        lo = r.a[3][0].a[0]
    elif nm in ('RangeTo',) and r.a[3][0].k == 'int':
        hi = r.a[3][0].a[0]
    elif nm == 'Range' and all(x.k == 'int' for x in r.a[3]):
        lo, hi = r.a[3][0].a[0], r.a[3][1].a[0]
    elif nm in ('RangeFrom', 'RangeTo'):
        a, b = cut(I_, st, cp, v, r.a[3][0])
        if nm == 'RangeTo':
            a, b = b, a
        wr(I_, st, cp, a)
        return [(seqit(b, 'own'), st)]
    else:
        wr(I_, st, cp, mk('app', 'undrained', (v, r), I_.ty(v)))
        return [(seqit(mk('app', 'drained', (v, r), I_.ty(v)), 'own'), st)]
    m = max(lo, hi or 0)
    if m and not (len(segs) >= m and all(s.k == 'e' for s in segs[:m])):
        wr(I_, st, cp, mk('app', 'undrained', (v, r), I_.ty(v)))
        return [(seqit(mk('app', 'drained', (v, r), I_.ty(v)), 'own'), st)]
    hi2 = hi if hi is not None else len(segs)
    wr(I_, st, cp, vec(segs[:lo] + segs[hi2:]))
    return [(seqit(vec(segs[lo:hi2]), 'own'), st)]


@model('Vec::split_off')
def split_off(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    i = args[1]
    segs = segs_of(v)
    st = st.copy()
    I_.in_bounds(st, fr, i, vlen(I_, v), 'a split behind the end of a list')
    if i.k == 'int' and len(segs) >= i.a[0] and all(s.k == 'e' for s in segs[:i.a[0]]):
        wr(I_, st, cp, vec(segs[:i.a[0]]))
        return [(vec(segs[i.a[0]:]), st)]
    if i is vlen(I_, v):
        return [(vec(()), st)]
    a, b = cut(I_, st, cp, v, i)
    wr(I_, st, cp, a)
    return [(b, st)]


@model('slice::get', 'Vec::get', 'slice::get_mut')
def sget(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    i = full(I_, st, args[1])
    mut = f.n == 'get_mut'
    if v.k == 'vec' and i.k == 'int':
        c = I_.concrete_at(v, i.a[0])
        if c is not None:
            return [(some(mk('ref', cp[0], cp[1] + (('i', i),)) if mut else c), st)]
        if all(s.k == 'e' for s in v.a[0]):
            return [(NONE, st)]
    if i.k == 'idx' and i.a[0] is v:
        return [(some(mk('ref', cp[0], cp[1] + (('i', i),)) if mut else mk('elem', v)), st)]
    out = []
    for b, s in I_.branch(st, I_.less(i, vlen(I_, v), True)):
        if b:
            out.append((some(mk('ref', cp[0], cp[1] + (('i', i),)) if mut else I_.getp(v, ('i', i))), s))
        else:
            out.append((NONE, s))
    return out


@model('slice::first', 'slice::first_mut', 'slice::last', 'slice::last_mut', 'VecDeque::front', 'VecDeque::back')
def sfirst(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    last = 'last' in f.n or f.n == 'back'
    el = ('last',) if last else ('i', I(0))
    mut = f.n.endswith('_mut')
    if v.k == 'vec':
        if not v.a[0]:
            return [(NONE, st)]
        s = v.a[0][-1 if last else 0]
        if s.k == 'e':
            return [(some(mk('ref', cp[0], cp[1] + (el,)) if mut else s.a[0]), st)]
    out = []
    for b, s in I_.branch(st, I_.eq(vlen(I_, v), I(0))):
        if b:
            out.append((NONE, s))
        else:
            out.append((some(mk('ref', cp[0], cp[1] + (el,)) if mut else I_.getp(v, el)), s))
    return out


@model('Index::index', 'IndexMut::index_mut')
def index(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    i = full(I_, st, args[1])
    t = I_.P.strip(f.self)
    if t is not None and t[0] == 'adt' and t[1].split('::')[-1] == 'Captures':
        if not group_always(v, i):
            b = I_.discr(mk('app', 'capget', (v, i), ('adt', OPT, ())))
            out = []
            for x, s in I_.branch(st, b):
                if x:
                    out.append((mk('app', 'matchstr', (mk('app', 'capgrp', (v, i), None),), prim('str')), s))
                else:
                    I_.panic('group which did not take part in the match', s, fr)
            return out
        return [(mk('app', 'matchstr', (mk('app', 'capgrp', (v, i), None),), prim('str')), st)]
    if t is not None and t[0] == 'adt' and t[1].split('::')[-1] in ('IndexMap', 'HashMap', 'BTreeMap'):
        o = mget_opt(I_, v, i)
        out = []
        for j, p, s in fork_opt(I_, st, o):
            if j == 0:
                I_.panic('map index with a missing key', s, fr)
            else:
                out.append((mk('ref', cp[0], cp[1] + (('mk', i),)), s))
        return out
    if i.k == 'adt' and 'Range' in i.a[0]:
        return [(mk('app', 'slice', (v, i), I_.ty(v)), st)]
    if v.k == 'vec' and i.k == 'int' and I_.concrete_at(v, i.a[0]) is not None or i.k == 'idx' and i.a[0] is v:
        return [(mk('ref', cp[0], cp[1] + (('i', i),)), st)]
    out = []
    for b, s in I_.branch(st, I_.less(i, vlen(I_, v), True)):
        if b:
            out.append((mk('ref', cp[0], cp[1] + (('i', i),)), s))
        else:
            I_.panic('index out of bounds', s, fr)
    return out


@model('slice::contains', 'HashSet::contains', 'VecDeque::contains')
def scontains(I_, f, args, st, fr):
    v = I_.deepval(st, args[0])
    x = I_.deepval(st, args[1])
    if v.k == 'vec' and all(s.k == 'e' for s in v.a[0]):
        r = FALSE
        for s in v.a[0]:
            e = deep_eq(I_, s.a[0], x)
            if e is TRUE:
                return [(TRUE, st)]
            if e is not FALSE:
                r = e if r is FALSE else mk('or', r, e)
        return [(r, st)]
    if v.k == 'vec' and len(v.a[0]) == 1 and v.a[0][0].k == 'rep' and x.k == 'ekey' and v.a[0][0].a[0] is x.a[0] and \
            all(sg in ((), (E(x),)) for _, sg in v.a[0][0].a[1]):
        # some of the keys of a map, and a key of it: is it one of them?
        out = []
        for pc, sg in v.a[0][0].a[1]:
            for c in pc:
                s = st.copy()
                for t, neg, vals in c:
                    s.pc = I_.assume(s.pc, t, neg, vals)
                if s.pc:
                    out.append((TRUE if sg else FALSE, s))
        return out
    e = deep_eq(I_, mk('elem', v), x)
    pc = I_.assume(frozenset([frozenset()]), e, False, [1])
    return [(mk('any', v, pc), st)]


@model('slice::join', 'Join::join')
def sjoin(I_, f, args, st, fr):
    v = I_.deepval(st, args[0])
    sep = I_.deepval(st, args[1])
    if v is NOISE:
        return [(NOISE, st)]
    if v.k == 'vec' and all(s.k == 'e' for s in v.a[0]):
        parts = []
        for i, s in enumerate(v.a[0]):
            if i:
                parts.append(sep)
            parts.append(s.a[0])
        return [(fmtcat(parts), st)]
    return [(mk('joined', v, sep), st)]


@model('Box::new_uninit')
def new_uninit(I_, f, args, st, fr):
    st = st.copy()
    n = 0
    while ('X', fr.d, 'bx%d' % n) in st.heap:
        n += 1
    cell = ('X', fr.d, 'bx%d' % n)
    st.heap[cell] = UNDEF
    return [(mk('ref', cell, ()), st)]


@model('boxed::box_assume_init_into_vec_unsafe', 'slice::box_assume_init_into_vec_unsafe')
def into_vec(I_, f, args, st, fr):
    a = args[0]
    v = rd(I_, st, a)
    # the array was written through (**b).value.value
    x = v
    n = 0
    while x.k != 'vec' and n < 8:
        if x.k == 'upd':
            x = x.a[2]
        elif x.k in ('adt', 'tup'):
            fs = x.a[3] if x.k == 'adt' else x.a[0]
            x = fs[-1] if fs else x
        else:
            break
        n += 1
    st = st.copy()
    if a.k == 'ref' and a.a[0][0] == 'X':
        st.heap.pop(a.a[0], None)
    return [(x, st)]


# ------------------------------------------------------------------------------- iterators
# itseq(value segs, mode, cell, path, pos) ; adaptors wrap other iterators

def seqit(v, mode, cell=None, path=None, pos=0):
    return mk('itseq', segs_of(v) if v.k != 'gupd' or mode != 'mut' else (SP(v),), mode, cell, path, pos)


ITK = ('itseq', 'itmapseq', 'itmap', 'itfilter', 'itfm', 'itenum', 'itchain', 'itzip', 'itcl', 'itopt', 'itrange', 'ittw', 'itskip', 'ittake',
       'itflat', 'itpeek', 'itsw', 'itinsp', 'itonce', 'itrep')


def whole(it):
    """A sequence with parts of unknown length as a single one."""
    if it.k == 'itseq' and len(it.a[0]) > 1 and any(s.k != 'e' for s in it.a[0]) or it.k == 'itseq' and len(it.a[0]) == 1 and it.a[0][0].k == 'rep':
        return mk('itseq', (SP(vec(it.a[0])),), *it.a[1:])
    return it


def is_iter(v):
    return v.k in ITK or v.k == 'itby'


def to_iter(I_, st, a, ty=None):
    """Iterator value for an IntoIterator argument."""
    if is_iter(a):
        return a
    if ty is not None and ty[0] not in ('adt', 'ref', 'slice', 'array', 'tuple'):
        ty = None       # a type parameter: go by the value
    if a.k == 'ref':
        v = I_.read(st, a.a[0], a.a[1])
        if is_iter(v):
            return mk('itby', a.a[0], a.a[1])
        n = 0
        while v.k in ('ref', 'rc', 'guard') and n < 6:
            a = v
            c, p = I_.deref(st, v)
            a = mk('ref', c, p)
            v = I_.read(st, c, p)
            n += 1
        mut = ty is not None and ty[0] == 'ref' and ty[1]
        t = I_.P.strip(ty) if ty is not None else I_.P.strip(I_.ty(v))
        if is_map(I_, v, t):
            return mk('itmapseq', v, 'mut' if mut else 'ref', a.a[0], a.a[1], 'iter')
        if t is not None and t[0] == 'adt' and t[1] == OPT:
            return mk('itopt', v, 'mut' if mut else 'ref', a.a[0], a.a[1])
        if mut:
            return seqit(v, 'mut', a.a[0], a.a[1])
        return seqit(v, 'ref')
    t = I_.P.strip(ty) if ty is not None else I_.P.strip(I_.ty(a))
    if a.k == 'adt' and a.a[0] == OPT or t is not None and t[0] == 'adt' and t[1] == OPT:
        return mk('itopt', a, 'own', None, None)
    if a.k == 'adt' and a.a[0].endswith('::Range'):
        return mk('itrange', a.a[3][0], a.a[3][1])
    if is_map(I_, a, t):
        return mk('itmapseq', a, 'own', None, None, 'iter')
    mut = ty is not None and ty[0] == 'ref' and ty[1]
    if mut:
        return seqit(a, 'mut', ('P', a), ())
    return seqit(a, 'own')


def is_map(I_, v, t=None):
    if v.k in ('mempty', 'minsert', 'mapv', 'mremove', 'mretain'):
        return True
    t = t or I_.P.strip(I_.ty(v))
    return t is not None and t[0] == 'adt' and t[1].split('::')[-1] in ('IndexMap', 'HashMap', 'BTreeMap')


@model('IntoIterator::into_iter')
def into_iter(I_, f, args, st, fr):
    t = I_.P.subst(f.self, fr.tm) if f.self else None
    return [(to_iter(I_, st, args[0], t), st)]


@model('slice::iter', 'Vec::iter', 'IndexMap::iter', 'HashMap::iter', 'Option::iter', 'HashSet::iter', 'VecDeque::iter', 'BTreeMap::iter')
def iter_(I_, f, args, st, fr):
    a = args[0]
    cp = cellof(I_, st, a)
    v = I_.read(st, *cp)
    n = f.key.split('::')[0]
    if n == 'Option':
        return [(mk('itopt', v, 'ref', cp[0], cp[1]), st)]
    if n in ('IndexMap', 'HashMap', 'BTreeMap'):
        return [(mk('itmapseq', v, 'ref', cp[0], cp[1], 'iter'), st)]
    return [(seqit(v, 'ref'), st)]


@model('slice::iter_mut', 'Vec::iter_mut', 'IndexMap::iter_mut', 'Option::iter_mut', 'IndexMap::values_mut', 'HashMap::iter_mut', 'HashMap::values_mut')
def iter_mut(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    n = f.key.split('::')[0]
    if n == 'Option':
        return [(mk('itopt', v, 'mut', cp[0], cp[1]), st)]
    if n in ('IndexMap', 'HashMap'):
        return [(mk('itmapseq', v, 'mut', cp[0], cp[1], 'values' if f.n == 'values_mut' else 'iter'), st)]
    return [(seqit(v, 'mut', cp[0], cp[1]), st)]


@model('IndexMap::keys', 'IndexMap::values', 'HashMap::keys', 'HashMap::values', 'IndexMap::into_values', 'IndexMap::into_keys', 'HashMap::into_values')
def keys(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    return [(mk('itmapseq', v, 'ref', None, None, 'keys' if 'keys' in f.n else 'values'), st)]


@model('IndexMap::drain', 'HashMap::drain')
def map_drain(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    t = I_.P.strip(I_.ty(v)) or ('adt', 'indexmap::map::IndexMap', ())
    wr(I_, st, cp, mk('mempty', t))
    return [(mk('itmapseq', v, 'own', None, None, 'iter'), st)]


def adaptor(kind):
    def h(I_, f, args, st, fr):
        if kind == 'itzip' and args[0].k == 'adt' and args[0].a[0].endswith('::RangeFrom') and args[0].a[3][0].k == 'int':
            # counting along
            t = f.a[1] if len(f.a) > 1 else None
            return [(mk('itenum', to_iter(I_, st, args[1], I_.P.subst(t, fr.tm) if t else None), args[0].a[3][0]), st)]
        it = to_iter(I_, st, args[0], None)
        rest = list(args[1:])
        if kind == 'itflat' and it.k == 'itopt':
            # at most one element
            out = []
            for i, p, s in fork_opt(I_, st, it.a[0]):
                if i == 0:
                    out.append((mk('itseq', (), 'own', None, None, 0), s))
                    continue
                x = mk('ref', it.a[2], it.a[3] + (('f', 'Some', 0, '0'),)) if it.a[1] == 'mut' else p
                out += [(to_iter(I_, s2, y), s2) for y, s2 in callf(I_, rest[0], [x], s, fr)]
            return out
        if kind == 'itchain' or kind == 'itzip':
            t = f.a[1] if len(f.a) > 1 else None
            rest[0] = to_iter(I_, st, rest[0], I_.P.subst(t, fr.tm) if t else None)
        if kind == 'itenum':
            rest = [I(0)]
        if kind == 'ittake' and it.k == 'itrep':
            return [(seqit(vec([E(it.a[0])] * rest[0].a[0]) if rest[0].k == 'int' and rest[0].a[0] <= 16 else mk('resize', vec(()), rest[0], it.a[0]), 'own'), st)]
        if kind == 'itskip' and rest[0] is I(0):
            return [(it, st)]
        if kind in ('itskip', 'ittake') and rest[0].k != 'int' and it.k in ('itseq', 'itcl'):
            x = it.a[0] if it.k == 'itcl' else it
            if x.k == 'itseq' and x.a[1] != 'mut':
                # a part of a sequence is a sequence
                v = vec(x.a[0])
                return [(seqit(mk('app', kind[2:], (v, rest[0]), I_.ty(v)), x.a[1]), st)]
        return [(mk(kind, it, *rest), st)]
    return h


for nm, kd in (('map', 'itmap'), ('filter', 'itfilter'), ('filter_map', 'itfm'), ('enumerate', 'itenum'), ('chain', 'itchain'), ('zip', 'itzip'),
               ('cloned', 'itcl'), ('copied', 'itcl'), ('take_while', 'ittw'), ('skip', 'itskip'), ('take', 'ittake'), ('flat_map', 'itflat'),
               ('skip_while', 'itsw'), ('inspect', 'itinsp')):
    MODELS['Iterator::' + nm] = adaptor(kd)


@model('Iterator::flatten')
def it_flatten(I_, f, args, st, fr):
    it = to_iter(I_, st, args[0])
    if it.k == 'itopt' and it.a[1] != 'mut':
        out = []
        for i, p, s in fork_opt(I_, st, it.a[0]):
            out.append((to_iter(I_, s, p) if i else mk('itseq', (), 'own', None, None, 0), s))
        return out
    return [(mk('itflat', it, UNIT), st)]


@model('Iterator::peekable', 'Iterator::fuse', 'Iterator::by_ref', 'Iterator::into_iter')
def it_same(I_, f, args, st, fr):
    return [(args[0], st)]


@model('iter::repeat')
def it_repeat(I_, f, args, st, fr):
    return [(mk('itrep', full(I_, st, args[0])), st)]


@model('iter::repeat_n')
def it_repeat_n(I_, f, args, st, fr):
    x, n = full(I_, st, args[0]), full(I_, st, args[1])
    return [(seqit(vec([E(x)] * n.a[0]) if n.k == 'int' and n.a[0] <= 16 else mk('resize', vec(()), n, x), 'own'), st)]


@model('iter::once')
def it_once(I_, f, args, st, fr):
    return [(seqit(vec((E(args[0]),)), 'own'), st)]


@model('iter::empty')
def it_empty(I_, f, args, st, fr):
    return [(seqit(vec(()), 'own'), st)]


@model('Iterator::rev')
def it_rev(I_, f, args, st, fr):
    it = to_iter(I_, st, args[0])
    if it.k == 'itseq' and all(s.k == 'e' for s in it.a[0]) and it.a[1] != 'mut':
        return [(seqit(vec(tuple(reversed(it.a[0]))), it.a[1]), st)]
    if it.k == 'itseq' and it.a[1] != 'mut':
        v = vec(it.a[0])
        return [(seqit(mk('app', 'rev', (v,), I_.ty(v)), it.a[1]), st)]
    return None


def straight(I_, fr):
    """Is the current call outside any loop of its function?"""
    b = fr.b
    bb = I_.cur_bb.get(fr.d)
    if bb is None or b.rpo is None:
        return False
    return not any(bb in blocks for blocks in b.loops.values())


def step(I_, st, it, fr, once=False):
    """[(element | None | 'latch', iterator, state)]"""
    r = step0(I_, st, it, fr, once)
    if r is None:
        raise Unsupported(it.k)
    return r


def step0(I_, st, it, fr, once=False):
    k = it.k
    if k == 'itby':
        cur = I_.read(st, it.a[0], it.a[1])
        out = []
        for r, n, s in step(I_, st, cur, fr, once):
            s = s.copy()
            I_.write(s, it.a[0], it.a[1], n)
            out.append((r, it, s))
        return out
    if k == 'itseq':
        segs, mode, cell, path, pos = it.a
        if not segs:
            return [(None, it, st)]
        s0 = segs[0]
        if s0.k == 'e':
            x = s0.a[0] if mode != 'mut' else mk('ref', cell, path + (('i', I(pos)),))
            return [(x, mk('itseq', segs[1:], mode, cell, path, pos + 1), st)]
        if once:
            X = s0.a[0] if s0.k == 'sp' else mk('vec', (s0,))
            out = []
            for b, s in I_.branch(st, I_.eq(vlen(I_, X), I(0))):
                if b:
                    out += step(I_, s, mk('itseq', segs[1:], mode, cell, path, pos), fr, once)
                elif mode == 'mut':
                    out.append((mk('ref', cell, path + (('i', I(0)),)), mk('itseq', (SP(mk('app', 'tail', (X,), I_.ty(X))),) + segs[1:], mode, cell, path, pos), s))
                else:
                    out.append((I_.getp(X, ('i', I(0))), mk('itseq', (SP(mk('app', 'tail', (X,), I_.ty(X))),) + segs[1:], mode, cell, path, pos), s))
            return out
        rest = mk('itseq', segs[1:], mode, cell, path, pos)
        out = []
        if s0.k == 'sp':
            X = s0.a[0]
            s1 = st.copy()
            s1.marks = st.marks + (('in', X),)
            ln = mk('len', X)
            s1.pc = frozenset(c for c in st.pc if not any(f[0] is ln and not f[1] and f[2] == {0} for f in c))
            x = mk('elem', X)
            if X.k == 'gupd':
                x = X.a[2]
            if mode == 'mut':
                x = mk('ref', cell, path + (('g', X),))
            if s1.pc:
                out.append((x, it, s1))
        else:
            # repetition produced by an earlier loop
            X, alts = s0.a
            if all(len(a[1]) <= 1 and all(y.k == 'e' for y in a[1]) for a in alts) and mode != 'mut':
                covered = False
                tot = frozenset()
                for pc, sg in alts:
                    s1 = st.copy()
                    s1.pc = and_pc(I_, st.pc, pc)
                    if not s1.pc:
                        continue
                    s1.marks = st.marks + (('in', X),)
                    out.append((sg[0].a[0] if sg else 'latch', it, s1))
            else:
                Y = mk('vec', (s0,))
                s1 = st.copy()
                s1.marks = st.marks + (('in', Y),)
                X = Y
                out.append((mk('elem', Y), it, s1))
        s2 = st.copy()
        s2.marks = st.marks + (('done', X),)
        out.append(('latch' if segs[1:] else None, rest, s2))
        return out
    if k == 'itmapseq':
        M, mode, cell, path, what = it.a
        if M.k == 'mempty':
            return [(None, it, st)]

        def item(kx, vx):
            if what == 'keys':
                return kx
            if what == 'values':
                return vx
            return mk('tup', (kx, vx))
        # fully known map
        chain = []
        m = M
        while m.k == 'minsert':
            chain.append((m.a[1], m.a[2]))
            m = m.a[0]
        if m.k == 'mempty' and all(c[0].k in ('str', 'int') for c in chain):
            kx, vx = chain[-1]
            if mode == 'mut':
                vx = mk('ref', cell, path + (('mk', kx),))
            nm = m
            for kk, vv in reversed(chain[:-1]):
                nm = mk('minsert', nm, kk, vv)
            return [(item(kx, vx), mk('itmapseq', nm, mode, cell, path, what), st)]
        if M.k == 'mretain' and len(M.a) == 3 and mode != 'mut' and not once:
            # the kept entries of the map underneath
            out = []
            for r, n, s in step(I_, st, mk('itmapseq', M.a[0], mode, cell, path, 'iter'), fr):
                if r is None:
                    out.append((r, n, s))
                    continue
                for cond, y in ((M.a[1], item(*r.a[0])), (M.a[2], 'latch')):
                    pc = frozenset()
                    for k in cond:
                        q = s.pc
                        for t_, n_, v_ in k:
                            q = I_.assume(q, t_, n_, v_)
                        pc |= q
                    if pc:
                        from .interp import pc_simplify
                        s2 = s.copy()
                        s2.pc = pc_simplify(pc, I_.domain)
                        out.append((y, it, s2))
            return out
        s1 = st.copy()
        s1.marks = st.marks + (('in', M),)
        vx = mk('ref', cell, path + (('gv', M),)) if mode == 'mut' else mk('eval', M)
        s2 = st.copy()
        s2.marks = st.marks + (('done', M),)
        if once:
            return None
        return [(item(mk('ekey', M), vx), it, s1), (None, mk('itmapseq', mk('mempty', ('adt', 'indexmap::map::IndexMap', ())), mode, cell, path, what), s2)]
    if k == 'itopt':
        v, mode, cell, path = it.a
        done = mk('itseq', (), 'own', None, None, 0)
        out = []
        for i, p, s in fork_opt(I_, st, v):
            if i == 0:
                out.append((None, done, s))
            else:
                out.append((p if mode != 'mut' else mk('ref', cell, path + (('f', 'Some', 0, '0'),)), done, s))
        return out
    if k == 'itrange':
        a, b = it.a
        if a.k == 'int' and b.k == 'int':
            if a.a[0] >= b.a[0]:
                return [(None, it, st)]
            return [(a, mk('itrange', I(a.a[0] + 1), b), st)]
        X = None
        if a is I(0) and b.k == 'len':
            X = b.a[0]
        Y = X if X is not None else mk('range', a, b)
        s1 = st.copy()
        s1.marks = st.marks + (('in', Y),)
        s2 = st.copy()
        s2.marks = st.marks + (('done', Y),)
        return [(mk('idx', Y), it, s1), (None, mk('itrange', b, b), s2)]
    if k in ('itmap', 'itfilter', 'itfm', 'itinsp', 'ittw', 'itsw'):
        inner, clo = it.a[0], it.a[1]
        out = []
        for r, n, s in step(I_, st, inner, fr, once):
            nit = mk(k, n, *it.a[1:])
            if r is None or r == 'latch':
                out.append((r, nit, s))
                continue
            if k == 'itmap':
                out += [(y, nit, s2) for y, s2 in callf(I_, clo, [r], s, fr)]
            elif k == 'itinsp':
                out += [(r, nit, s2) for y, s2 in callf(I_, clo, [r], s, fr)]
            elif k == 'itfm':
                for y, s2 in callf(I_, clo, [r], s, fr):
                    for i, p, s3 in fork_opt(I_, s2, y):
                        out.append((p if i == 1 else 'latch', nit, s3))
            else:
                for y, s2 in callf(I_, clo, [r], s, fr):
                    for b, s3 in I_.branch(s2, y):
                        if k == 'itfilter':
                            out.append((r if b else 'latch', nit, s3))
                        elif k == 'ittw':
                            out.append((r, nit, s3) if b else (None, mk('itseq', (), 'own', None, None, 0), s3))
                        else:
                            out.append(('latch', nit, s3) if b else (r, mk('app', 'after_skip_while', (n,), None) if False else n, s3))
        if once:
            out2 = []
            for r, n, s in out:
                if r == 'latch':
                    return None
                out2.append((r, n, s))
        return out
    if k == 'itcl':
        return [(full(I_, s, r) if isinstance(r, T) else r, mk('itcl', n), s) for r, n, s in step(I_, st, it.a[0], fr, once)]
    if k == 'itenum':
        inner, n0 = it.a
        out = []
        for r, n, s in step(I_, st, inner, fr, once):
            if r is None or r == 'latch':
                out.append((r, mk('itenum', n, n0), s))
            elif n is inner:
                mks = s.marks[len(st.marks):]
                X = mks[0][1] if mks else None
                pos = mk('idx', X) if n0 is I(0) else I_.lin(0, ((n0, 1), (mk('idx', X), 1)))
                out.append((mk('tup', (pos, r)), it, s))
            else:
                out.append((mk('tup', (n0, r)), mk('itenum', n, I_.lin(1, ((n0, 1),))), s))
        return out
    if k == 'itchain':
        a, b = it.a
        out = []
        for r, n, s in step(I_, st, a, fr, once):
            if r is None:
                if len(s.marks) > len(st.marks):
                    out.append(('latch', b, s))
                else:
                    # keep the shape: the state of the loop changes in the second part only
                    out += [(r2, mk('itchain', n, n2) if r2 is not None else n2, s2) for r2, n2, s2 in step(I_, s, b, fr, once)]
            else:
                out.append((r, mk('itchain', n, b), s))
        return out
    if k == 'itzip':
        a, b = (whole(x) for x in it.a)
        if any(x.k == 'itseq' and x.a[0] and x.a[0][0].k != 'e' for x in (a, b)) and not all(x.k == 'itseq' and len(x.a[0]) == 1 and x.a[0][0].k == 'sp' for x in (a, b)):
            # which element of the one meets which of the other?
            if all(x.k == 'itseq' and x.a[0] for x in (a, b)):
                return None
        # two generic sequences advance together: index-aligned generic elements
        if a.k == 'itseq' and b.k == 'itseq' and len(a.a[0]) == 1 and len(b.a[0]) == 1 and a.a[0][0].k == 'sp' and b.a[0][0].k == 'sp':
            X, Y = a.a[0][0].a[0], b.a[0][0].a[0]
            Z = mk('zip', X, Y)
            s1 = st.copy()
            s1.marks = st.marks + (('in', Z),)
            s2 = st.copy()
            s2.marks = st.marks + (('done', Z),)
            idx = mk('idx', Z)

            def at(i, V):
                if i.a[1] == 'mut':
                    return mk('ref', i.a[2], i.a[3] + (('i', idx),))
                return mk('at', V, idx)
            if any(x.a[1] == 'mut' and x.a[4] for x in (a, b)):
                return None
            return [(mk('tup', (at(a, X), at(b, Y))), it, s1), (None, mk('itseq', (), 'own', None, None, 0), s2)]
        out = []
        for r, n, s in step(I_, st, a, fr, once):
            if r is None or r == 'latch':
                out.append((r, mk('itzip', n, b), s))
                continue
            for r2, n2, s2 in step(I_, s, b, fr, once):
                if r2 is None:
                    out.append((None, mk('itseq', (), 'own', None, None, 0), s2))
                elif r2 == 'latch':
                    return [(mk('elem', mk('zip', a, b)), it, st)] if False else None
                else:
                    out.append((mk('tup', (r, r2)), mk('itzip', n, n2), s2))
        return out
    if k == 'itskip':
        inner, n = it.a
        if n.k == 'int' and n.a[0] == 0:
            return step(I_, st, inner, fr, once)
        if n.k == 'int' and inner.k == 'itseq' and len(inner.a[0]) >= n.a[0] and all(s.k == 'e' for s in inner.a[0][:n.a[0]]):
            segs, mode, c, p, pos = inner.a
            return step(I_, st, mk('itseq', segs[n.a[0]:], mode, c, p, pos + n.a[0]), fr, once)
        if inner.k == 'itseq' and inner.a[1] != 'mut':
            v = vec(inner.a[0])
            return step(I_, st, seqit(mk('app', 'skip', (v, n), I_.ty(v)), inner.a[1]), fr, once)
        return None
    if k == 'ittake':
        inner, n = it.a
        if n.k == 'int' and n.a[0] == 0:
            return [(None, it, st)]
        if n.k == 'int' and inner.k == 'itseq' and inner.a[0] and inner.a[0][0].k == 'e':
            return [(r, mk('ittake', x, I(n.a[0] - 1)), s) for r, x, s in step(I_, st, inner, fr, once)]
        if inner.k == 'itseq' and inner.a[1] != 'mut':
            v = vec(inner.a[0])
            return step(I_, st, seqit(mk('app', 'take', (v, n), I_.ty(v)), inner.a[1]), fr, once)
        return None
    if k == 'itflat':
        inner, clo = it.a[0], it.a[1]
        cur = it.a[2] if len(it.a) > 2 else None
        if cur is not None:
            out = []
            for r, n, s in step(I_, st, cur, fr, once):
                if r is None:
                    if len(s.marks) > len(st.marks):
                        out.append(('latch', mk('itflat', inner, clo), s))
                    else:
                        out += step(I_, s, mk('itflat', inner, clo), fr, once)
                else:
                    out.append((r, mk('itflat', inner, clo, n), s))
            return out
        out = []
        for r, n, s in step(I_, st, inner, fr, once):
            if r is None or r == 'latch':
                out.append((r, mk('itflat', n, clo), s))
                continue
            subs = [(r, s)] if clo is UNIT else callf(I_, clo, [r], s, fr)
            for y, s2 in subs:
                sub = to_iter(I_, s2, y)
                if sub.k == 'itseq' and all(q.k == 'e' for q in sub.a[0]) and len(sub.a[0]) <= 1 and sub.a[1] != 'mut':
                    out.append((sub.a[0][0].a[0] if sub.a[0] else 'latch', mk('itflat', n, clo), s2))
                elif sub.k == 'itopt' and sub.a[1] != 'mut':
                    for i, p, s3 in fork_opt(I_, s2, sub.a[0]):
                        out.append((p if i else 'latch', mk('itflat', n, clo), s3))
                elif n is not inner:
                    out.append(('latch', mk('itflat', n, clo, sub), s2))
                else:
                    return None
        return out
    return None


class Unsupported(Exception):
    pass


def unflatten(it):
    """An iterator made of element-wise adaptors over a flattening one: (flattening iterator, adaptors inside out)."""
    ad = []
    while it.k in ('itmap', 'itfilter', 'itfm', 'itinsp', 'itcl'):
        ad.append(it)
        it = it.a[0]
    if it.k != 'itflat' or len(it.a) > 2:
        return None
    return it, list(reversed(ad))


def adapt(I_, st, x, ad, fr):
    """[(element or None when dropped, state)] of element x going through the adaptors."""
    cur = [(x, st)]
    for a in ad:
        nxt = []
        for r, s in cur:
            if r is None:
                nxt.append((r, s))
            elif a.k == 'itcl':
                nxt.append((full(I_, s, r), s))
            else:
                for y, s2 in callf(I_, a.a[1], [r], s, fr):
                    if a.k == 'itmap':
                        nxt.append((y, s2))
                    elif a.k == 'itinsp':
                        nxt.append((r, s2))
                    elif a.k == 'itfm':
                        nxt += [(p if i == 1 else None, s3) for i, p, s3 in fork_opt(I_, s2, y)]
                    else:
                        nxt += [(r if b else None, s3) for b, s3 in I_.branch(s2, y)]
        cur = nxt
    return cur


def flat_body(I_, flat, ad, body, fr):
    """Body for the iterator underneath the flattening one: runs over the elements of each of its elements."""
    clo = flat.a[1]

    def inner(s, x):
        out = []
        for r, s1 in adapt(I_, s, x, ad, fr):
            out += [('cont', UNIT, s1)] if r is None else body(s1, r)
        return out

    def outer(s, x):
        out = []
        for y, s1 in ([(x, s)] if clo is UNIT else callf(I_, clo, [x], s, fr)):
            for kind, v, s2 in I_.iterate(s1, to_iter(I_, s1, y), inner, fr):
                out.append(('cont', UNIT, s2) if kind == 'end' else (kind, v, s2))
        return out
    return outer


def iter_next(I_, st, cell, fr):
    it = st.heap[cell]
    try:
        r = step(I_, st, it, fr)
    except Unsupported:
        return None
    out = []
    for x, n, s in r:
        s = s.copy()
        s.heap[cell] = n
        out.append((x, s))
    return out


@model('Iterator::next')
def it_next(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    it = I_.read(st, *cp)
    if not is_iter(it) and it.k != 'itby':
        if it.k == 'adt' and it.a[0].endswith('::Range'):
            it = mk('itrange', it.a[3][0], it.a[3][1])
        else:
            return None
    once = straight(I_, fr)
    try:
        r = step(I_, st, it, fr, once=once)
    except Unsupported:
        if not once or not is_iter(it):
            return None
        # outside of a loop: look for the first element, nothing is known about the rest
        out = []
        for kind, v, s in I_.iterate(st, it, lambda s1, x: [('brk', x, s1)], fr):
            s = s.copy()
            wr(I_, s, cp, mk('itseq', (), 'own', None, None, 0) if kind == 'end' else mk('app', 'rest', (it,), None))
            out.append((some(v) if kind == 'brk' else NONE, s))
        return out
    out = []
    for x, n, s in r:
        s = s.copy()
        wr(I_, s, cp, n)
        if x == 'latch':
            out.append(('latch', s))
        else:
            out.append((NONE if x is None else some(x), s))
    return out


def acc_cell(st, d):
    n = 0
    while ('X', d, 'acc%d' % n) in st.heap:
        n += 1
    return ('X', d, 'acc%d' % n)


def with_acc(I_, st, it, init, body, fr):
    """Fold an iterator into an accumulator cell; body(state, elem, cell) -> [(cont|brk, val, state)]. -> [(kind, brkval, acc, state)]"""
    cell = acc_cell(st, fr.d)
    st = st.copy()
    st.heap[cell] = init
    out = []
    for kind, v, s in I_.iterate(st, it, lambda s1, x: body(s1, x, cell), fr):
        acc = s.heap.pop(cell, init)
        out.append((kind, v, acc, s))
    return out


def pushing(I_):
    def body(s, x, cell):
        s = s.copy()
        s.heap[cell] = vec(segs_of(s.heap[cell]) + (E(x),))
        return [('cont', None, s)]
    return body


def seq_segs(it):
    """Segments of a plain by-value/by-ref iterator, if it is one."""
    if it.k == 'itseq' and it.a[1] != 'mut':
        return it.a[0]
    if it.k == 'itcl':
        return seq_segs(it.a[0])
    if it.k == 'itchain':
        a, b = seq_segs(it.a[0]), seq_segs(it.a[1])
        if a is not None and b is not None:
            return a + b
    return None


def collect_seq(I_, st, it, fr):
    """[(vec value, state)]"""
    sg = seq_segs(it)
    if sg is not None:
        return [(rejoin(I_, sg), st)]
    return [(acc, s) for kind, v, acc, s in with_acc(I_, st, it, vec(()), pushing(I_), fr) if kind == 'end']


@model('Extend::extend')
def extend(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    t = f.self
    tt = I_.P.strip(I_.P.subst(t, fr.tm)) if t else None
    at = f.a[2] if len(f.a) > 2 else None
    it = to_iter(I_, st, args[1], I_.P.subst(at, fr.tm) if at else None)
    if is_map(I_, v, tt):
        out = []

        def body(s, x):
            s = s.copy()
            m = I_.read(s, *cp)
            wr(I_, s, cp, I_.minsert(m, full(I_, s, I_.getp(x, ('f', None, 0, '0'))), full(I_, s, I_.getp(x, ('f', None, 1, '1')))))
            return [('cont', None, s)]
        return [(UNIT, s) for kind, _, s in I_.iterate(st, it, body, fr) if kind == 'end']
    if tt is not None and tt[0] == 'adt' and tt[1] == 'alloc::string::String':
        return None
    sg = seq_segs(it)
    if sg is not None:
        st = st.copy()
        wr(I_, st, cp, rejoin(I_, segs_of(v) + sg))
        return [(UNIT, st)]

    def body(s, x):
        s = s.copy()
        wr(I_, s, cp, vec(segs_of(I_.read(s, *cp)) + (E(x),)))
        return [('cont', None, s)]
    return [(UNIT, s) for kind, _, s in I_.iterate(st, it, body, fr) if kind == 'end']


@model('Iterator::collect', 'FromIterator::from_iter')
def collect(I_, f, args, st, fr):
    t = I_.rty
    it = to_iter(I_, st, args[0])
    n = t[1].split('::')[-1] if t is not None and t[0] == 'adt' else 'Vec'
    if n in ('IndexMap', 'HashMap', 'BTreeMap'):
        def body(s, x, cell):
            s = s.copy()
            kx = full(I_, s, I_.getp(x, ('f', None, 0, '0')))
            vx = full(I_, s, I_.getp(x, ('f', None, 1, '1')))
            s.heap[cell] = I_.minsert(s.heap[cell], kx, vx)
            return [('cont', None, s)]
        return [(acc, s) for kind, v, acc, s in with_acc(I_, st, it, mk('mempty', t), body, fr) if kind == 'end']
    if n == 'String':
        return [(mk('joined', v, S('')), s) for v, s in collect_seq(I_, st, it, fr)]
    if n in ('HashSet', 'BTreeSet', 'IndexSet'):
        return [(v, s) for v, s in collect_seq(I_, st, it, fr)]
    if n in ('Result', 'Option'):
        good = 0 if n == 'Result' else 1

        def body(s, x, cell):
            out = []
            for i, p, s2 in (fork_res if n == 'Result' else fork_opt)(I_, s, x):
                if i == good:
                    s2 = s2.copy()
                    s2.heap[cell] = vec(segs_of(s2.heap[cell]) + (E(p),))
                    out.append(('cont', None, s2))
                else:
                    out.append(('brk', err(p) if n == 'Result' else NONE, s2))
            return out
        res = []
        for kind, v, acc, s in with_acc(I_, st, it, vec(()), body, fr):
            res.append((v if kind == 'brk' else (ok(acc) if n == 'Result' else some(acc)), s))
        return res
    return collect_seq(I_, st, it, fr)


@model('Iterator::unzip')
def unzip(I_, f, args, st, fr):
    t = I_.rty
    it = to_iter(I_, st, args[0])
    if t is None or t[0] != 'tuple' or len(t[1]) != 2:
        return None
    maps = [x[0] == 'adt' and x[1].split('::')[-1] in ('IndexMap', 'HashMap', 'BTreeMap') for x in t[1]]
    if any(x[0] != 'adt' or not m and x[1].split('::')[-1] not in ('Vec', 'VecDeque') for x, m in zip(t[1], maps)):
        return None
    first = acc_cell(st, fr.d)
    st = st.copy()
    st.heap[first] = mk('mempty', t[1][0]) if maps[0] else vec(())
    cells = [first, acc_cell(st, fr.d)]
    st.heap[cells[1]] = mk('mempty', t[1][1]) if maps[1] else vec(())

    def body(s, x):
        s = s.copy()
        for i, c in enumerate(cells):
            y = I_.getp(x, ('f', None, i, str(i)))
            if maps[i]:
                s.heap[c] = I_.minsert(s.heap[c], full(I_, s, I_.getp(y, ('f', None, 0, '0'))), full(I_, s, I_.getp(y, ('f', None, 1, '1'))))
            else:
                s.heap[c] = vec(segs_of(s.heap[c]) + (E(y),))
        return [('cont', None, s)]
    out = []
    for kind, v, s in I_.iterate(st, it, body, fr):
        a, b = (s.heap.pop(c) for c in cells)
        if kind == 'end':
            out.append((mk('tup', (a, b)), s))
    return out


@model('Iterator::any', 'Iterator::all')
def it_any(I_, f, args, st, fr):
    it = to_iter(I_, st, args[0])
    want = f.n == 'any'

    def body(s, x):
        out = []
        for r, s2 in callf(I_, args[1], [x], s, fr):
            for b, s3 in I_.branch(s2, r):
                out.append(('brk' if b == want else 'cont', I(int(want)), s3))
        return out
    return [(I(int(want)) if kind == 'brk' else I(int(not want)), s) for kind, v, s in I_.iterate(st, it, body, fr)]


@model('Iterator::find', 'Iterator::find_map', 'Iterator::position')
def it_find(I_, f, args, st, fr):
    it = to_iter(I_, st, args[0])
    if f.n == 'position':
        it = mk('itenum', it, I(0))

    def body(s, x):
        out = []
        y = x
        if f.n == 'position':
            pos, y = x.a[0]
        for r, s2 in callf(I_, args[1], [y], s, fr):
            if f.n == 'find_map':
                for i, p, s3 in fork_opt(I_, s2, r):
                    out.append(('brk', some(p), s3) if i else ('cont', None, s3))
            else:
                for b, s3 in I_.branch(s2, r):
                    out.append(('brk', some(pos if f.n == 'position' else x), s3) if b else ('cont', None, s3))
        return out
    return [(v if kind == 'brk' else NONE, s) for kind, v, s in I_.iterate(st, it, body, fr)]


@model('Iterator::for_each')
def it_for_each(I_, f, args, st, fr):
    it = to_iter(I_, st, args[0])
    clo = args[1]
    # a by-value closure with mutable captures lives in a cell across iterations
    cell = acc_cell(st, fr.d)
    st = st.copy()
    st.heap[cell] = clo
    ref = mk('ref', cell, ())

    def body(s, x):
        return [('cont', None, s2) for r, s2 in callf(I_, ref, [x], s, fr)]
    out = []
    for kind, v, s in I_.iterate(st, it, body, fr):
        s.heap.pop(cell, None)
        out.append((UNIT, s))
    return out


@model('Iterator::fold')
def it_fold(I_, f, args, st, fr):
    it = to_iter(I_, st, args[0])

    def body(s, x, cell):
        out = []
        for r, s2 in callf(I_, args[2], [s.heap[cell], x], s, fr):
            s2 = s2.copy()
            s2.heap[cell] = r
            out.append(('cont', None, s2))
        return out
    return [(acc, s) for kind, v, acc, s in with_acc(I_, st, it, args[1], body, fr)]


@model('Iterator::count', 'Iterator::sum')
def it_count(I_, f, args, st, fr):
    it = to_iter(I_, st, args[0])
    sg = seq_segs(it)
    if f.n == 'count' and sg is not None:
        return [(vlen(I_, vec(sg)), st)]

    def body(s, x, cell):
        s = s.copy()
        s.heap[cell] = I_.lin(1 if f.n == 'count' else 0, ((s.heap[cell], 1),) + (() if f.n == 'count' else ((full(I_, s, x), 1),)))
        return [('cont', None, s)]
    return [(acc, s) for kind, v, acc, s in with_acc(I_, st, it, I(0), body, fr)]


@model('Iterator::last', 'Iterator::max', 'Iterator::min', 'Iterator::nth', 'Iterator::max_by_key', 'Iterator::partition')
def it_misc(I_, f, args, st, fr):
    it = to_iter(I_, st, args[0])
    out = []
    for v, s in collect_seq(I_, st, it, fr):
        if f.n == 'last':
            if v.k == 'vec' and v.a[0] and v.a[0][-1].k == 'e':
                out.append((some(v.a[0][-1].a[0]), s))
                continue
            for b, s2 in I_.branch(s, I_.eq(vlen(I_, v), I(0))):
                out.append((NONE, s2) if b else (some(I_.getp(v, ('last',))), s2))
        elif f.n == 'nth':
            i = args[1]
            c = I_.concrete_at(v, i.a[0]) if v.k == 'vec' and i.k == 'int' else None
            if c is not None:
                out.append((some(c), s))
                continue
            for b, s2 in I_.branch(s, I_.less(i, vlen(I_, v), True)):
                out.append((some(I_.getp(v, ('i', i))), s2) if b else (NONE, s2))
        elif f.n in ('max', 'min'):
            for b, s2 in I_.branch(s, I_.eq(vlen(I_, v), I(0))):
                out.append((NONE, s2) if b else (some(mk('app', f.n, (v,), I_.P.elemty(I_.ty(v)))), s2))
        else:
            out.append((mk('app', f.key, (v,) + tuple(args[1:]), I_.rty), s))
    return out


# ------------------------------------------------------------------------------- maps

def mget_opt(I_, m, key):
    """Option term for looking key up in map value m."""
    while m.k == 'minsert':
        if m.a[1] is key:
            return some(m.a[2])
        if m.a[1].k in ('int', 'str') and key.k in ('int', 'str'):
            m = m.a[0]
            continue
        break
    if m.k == 'mempty':
        return NONE
    if key.k == 'ekey' and key.a[0] is m:
        return some(mk('eval', m))
    if m.k == 'mu' and key.k == 'ekey' and key.a[0] is m.a[1]:
        return mk('mopt', m, key)
    return mk('mopt', m, key)


@model('IndexMap::get', 'HashMap::get', 'BTreeMap::get')
def mget(I_, f, args, st, fr):
    m = full(I_, st, args[0])
    key = full(I_, st, args[1])
    return [(mget_opt(I_, m, key), st)]


@model('IndexMap::get_mut', 'HashMap::get_mut')
def mget_mut(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    m = I_.read(st, *cp)
    key = full(I_, st, args[1])
    out = []
    for i, p, s in fork_opt(I_, st, mget_opt(I_, m, key)):
        out.append((NONE, s) if i == 0 else (some(mk('ref', cp[0], cp[1] + (('mk', key),))), s))
    return out


@model('IndexMap::contains_key', 'HashMap::contains_key')
def mhas(I_, f, args, st, fr):
    m = full(I_, st, args[0])
    key = full(I_, st, args[1])
    return [(I_.eq(I_.discr(mget_opt(I_, m, key)), I(1)), st)]


@model('IndexMap::insert', 'HashMap::insert', 'BTreeMap::insert')
def minsert(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    m = I_.read(st, *cp)
    key = full(I_, st, args[1])
    st = st.copy()
    old = mget_opt(I_, m, key)
    wr(I_, st, cp, I_.minsert(m, key, args[2]))
    return [(old, st)]


@model('HashSet::insert')
def sinsert(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    x = full(I_, st, args[1])
    (c, _), = scontains(I_, f, [v, x], st, fr)
    wr(I_, st, cp, vec(segs_of(v) + (E(x),)))
    return [(I_.neg(c), st)]


@model('IndexMap::remove', 'IndexMap::swap_remove', 'IndexMap::shift_remove', 'IndexMap::swap_remove_entry', 'IndexMap::shift_remove_entry',
       'IndexMap::remove_entry', 'HashMap::remove')
def mremove(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    m = I_.read(st, *cp)
    key = full(I_, st, args[1])
    st = st.copy()
    old = mget_opt(I_, m, key)
    wr(I_, st, cp, mk('mremove', m, key))
    if f.n.endswith('_entry'):
        return [(mk('app', 'removed', (m, key), None), st)]
    return [(old, st)]


@model('IndexMap::retain', 'HashMap::retain', 'Vec::retain', 'Vec::retain_mut')
def mretain(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    m = I_.read(st, *cp)
    if f.key.startswith('Vec'):
        it = mk('itfilter', seqit(m, 'own'), args[1])
        out = []
        for v, s in collect_seq(I_, st, it, fr):
            s = s.copy()
            wr(I_, s, cp, v)
            out.append((UNIT, s))
        return out
    acc = ('X', fr.d, 'keep%d' % I_.fresh(st, fr.d))
    st = st.copy()
    st.heap[acc] = vec(())

    def body(s, el):
        out = []
        k, v = (el.a[0][0], el.a[0][1]) if el.k == 'tup' else (el, el)
        for r, s1 in callf(I_, args[1], [k, v], s, fr):
            for b, s2 in I_.branch(s1, r):
                s2 = s2.copy()
                if b:
                    s2.heap[acc] = vec(segs_of(s2.heap[acc]) + (E(full(I_, s2, k)),))
                out.append(('cont', UNIT, s2))
        return out
    out = []
    for kind, v, s in I_.iterate(st, mk('itmapseq', m, 'own', None, None, 'iter'), body, fr):
        s = s.copy()
        kept = s.heap.pop(acc)
        if m.k == 'mempty':
            r = m
        elif kept.k == 'vec' and not kept.a[0]:
            r = mk('mretain', m, frozenset())
        elif kept.k == 'vec' and len(kept.a[0]) == 1 and kept.a[0][0].k == 'rep' and kept.a[0][0].a[0] is m:
            cond = frozenset(c for pc, sg in kept.a[0][0].a[1] if sg for c in pc)
            r = mk('mretain', m, cond, frozenset(c for pc, sg in kept.a[0][0].a[1] if not sg for c in pc))
        else:
            r = m if kept is mk('ekey', m) or kept.k != 'vec' else mk('app', 'retain', (m, kept), I_.ty(m))
        wr(I_, s, cp, r)
        out.append((UNIT, s))
    return out


@model('IndexMap::entry', 'HashMap::entry')
def entry(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    return [(mk('entry', cp[0], cp[1], full(I_, st, args[1]), I_.read(st, *cp)), st)]


@model('Entry::and_modify')
def and_modify(I_, f, args, st, fr):
    e = args[0]
    if e.k != 'entry':
        return None
    m = I_.read(st, e.a[0], e.a[1])
    out = []
    for i, p, s in fork_opt(I_, st, mget_opt(I_, m, e.a[2])):
        if i == 0:
            out.append((e, s))
        else:
            out += [(e, s2) for r, s2 in callf(I_, args[1], [mk('ref', e.a[0], e.a[1] + (('mk', e.a[2]),))], s, fr)]
    return out


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def or_insert(I_, f, args, st, fr):
    e = args[0]
    if e.k != 'entry':
        return None
    m = I_.read(st, e.a[0], e.a[1])
    out = []
    ref = mk('ref', e.a[0], e.a[1] + (('mk', e.a[2]),))
    for i, p, s in fork_opt(I_, st, mget_opt(I_, m, e.a[2])):
        if i == 1:
            out.append((ref, s))
            continue
        vals = [(args[1], s)] if f.n == 'or_insert' else callf(I_, args[1], [], s, fr) if f.n == 'or_insert_with' else None
        if vals is None:
            t = I_.rty
            vals = [(dummy_of(I_, t[2] if t is not None and t[0] == 'ref' else t), s)]
        for v, s2 in vals:
            s2 = s2.copy()
            I_.write(s2, e.a[0], e.a[1], I_.minsert(I_.read(s2, e.a[0], e.a[1]), e.a[2], v))
            out.append((ref, s2))
    return out


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut', 'OccupiedEntry::insert', 'VacantEntry::insert',
       'OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key')
def entry_use(I_, f, args, st, fr):
    e = args[0]
    if e.k == 'ref':
        e = I_.read(st, *cellof(I_, st, e))
    if e.k != 'entry':
        return None
    if f.n.endswith('key'):
        return [(e.a[2], st)]
    slot = mk('ref', e.a[0], e.a[1] + (('mk', e.a[2]),))
    if f.n != 'insert':
        return [(slot, st)]
    m = I_.read(st, e.a[0], e.a[1])
    st = st.copy()
    I_.write(st, e.a[0], e.a[1], I_.minsert(m, e.a[2], args[1]))
    return [(slot if f.key.startswith('Vacant') else I_.mget(m, e.a[2]), st)]


@model('slice::fill', 'Vec::fill')
def fill(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    v = I_.read(st, *cp)
    st = st.copy()
    wr(I_, st, cp, vec(I_.mkrep(v, [((E(args[1]),), frozenset([frozenset()]))])) if v.k != 'vec' or any(x.k != 'e' for x in v.a[0]) else
       vec(tuple(E(args[1]) for x in v.a[0])))
    return [(UNIT, st)]


# ------------------------------------------------------------------------------- lazies, regex, hashing

@model('Lazy::new', 'LazyLock::new')
def lazy_new(I_, f, args, st, fr):
    return [(mk('lazy', args[0]), st)]


@model('OnceCell::new', 'OnceLock::new')
def once_new(I_, f, args, st, fr):
    return [(mk('oncecell'), st)]


@model('OnceCell::get', 'OnceLock::get')
def once_get(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    return [(some(mk('once', str(cp[0][1]) if cp[0][0] == 'S' else str(cp))), st)]


@model('OnceCell::get_or_init', 'OnceCell::set', 'OnceLock::get_or_init', 'OnceLock::set')
def once_init(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    nm = str(cp[0][1]) if cp[0][0] == 'S' else str(cp)
    if f.n == 'set':
        st = st.copy()
        st.ev = st.ev + (mk('global_once', S(nm), I_.deepval(st, args[1])),)
        return [(ok(UNIT), st)]
    out = []
    for r, s in callf(I_, args[1], [], st, fr):
        s = s.copy()
        s.ev = s.ev + (mk('global_once', S(nm), I_.deepval(s, r)),)
        out.append((mk('once', nm), s))
    return out


@model('Regex::new')
def regex_new(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    return [(ok(mk('regex', v)), st)]


@model('Regex::is_match')
def regex_is_match(I_, f, args, st, fr):
    return [(mk('bapp', 'is_match', (full(I_, st, args[0]), full(I_, st, args[1]))), st)]


@model('Regex::captures')
def regex_captures(I_, f, args, st, fr):
    t = ('adt', OPT, ())
    return [(mk('app', 'captures', (full(I_, st, args[0]), full(I_, st, args[1])), t), st)]


def group_always(c, i):
    """Does this group of a known pattern take part in every match?"""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    while c.k == 'proj':
        c = c.a[0]
    if not (c.k == 'app' and c.a[0] == 'captures' and c.a[1][0].k == 'regex' and i.k == 'int'):
        return False
    p = c.a[1][0].a[0]
    p = p.a[0] if isinstance(p, T) else p
    if not isinstance(p, str):
        return False
    if i.a[0] == 0:
        return True
    try:
        tree = sp.parse(p)
    except Exception:
        return False

    def has(seq):
        for op, av in seq:
            n = str(op)
            if n == 'SUBPATTERN' and (av[0] == i.a[0] or has(av[-1])):
                return True
            if n in ('MAX_REPEAT', 'MIN_REPEAT') and av[0] > 0 and has(av[2]):
                return True
            if n == 'BRANCH' and all(has(x) for x in av[1]):
                return True
        return False
    return has(tree)


@model('Captures::get')
def cap_get(I_, f, args, st, fr):
    c = full(I_, st, args[0])
    if group_always(c, args[1]):
        return [(some(mk('app', 'capgrp', (c, args[1]), None)), st)]
    return [(mk('app', 'capget', (c, args[1]), ('adt', OPT, ())), st)]


@model('Match::as_str')
def match_as_str(I_, f, args, st, fr):
    return [(mk('app', 'matchstr', (full(I_, st, args[0]),), prim('str')), st)]


@model('DefaultHasher::new')
def hasher_new(I_, f, args, st, fr):
    return [(mk('hasher', ()), st)]


@model('Hash::hash', 'Hasher::write', 'Hasher::write_u8')
def hash_(I_, f, args, st, fr):
    if f.n == 'hash':
        v, h = I_.deepval(st, args[0]), args[1]
    else:
        h, v = args[0], I_.deepval(st, args[1])
    cp = cellof(I_, st, h)
    hv = I_.read(st, *cp)
    st = st.copy()
    wr(I_, st, cp, mk('hasher', (hv.a[0] if hv.k == 'hasher' else (hv,)) + (v,)))
    return [(UNIT, st)]


@model('intrinsics::discriminant_value', 'mem::discriminant')
def discriminant_value(I_, f, args, st, fr):
    return [(I_.discr(full(I_, st, args[0])), st)]


@model('Hasher::finish')
def hash_finish(I_, f, args, st, fr):
    return [(mk('hash', full(I_, st, args[0])), st)]


@model('serde_json::to_string', 'ser::to_string')
def json_to_string(I_, f, args, st, fr):
    v = I_.deepval(st, args[0])
    return [(mk('app', 'json', (v,), ('adt', RES, (('adt', 'alloc::string::String', ()), ('other', 'e')))), st)]


@model('serde_json::from_str', 'de::from_str')
def json_from_str(I_, f, args, st, fr):
    v = I_.deepval(st, args[0])
    return [(mk('app', 'unjson', (v,), I_.rty), st)]


# ------------------------------------------------------------------------------- swc

@model('Ident::new')
def ident_new(I_, f, args, st, fr):
    return [(I_.adt('swc_ecma_ast::ident::Ident', 0, 'Ident', (args[1], args[2], full(I_, st, args[0]), FALSE)), st)]


@model('IdentName::new')
def identname_new(I_, f, args, st, fr):
    return [(I_.adt('swc_ecma_ast::ident::IdentName', 0, 'IdentName', (args[1], full(I_, st, args[0]))), st)]


@model('Ident::new_no_ctxt')
def ident_new2(I_, f, args, st, fr):
    return [(I_.adt('swc_ecma_ast::ident::Ident', 0, 'Ident', (args[1], CTXT0, full(I_, st, args[0]), FALSE)), st)]


@model('BytePos::is_dummy')
def is_dummy(I_, f, args, st, fr):
    return [(mk('bapp', 'is_dummy', (full(I_, st, args[0]),)), st)]


@model('Span::is_dummy')
def span_is_dummy(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    lo, hi = I_.getp(v, ('f', None, 0, 'lo')), I_.getp(v, ('f', None, 1, 'hi'))
    return [(mk('and', mk('bapp', 'is_dummy', (lo,)), mk('bapp', 'is_dummy', (hi,))), st)]


@model('Span::lo', 'Span::hi')
def span_lo(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    return [(I_.getp(v, ('f', None, 0 if f.n == 'lo' else 1, f.n)), st)]


@model('SourceMapper::lookup_char_pos')
def lookup_char_pos(I_, f, args, st, fr):
    return [(mk('app', 'charpos', (full(I_, st, args[1]),), ('adt', 'swc_common::syntax_pos::Loc', ())), st)]


@model('Spanned::span')
def spanned(I_, f, args, st, fr):
    return [(span_of(I_, full(I_, st, args[0])), st)]


@model('Spanned::span_lo', 'Spanned::span_hi')
def spanned_lo(I_, f, args, st, fr):
    v = span_of(I_, full(I_, st, args[0]))
    return [(I_.getp(v, ('f', None, 0 if f.n == 'span_lo' else 1, f.n[-2:])), st)]


SPAN_T = ('adt', 'swc_common::syntax_pos::Span', ())


def canon_span(I_, sp):
    """One form for the span of an enum node, however it was reached: `x@Variant.span` is the span of x."""
    if sp.k != 'proj' or sp.a[1] is not None or sp.a[3] != 'span':
        return sp
    x = sp.a[0]
    while x.k == 'proj' and x.a[1] is None:
        t = I_.P.strip(I_.ty(x.a[0]))
        if t is None or t[0] != 'adt' or DELEGATE.get(t[1].split('::')[-1]) != x.a[3]:
            return sp
        x = x.a[0]
    if x.k == 'proj' and x.a[1] is not None and x.a[2] == 0:
        bt = I_.P.strip(I_.ty(x.a[0]))
        if bt and bt[0] == 'adt' and bt[1].startswith('swc_ecma_ast::'):
            return span_of(I_, x.a[0])
    return sp


def span_of(I_, v):
    """Canonical span term of a node value: an enum node shares the span of its payload."""
    if v.k in ('V', 'Vc'):
        return span_of(I_, v.a[0])
    if v.k == 'adt':
        ad = I_.P.adts.get(v.a[0])
        if ad and ad[0]:
            if len(v.a[3]) >= 1:
                return span_of(I_, v.a[3][0])
        elif ad:
            return struct_span(I_, v, v.a[0], ad)
    t = I_.P.strip(I_.ty(v))
    if t is not None and t[0] == 'adt':
        if t[1].endswith('::Span'):
            return v
        ad = I_.P.adts.get(t[1])
        if ad and not ad[0]:
            return struct_span(I_, v, t[1], ad)
    # projection of an enum variant payload = span of the enum value
    if v.k == 'proj' and v.a[1] is not None:
        bt = I_.P.strip(I_.ty(v.a[0]))
        if bt and bt[0] == 'adt' and bt[1].startswith('swc_ecma_ast::') and v.a[2] == 0:
            return span_of(I_, v.a[0])
    return mk('app', 'span', (v,), SPAN_T)


DELEGATE = {'FnDecl': 'function', 'FnExpr': 'function', 'ClassDecl': 'class', 'ClassExpr': 'class', 'MethodProp': 'function', 'BindingIdent': 'id',
            'ExprOrSpread': 'expr'}


def struct_span(I_, v, path, ad):
    n = path.split('::')[-1]
    fs = ad[2][0][2]
    for i, (fn, ft) in enumerate(fs):
        if fn == DELEGATE.get(n, 'span'):
            x = I_.getp(v, ('f', None, i, fn))
            return x if fn == 'span' else span_of(I_, x)
    return mk('app', 'span', (v,), SPAN_T)


@model('IsDirective::directive_continue', 'IsDirective::is_use_strict', 'Stmt::is_use_strict')
def directive_continue(I_, f, args, st, fr):
    v = full(I_, st, args[0])
    if f.n == 'directive_continue' and never_directive(I_, st, v):
        return [(FALSE, st)]
    return [(mk('bapp', f.n, (v,)), st)]


def never_directive(I_, st, v):
    """A statement which is no expression statement of a string literal; what waits in `before` are counters."""
    if v.k == 'elem' and v.a[0].k == 'vb':
        return True
    if v.k == 'Vc' and v.a[0].k == 'adt' and v.a[0].a[0].split('::')[-1] == 'Stmt':
        # a traversal of the children keeps the kind of statement
        return v.a[0].a[2] != 'Expr'
    if v.k != 'adt':
        return False
    n = v.a[0].split('::')[-1]
    if n == 'ModuleItem':
        return v.a[2] != 'Stmt' or never_directive(I_, st, I_.load_val(st, v.a[3][0]))
    if n != 'Stmt':
        return False
    if v.a[2] != 'Expr':
        return True
    x = I_.load_val(st, v.a[3][0])
    x = I_.getp(x, ('f', None, 1, 'expr')) if x.k == 'adt' else x
    if x.k != 'adt' or x.a[0].split('::')[-1] != 'Expr':
        return False
    if x.a[2] != 'Lit':
        return True
    x = I_.load_val(st, x.a[3][0])
    return x.k == 'adt' and x.a[2] != 'Str'


@model('Comments::get_leading', 'Comments::get_trailing')
def comments_get(I_, f, args, st, fr):
    t = ('adt', OPT, (('adt', 'alloc::vec::Vec', (('adt', 'swc_common::comments::Comment', ()),)),))
    return [(mk('app', f.n, (full(I_, st, args[1]),), t), st)]


@model('Comments::add_trailing', 'Comments::add_leading', 'Comments::add_pure_comment')
def comments_add(I_, f, args, st, fr):
    st = st.copy()
    st.ev = st.ev + (mk('comment', S(f.n), full(I_, st, args[1]), I_.deepval(st, args[2]) if len(args) > 2 else UNIT),)
    return [(UNIT, st)]


def vis_term(I_, st, vref):
    """(vis term, place of `before`) for a mutable visitor reference."""
    cp = cellof(I_, st, vref)
    v = I_.read(st, *cp)
    x = I_.expand(v, None) if v.k != 'adt' else v
    if x is None or x.k != 'adt':
        return None, None, None
    ad = I_.P.adts.get(x.a[0])
    names = [n for n, _ in ad[2][0][2]]
    fs = []
    bi = None
    for i, n in enumerate(names):
        if n == 'before':
            bi = i
        else:
            fs.append((n, x.a[3][i]))
    return mk('vis', x.a[0], tuple(fs)), (cp[0], cp[1] + (('f', None, bi, 'before'),)) if bi is not None else None, cp


@model('VisitMutWith::visit_mut_with', 'VisitMutWith::visit_mut_children_with')
def visit_mut(I_, f, args, st, fr):
    np = cellof(I_, st, args[0])
    x = I_.read(st, *np)
    vis, bplace, vp = vis_term(I_, st, args[1])
    if vis is None:
        return None
    st = st.copy()
    if st.guards:
        I_.panic('node visited while the shared coverage state is borrowed', st, fr)
    mode = 'V' if f.n == 'visit_mut_with' else 'Vc'
    nt = I_.P.strip(I_.P.subst(f.self, fr.tm)) if f.self else I_.ty(x)
    r = mk(mode, x, vis) if x.k not in ('adt',) or True else x
    if r.m is None and nt is not None:
        r.m = nt
    wr(I_, st, np, r)
    if bplace is not None:
        b = I_.read(st, *bplace)
        wr(I_, st, bplace, vec(segs_of(b) + (SP(mk('vb', mode, x, vis)),)))
    st.ev = st.ev + (mk('visit', mode, x, vis),)
    return [(UNIT, st)]


@model('VisitWith::visit_with', 'VisitWith::visit_children_with')
def visit_ro(I_, f, args, st, fr):
    x = full(I_, st, args[0])
    vp = cellof(I_, st, args[1])
    v = I_.read(st, *vp)
    x0 = I_.expand(v, None) if v.k != 'adt' else v
    if x0 is None or x0.k != 'adt':
        return None
    st = st.copy()
    fs = []
    for fv in x0.a[3]:
        t = mk('finds', x0.a[0], x, f.n == 'visit_with')
        fs.append(t if fv is FALSE else TRUE if fv is TRUE else mk('or', fv, t))
    wr(I_, st, vp, mk('adt', x0.a[0], x0.a[1], x0.a[2], tuple(fs)))
    return [(UNIT, st)]


def and_pc(I_, pc, extra):
    out = set()
    for c in extra:
        p = pc
        for (t, n, v) in c:
            p = I_.assume(p, t, n, v)
        out |= p
    from .interp import pc_simplify
    return pc_simplify(frozenset(out), I_.domain)
