"""C29, C32: how values are written to and read from JSON.

The bodies that serde derives (or that are written by hand) are interpreted abstractly. Writing a symbolic value gives a document:
names with the terms behind them. Documents are read back by interpreting the reading side on them; the values in them stay
symbolic, so one run covers every value. Types contained in a type are checked on their own and taken as faithful here.
"""
from engine import models
from engine.models import model, ok, err, some, NONE, rd, full, cellof, wr, fork_opt, callf  # noqa: F401
from .common import *

RES = 'core::result::Result'

# Rust field -> (name in JSON, optional when read: its value when missing, left out when absent)
REQ = object()
FILE = {
    'all': ('all', FALSE, False), 'path': ('path', REQ, False), 'statement_map': ('statementMap', REQ, False), 'fn_map': ('fnMap', REQ, False),
    'branch_map': ('branchMap', REQ, False), 's': ('s', REQ, False), 'f': ('f', REQ, False), 'b': ('b', REQ, False), 'b_t': ('bT', NONE, True),
    'input_source_map': ('inputSourceMap', NONE, True),
}
FUNC = {'name': ('name', REQ, False), 'decl': ('decl', REQ, False), 'loc': ('loc', REQ, False), 'line': ('line', REQ, False)}
BRANCH = {'loc': ('loc', NONE, False), 'branch_type': ('type', REQ, False), 'locations': ('locations', REQ, False), 'line': ('line', NONE, False)}
RANGE = {'start': ('start', REQ, False), 'end': ('end', REQ, False)}
LOC = {'line': ('line', REQ, False), 'column': ('column', REQ, False)}
SMAP = {
    'version': ('version', I(3), False), 'file': ('file', NONE, True), 'source_root': ('sourceRoot', NONE, True), 'sources': ('sources', 'empty', False),
    'sources_content': ('sourcesContent', NONE, True), 'names': ('names', 'empty', False), 'mappings': ('mappings', S(''), False),
}
OPTS = {
    'coverage_variable': ('coverageVariable', S('__coverage__'), False), 'compact': ('compact', FALSE, False), 'report_logic': ('reportLogic', FALSE, False),
    'ignore_class_methods': ('ignoreClassMethods', 'empty', False), 'input_source_map': ('inputSourceMap', NONE, False),
    'instrument_log': ('instrumentLog', 'default', False), 'debug_initial_coverage_comment': ('debugInitialCoverageComment', FALSE, False),
    'unstable_exclude': ('unstableExclude', NONE, False),
}
LOGS = {'level': ('level', NONE, False), 'enable_trace': ('enableTrace', FALSE, False)}
BT = {'BinaryExpr': 'binary-expr', 'DefaultArg': 'default-arg', 'If': 'if', 'Switch': 'switch', 'CondExpr': 'cond-expr'}

STRUCTS = {'FileCoverage': FILE, 'Function': FUNC, 'Branch': BRANCH, 'Range': RANGE, 'Location': LOC, 'SourceMap': SMAP}
OPTIONS = {'InstrumentOptions': OPTS, 'InstrumentLogOptions': LOGS}
CHECKED = set(STRUCTS) | set(OPTIONS) | {'BranchType'}


def jv(x):
    return mk('jv', x)


class Serde:
    """An interpreter with a document model of serde's traits."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P

    def interp(self):
        I_ = Interp(self.P)
        I_.unroll = True
        I_.models = dict(I_.models)
        I_.models.update(SERDE)
        I_.anchors = {'serde::de::Deserialize::deserialize': self.a_deserialize, 'serde::ser::Serialize::serialize': self.a_serialize}
        I_.serde = self
        return I_

    def checked(self, t):
        t = self.P.strip(t)
        return t is not None and t[0] == 'adt' and t[1].split('::')[0] in (OX, INST) and last(t[1]) in CHECKED

    def impl(self, trait, name, t):
        t = self.P.strip(t)
        for (tr, n), bs in self.P.impls.items():
            if n == name and last(tr) == trait:
                for b in bs:
                    if t is not None and self.P.unify(self.P.strip(b.impl_self), t, {}):
                        return b
        return None

    # Reading a T from document d: [(Result<T>, state)]
    def read(self, I_, t, d, st, fr):
        t = self.P.strip(t)
        b = self.impl('Deserialize', 'deserialize', t)
        if b is not None and not (self.checked(t) and d.k == 'jv' and d.a[0].k != 'jdoc'):
            return I_.run_body(b, [d], st, fr.d + 1, {}, fr.stack)
        if d.k == 'jv':
            x = d.a[0]
            if self.P.strip(I_.ty(x)) == t:
                return [(ok(x), st)]
            return [(ok(mk('app', 'reread', (x,), t)), st)]
        if d.k == 'jkey':
            return [(ok(S(d.a[0])), st)]
        return [(ok(mk('app', 'reread', (d,), t)), st)]

    def write(self, I_, v, st, fr, seen=()):
        """The document written for value v (as seen behind references): [(Result<doc>, state)]."""
        x = full(I_, st, v)
        t = self.P.strip(I_.ty(x))
        b = self.impl('Serialize', 'serialize', t)
        if b is not None and not self.checked(t):
            st = st.copy()
            c = ('H', 'ser%d' % len(st.heap))
            st.heap[c] = x
            return I_.run_body(b, [mk('ref', c, ()), mk('jout')], st, fr.d + 1, {}, fr.stack)
        return [(ok(jv(x)), st)]

    def a_deserialize(self, I_, f, args, st, fr):
        t = self.P.subst(f.self, fr.tm)
        return self.read(I_, t, args[0], st, fr)

    def a_serialize(self, I_, f, args, st, fr):
        if args[1].k == 'jout':
            return self.write(I_, args[0], st, fr)
        return None

    def visit(self, I_, name, visitor, args, st, fr):
        b = self.impl('Visitor', name, I_.ty(visitor))
        if b is None:
            I_.unmodelled.setdefault('Visitor::' + name, None)
            return [(err(NOISE), st)]
        return I_.run_body(b, [visitor] + args, st, fr.d + 1, {}, fr.stack)


SERDE = {}


def smodel(*keys):
    def d(fn):
        for k in keys:
            SERDE[k] = fn
        return fn
    return d


# -- writing

@smodel('Serializer::serialize_struct', 'Serializer::serialize_map')
def ser_struct(I_, f, args, st, fr):
    return [(ok(mk('jopen', ())), st)]


@smodel('SerializeStruct::serialize_field', 'SerializeMap::serialize_entry')
def ser_field(I_, f, args, st, fr):
    key = full(I_, st, args[1])
    out = []
    for r, s in I_.serde.write(I_, args[2], st, fr):
        if r.k == 'adt' and r.a[2] == 'Ok':
            cp = cellof(I_, s, args[0])
            o = I_.read(s, *cp)
            s = s.copy()
            wr(I_, s, cp, mk('jopen', o.a[0] + ((key.a[0] if key.k == 'str' else key, r.a[3][0]),)))
            out.append((ok(UNIT), s))
        else:
            out.append((r, s))
    return out


@smodel('SerializeStruct::skip_field')
def ser_skip(I_, f, args, st, fr):
    return [(ok(UNIT), st)]


@smodel('SerializeStruct::end', 'SerializeMap::end')
def ser_end(I_, f, args, st, fr):
    o = full(I_, st, args[0])
    return [(ok(mk('jdoc', o.a[0])), st)]


@smodel('Serializer::serialize_unit_variant')
def ser_unit_variant(I_, f, args, st, fr):
    return [(ok(mk('jkey', full(I_, st, args[3]).a[0])), st)]


@smodel('Serializer::serialize_str')
def ser_str(I_, f, args, st, fr):
    x = full(I_, st, args[1])
    return [(ok(mk('jkey', x.a[0]) if x.k == 'str' else jv(x)), st)]


@smodel('Serializer::collect_str')
def ser_collect_str(I_, f, args, st, fr):
    x = full(I_, st, args[1])
    r = mk('fmt', ((x,),)) if False else x
    return [(ok(jv(r)), st)]


@smodel('Serializer::serialize_newtype_struct')
def ser_newtype(I_, f, args, st, fr):
    return I_.serde.write(I_, args[2], st, fr)


@smodel('Serializer::serialize_some')
def ser_some(I_, f, args, st, fr):
    return [(ok(jv(some(full(I_, st, args[1])))), st)]


@smodel('Serializer::serialize_none')
def ser_none(I_, f, args, st, fr):
    return [(ok(jv(NONE)), st)]


@smodel('Serializer::serialize_bool', 'Serializer::serialize_u32', 'Serializer::serialize_u64', 'Serializer::serialize_i32', 'Serializer::serialize_i64')
def ser_prim(I_, f, args, st, fr):
    return [(ok(jv(args[1])), st)]


# -- reading

def doc_of(d):
    if d.k == 'jdoc':
        return d
    if d.k == 'jv' and d.a[0].k == 'jdoc':
        return d.a[0]
    return None


@smodel('Deserializer::deserialize_struct', 'Deserializer::deserialize_map', 'Deserializer::deserialize_any')
def de_struct(I_, f, args, st, fr):
    d = doc_of(args[0])
    if d is None:
        return None
    st = st.copy()
    return I_.serde.visit(I_, 'visit_map', args[-1], [mk('jacc', d.a[0], None)], st, fr)


@smodel('Deserializer::deserialize_identifier', 'Deserializer::deserialize_str', 'Deserializer::deserialize_string')
def de_ident(I_, f, args, st, fr):
    d = args[0]
    if d.k == 'jkey':
        return I_.serde.visit(I_, 'visit_str', args[-1], [S(d.a[0]) if isinstance(d.a[0], str) else d.a[0]], st, fr)
    if d.k == 'jv':
        return I_.serde.visit(I_, 'visit_str', args[-1], [d.a[0]], st, fr)
    return None


@smodel('Deserializer::deserialize_enum')
def de_enum(I_, f, args, st, fr):
    return I_.serde.visit(I_, 'visit_enum', args[-1], [mk('jenum', args[0])], st, fr)


@smodel('Deserializer::deserialize_newtype_struct')
def de_newtype(I_, f, args, st, fr):
    return I_.serde.visit(I_, 'visit_newtype_struct', args[-1], [args[0]], st, fr)


@smodel('EnumAccess::variant', 'EnumAccess::variant_seed')
def en_variant(I_, f, args, st, fr):
    out = []
    for r, s in I_.serde.read(I_, I_.P.subst(f.a[1], fr.tm), args[0].a[0], st, fr):
        out.append((ok(mk('tup', (r.a[3][0], args[0]))) if r.k == 'adt' and r.a[2] == 'Ok' else r, s))
    return out


@smodel('VariantAccess::unit_variant')
def en_unit(I_, f, args, st, fr):
    return [(ok(UNIT), st)]


@smodel('MapAccess::next_key')
def next_key(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    a = I_.read(st, *cp)
    if a.k != 'jacc':
        return None
    if not a.a[0]:
        return [(ok(NONE), st)]
    (k, v), rest = a.a[0][0], a.a[0][1:]
    st = st.copy()
    wr(I_, st, cp, mk('jacc', rest, v))
    out = []
    for r, s in I_.serde.read(I_, I_.P.subst(f.a[1], fr.tm), mk('jkey', k), st, fr):
        out.append((ok(some(r.a[3][0])) if r.k == 'adt' and r.a[2] == 'Ok' else r, s))
    return out


@smodel('MapAccess::next_value')
def next_value(I_, f, args, st, fr):
    cp = cellof(I_, st, args[0])
    a = I_.read(st, *cp)
    if a.k != 'jacc' or a.a[1] is None:
        return None
    t = I_.P.strip(I_.P.subst(f.a[1], fr.tm))
    if t is not None and t[0] == 'adt' and last(t[1]) == 'IgnoredAny':
        return [(ok(mk('dum', t)), st)]
    return I_.serde.read(I_, t, a.a[1], st, fr)


@smodel('MapAccess::next_entry')
def next_entry(I_, f, args, st, fr):
    return None


@smodel('MapAccess::size_hint')
def size_hint(I_, f, args, st, fr):
    return [(NONE, st)]


@smodel('de::missing_field', '__private::missing_field')
def missing(I_, f, args, st, fr):
    t = I_.P.strip(I_.P.subst(f.a[0], fr.tm)) if f.a else None
    if t is None or t[0] in ('param', 'other'):
        t = I_.rty
        t = t[2][0] if t is not None and t[0] == 'adt' and t[1] == RES and t[2] else None
    if t is not None and t[0] == 'adt' and t[1] == OPT:
        return [(ok(NONE), st)]
    return [(err(mk('app', 'missing', (full(I_, st, args[0]),), None)), st)]


def an_error(I_, f, args, st, fr):
    return [(mk('app', f.n, tuple(full(I_, st, x) for x in args), None), st)]


for _n in ('duplicate_field', 'unknown_variant', 'unknown_field', 'missing_field', 'invalid_value', 'invalid_length', 'custom', 'invalid_type'):
    SERDE['Error::' + _n] = an_error


class Rules(Serde):
    def run(self, prop):
        if prop == 'C29':
            for n, spec in STRUCTS.items():
                self.struct(prop, n, spec, True)
            self.branch_type(prop)
        else:
            for n, spec in OPTIONS.items():
                self.struct(prop, n, spec, False)
        self.ctx.notes.append('serde_json writes and reads strings, numbers, booleans, options, lists and maps faithfully; writing to memory does not fail.')

    def ob(self, prop, ok_, key, b, detail):
        return self.ctx.ob(prop, ok_, key, b, detail)

    def fields(self, name):
        p = self.ctx.adt(name)
        return p, [(f, t) for f, t in self.P.adts[p][2][0][2]]

    def default_of(self, v, t, dflt):
        if v is dflt:
            return True
        if dflt == 'empty':
            return v.k == 'vec' and not v.a[0] or v.k == 'mempty'
        if dflt is NONE:
            return v.k == 'adt' and v.a[2] == 'None'
        if dflt == 'default':
            t = self.P.strip(t)
            b = self.impl('Default', 'default', t)
            if b is None or not self.checked(t):
                return False
            return v is self.the_default(last(t[1]))
        return False

    def the_default(self, name):
        p = self.ctx.adt(name)
        b = self.impl('Default', 'default', ('adt', p, ()))
        if b is None:
            return None
        I_, outs = self.ctx.run(b, interp=self.interp(), args=[])
        return outs[0][0] if len(outs) == 1 else None

    def read_doc(self, b, entries, pc=None):
        I_ = self.interp()
        I2, outs = self.ctx.run(b, interp=I_, args=[mk('jdoc', tuple(entries))], pc=pc)
        return I_, outs

    def struct(self, prop, name, spec, writing):
        p, fs = self.fields(name)
        ty = ('adt', p, ())
        me = mk('sym', 'self', ty)
        proj = {f: mk('proj', me, None, i, f) for i, (f, t) in enumerate(fs)}
        for f in spec:
            if f not in proj:
                raise AnalysisError('no field %s in %s' % (f, name))
        key_of = {f: v[0] for f, v in spec.items()}
        rb = self.impl('Deserialize', 'deserialize', ty)
        if rb is None:
            self.ob(prop, False, 'read:' + name, p, 'the type cannot be read')
            return
        docs = None
        if writing:
            wb = self.impl('Serialize', 'serialize', ty)
            if wb is None:
                self.ob(prop, False, 'write:' + name, p, 'the type cannot be written')
                return
            docs = self.written(prop, name, spec, me, proj, wb)
            for entries, pc in docs:
                for k, v in entries:
                    for f, x in proj.items():
                        if v is jv(x) and f not in key_of:
                            key_of[f] = k
        # what every name is read into
        vals = {f: (jv(proj[f])) for f in proj}
        everything = [(key_of[f], vals[f]) for f, _ in fs if f in key_of]
        for label, order in (('all', everything), ('reversed', everything[::-1]), ('unknown', [('$unknown', jv(mk('sym', 'u', ('prim', 'u32'))))] + everything)):
            I_, outs = self.read_doc(rb, order)
            bad = self.same(outs, ty, proj, fs, {})
            self.ob(prop, not bad and not I_.unmodelled, 'read:%s:%s' % (name, label), rb, bad or (
                'calls outside the model: ' + ', '.join(map(str, I_.unmodelled)) if I_.unmodelled else
                'a document with every name%s gives the value with exactly these parts' % {'all': '', 'reversed': ' in reverse', 'unknown': ' and an unknown one'}[label]))
        # missing names
        for f, t in fs:
            if f not in key_of:
                # a part without a name in JSON: must not be needed
                continue
            dflt = spec[f][1] if f in spec else None
            if dflt is REQ:
                continue
            I_, outs = self.read_doc(rb, [(k, v) for k, v in everything if k != key_of[f]])
            bad = self.same(outs, ty, proj, fs, {f: dflt})
            self.ob(prop, not bad, 'missing:%s:%s' % (name, key_of[f]), rb, bad or '%s may be missing' % key_of[f])
        if all(v[1] is not REQ for v in spec.values()):
            I_, outs = self.read_doc(rb, [])
            bad = self.same(outs, ty, proj, fs, {f: v[1] for f, v in spec.items()})
            self.ob(prop, not bad, 'missing:%s:everything' % name, rb, bad or 'an empty document gives the defaults')
            d = self.the_default(name)
            bad = d is None or d.k != 'adt' or any(f in spec and not self.default_of(d.a[3][i], fs[i][1], spec[f][1]) for i, (f, _) in enumerate(fs))
            self.ob(prop, not bad, 'default:' + name, rb, 'the default value %s' % ('is the documented one' if not bad else 'is ' + brief(d)[:300] if d is not None else 'is unclear'))
        # names read
        got = self.names_read(rb)
        if got is not None:
            extra = sorted(got - set(key_of.values()))
            self.ob(prop, not extra, 'names:' + name, rb, 'the names that are read are those that are %s' % ('written' if writing else 'documented') if not extra else 'reads the names %s as well' % ', '.join(extra))
        # written documents read back
        for n, (entries, pc) in enumerate(docs or ()):
            I_, outs = self.read_doc(rb, entries, pc)
            absent = {f: NONE for f, x in proj.items() if f in key_of and key_of[f] not in [k for k, _ in entries]}
            bad = self.same(outs, ty, proj, fs, absent)
            self.ob(prop, not bad, 'back:%s:%d' % (name, n), rb, bad or 'the document with %s is read back as the value that was written' % ', '.join(str(k) for k, _ in entries))

    def written(self, prop, name, spec, me, proj, wb):
        I_ = self.interp()
        heap = {('H', 'self'): me}
        I_, outs = self.ctx.run(wb, interp=I_, args=[mk('ref', ('H', 'self'), ()), mk('jout')], heap=heap)
        self.ob(prop, not I_.unmodelled, 'modelled:' + name, wb, 'calls outside the model: ' + ', '.join(map(str, I_.unmodelled)) if I_.unmodelled else 'every call modelled')
        docs = []
        seen = {}
        for r, s in outs:
            if not (r.k == 'adt' and r.a[2] == 'Ok' and r.a[3][0].k == 'jdoc'):
                self.ob(prop, False, 'write:' + name, wb, 'writes %s' % brief(r)[:200])
                continue
            entries = r.a[3][0].a[0]
            docs.append((entries, s.pc))
            keys = [k for k, _ in entries]
            dup = [k for k in keys if keys.count(k) > 1]
            if dup:
                self.ob(prop, False, 'write:%s:%s' % (name, dup[0]), wb, 'the name is written twice')
            for f, (k, dflt, omit) in spec.items():
                have = [v for kk, v in entries if kk == k]
                x = proj[f]
                gone = all(self.implied_none(I_, c, x) for c in s.pc)
                may_none = any(self.may(I_, c, x, 0) for c in s.pc)
                if have:
                    good = have[0] is jv(x) and (not omit or not may_none)
                    why = 'is written as %s' % brief(have[0])[:200] if have[0] is not jv(x) else 'is written although it is absent'
                else:
                    good = omit and gone
                    why = 'is not written'
                o = seen.setdefault(f, [])
                if not good:
                    o.append('%s %s' % (k, why))
        for f, (k, dflt, omit) in spec.items():
            bad = seen.get(f, ['nothing is written'])
            self.ob(prop, not bad, 'write:%s:%s' % (name, k), wb, bad[0] if bad else 'written under its name' + (' when present, left out when absent' if omit else ''))
        return docs

    def implied_none(self, I_, c, x):
        return not self.may(I_, c, x, 1)

    def may(self, I_, c, x, i):
        pc = I_.assume(frozenset([c]), I_.discr(x), False, [i])
        return bool(pc)

    def same(self, outs, ty, proj, fs, dflts):
        """None if all outcomes are Ok(value made of the projections, or defaults for the given fields)."""
        if not outs:
            return 'nothing is read'
        for r, s in outs:
            if not (r.k == 'adt' and r.a[2] == 'Ok'):
                return 'fails with %s' % brief(r)[:200]
            v = r.a[3][0]
            for i, (f, t) in enumerate(fs):
                x = v.a[3][i] if v.k == 'adt' and v.a[0] == ty[1] else mk('proj', v, None, i, f)
                if f in dflts:
                    if dflts[f] is None or self.default_of(x, t, dflts[f]):
                        continue
                    return '%s becomes %s when it is missing' % (f, brief(x)[:160])
                if x is not proj[f]:
                    return '%s becomes %s' % (f, brief(x)[:160])
        return None

    def names_read(self, rb):
        """All names the reading side distinguishes, or None if it does not compare names in a way seen here."""
        out = set()
        pre = rb.path.rsplit('::', 1)[0]
        found = False
        for b in self.P.order:
            if b.name == 'visit_str' and b.path.startswith(rb.path) and b.impl_trait and last(b.impl_trait) == 'Visitor':
                found = True
                I_ = self.interp()
                v = mk('sym', 'name', ('prim', 'str'))
                I_, outs = self.ctx.run(b, interp=I_, args=[mk('dum', b.argty[0]), v])
                for r, s in outs:
                    if not (r.k == 'adt' and r.a[2] == 'Ok'):
                        continue
                    f = r.a[3][0]
                    if f.k == 'adt' and f.a[2] == '__ignore':
                        continue
                    for c in s.pc:
                        for t, n, val in c:
                            if t is v and not n:
                                out |= set(val)
                            if t.k == 'eq' and not n and val == frozenset([1]):
                                for y in t.a:
                                    if y.k == 'str':
                                        out.add(y.a[0])
        return out if found else None

    def branch_type(self, prop):
        p = self.ctx.adt('BranchType')
        ty = ('adt', p, ())
        wb, rb, ts = self.impl('Serialize', 'serialize', ty), self.impl('Deserialize', 'deserialize', ty), self.impl('ToString', 'to_string', ty)
        dis = self.impl('Display', 'fmt', ty)
        if wb is None or rb is None:
            self.ob(prop, False, 'variant', p, 'the branch type cannot be written or read')
            return
        vs = [v[0] for v in self.P.adts[p][2]]
        for i, vn in enumerate(vs):
            me = mk('adt', p, i, vn, ())
            I_, outs = self.ctx.run(wb, interp=self.interp(), args=[mk('ref', ('H', 'self'), ()), mk('jout')], heap={('H', 'self'): me})
            names = {r.a[3][0].a[0] if r.k == 'adt' and r.a[2] == 'Ok' and r.a[3][0].k == 'jkey' else None for r, s in outs}
            want = BT.get(vn)
            good = len(names) == 1 and None not in names and (want is None or names == {want})
            self.ob(prop, good, 'variant:%s:write' % vn, wb, '%s is written as %s' % (vn, ', '.join(map(str, names))))
            nm = next(iter(names)) if len(names) == 1 else None
            if nm is None:
                continue
            I_, outs = self.ctx.run(rb, interp=self.interp(), args=[mk('jkey', nm)])
            vals = {r.a[3][0] if r.k == 'adt' and r.a[2] == 'Ok' else None for r, s in outs}
            self.ob(prop, vals == {me}, 'variant:%s:read' % vn, rb, '%s is read as %s' % (nm, ', '.join(brief(x) if x is not None else 'an error' for x in vals)))
            if ts is not None:
                I_, outs = self.ctx.run(ts, interp=self.interp(), args=[mk('ref', ('H', 'self'), ())], heap={('H', 'self'): me})
                vals = {r for r, s in outs}
                self.ob(prop, vals == {S(nm)}, 'variant:%s:shown' % vn, ts, '%s is shown as %s' % (nm, ', '.join(brief(x) for x in vals)))
        self.ob(prop, set(BT) <= set(vs), 'variant:all', wb, 'the branch types are %s' % ', '.join(vs))
        got = self.names_read(rb)
        if got is not None:
            self.ob(prop, got <= set(BT.values()) | {x for x in got if len(vs) > len(BT)}, 'variant:names', rb, 'reads %s' % ', '.join(sorted(got)))


def check(ctx, prop):
    Rules(ctx).run(prop)
