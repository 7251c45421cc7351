"""C15: the output is a function of the program, its path and the options.

A whole-program effect analysis over the MIR of the three crates. Nothing may be read that is not an argument: no clock, no
randomness, no environment, no addresses, no order of an unordered container; and nothing may be kept in a static beyond
constants, so no earlier file can show in a later one.
"""
import re

from engine.mir import norm
from .common import *

# Crates whose code is known; calls into anything else cannot be judged.
KNOWN = ('alloc', 'core', 'std', 'hstr', 'swc_atoms', 'indexmap', 'once_cell', 'regex', 'serde', 'serde_core', 'serde_json', 'tracing',
         'tracing_core', 'tracing_subscriber', 'typed_path', 'wax', 'better_scoped_tls', 'itertools', 'hashbrown', 'rustc_hash')
KNOWN_PRE = ('swc_',)

# Where values come from that are neither arguments nor constants. Matched on the path as written in the program's own terms.
SOURCES = (
    ('the clock', r'^(std|core|alloc)::time::(SystemTime|Instant)|::time::(SystemTime|Instant)::|::(SystemTime|Instant)::(now|elapsed)'),
    ('the environment', r'^std::env::'),
    ('the file system', r'^std::fs::|^std::path::(Path|PathBuf)::(exists|canonicalize|is_file|is_dir|metadata|read_dir|read_link|symlink_metadata|try_exists)|^std::os::'),
    ('the network', r'^std::net::'),
    ('another process', r'^std::process::(id|Command|Child)'),
    ('the standard input', r'^std::io::(stdin|read_to_string)|::Stdin::'),
    ('the thread', r'^std::thread::|::thread::(current|Thread|ThreadId)|available_parallelism'),
    ('thread local state', r'LocalKey::|better_scoped_tls::'),
    ('randomness', r'RandomState::(new|default)|^rand|getrandom|^fastrand|BuildHasher::(hash_one|build_hasher)|^uuid'),
    ('an address', r'::(addr|expose_provenance|expose_addr|as_ptr_addr|addr_of)$|Argument::new_pointer|fmt::Pointer|^(std|core)::ptr::(hash|addr)'),
    ('a fresh mark', r'Mark::(new|fresh|from_u32)$|::private_ident|SyntaxContext::(apply_mark|from_u32)|hygiene::(new_mark|fresh)|Globals::'),
    ('a type id or location', r'^(std|core)::any::TypeId::|panic::Location::caller|::backtrace::'),
)
SOURCES = tuple((w, re.compile(r)) for w, r in SOURCES)

# Cells that can change after they were made.
CELLS = ('Cell', 'RefCell', 'UnsafeCell', 'SyncUnsafeCell', 'Mutex', 'RwLock', 'OnceCell', 'OnceLock', 'Lazy', 'LazyLock', 'LazyCell', 'LocalKey', 'ScopedKey',
         'ArcSwap', 'DashMap', 'ReentrantLock', 'Condvar', 'Once', 'ThreadLocal', 'Sender', 'Receiver', 'Weak')
ONCE = ('OnceCell', 'OnceLock')
LAZY = ('Lazy', 'LazyLock', 'LazyCell')
LOGGING = ('tracing', 'tracing_core', 'tracing_subscriber')

UNORDERED = ('HashMap', 'HashSet')
UNORDERED_ITER = re.compile(r'::hash(_map|_set|::map|::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|Drain|IntoKeys|IntoValues|Union|Difference|Intersection|'
                            r'SymmetricDifference|ExtractIf|Extract)')
# What may be asked of an unordered container.
POINTWISE = ('new', 'default', 'with_capacity', 'with_hasher', 'insert', 'get', 'get_mut', 'get_or_insert_with', 'get_key_value', 'contains', 'contains_key', 'remove',
             'remove_entry', 'take', 'replace', 'entry', 'len', 'is_empty', 'clear', 'reserve', 'clone', 'clone_from', 'eq', 'ne', 'index', 'drop', 'capacity', 'shrink_to_fit',
             'or_insert', 'or_insert_with', 'or_default', 'and_modify', 'key', 'or_insert_with_key', 'is_subset', 'is_superset', 'is_disjoint', 'deref', 'deref_mut',
             'borrow', 'borrow_mut', 'as_ref', 'as_mut', 'unwrap', 'expect', 'into_mut', 'is_some', 'is_none', 'unwrap_or_default', 'try_insert', 'hasher')
ADAPTERS = ('map', 'filter', 'filter_map', 'copied', 'cloned', 'by_ref', 'flat_map', 'flatten', 'inspect', 'into_iter', 'iter', 'keys', 'values', 'into_keys', 'into_values',
            'union', 'intersection', 'difference', 'symmetric_difference', 'chain', 'deref', 'as_ref', 'drain', 'iter_mut', 'values_mut')
INSENSITIVE = ('any', 'all', 'count', 'sum', 'product', 'min', 'max', 'len', 'is_empty', 'size_hint', 'contains', 'drop')
SORTED = ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')
ORDERED_SINKS = ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap')


def types_in(t):
    if isinstance(t, tuple):
        if t and t[0] == 'adt':
            yield t
            for x in t[2]:
                yield from types_in(x)
        else:
            for x in t:
                yield from types_in(x)


def walk(o):
    if isinstance(o, dict):
        yield o
        for v in o.values():
            yield from walk(v)
    elif isinstance(o, list):
        for v in o:
            yield from walk(v)


def unordered(t):
    """Does the type contain a container (or an iterator of one) whose order is picked at run time?"""
    for x in types_in(t):
        n = last(x[1])
        if n in UNORDERED:
            h = x[2][-1] if x[2] else None
            named = any('Fx' in last(y[1]) or last(y[1]) in ('BuildHasherDefault', 'FxBuildHasher') for y in types_in(h)) if h else False
            if not named:
                return True
        if UNORDERED_ITER.search(x[1]):
            return True
    return False


class Effects:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.glue = set()

    def ob(self, ok, key, b, detail):
        self.ctx.ob('C15', ok, key, b, detail)

    def run(self):
        P = self.P
        bodies = []
        for b in P.order:
            if self.generated(b):
                self.glue.add(b.path)
                continue
            bodies.append(b)
        for b in bodies:
            self.ctx.analysed.add(b.pretty or b.path)
            self.calls(b)
            self.places(b)
            self.containers(b)
        self.statics(bodies)
        self.ctx.ob('C15', len(bodies) > 100 and any(b.name == 'create_coverage_instrumentation_visitor' for b in bodies), 'scope', 'whole program',
                    '%d function bodies, constants and statics of three crates analysed; the code generated by #[plugin_transform] (%s) is left out' % (
                        len(bodies), ', '.join(sorted(last(x) for x in self.glue))))
        self.ctx.notes.append('A function of another crate that is not named as a source in rules/effects.py is a function of its arguments.')

    def generated(self, b):
        """Host glue that swc's plugin macro puts around the transform."""
        p = b
        while p is not None:
            if p.exp and p.crate == PLUGIN and last(p.path).startswith(('__', 'send_transform', 'construct_error')):
                return True
            p = self.P.bodies.get(p.parent) if p.parent else None
        return p is not None or (b.crate == PLUGIN and any('__transform_plugin' in x or 'PluginDiagnosticsEmitter' in x for x in (b.path, b.pretty or '')))

    # -- calls
    def calls(self, b):
        bad = []
        n = 0
        seen = set()
        for o in walk(b.bbs):
            if o.get('c') != 'fn':
                continue
            f = o['f']
            if f.key in seen:
                pass
            n += 1
            root = f.p.split('::')[0]
            if root in (INST, OX, PLUGIN):
                continue
            if not (root in KNOWN or root.startswith(KNOWN_PRE)):
                bad.append('%s is outside of the analysed libraries' % f.pp)
                continue
            names = (norm(f.pp), norm(f.p), f.key)
            for what, rx in SOURCES:
                if any(rx.search(x) for x in names):
                    bad.append('%s reads %s' % (norm(f.pp), what))
                    break
            else:
                if f.n in ('new_debug', 'new_display', 'hash', 'new_pointer') and f.a and any(x and x[0] == 'ptr' for x in f.a[:1]):
                    bad.append('%s of a pointer' % norm(f.pp))
        self.ob(not bad, 'sources:' + (b.pretty or b.path), b, '; '.join(sorted(set(bad))[:4]) if bad else '%d calls read their arguments only' % n)

    # -- addresses, mutable statics
    def places(self, b):
        bad = []
        for o in walk(b.bbs):
            if o.get('r') == 'cast':
                if o['k'].startswith('PointerExpose'):
                    bad.append('turns an address into a number')
                elif o['k'].startswith('Transmute') and o['t'] and o['t'][0] == 'prim' and self.is_ptr(b, o['o']):
                    bad.append('turns an address into a number')
            elif o.get('r') == 'tls':
                bad.append('uses thread local state %s' % last(o['d']))
            elif o.get('o') == 'k' and o['v'].get('c') == 'static' and o['t'] and o['t'][0] in ('ptr', 'other'):
                bad.append('uses the mutable static %s' % last(o['v']['p']))
        self.ob(not bad, 'address:' + (b.pretty or b.path), b, '; '.join(sorted(set(bad))) if bad else 'no address and no mutable static is used')

    def is_ptr(self, b, o):
        if o.get('o') == 'k':
            return o['t'] and o['t'][0] in ('ptr', 'ref')
        if o.get('o') in ('c', 'm') and not o['p']['p']:
            t = b.locals[o['p']['l']]
            return t and t[0] in ('ptr', 'ref')
        return False

    # -- unordered containers
    def containers(self, b):
        if not any(unordered(t) for t in b.locals):
            return
        bad = []
        iters = {}
        for bb in b.bbs:
            t = bb['t']
            if t['t'] != 'call' or t['f']['o'] != 'k' or t['f']['v']['c'] != 'fn':
                continue
            f = t['f']['v']['f']
            tys = [x for x in (f.self, f.impl_self) if x] + list(f.a[:1] if f.trait or f.n.startswith('new_') else ())
            for a in t['a'] if 'a' in t else t.get('args', ()):
                if a.get('o') in ('c', 'm') and not a['p']['p']:
                    tys.append(b.locals[a['p']['l']])
            if not any(self.is_unordered(x) for x in tys) and not (f.n.startswith('new_') and any(unordered(x) for x in tys)):
                continue
            if f.n in POINTWISE or f.p.split('::')[0] in (INST, OX, PLUGIN):
                continue
            if f.n in INSENSITIVE or f.n in ADAPTERS:
                continue
            if f.n in ('collect', 'from_iter', 'extend'):
                d = b.locals[t['d']['l']] if t.get('d') else None
                into = next((last(x[1]) for x in types_in(d if f.n != 'extend' else f.a[0])), None)
                src = [x for x in tys if any(UNORDERED_ITER.search(y[1]) for y in types_in(x))]
                if into in ORDERED_SINKS or not src:
                    continue
                if into == 'Vec' and t.get('d') and self.sorted_next(b, t['d']['l']):
                    continue
                bad.append('the order of an unordered container ends up in a %s' % (into or 'value'))
                continue
            bad.append('%s depends on the order of an unordered container' % norm(f.pp))
        self.ob(not bad, 'order:' + (b.pretty or b.path), b, '; '.join(sorted(set(bad))[:4]) if bad else 'unordered containers are used entry by entry')

    def is_unordered(self, t):
        t = self.P.strip(t)
        return t is not None and t[0] == 'adt' and (unordered(('adt', t[1], t[2][-1:] if last(t[1]) in UNORDERED else ())) or (
            last(t[1]) in ('Map', 'Filter', 'FilterMap', 'Copied', 'Cloned', 'FlatMap', 'Flatten', 'Inspect', 'Chain', 'Enumerate', 'Zip', 'Take', 'Skip', 'Rev', 'Peekable',
                           'TakeWhile', 'SkipWhile', 'StepBy') and any(self.is_unordered(x) for x in t[2])))

    def sorted_next(self, b, l):
        """Is the local sorted in this body?"""
        al = {l}
        for bb in b.bbs:
            for s in bb['s']:
                if s['s'] == '=' and s.get('v'):
                    for o in walk(s['v']):
                        if 'l' in o and o.get('l') in al and not s['p']['p']:
                            al.add(s['p']['l'])
            t = bb['t']
            if t['t'] == 'call' and t['f']['o'] == 'k' and t['f']['v']['c'] == 'fn':
                args = t['a'] if 'a' in t else t.get('args', ())
                hit = any(a.get('o') in ('c', 'm') and a['p']['l'] in al for a in args)
                if hit and t['f']['v']['f'].n in SORTED:
                    return True
                if hit and t['f']['v']['f'].n in ('deref_mut', 'as_mut_slice', 'index_mut', 'borrow_mut') and t.get('d'):
                    al.add(t['d']['l'])
        return False

    # -- statics
    def statics(self, bodies):
        P = self.P
        uses = {}
        for b in bodies:
            for o in walk(b.bbs):
                if o.get('o') == 'k' and o['v'].get('c') == 'static':
                    uses.setdefault(o['v']['p'], set()).add(b.path)
        for b in bodies:
            if b.kind not in ('static', 'const'):
                continue
            t = b.locals[0]
            cells = [x for x in types_in(t) if last(x[1]) in CELLS or last(x[1]).startswith('Atomic')]
            cells = [x for x in cells if x[1].split('::')[0] not in LOGGING]
            hidden = [x for x in types_in(t) if self.own_cell(x)]
            msg = None
            if hidden and not cells:
                msg = 'keeps changeable state (%s)' % last(hidden[0][1])
            elif cells and b.kind == 'static':
                msg = self.cell(b, t, cells, uses)
            elif cells and last(cells[0][1]) in ('LocalKey', 'ScopedKey'):
                msg = 'keeps thread local state'
            self.ctx.ob('C15', msg is None, 'state:' + (b.pretty or b.path), b, 'the static %s' % msg if msg else 'holds a constant')

    def own_cell(self, x, seen=None):
        """A type of the analysed crates with a cell inside."""
        seen = seen or set()
        if x[1] in seen or x[1].split('::')[0] not in (INST, OX, PLUGIN):
            return False
        seen.add(x[1])
        for _, _, fs in self.P.adts.get(x[1], (0, 0, ()))[2]:
            for _, ft in fs:
                for y in types_in(ft):
                    if last(y[1]) in CELLS or last(y[1]).startswith('Atomic') or self.own_cell(y, seen):
                        return True
        return False

    def cell(self, b, t, cells, uses):
        top = t
        n = last(top[1]) if top[0] == 'adt' else ''
        inner = [x for x in cells if x is not top]
        if n in LAZY:
            held = top[2][0] if top[2] else None
            bad = [x for x in types_in(held) if last(x[1]) in CELLS or last(x[1]).startswith('Atomic') or self.own_cell(x)] if held else []
            return 'keeps changeable state (%s)' % last(bad[0][1]) if bad else None
        if n in ONCE:
            if len(inner):
                return 'keeps changeable state (%s)' % last(inner[0][1])
            for p in uses.get(b.path, ()):
                u = self.P.bodies[p]
                for bb in u.bbs:
                    tt = bb['t']
                    if tt['t'] != 'call' or tt['f']['o'] != 'k' or tt['f']['v']['c'] != 'fn':
                        continue
                    f = tt['f']['v']['f']
                    if not any(last(x[1]) in ONCE for y in (f.impl_self, f.self) + f.a if y for x in types_in(y)) and 'OnceCell' not in f.key and 'OnceLock' not in f.key:
                        continue
                    if f.n in ('get', 'deref', 'clone', 'wait'):
                        continue
                    if f.n in ('get_or_init', 'get_or_try_init'):
                        cl = [x[1] for x in f.a if x and x[0] == 'closure']
                        fd = [x for x in f.a if x and x[0] == 'fndef']
                        if fd or cl and all(not self.P.bodies[c].upvars for c in cl if c in self.P.bodies) and all(c in self.P.bodies for c in cl):
                            continue
                        return 'is filled by whichever file comes first (in %s)' % (u.pretty or u.path)
                    return 'is changed by %s in %s' % (f.n, u.pretty or u.path)
            return None
        return 'keeps changeable state (%s)' % last((cells or [top])[0][1])


def check(ctx, prop):
    Effects(ctx).run()
