"""Planted bugs: see mkseed.py. Each is written from a property's text and the code alone."""
P = 'packages/swc-coverage-instrument/src/'
SC = P + 'source_coverage/mod.rs'; IV = P + 'macros/instrumentation_visitor.rs'; HC = P + 'utils/hint_comments.rs'
CH = P + 'macros/instrumentation_counter_helper.rs'; CD = P + 'coverage_template/create_coverage_data_object.rs'
CF = P + 'coverage_template/create_coverage_fn_decl.rs'; CV = P + 'visitors/coverage_visitor.rs'; SW = P + 'visitors/switch_case_visitor.rs'
LR = P + 'utils/lookup_range.rs'; CI = P + 'macros/create_instrumentation_visitor.rs'
SEEDS = []
def seed(id, prop, edits, needs, what, check, **k): SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, check=check, **k))

seed('truth-slots-capped', 'C10', [(SC, """                counts_true.push(0);
""", """                // truth counters pair the two sides of the operator
                if counts_true.len() < 2 {
                    counts_true.push(0);
                }
""")], 'reportLogic and a logical expression with three or more operands',
 'the third and later operands get a branch path but no truth slot: bT is shorter than the branch locations and the truth counter indexes past its end',
 """
const src = 'var r = [0, 1].map(function (v) { return v && this && Math && v > 0; });';
const [o] = instrument([{ code: src, script: true, opts: { reportLogic: true } }]);
const { cov } = run(o);
for (const k of Object.keys(cov.bT)) {
  assert.strictEqual(cov.bT[k].length, cov.branchMap[k].locations.length, 'a truth slot per operand');
  cov.bT[k].forEach((n) => assert.ok(Number.isInteger(n), 'truth counts are numbers'));
}
""")

seed('truth-map-reset', 'C20', [(SC, """            if self.inner.b_t.is_none() {
                self.inner.b_t = Some(Default::default());
            }
""", """            if self.inner.b_t.as_ref().map_or(true, |b_t| !b_t.contains_key(&name)) {
                self.inner.b_t = Some(Default::default());
            }
""")], 'reportLogic and at least two separate logical expressions in the file',
 'registering a logical branch throws away the truth slots of every earlier one, so their truth counters hit nothing',
 """
const src = 'function f(a, b) { if (a && b) { return 1; } return a || b; }\\nvar x = f(1, 1), y = f(0, 0);';
const [o] = instrument([{ code: src, script: true, opts: { reportLogic: true } }]);
const { cov, ctx } = run(o);
assert.strictEqual(ctx.x, 1);
const logical = Object.keys(cov.branchMap).filter((k) => cov.branchMap[k].type === 'binary-expr');
assert.strictEqual(logical.length, 2);
for (const k of logical) assert.strictEqual((cov.bT[k] || []).length, 2, 'truth slots for branch ' + k);
""")

seed('with-body-counters-dropped', 'C02', [(IV, """                        let mut new_stmts = vec![];
                        new_stmts.extend(visitor.before.drain(..));
                        new_stmts.push(*with_stmt.body.take());
""", """                        let mut new_stmts = vec![];
                        if new_stmts.is_empty() {
                            visitor.before.clear();
                        }
                        new_stmts.push(*with_stmt.body.take());
""")], 'sloppy script with a `with` statement whose body is not a block',
 'the counters of the single-statement body are registered in the coverage data but never emitted',
 """
const src = 'var o = { n: 1 };\\nwith (o) n = n + 1;\\nwith (o) { n++; }';
const [o] = instrument([{ code: src, script: true }]);
const { cov, ctx } = run(o);
assert.strictEqual(ctx.o.n, 3);
for (const k of Object.keys(cov.s)) assert.ok(cov.s[k] > 0, 'statement ' + text(src, cov.statementMap[k]) + ' ran');
""")

seed('stmt-location-reused', 'C09', [(SC, """        let s = self.meta.last.s;
        self.inner.statement_map.insert(s, loc.clone());
""", """        let s = self.meta.last.s;
        // two counters in a row at the same place count the same thing
        if s > 0 && self.inner.statement_map.get(&(s - 1)) == Some(loc) {
            return s - 1;
        }
        self.inner.statement_map.insert(s, loc.clone());
""")], 'two statement counters registered one after the other at the same location (a tagged template as an expression statement, a lone arrow returning its own body, or nodes without location)',
 'two counters share one id, so one execution counts twice',
 """
const src = 'var log = [];\\nfunction tag(s) { log.push(s[0]); }\\ntag`a`\\n';
const [o] = instrument([{ code: src, script: true }]);
const ids = [...o.matchAll(/\\(\\)\\.s\\[(\\d+)\\]\\+\\+/g)].map((m) => m[1]);
assert.strictEqual(new Set(ids).size, ids.length, 'every statement counter has its own id: ' + ids);
const { cov } = run(o);
for (const k of Object.keys(cov.s)) assert.strictEqual(cov.s[k], 1);
""")

seed('labeled-ignore-leaks', 'C07', [(IV, """            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
                _ => {
                    // cover_statement's is_stmt prepend logic for individual child stmt visitor
                    self.mark_prepend_stmt_counter(&labeled_stmt.span);
                }
            }
""", """            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {
                    // nothing to count below an ignored label
                    labeled_stmt.visit_mut_children_with(self);
                    return;
                }
                _ => {
                    // cover_statement's is_stmt prepend logic for individual child stmt visitor
                    self.mark_prepend_stmt_counter(&labeled_stmt.span);
                }
            }
""")], 'a labelled loop under an ignore-next hint in a place visited without a fresh visitor (e.g. the body of a label) followed by other code',
 'the ignore state and the node stack are not restored, so code after the ignored label is silently not instrumented',
 """
const hint = '/* istanbul ignore next */';
const src = `switch (1) {\\n case 1:\\n  ${hint}\\n  lbl: for (;;) { break lbl; }\\n}\\nvar a = 1;\\nif (a) { a = 2; }\\n`;
const src2 = `${hint}\\nlbl: for (;;) { break lbl; }\\nvar a = 1;\\nif (a) { a = 2; }\\n`;
for (const [code, script] of [[src, true], [src2, true], [src2, false], [src, false]]) {
  const [o] = instrument([{ code, script }]);
  const { cov } = run(o);
  const t = Object.values(cov.statementMap).map((l) => text(code, l));
  assert.ok(t.includes('1'), 'initializer after the ignored label is counted');
  assert.ok(t.includes('a = 2;'), 'block after the ignored label is counted');
  assert.strictEqual(Object.keys(cov.branchMap).filter((k) => cov.branchMap[k].type === 'if').length, 1);
}
""")

seed('hint-needs-no-boundary', 'C06', [(HC, """(if|else|next)(\\W|$)").unwrap());""", """(if|else|next)").unwrap());""")],
 'a comment whose word merely starts with if/else/next, like `istanbul ignore nextTick …`',
 'ordinary comments act as ignore hints and suppress code nobody asked to ignore',
 """
const src = '/* istanbul ignore nextTick order */\\nvar a = 1;\\n/* istanbul ignore iffy stuff */\\nif (a) { a = 2; }\\n';
const [o] = instrument([{ code: src, script: true }]);
const { cov } = run(o);
const t = Object.values(cov.statementMap).map((l) => text(src, l));
assert.ok(t.includes('1') && t.includes('a = 2;'), t.join('|'));
assert.strictEqual(cov.branchMap[0].locations.length, 2);
""")

seed('file-hint-anywhere', 'C21', [(HC, r'''Regexp::new(r"^\s*istanbul\s+ignore\s+(file)(\W|$)").unwrap());''', r'''Regexp::new(r"\s*istanbul\s+ignore\s+(file)(\W|$)").unwrap());''')],
 'a comment at the top of the program which mentions the hint in running text',
 'a file whose first comment only talks about `istanbul ignore file` is not instrumented at all',
 """
const src = '// we no longer use the istanbul ignore file hint here\\nvar a = 1;\\n';
const [o, p] = instrument([{ code: src, script: true }, { code: '/* istanbul ignore file */ var a = 1;\\n', script: true }]);
assert.ok(run(o).cov, 'the file is instrumented');
assert.ok(!/\\+\\+/.test(p), 'the hint still works');
""")

seed('getter-ignore-substring', 'C19', [(IV, """                    if let PropName::Ident(ident) = &getter_prop.key {
                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.as_str() == &*ident.sym);
""", """                    if let PropName::Ident(ident) = &getter_prop.key {
                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.starts_with(&*ident.sym));
""")], 'ignoreClassMethods with a name that has the name of a getter as a proper prefix',
 'a getter is dropped from coverage because a different, longer method name is ignored',
 """
const src = 'var o = { get value() { return 1; }, get valueOf2() { return 2; }, set value(v) { this.v = v; } };\\nvar x = o.value;';
const [o] = instrument([{ code: src, script: true, opts: { ignoreClassMethods: ['valueOf2'] } }]);
const names = Object.values(run(o).cov.fnMap).map((f) => f.name);
assert.deepStrictEqual(names, ['value', 'value']);
""")

seed('range-end-line', 'C18', [(LR, """    let span_hi_loc = source_map.lookup_char_pos(span.hi);
    let span_lo_loc = source_map.lookup_char_pos(span.lo);
""", """    let span_lo_loc = source_map.lookup_char_pos(span.lo);
    // the end position is exclusive: look at the last character which is part of the node
    let last = if span.hi > span.lo + swc_core::common::BytePos(1) { span.hi - swc_core::common::BytePos(1) } else { span.hi };
    let mut span_hi_loc = source_map.lookup_char_pos(last);
    span_hi_loc.col.0 += if last == span.hi { 0 } else { 1 };
""")], 'a construct whose last character is multi-byte, or which is a single character long at the end of a line',
 'the recorded end of the construct is computed from the middle of a character instead of the end of the span',
 """
const src = 'var t = `a`;\\nvar s = "é" + \\u00e9\\u4e2d;\\n'.replace('\\u00e9\\u4e2d', 'é中');
const [o] = instrument([{ code: 'var é中 = 1;\\n' + src, script: true }]);
const { cov } = run(o);
const all = Object.values(cov.statementMap).map((l) => text('var é中 = 1;\\n' + src, l));
assert.ok(all.includes('"é" + é中'), JSON.stringify(all));
""")

seed('block-counter-after-body', 'C04', [(IV, """                            let mut new_stmts = vec![expr];
                            new_stmts.extend(block_stmt.stmts.drain(..));

                            block_stmt.stmts = new_stmts;
""", """                            let mut new_stmts: Vec<Stmt> = block_stmt.stmts.drain(..).collect();
                            // keep declarations at the top of the block
                            let at = new_stmts.iter().take_while(|s| matches!(s, Stmt::Decl(..))).count();
                            new_stmts.insert(at, expr);

                            block_stmt.stmts = new_stmts;
""")], 'an if block which starts with a hoisted function declaration or declarations whose initializer leaves the block (throws, or has effects on the counters)',
 'the branch counter runs after leading declarations of the block, so a throwing initializer leaves the branch uncounted',
 """
const src = 'function f() { if (true) { let function_ = null; const q = JSON.parse("{"); return q; } }\\ntry { f(); } catch (e) {}\\nfunction g() { if (true) { class A { static x = JSON.parse("{"); } } }\\ntry { g(); } catch (e) {}';
const [o] = instrument([{ code: src, script: true }]);
const { cov } = run(o);
assert.deepStrictEqual(Object.values(cov.b), [[1, 0], [1, 0]]);
""")

seed('ternary-kept-empty', 'C11', [(SC, """            if branch.locations.len() == 0 {
                branches.swap_remove_entry(key);
""", """            if branch.locations.is_empty() && branch.branch_type != BranchType::CondExpr {
                branches.swap_remove_entry(key);
""")], 'a conditional expression with both arms ignored by hints',
 'a branch without any path stays in the emitted data',
 """
const src = 'var a = 1 ? /* istanbul ignore next */ 2 : /* istanbul ignore next */ 3;\\nvar z = a ? 1 : 2;';
const [o] = instrument([{ code: src, script: true }]);
const { cov } = run(o);
assert.deepStrictEqual(Object.values(cov.b).map((v) => v.length), [2]);
assert.ok(Object.values(cov.branchMap).every((b) => b.locations.length > 0));
""")

seed('source-root-needs-file', 'C12', [(CD, "        if let Some(source_root) = &input_source_map.source_root {", "        if let Some(source_root) = input_source_map.source_root.as_ref().filter(|_| input_source_map.file.is_some()) {")],
 'an input source map with a sourceRoot but no file', 'the sourceRoot of the input source map is missing from the emitted coverage object',
 """
const map = { version: 3, sources: ['a.ts'], names: ['n'], mappings: 'AAAA', sourceRoot: '/root', sourcesContent: ['x'] };
const [o] = instrument([{ code: 'var a = 1;', script: true, opts: { inputSourceMap: map } }]);
const { cov } = run(o);
assert.strictEqual(cov.inputSourceMap.sourceRoot, '/root');
assert.strictEqual(cov.inputSourceMap.mappings, 'AAAA');
""")

seed('variable-name-raw', 'C13', [(CF, """            value: coverage_variable.into(),
""", """            value: coverage_variable.into(),
            raw: Some(format!("\\"{}\\"", coverage_variable).into()),
""")], 'a coverage variable with a quote, backslash or newline in its name',
 'the configured name is pasted into the output without escaping: invalid code, or a string with another value',
 """
const name = 'cov"\\\\n';
const [o] = instrument([{ code: 'var a = 1;', script: true, opts: { coverageVariable: name } }]);
const { ctx } = run(o);
assert.ok(ctx[name], 'the coverage is stored under the configured name');
""")

seed('getter-template-order', 'C03', [(IV, """                            self.insert_fn_counter(&mut body.stmts, b);
                        }
                        setter_prop.visit_mut_children_with(self);
                    }
""", """                            self.insert_fn_counter(&mut body.stmts, b);
                        }
                        setter_prop.key.visit_mut_with(self);
                        setter_prop.body.visit_mut_with(self);
                    }
""")], 'a setter with a computed or string key and a parameter with a default value',
 'the parameter of such a setter is never visited, so branches and functions in its default value are not instrumented',
 """
const src = 'var k = "p";\\nvar o = { set [k](v = this || (() => 3)) { this.q = v; } };\\no.p = undefined;';
const [o] = instrument([{ code: src, script: true }]);
const { cov } = run(o);
assert.deepStrictEqual(Object.values(cov.branchMap).map((b) => b.type).sort(), ['binary-expr', 'default-arg']);
assert.strictEqual(Object.keys(cov.fnMap).length, 2);
""")

O = 'packages/istanbul-oxide/src/'
OF = O + 'file_coverage.rs'; OM = O + 'coverage_map.rs'; OS = O + 'coverage_summary.rs'; OP = O + 'percent.rs'

seed('merge-missing-paths', 'C22', [(OF, """                if pair.0.len() < item_hits.len() {
                    pair.0.resize(item_hits.len(), 0);
                }

                for (h, hits) in item_hits.iter().enumerate() {
                    pair.0[h] += hits;
                }
""", """                for (existing, hits) in pair.0.iter_mut().zip(item_hits) {
                    *existing += hits;
                }
""")], 'merging an object whose branch has fewer path counters than the same branch of the other object',
 'hits of the paths the first object has no counter for are dropped',
 """
use crate::*;
pub fn main() {
    let mk = |hits: Vec<u32>| {
        let mut f = FileCoverage::empty("a.js".into(), false);
        f.branch_map.insert(0, Branch::from_loc(BranchType::Switch, Range::new(1, 0, 4, 0), vec![Range::new(1, 0, 1, 3), Range::new(2, 0, 2, 3)]));
        f.b.insert(0, hits);
        f
    };
    let mut a = mk(vec![1]);
    a.merge(&mk(vec![2, 5]));
    assert_eq!(a.b[&0], vec![3, 5]);
}
""", lib='oxide')

seed('pathless-branch-unmapped', 'C23', [(OF, """        hits.insert(idx as u32, hit.clone());
        map.insert(idx as u32, item.clone());
""", """        hits.insert(idx as u32, hit.clone());
        // nothing to report for a branch without paths
        if !item.locations.is_empty() {
            map.insert(idx as u32, item.clone());
        }
""")], 'an object with a branch that has no path (every arm ignored), as other instrumenters write it',
 'the merged hit map has an id the merged branch map does not have, and the next merge aborts on it',
 """
use crate::*;
pub fn main() {
    let mut a = FileCoverage::empty("a.js".into(), false);
    for (id, paths) in [(0u32, 0u32), (1, 2)] {
        let locations = (0..paths).map(|p| Range::new(id + 1, p * 5, id + 1, p * 5 + 1)).collect();
        a.branch_map.insert(id, Branch::from_loc(BranchType::If, Range::new(id + 1, 0, id + 1, 9), locations));
        a.b.insert(id, vec![1; paths as usize]);
    }
    let b = a.clone();
    a.merge(&b);
    assert_eq!(a.b.keys().collect::<Vec<_>>(), a.branch_map.keys().collect::<Vec<_>>());
    a.merge(&b);
}
""", lib='oxide')

seed('placeholder-keeps-truth', 'C24', [(OF, """            *self = coverage.clone();
            return;
""", """            let b_t = self.b_t.take();
            *self = coverage.clone();
            self.b_t = self.b_t.take().or(b_t);
            return;
""")], 'a placeholder object made with truth tracking, into which real data without truth tracking is merged',
 'the truth table of the placeholder survives in the real data',
 """
use crate::*;
pub fn main() {
    let mut a = FileCoverage::empty("a.js".into(), true);
    a.all = true;
    let mut real = FileCoverage::empty("a.js".into(), false);
    real.statement_map.insert(0, Range::new(1, 0, 1, 3));
    real.s.insert(0, 4);
    a.merge(&real);
    assert!(a == real);
}
""", lib='oxide')

seed('summary-truth-needs-both', 'C25', [(OS, """        if let Some(branches_true) = summary.branches_true {
            let mut""", """        if let (Some(branches_true), Some(_)) = (summary.branches_true, self.branches_true) {
            let mut""")], 'merging a summary with truth data into one without',
 'the truth category of the second summary is lost',
 """
use crate::*;
pub fn main() {
    let t = |a, b| coverage_summary::Totals::new(a, b, 0, coverage_summary::CoveragePercentage::Unknown);
    let mut a = coverage_summary::CoverageSummary::new(t(1, 1), t(1, 1), t(1, 1), t(0, 0), None);
    let b = coverage_summary::CoverageSummary::new(t(1, 1), t(1, 1), t(1, 1), t(4, 4), Some(t(4, 3)));
    a.merge(&b);
    let bt = a.branches_true.expect("truth category");
    assert_eq!((bt.total, bt.covered), (4, 3));
}
""", lib='oxide')

seed('line-hits-not-max', 'C26', [(OF, "                Some(pre_val) if pre_val < count => {", "                Some(pre_val) if *pre_val == 0 => {")],
 'a line on which three statements start with increasing non-zero hit counts', 'the line is reported with the first non-zero count instead of the highest',
 """
use crate::*;
pub fn main() {
    let mut a = FileCoverage::empty("a.js".into(), false);
    for (i, hits) in [0u32, 2, 7].iter().enumerate() {
        a.statement_map.insert(i as u32, Range::new(3, i as u32 * 4, 3, i as u32 * 4 + 2));
        a.s.insert(i as u32, *hits);
    }
    assert_eq!(a.get_line_coverage().get(&3), Some(&7));
}
""", lib='oxide')

seed('reset-truth-by-branch', 'C27', [(OF, """            for val in branches_true.values_mut() {
                val.iter_mut().for_each(|x| *x = 0);
            }
""", """            for (val, paths) in branches_true.values_mut().zip(self.b.values()) {
                val.iter_mut().take(paths.len()).for_each(|x| *x = 0);
            }
""")], 'truth data for only some of the branches, with fewer paths on the earlier branches',
 'truth counters beyond the path count of another branch keep their hits',
 """
use crate::*;
pub fn main() {
    let mut a = FileCoverage::empty("a.js".into(), true);
    for (id, n) in [(0u32, 2usize), (1, 3)] {
        a.branch_map.insert(id, Branch::from_loc(BranchType::BinaryExpr, Range::new(id, 0, id, 9), vec![Range::new(id, 0, id, 1); n]));
        a.b.insert(id, vec![1; n]);
    }
    a.b_t.as_mut().unwrap().insert(1, vec![4, 5, 6]);
    a.reset_hits();
    assert_eq!(a.b_t.unwrap()[&1], vec![0, 0, 0]);
}
""", lib='oxide')

seed('filter-keeps-placeholders', 'C28', [(OM, "            if predicate(&coverage) {", "            if coverage.all || predicate(&coverage) {")],
 'filtering a map that holds a placeholder entry', 'a placeholder entry the predicate rejects stays in the map',
 """
use crate::*;
pub fn main() {
    let mut p = FileCoverage::empty("b.js".into(), false);
    p.all = true;
    let mut m = CoverageMap::from_iter(vec![&FileCoverage::empty("a.js".into(), false), &p]);
    m.filter(|f| f.path == "a.js");
    assert_eq!(m.get_files(), vec![&"a.js".to_string()]);
}
""", lib='oxide')

seed('branch-line-from-loc', 'C30', [(OF, """            let line = if let Some(line) = map.line {
                line
            } else {
                map.loc.expect("Either line or loc should exist").start.line
            };
""", """            let line = match (map.loc, map.line) {
                (Some(loc), _) => loc.start.line,
                (None, Some(line)) => line,
                (None, None) => panic!("Either line or loc should exist"),
            };
""")], 'a branch that has both an explicit line and a location starting on another line',
 'the branch is counted for the line its location starts on instead of its explicit line',
 """
use crate::*;
pub fn main() {
    let mut a = FileCoverage::empty("a.js".into(), false);
    let mut br = Branch::from_loc(BranchType::If, Range::new(2, 0, 4, 1), vec![Range::new(2, 0, 4, 1), Range::new(2, 0, 4, 1)]);
    br.line = Some(3);
    a.branch_map.insert(0, br);
    a.b.insert(0, vec![1, 0]);
    assert_eq!(a.get_branch_coverage_by_line().keys().copied().collect::<Vec<_>>(), vec![3]);
}
""", lib='oxide')

seed('percent-scale-inexact', 'C33', [(OP, """        let tmp: f64 = ((1000 * 100 * covered as u64) / total as u64) as f64;
        return (tmp as f32 / 10 as f32).floor() / 100 as f32;
""", """        let tmp: f64 = ((1000 * 100 * 1000 * covered as u64) / total as u64) as f64;
        return (tmp as f32 / 10000 as f32).floor() / 100 as f32;
""")], 'more than twenty million entries with all but one covered', 'incomplete coverage is reported as 100 percent',
 """
use crate::*;
pub fn main() {
    assert_eq!(percent(3, 4), 75.0);
    assert!(percent(99_999_999, 100_000_000) < 100.0);
}
""", lib='oxide')

# ------------------------------------------------------------------------------------------------ determinism, plugin, JSON
PL = 'packages/swc-plugin-coverage/src/lib.rs'; IO = P + 'options/instrument_options.rs'; OB = 'packages/istanbul-oxide/src/types.rs'
OM = 'packages/istanbul-oxide/src/source_map.rs'
PLUGIN_MAIN = """mod harness;
#[allow(dead_code, unused_imports)]
mod plugin;
fn main() {
%s}
"""

seed('invalid-exclude-skips-file', 'C31', [(PL, """                println!("Could not parse unstable_exclude option, will be ignored");
                println!("{:#?}", e);
""", """                println!("Could not parse unstable_exclude option");
                println!("{:#?}", e);
                return program;
""")], 'an exclude list that contains a pattern wax cannot parse',
 'no file is instrumented at all, although the patterns are to be ignored when they are invalid',
 PLUGIN_MAIN % r"""    let code = "function f(a) { return a; }";
    let (before, after) = harness::run(code, Some("/p/src/a.js"), Some(r#"{"unstableExclude": ["**/*.test.js", "{broken"]}"#));
    assert_ne!(before, after, "instrumented despite an invalid pattern");
    let (before, after) = harness::run(code, Some("/p/src/a.test.js"), Some(r#"{"unstableExclude": ["**/*.test.js"]}"#));
    assert_eq!(before, after, "excluded");
""", lib='plugin')

seed('exclude-only-absolute', 'C31', [(PL, """    if typed_path.is_windows() {
        typed_path.with_unix_encoding().to_string()
    } else if path.contains('\\\\') {
""", """    if typed_path.is_windows() {
        typed_path.with_unix_encoding().to_string()
    } else if path.contains('\\\\') && !path.contains('/') {
""")], 'a relative Windows file name (or pattern) that mixes both separators, such as src/gen\\\\a.js',
 'backslashes stay in the file name, so a pattern that should exclude the file does not match',
 PLUGIN_MAIN % r"""    let code = "function f(a) { return a; }";
    for name in ["src/gen/a.js", "src\\gen\\a.js", "src/gen\\a.js"] {
        let (before, after) = harness::run(code, Some(name), Some(r#"{"unstableExclude": ["src/gen/*.js"]}"#));
        assert_eq!(before, after, "{name} is excluded");
    }
""", lib='plugin')

seed('fallback-options-partial', 'C32', [(PL, """            println!("Could not deserialize instrumentation option");
            println!("{:#?}", f);
            Default::default()
""", """            println!("Could not deserialize instrumentation option");
            println!("{:#?}", f);
            InstrumentOptions {
                coverage_variable: Default::default(),
                ..Default::default()
            }
""")], 'a configuration that cannot be read (say, a number where a string is expected)',
 'coverage goes to a global with an empty name instead of the default one',
 PLUGIN_MAIN % r"""    let code = "var a = 1;";
    let (_, want) = harness::run(code, Some("/p/a.js"), None);
    assert!(want.contains("\"__coverage__\""));
    let (_, got) = harness::run(code, Some("/p/a.js"), Some(r#"{"coverageVariable": 7}"#));
    assert_eq!(got, want, "defaults for an unreadable configuration");
""", lib='plugin')

seed('trace-option-snake-case', 'C32', [(IO, """#[serde(rename_all = "camelCase", default)]
pub struct InstrumentLogOptions {
""", """#[serde(default)]
pub struct InstrumentLogOptions {
""")], 'the option instrumentLog.enableTrace',
 'enableTrace is ignored: it is only read under the name enable_trace',
 PLUGIN_MAIN % r"""    let o: swc_coverage_instrument::InstrumentOptions =
        serde_json::from_str(r#"{"instrumentLog": {"level": "info", "enableTrace": true}}"#).unwrap();
    assert_eq!(o.instrument_log.level.as_deref(), Some("info"));
    assert!(o.instrument_log.enable_trace, "enableTrace is read");
""", lib='plugin')

seed('source-map-content-name', 'C29', [(OM, """    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sources_content: Option<Vec<Option<String>>>,
""", """    #[serde(default, rename = "sourceContent", skip_serializing_if = "Option::is_none")]
    pub sources_content: Option<Vec<Option<String>>>,
""")], 'coverage data whose input source map carries the sources',
 'the contents are written and read under a name no other tool uses, so they are lost',
 """
use crate::*;
pub fn main() {
    let json = r#"{"version":3,"sources":["a.ts"],"sourcesContent":["let a"],"names":[],"mappings":"A"}"#;
    let m: SourceMap = serde_json::from_str(json).unwrap();
    assert_eq!(m.sources_content, Some(vec![Some("let a".to_string())]));
    assert!(serde_json::to_string(&m).unwrap().contains("sourcesContent"));
}
""", lib='oxide')

seed('branch-line-required', 'C29', [(OB, """    pub locations: Vec<Range>,
    pub line: Option<u32>,
}
""", """    pub locations: Vec<Range>,
    #[serde(deserialize_with = "Option::deserialize")] pub line: Option<u32>,
}
""")], 'coverage data without a line on its branches, as several tools write it',
 'such coverage data can no longer be read: the line is reported missing',
 """
use crate::*;
pub fn main() {
    let json = r#"{"loc":{"start":{"line":1,"column":0},"end":{"line":1,"column":9}},"type":"if","locations":[]}"#;
    let b: Branch = serde_json::from_str(json).expect("a branch without a line");
    assert!(b.line.is_none());
}
""", lib='oxide')

seed('first-source-map-wins', 'C15', [(SC, """        self.inner.input_source_map = source_map.clone();
""", """        // maps are large: keep one copy
        static SHARED: once_cell::sync::OnceCell<SourceMap> = once_cell::sync::OnceCell::new();
        self.inner.input_source_map = source_map
            .as_ref()
            .map(|source_map| SHARED.get_or_init(|| source_map.clone()).clone());
""")], 'two files with different input source maps instrumented by one process',
 'the second file gets the source map of the first: its output depends on what was instrumented before',
 """
const job = (name) => ({ code: 'var a = 1;', script: true, filename: '/p/' + name,
  opts: { inputSourceMap: { version: 3, sources: [name + '.src'], names: [], mappings: 'AAAA' } } });
const [alone] = instrument([job('b.js')]);
const [, after] = instrument([job('a.js'), job('b.js')]);
assert.strictEqual(after, alone, 'the output does not depend on the files before');
""")

UM = P + 'utils/mod.rs'
seed('else-arm-index-fixed', 'C01', [(IV, """                    let mut wrap_with_counter = |stmt: &mut Box<Stmt>| {
                        let mut stmt_body = *stmt.take();

                        // create a branch path counter
                        let idx = self.cov.borrow_mut().add_branch_path(branch, &range);
""", """                    let cons_lo = if_stmt.cons.span().lo;
                    let mut wrap_with_counter = |stmt: &mut Box<Stmt>| {
                        let is_cons = stmt.span().lo == cons_lo;
                        let mut stmt_body = *stmt.take();

                        // create a branch path counter: the consequent is path 0, the alternate path 1
                        self.cov.borrow_mut().add_branch_path(branch, &range);
                        let idx = if is_cons { 0 } else { 1 };
""")], 'an `istanbul ignore if` hint on an if statement',
 'the else counter increments path 1 of a branch which has only one path',
 """
const src = 'var a = 0;\\n/* istanbul ignore if */\\nif (a) { a = 2; } else { a = 3; }\\n';
const [o] = instrument([{ code: src, script: true }]);
const { cov, ctx } = run(o);
assert.strictEqual(ctx.a, 3);
assert.deepStrictEqual(cov.b['0'], [1]);
""")

seed('labeled-continue-uncounted', 'C05', [(IV, """                    // cover_statement's is_stmt prepend logic for individual child stmt visitor
                    self.mark_prepend_stmt_counter(&continue_stmt.span);
""", """                    // cover_statement's is_stmt prepend logic for individual child stmt visitor
                    if continue_stmt.label.is_none() {
                        self.mark_prepend_stmt_counter(&continue_stmt.span);
                    }
""")], 'a continue statement with a label',
 'the labelled continue is not in the statement map',
 """
const src = 'var n = 0;\\nouter: for (var i = 0; i < 3; i++) { for (;;) { n++; continue outer; } }\\n';
const [o] = instrument([{ code: src, script: true }]);
const { cov, ctx } = run(o);
assert.strictEqual(ctx.n, 3);
const k = Object.keys(cov.statementMap).find((k) => text(src, cov.statementMap[k]) === 'continue outer;');
assert.ok(k !== undefined, 'continue outer; is counted');
assert.strictEqual(cov.s[k], 3);
""")

seed('hoist-index-underflow', 'C08', [(CH, """                    let parent_index = if nodes_len >= (4 as usize) {
                        nodes_len - 4
                    } else {
                        0
                    };
                    let parent = self.nodes.get(parent_index);

                    if let Some(parent) = parent {
                        match parent {
""", """                    let parent_index = nodes_len - 4;
                    let parent = Some(&self.nodes[parent_index]);

                    if let Some(parent) = parent {
                        match parent {
""")], 'a sloppy script whose top-level variable is initialized with an expression-bodied arrow function',
 'instrumenting aborts: the enclosing node is looked up before the start of the node stack',
 """
const src = 'var f = () => 1;\\nvar g = f();\\n';
const [o, m] = instrument([{ code: src, script: true }, { code: src, script: false }]);
assert.strictEqual(run(o).ctx.g, 1);
assert.strictEqual(run(m).ctx.g, 1);
""")

seed('hash-ignores-source-map', 'C14', [(CD, """    let coverage_str =
        serde_json::to_string(coverage_data).expect("Should able to serialize coverage data");
    let mut hasher = DefaultHasher::new();
""", """    // The source map is the bulk of the data and never changes without the positions.
    let coverage_str = match &coverage_data.input_source_map {
        Some(_) => {
            let mut data = coverage_data.clone();
            data.input_source_map = None;
            serde_json::to_string(&data)
        }
        None => serde_json::to_string(coverage_data),
    }
    .expect("Should able to serialize coverage data");
    let mut hasher = DefaultHasher::new();
""")], 'a rebuilt file whose input source map changed while the generated code kept its positions',
 'the two versions get the same hash, so the old entry with the old source map stays registered',
 """
const map = (f) => ({ version: 3, sources: [f], names: [], mappings: 'AAAA', sourcesContent: ['x'] });
const outs = instrument(['a.ts', 'b.ts'].map((f) => ({ code: 'var a = 1;', script: true, opts: { inputSourceMap: map(f) } })));
const [a, b] = outs.map((o) => run(o).cov);
assert.deepStrictEqual(a.inputSourceMap.sources, ['a.ts']);
assert.deepStrictEqual(b.inputSourceMap.sources, ['b.ts']);
assert.notStrictEqual(a.hash, b.hash);
const both = run(outs[0] + '\\n;\\n' + outs[1]);
assert.deepStrictEqual(both.cov.inputSourceMap.sources, ['b.ts']);
""")

seed('variable-name-must-be-ident', 'C16', [(CF, """            value: coverage_variable.into(),
""", """            value: if coverage_variable.contains(|c: char| c.is_whitespace() || c == '-') {
                // not usable as a variable
                "__coverage__".into()
            } else {
                coverage_variable.into()
            },
""")], 'a configured coverage variable with a dash or a blank',
 'the data is registered under the default variable instead of the configured one',
 """
const [o] = instrument([{ code: 'var a = 1;', script: true, opts: { coverageVariable: 'my-coverage' } }]);
const { ctx } = run(o);
assert.strictEqual(Object.keys(ctx['my-coverage'] || {}).length, 1);
assert.strictEqual(ctx.__coverage__, undefined);
""")

SH = P + 'macros/instrumentation_stmt_counter_helper.rs'
seed('functions-hoisted-over-directives', 'C17', [(SH, """                new_stmts.push(stmt);
""", """                // a declared function exists before the first statement runs
                if let Stmt::Decl(Decl::Fn(_)) = &stmt {
                    new_stmts.insert(0, stmt);
                } else {
                    new_stmts.push(stmt);
                }
""")], 'a function body with a directive and a function declaration in it',
 'the declaration is put in front of the directive, which makes it an ordinary statement: the function is not strict any more',
 """
const code = 'var t = (function () { "use strict"; function f() { return this === undefined; } return f(); })();\\n';
const [o] = instrument([{ code, script: true }]);
assert.strictEqual(run(o).ctx.t, true);
""")

seed('default-value-any-hint', 'C06', [(IV, """        fn visit_mut_assign_pat(&mut self, assign_pat: &mut AssignPat) {
            let (old, ignore_current) = self.on_enter(assign_pat);
            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
""", """        fn visit_mut_assign_pat(&mut self, assign_pat: &mut AssignPat) {
            let (old, ignore_current) = self.on_enter(assign_pat);
            match ignore_current {
                Some(_) => {}
""")], 'an if or else hint that happens to stand in front of a default parameter',
 'the default value is not counted, although only an ignore-next hint hides code other than the arms of an if',
 """
const code = 'function f(/* istanbul ignore else */ a = 1) { return a; }\\nf();\\n';
const [o] = instrument([{ code, script: true }]);
const { cov } = run(o);
assert.deepStrictEqual(Object.values(cov.branchMap).map((b) => b.type), ['default-arg']);
assert.deepStrictEqual(cov.b, { 0: [1] });
""")

seed('function-named-after-file', 'C13', [(CF, """    let var_name_hash = format!("cov_{}", s.finish());
""", """    // The file's name makes the output easier to read.
    let stem = std::path::Path::new(value)
        .file_stem()
        .map(|stem| stem.to_string_lossy().replace(['.', '-'], "_"))
        .unwrap_or_default();
    let var_name_hash = format!("cov_{}_{}", stem, s.finish());
""")], 'a file name with characters other than letters, digits, dots and dashes',
 'the coverage function gets a name that is not an identifier: the output does not parse',
 """
const outs = instrument(['/a/file.js', '/a/my file.js', '/a/[id].js', '/a/x+y.js'].map((filename) => ({ code: 'var a = 1;', script: true, filename })));
for (const o of outs) assert.strictEqual(run(o).ctx.a, 1);
""")

seed('debug-comment-not-compact', 'C32', [(CV, """            self.instrument_options.debug_initial_coverage_comment,
""", """            self.instrument_options.debug_initial_coverage_comment && !self.instrument_options.compact,
""")], 'the debug comment asked for together with compact output',
 'the option is silently ignored: the comment is missing',
 """
const job = (opts) => ({ code: 'var a = 1;', script: true, opts });
const [on, both, off] = instrument([job({ debugInitialCoverageComment: true }), job({ debugInitialCoverageComment: true, compact: true }), job({ compact: true })]);
assert.ok(on.includes('__coverage_data_json_comment__'));
assert.ok(both.includes('__coverage_data_json_comment__'));
assert.ok(!off.includes('__coverage_data_json_comment__'));
""")

seed('source-map-needs-mappings', 'C32', [(CV, """    cov.set_input_source_map(&instrument_options.input_source_map);
""", """    let usable = |map: &istanbul_oxide::SourceMap| !map.mappings.is_empty();
    if instrument_options.input_source_map.as_ref().map_or(false, usable) {
        cov.set_input_source_map(&instrument_options.input_source_map);
    }
""")], 'an input source map with no mappings (an empty source file, say)',
 'the inputSourceMap option has no effect: the coverage data carries no map',
 """
const map = (mappings) => ({ version: 3, sources: ['a.ts'], names: [], mappings });
const outs = instrument(['AAAA', ''].map((m) => ({ code: 'var a = 1;', script: true, opts: { inputSourceMap: map(m) } })));
for (const o of outs) assert.deepStrictEqual(run(o).cov.inputSourceMap.sources, ['a.ts']);
""")

seed('location-key-without-separator', 'C22', [(OF, """        "{}|{}|{}|{}",
""", """        "{}{}{}{}",
""")], 'two places whose line and column numbers read the same one after the other, such as 1:12 and 11:2',
 'distinct statements of the same file become one when merged, and hits are lost',
 """
use crate::*;
pub fn main() {
    let mk = |locs: Vec<Range>, hits: u32| {
        let mut f = FileCoverage::empty("a.js".into(), false);
        for (i, l) in locs.into_iter().enumerate() {
            f.statement_map.insert(i as u32, l);
            f.s.insert(i as u32, hits);
        }
        f
    };
    let (x, y) = (Range::new(1, 12, 1, 20), Range::new(11, 2, 1, 20));
    let mut a = mk(vec![x], 1);
    a.merge(&mk(vec![y], 2));
    assert_eq!(a.statement_map.len(), 2);
    assert_eq!(a.s.values().copied().collect::<Vec<_>>(), vec![1, 2]);
}
""", lib='oxide')

seed('reset-pads-branches', 'C27', [(OF, """        for val in self.b.values_mut() {
            val.iter_mut().for_each(|x| *x = 0);
        }

        if""", """        for val in self.b.values_mut() {
            // a branch has two sides
            *val = vec![0; val.len().max(2)];
        }

        if""")], 'a branch with a single path, such as a default parameter',
 'resetting gives the branch a second counter that no path of the code has',
 """
use crate::*;
pub fn main() {
    let mut a = FileCoverage::empty("a.js".into(), false);
    a.branch_map.insert(0, Branch::from_loc(BranchType::DefaultArg, Range::new(1, 0, 1, 5), vec![Range::new(1, 4, 1, 5)]));
    a.b.insert(0, vec![3]);
    a.reset_hits();
    assert_eq!(a.b[&0], vec![0]);
}
""", lib='oxide')

seed('copy-drops-empty-truth', 'C36', [(OF, """        coverage.clone()
    }

    /// Returns computed line""", """        let mut copy = coverage.clone();
        // nothing was tracked
        if copy.b_t.as_ref().map_or(false, |truth| truth.is_empty()) {
            copy.b_t = None;
        }
        copy
    }

    /// Returns computed line""")], 'copying coverage of a file instrumented with logic reporting that has no logical expression',
 'the copy has no branch-truth data, so its summary lacks the category the original has',
 """
use crate::*;
pub fn main() {
    let a = FileCoverage::empty("a.js".into(), true);
    let b = FileCoverage::from_file_coverage(&a);
    assert!(a == b);
    assert!(b.b_t.is_some());
}
""", lib='oxide')

seed('branch-clone-normalizes', 'C36', [('packages/istanbul-oxide/src/types.rs', """#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Branch {
""", """#[derive(Debug, PartialEq, Serialize, Deserialize)]
pub struct Branch {
"""), ('packages/istanbul-oxide/src/types.rs', """impl Branch {
    pub fn from_line(""", """impl Clone for Branch {
    fn clone(&self) -> Branch {
        Branch {
            loc: self.loc,
            branch_type: self.branch_type,
            locations: self.locations.clone(),
            // the location says it already
            line: if self.loc.is_some() { None } else { self.line },
        }
    }
}

impl Branch {
    pub fn from_line(""")], 'a branch that has both an explicit line and a location, copied or merged',
 'the copy forgets the explicit line, so branch coverage by line moves to another line',
 """
use crate::*;
pub fn main() {
    let b = Branch { line: Some(7), ..Branch::from_loc(BranchType::If, Range::new(1, 0, 1, 5), vec![Range::new(1, 0, 1, 5)]) };
    assert_eq!(b.clone().line, Some(7));
}
""", lib='oxide')

seed('nullish-literal-not-a-branch', 'C05', [(IV, """                        | BinaryOp::NullishCoalescing => {
                            self.nodes.push""", """                        | BinaryOp::NullishCoalescing
                            // `a ?? 0` is a default, there is nothing to run on the right
                            if bin_expr.op != BinaryOp::NullishCoalescing
                                || !bin_expr.right.is_lit() =>
                        {
                            self.nodes.push""")], 'a `??` whose right operand is a literal',
 'the expression is no branch any more, while the same one with any other operand is',
 """
const [o] = instrument([{ code: 'var v = null; var x = v ?? 0;', script: true }]);
const { cov, ctx } = run(o);
assert.strictEqual(ctx.x, 0);
assert.deepStrictEqual(Object.values(cov.branchMap).map((b) => b.type), ['binary-expr']);
assert.deepStrictEqual(Object.values(cov.b), [[1, 1]]);
""")

seed('static-private-prop-uncounted', 'C05', [(IV, """                    if let Some(value) = &mut private_prop.value {
""", """                    if let (Some(value), false) = (&mut private_prop.value, private_prop.is_static) {
""")], 'a static private class property with an initializer',
 'its initializer is executed but has no statement counter',
 """
const one = (p) => instrument([{ code: 'class A { ' + p + ' }', script: true }])[0];
const count = (o) => Object.keys(run(o).cov.statementMap).length;
assert.strictEqual(count(one('#a = 1 + 1')), 1);
assert.strictEqual(count(one('static #a = 1 + 1')), 1);
assert.strictEqual(count(one('static a = 1 + 1')), 1);
""")

seed('arm-hint-of-any-kind', 'C06', [(IV, """                    if c_hint.as_deref() != Some("next") {
""", """                    if c_hint.is_none() {
""")], 'an `ignore else` hint meant for something else in front of the consequent of a conditional expression',
 'the consequent loses its branch path although only `next` ignores it',
 """
const [a, b, c] = instrument(['', '/* istanbul ignore else */', '/* istanbul ignore next */'].map((h) => ({ code: 'var a = 1; var x = a ? ' + h + ' 1 : 2;', script: true })));
const paths = (o) => Object.values(run(o).cov.branchMap).map((x) => x.locations.length);
assert.deepStrictEqual(paths(a), [2]);
assert.deepStrictEqual(paths(b), [2]);
assert.deepStrictEqual(paths(c), [1]);
""")

seed('nested-label-revisits', 'C08', [(IV, """            labeled_stmt.visit_mut_children_with(self);
""", """            if labeled_stmt.body.is_labeled() {
                // the inner label belongs to the same statement
                labeled_stmt.visit_mut_with(self);
            } else {
                labeled_stmt.visit_mut_children_with(self);
            }
""")], 'a statement with two labels',
 'the visitor visits the statement again and again until the stack overflows',
 """
const outs = instrument(['a: for (;;) break a;', 'a: b: for (;;) break a;'].map((code) => ({ code, script: true })));
for (const o of outs) assert.ok(run(o).cov);
""")

seed('uncovered-summary-is-empty', 'C25', [('packages/istanbul-oxide/src/coverage_summary.rs', """        self.lines.total == 0
""", """        self.lines.total == 0 || self.lines.covered + self.lines.skipped == 0
""")], 'a summary of a file none of whose lines ran',
 'the summary is called empty although it has lines to report, so the file vanishes from reports',
 """
use crate::*;
pub fn main() {
    let mut a = FileCoverage::empty("a.js".into(), false);
    assert!(a.to_summary().is_empty());
    a.statement_map.insert(0, Range::new(1, 0, 1, 5));
    a.s.insert(0, 0);
    assert!(!a.to_summary().is_empty());
    a.s.insert(0, 1);
    assert!(!a.to_summary().is_empty());
}
""", lib='oxide')

seed('empty-class-name-lost', 'C04', [(P + 'visitors/finders.rs', """    fn visit_class_expr(&mut self, _class_expr: &ClassExpr) {
        self.0 = true;
    }
""", """    fn visit_class_expr(&mut self, class_expr: &ClassExpr) {
        // a class without members has nothing to hoist
        self.0 = self.0 || !class_expr.class.body.is_empty();
    }
""")], 'a variable initialized with an anonymous class without members',
 'the class is wrapped with its counter and no longer gets the name of the variable',
 """
const [o] = instrument([{ code: 'const A = class {}; const B = class { x() {} }; var names = [A.name, B.name];', script: true }]);
assert.deepStrictEqual(Array.from(run(o).ctx.names), ['A', 'B']);
""")

seed('shared-id-counter', 'C09', [(SC, """        let f = self.meta.last.f;
""", """        // ids only have to be unique
        let f = self.meta.last.f.max(self.meta.last.b);
"""), (SC, """        self.meta.last.f += 1;
""", """        self.meta.last.f = f + 1;
""")], 'a function met after more branches than functions',
 'function ids have gaps: they no longer count 0, 1, 2, … on their own',
 """
const [o] = instrument([{ code: 'var a = 1;\\na && a;\\na ? 1 : 2;\\nfunction f() {}\\nf();\\n', script: true }]);
assert.deepStrictEqual(Object.keys(run(o).cov.fnMap), ['0']);
""")

seed('display-columns', 'C18', [(LR, """        span_hi_loc.col.0 as u32,
""", """        // where the cursor stands behind the construct
        span_hi_loc.col_display as u32,
""")], 'a line with wide characters (or tabs) in front of the end of a construct',
 'the end column counts screen cells instead of characters',
 """
const src = "var a = '\\u6f22\\u5b57', b = 1;\\n";
const [o] = instrument([{ code: src, script: true }]);
const { cov } = run(o);
assert.deepStrictEqual(Object.values(cov.statementMap).map((l) => text(src, l)).sort(), ["'\\u6f22\\u5b57'", '1']);
""")

seed('optional-call-arguments-skipped', 'C05', [(P + 'visitors/stmt_like_visitor.rs', """    instrumentation_visitor!();
}
""", """    instrumentation_visitor!();

    fn visit_mut_opt_chain_expr(&mut self, chain: &mut OptChainExpr) {
        // the rest of the chain is reached through its base
        if chain.optional {
            chain.visit_mut_children_with(self);
        }
    }
}
""")], 'a call further down an optional chain, inside a function', 'functions and branches in its arguments are not counted',
 """
const src = 'function f(a) { return a?.b.map((x) => x + 1); }\\nvar r = f({ b: [1, 2] });';
const [o] = instrument([{ code: src, script: true }]);
const { cov } = run(o);
assert.strictEqual(Object.keys(cov.fnMap).length, 2, 'the function and the arrow');
assert.deepStrictEqual(Object.values(cov.f), [1, 2]);
""")

seed('loop-body-debugger-dropped', 'C03', [(P + 'macros/visit_mut_for_like.rs', """                    let stmts = vec![body];
""", """                    // nothing to count in an empty body
                    let stmts = if matches!(body, Stmt::Empty(..) | Stmt::Debugger(..)) { vec![] } else { vec![body] };
""")], 'a loop whose body is a lone debugger statement', 'the statement is missing from the output',
 """
const [o] = instrument([{ code: 'for (var i = 0; i < 2; i++) debugger;', script: true }]);
assert.ok(/\\bdebugger\\b/.test(o), 'the debugger statement is kept');
""")

seed('summary-truth-skipped-lost', 'C25', [('packages/istanbul-oxide/src/coverage_summary.rs', """            self_branches_true.skipped += branches_true.skipped;
""", """            self_branches_true.skipped = self_branches_true.skipped.max(branches_true.skipped);
""")], 'two summaries whose truth categories both have skipped entries', 'the skipped counts are not added up',
 """
use crate::*;
pub fn main() {
    let t = |skipped| Totals::new(4, 2, skipped, CoveragePercentage::Value(50.0));
    let n = Totals::default();
    let mut a = CoverageSummary::new(n, n, n, n, Some(t(1)));
    let b = CoverageSummary::new(n, n, n, n, Some(t(2)));
    a.merge(&b);
    assert_eq!(a.branches_true.unwrap(), Totals::new(8, 4, 3, CoveragePercentage::Value(50.0)));
}
""", lib='oxide')

seed('id-in-sixteen-bits', 'C01', [(P + 'instrument/create_increase_counter_expr.rs', """                value: id as f64,
""", """                value: id as u16 as f64,
""")], 'a file with more than 65536 statements', 'counters name the entry of another statement',
 """
const n = 65540;
const [o] = instrument([{ code: 'var a = 1;\\n' + 'a;\\n'.repeat(n), script: true }]);
const ids = new Set([...o.matchAll(/\\(\\)\\.s\\[(\\d+)\\]\\+\\+/g)].map((m) => m[1]));
assert.strictEqual(ids.size, n + 1, 'every statement has its own counter');
""")

seed('replaced-placeholder-keeps-flag', 'C24', [('packages/istanbul-oxide/src/file_coverage.rs', """            *self = coverage.clone();
            return;
""", """            *self = FileCoverage {
                input_source_map: self.input_source_map.clone().or_else(|| coverage.input_source_map.clone()),
                ..coverage.clone()
            };
            return;
""")], 'a placeholder with a source map of its own, and real data merged into it', 'the source map of the placeholder survives in the real data',
 """
use crate::*;
pub fn main() {
    let map = |f: &str| -> SourceMap { serde_json::from_str(&format!("{{\\"version\\":3,\\"file\\":\\"{f}\\",\\"sources\\":[],\\"names\\":[],\\"mappings\\":\\"\\"}}")).unwrap() };
    let mut a = FileCoverage::empty("a.js".into(), false);
    a.all = true;
    a.input_source_map = Some(map("old"));
    let mut b = FileCoverage::empty("a.js".into(), false);
    b.input_source_map = Some(map("new"));
    a.merge(&b);
    assert_eq!(a, b);
}
""", lib='oxide')
